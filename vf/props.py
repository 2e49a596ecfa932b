"""The properties, with the symbolic cases that decide each of them.  vf/gen.py writes properties.jsonl and MANIFEST.json from here."""
from .engine import Case

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, drivers, cases, functions, bounds, outside, assumptions=(), thorough=(), tdrivers=(), observe=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, drivers=list(drivers),
                  cases=list(cases), thorough_cases=list(thorough), tdrivers=list(tdrivers), functions=functions, bounds=bounds, outside=outside, assumptions=list(assumptions), observe=observe, note=note))


def C(names, **kw):
    return [Case(n, **kw) for n in names.split()]


REAL = "Real arithmetic: the code is executed over exact reals (rounding of double arithmetic is outside the claim)."
EIG = "Eigen's small inverse/determinant and symmetric eigenvalue routines are replaced by their closed forms in the symbolic run (they are not part of this repository); the replay uses Eigen itself."
PATH = "Branches: the path of the stated witness plus the neighbouring feasible paths found by the solver, up to the path limit; unexplored or undecided alternatives are counted in the evidence."
STD = [REAL, EIG, PATH]
GEO = "one surface point; tangents in the xy-plane with p in [1/2,2], q in [-1,1], r in [1/2,2] (every metric up to a rigid rotation), curvature coefficients in [-1,1] where stated, "

prop("C01", "Linear material law: stress, tangent, strain and Cauchy stress are consistent",
     "For every Young's modulus, Poisson ratio, thickness, undeformed and deformed surface, the linear material returns the plane-stress isotropic elasticity tensor of the undeformed metric, and the membrane and bending stresses are that tensor times the membrane and bending strains. "
     "Strains are half the change of the metric at the requested height, and the Cauchy stress is the stress divided by the determinant of the deformation. This holds for planar (2D) and shell (3D) geometries.",
     ["inputs"], "all material parameters and all undeformed/deformed local geometries, within the bounds",
     "The tests compare displacements of a few benchmark shells with tolerances of percents, on orthogonal parametrisations where swapped indices or missing metric factors vanish.",
     ["src/gsMaterialMatrixLinear.hpp", "src/gsMaterialMatrixBaseDim.hpp"],
     [("elasticity tensor, stress", "src/gsMaterialMatrixLinear.hpp: eval3D_matrix, eval3D_vector, eval3D_CauchyStress"), ("metric", "src/gsMaterialMatrixBaseDim.hpp: _getMetric*, eval3D_strain")],
     ["linear.cpp"], C("lin3_matrix lin2_matrix lin3_vectorN lin3_vectorM lin3_generic lin2_vectorN lin2_generic strain3 strain3_flat strain2 lin3_cauchy lin2_cauchy"),
     ["gsMaterialMatrixLinear::eval3D_matrix/vector/stress/CauchyStress/detF", "gsMaterialMatrixBaseDim::_computePoints/_getMetric/eval3D_strain"],
     GEO + "E in [1/2,10], nu in [0,0.49], t in [0.01,1/2], height in the thickness",
     "larger parameter ranges, degenerate (zero-area) geometries, rounding", STD)

NLD = ["nonlinear.cpp:-DID=%d" % i for i in (11, 12, 13, 21, 23, 31, 34)] + ["nonlinear.cpp:-DID=11:-DDIM=2"]
NLT = ["nonlinear.cpp:-DID=%d" % i for i in (22, 33)] + ["nonlinear.cpp:-DID=%d:-DDIM=2" % i for i in (13, 21, 23, 31, 34)]


def nl(suffixes, ids="11_3 12_3 13_3 21_3 23_3 31_3 34_3 11_2"):
    r = []
    for i in ids.split():
        for s in suffixes.split():
            if s[0] == "i" and i[1] == "2":
                continue
            if s.endswith("z") and s[0] == "i" and (i[0] == "3" or i.endswith("_2")):
                continue
            r.append(Case("nl%s%s" % (i, s), flips=False, max_paths=1))
    return r


NLF = ["src/gsMaterialMatrixNonlinear.hpp", "src/gsMaterialMatrixNonlinear.h", "src/gsMaterialMatrixBaseDim.hpp"]
NLB = GEO + "E in [1/2,10], nu in [0.05,0.45] (incompressible: [0.05,0.5]), Mooney-Rivlin ratio in [1/2,10], Ogden with two terms, exponents 2 and -2, mu1 in [1/2,4], mu2 in [-2,-0.1]; spectral implementations: principal stretches in [1/2,1.6] at least 1/10 apart, any direction; membrane state, and curved states at any height for the incompressible analytical and generalised forms"
NLO = "Ogden exponents other than +-2, more than two Ogden terms, compressible curved states, equal principal stretches of the spectral form, rounding"
NLI = "nu of incompressible laws is only used for the shear modulus"

prop("C02", "Hyperelastic stress is the derivative of the stored energy",
     "For every hyperelastic law (two neo-Hookean forms, Mooney-Rivlin, Ogden), every implementation (analytical, generalised, spectral) and both the compressible and the incompressible plane-stress form, the returned second Piola-Kirchhoff stress is the derivative of that law's stored energy with respect to the Green-Lagrange strain. "
     "All implementations of one law therefore give the same stress for the same deformation.",
     ["inputs", "configurations"], "all deformations, material parameters and material/implementation/compressibility combinations within the bounds",
     "A test can compare a handful of deformations; a wrong invariant, a lost pressure term or a swapped index shows only for particular shear states, parameters or through-thickness heights.",
     NLF, [("stress", "src/gsMaterialMatrixNonlinear.hpp: eval3D_vector, _Sij, _Sij_impl, _dPsi, _Sii"), ("plane stress", "src/gsMaterialMatrixNonlinear.hpp: _eval3D_Compressible_C33")],
     NLD, nl("is cs cs1 isz"), ["gsMaterialMatrixNonlinear::eval3D_vector/eval3D_stress", "_Sij, _Sij_impl, _dPsi, _dPsi_vol, _dI_1, _dI_2, _dJ", "_Sii, _dPsi_da, _dJ_da", "_eval3D_Compressible_C33"],
     NLB, NLO, STD + [NLI, "Compressible laws: the thickness stretch returned by the code is generalised to any positive value; that it satisfies the plane-stress condition is C04."],
     thorough=nl("is cs cs1", "22_3 33_3 13_2 21_2 23_2 31_2 34_2"), tdrivers=NLT)

prop("C03", "Hyperelastic tangent is the derivative of the stress and symmetric",
     "For every hyperelastic law, implementation and compressibility, the returned tangent is the derivative of the returned stress with respect to the Green-Lagrange strain, including the plane-stress change of the thickness stretch, and it is symmetric. "
     "A Newton iteration using it therefore has the consistent linearisation.",
     ["inputs", "configurations"], "all deformations, material parameters and material/implementation/compressibility combinations within the bounds",
     "Newton iterations in the tests still converge with a slightly wrong tangent, and finite differences at sample points miss components that vanish on orthogonal or shear-free states.",
     NLF, [("tangent", "src/gsMaterialMatrixNonlinear.hpp: eval3D_matrix, _Cijkl, _Cijkl3D, _Cijkl_impl, _d2Psi, _Cabcd"), ("static condensation", "src/gsMaterialMatrixNonlinear.hpp: _Cijkl")],
     NLD, nl("it ct ct1 itz"), ["gsMaterialMatrixNonlinear::eval3D_matrix", "_Cijkl, _Cijkl3D, _Cijkl_impl, _Cijkl3D_impl, _d2Psi, _d2Psi_vol, _d2I_1, _d2I_2, _d2J", "_Cabcd, _d2Psi_dab, _d2J_dab", "_Sij and its helpers"],
     NLB, NLO, STD + [NLI, "Compressible laws: the derivative of the thickness stretch is the implicit derivative of the plane-stress condition of the stored energy."],
     thorough=nl("it ct ct1", "22_3 33_3 13_2 21_2 23_2 31_2 34_2"), tdrivers=NLT)

prop("C04", "Plane stress, incompressibility and the stress-free reference state",
     "Incompressible laws keep the volume (the thickness stretch is the inverse of the area stretch); compressible laws return a thickness stretch whose out-of-plane stress vanishes to the iteration tolerance. "
     "The Cauchy stress is the stress divided by the volume ratio of that deformation, and the undeformed configuration has unit stretches and no stress.",
     ["inputs", "configurations"], "all deformations, material parameters and material/implementation/compressibility combinations within the bounds",
     "The condition must hold at every quadrature point of every deformation; a test sees only the integrated displacement.",
     NLF, [("thickness stretch", "src/gsMaterialMatrixNonlinear.hpp: _eval3D_Compressible_C33, eval3D_pstretch"), ("Cauchy stress", "src/gsMaterialMatrixNonlinear.hpp: eval3D_CauchyStress, eval3D_detF")],
     NLD, nl("ip cp iu cu cz cz1"), ["gsMaterialMatrixNonlinear::_eval3D_Compressible_C33", "eval3D_pstretch, eval3D_detF, eval3D_CauchyStress, eval3D_vector"],
     NLB, NLO + "; the out-of-plane residual of the final iterate is decided for the witness deformations, that the tested increment is the Newton increment of the stored energy is decided for all",
     STD + [NLI], thorough=nl("ip cp iu cu cz cz1", "22_3 33_3 13_2 21_2 23_2 31_2 34_2"), tdrivers=NLT)

prop("C07", "Principal stretches, strains, stresses and basis transformations",
     "Principal stretches, strains and stresses are the ordered eigenvalues of the in-plane deformation, strain and stress tensors, and the returned directions are the orthonormal eigenvectors belonging to them, with the surface normal as third direction. "
     "The transformation matrices express tensor components in the Cartesian, covariant, contravariant and principal bases.",
     ["inputs"], "all local geometries, deformations and parameters within the bounds",
     "Eigenvalue code has special cases (equal or unit stretches, a vanishing value, rotated surfaces) that sampled states do not reach.",
     ["src/gsMaterialMatrixBaseDim.hpp", "src/gsMaterialMatrixLinear.hpp", "src/gsMaterialMatrixNonlinear.hpp"],
     [("eigenvalues", "src/gsMaterialMatrixBaseDim.hpp: _evalStretch, _evalPStress, _evalPStrain"), ("transformations", "src/gsMaterialMatrixBaseDim.hpp: _transformation, eval3D_spec2cov, eval3D_spec2con, eval3D_cov2cart, eval3D_con2cart")],
     ["principal.cpp"], C("ps_stretch3 ps_stretch3w ps_stretch3t ps_stretch2 ps_stretchN ps_strain3 ps_strain3w ps_strain2 ps_strain3t ps_stress3 ps_stress3w ps_stress2 ps_stressN ps_stressdir3 ps_stressdirN ps_cov2cart ps_con2cart ps_spec2cov ps_spec2con ps_trace2 ps_undeformed", max_paths=2),
     ["gsMaterialMatrixBaseDim::eval3D_pstretch/pstretchDir/pstrain/spec2cov/spec2con/cov2cart/con2cart", "_evalStretch, _evalPStrain, _evalPStress, _transformation", "gsMaterialMatrixLinear/Nonlinear::eval3D_pstress/pstressDir"],
     GEO + "E in [1/2,10], nu in [0,0.49]; stretch directions: stretches in [1/2,1.6] at least 1/10 apart at any angle; surfaces in the xy-plane, in the xz-plane and rotated by the 3-4-5 angle about y",
     "full (non-axis) spatial rotations in the eigenvalue cases, coinciding stretches other than the unit state, rounding", STD)

def three(driver, pre, names3, names2=None, **kw):
    """cases of an assembler driver for the bending shell, the membrane and the planar problem"""
    kw.setdefault("flips", False); kw.setdefault("max_paths", 1)
    return ([driver + ":-DDIM=3:-DBEND=1", driver + ":-DDIM=3:-DBEND=0", driver + ":-DDIM=2:-DBEND=0"],
            [Case(pre + v + "_" + n, **kw) for v in ("3b", "3m") for n in names3.split()] + [Case(pre + "2m_" + n, **kw) for n in (names2 or names3).split()])


ASM = ["src/gsThinShellAssembler.hpp", "src/gsThinShellAssembler.h", "src/gsThinShellUtils.h", "src/gsMaterialMatrixIntegrate.hpp"]
ASMB = ("one bi-quadratic patch (irregular, curved control net), one element, one integration point per element or side (the quadrature rule itself is not part of this repository); "
        "the bending shell, the membrane shell and the planar problem; ")
ASMO = "more elements, patches and degrees than stated, displacement coefficients other than the symbolic ones (the others have fixed generic values), symbolic control points of the undeformed surface, rounding"
ASMA = [REAL, EIG, "Sparse matrices of the symbolic run are Eigen's; its iterative solver (used by the core library to project boundary data) is replaced by exact elimination."]

D_, C_ = three("shell.cpp", "sh", "tan0 tan1 tan2 tan3 full zero calls vary elems elems2 patches rigid")
D2_, C2_ = three("hyper.cpp", "hy", "inc inc2 comp zero")
D_ += D2_
C_ += C2_ + C("sh3b_mip hy3b_mip", flips=False, max_paths=1)
prop("A01", "Internal forces are the energy gradient, the stiffness their derivative",
     "For every displacement, the assembled internal force vector is minus the gradient of the elastic energy of the shell (membrane and bending, or membrane only, or planar) with respect to the degrees of freedom, and the assembled stiffness matrix is minus the derivative of that vector. "
     "The matrix of the linear problem is the stiffness of the undeformed shell, every stiffness matrix is symmetric, and a rigid motion gives no internal force; this holds for one or more patches with the same or their own materials.",
     ["inputs", "configurations"], "all displacements, materials and thicknesses within the bounds, for the three shell models",
     "Newton iterations still converge with a slightly wrong tangent, and benchmark displacements hide terms that are small for the few loads and geometries that are tested.",
     ASM, [("residual", "src/gsThinShellAssembler.hpp: assembleVector_impl, assembleVector"), ("tangent", "src/gsThinShellAssembler.hpp: assembleMatrix_impl, assemble_impl"), ("strain variations", "src/gsThinShellUtils.h: deriv2_expr, var1_expr, var2_expr, flatdot_expr, flatdot2_expr"), ("through-thickness integrals", "src/gsMaterialMatrixIntegrate.hpp")],
     D_, C_, ["gsThinShellAssembler::assemble/assembleVector/assembleMatrix for the three models", "gsThinShellUtils expressions (var1, var2, deriv2, flatdot, flatdot2)", "gsMaterialMatrixLinear and gsMaterialMatrixIntegrate"],
     ASMB + "also two elements, space-dependent modulus and thickness, two patches with their own materials, rigid motions, neo-Hookean materials; up to three symbolic displacement coefficients in [-0.2,0.2], or two together with E in [1/2,10], nu in [0,0.49], t in [0.01,1/2]",
     ASMO, ASMA + ["Hyperelastic materials: forces and stiffness are those of the stress and tangent resultants returned by the material (any value of these); that the resultants are consistent is C02, C03 and C06."])

D_, C_ = three("loads.cpp", "ld", "bodyPhys bodyPar pressure pressure2 pressureParts foundation neuWest neuEast neuSouth neuNorth point pointTwo", "body neuWest neuEast neuSouth neuNorth point pointTwo")
prop("A02", "External loads enter with their full virtual work and tangent",
     "Body forces, boundary (Neumann) loads, point loads, pressures and elastic foundations, constant or varying in space, contribute exactly their virtual work to the load vector of the linear and of the nonlinear problem; pressure follows the deformed normal and a foundation resists the displacement. "
     "The stiffness contributions of pressure and foundation are the derivatives of these forces.",
     ["inputs", "configurations"], "all loads, load positions and displacements within the bounds, for the three shell models",
     "Tests use constant loads on a few shells; wrong measures, sides, components or missing tangent terms vanish for those or are hidden by converging iterations.",
     ASM, [("loads", "src/gsThinShellAssembler.hpp: _assembleNeumann, _applyLoads, _assemblePressure, _assembleFoundation, assembleVector_impl, assemble_impl")],
     D_, C_, ["gsThinShellAssembler::assemble/assembleVector/assembleMatrix", "_assembleNeumann, _applyLoads, _assemblePressure, _assembleFoundation and the public assemblePressureVector/Matrix, assembleFoundationVector/Foundation"],
     ASMB + "affine loads with symbolic coefficients in [-3,3], symbolic load position (physical coordinates: the image of the middle of the patch), point loads on two patches, two symbolic displacement coefficients", ASMO + "; planar body forces that vary in space", ASMA)

D_, C_ = three("weak.cpp", "wk", "dirWest dirEast dirNorth dirOrtho clWest clEast clSouth clNorth clOrtho clLin ifc0a ifc0b ifc0o ifc1a ifc1b ifc1c ifc1d ifc1e ifc1o ifcLin", "dirWest dirEast dirNorth dirOrtho ifc0a ifc0b ifc0o ifcLin")
prop("A03", "Weak boundary and interface conditions are consistent penalty terms",
     "Weakly imposed displacements, weakly clamped edges and weakly coupled patches contribute a residual that vanishes when the condition is fulfilled and otherwise is that of the penalty on the violation: the displacement error, the change of the edge rotation, and the jumps of displacement and of the angles between patches. "
     "Their matrix is the derivative of that residual.",
     ["inputs", "configurations"], "all displacements and prescribed values within the bounds, for all sides, interface orientations and the three shell models",
     "With penalties of the order of 1e3 to 1e7 a wrong tangent or a wrong side still gives plausible displacements; rotated interfaces and both orderings of the patches are not tested.",
     ASM, [("weak conditions", "src/gsThinShellAssembler.hpp: _assembleWeakBCs"), ("interfaces", "src/gsThinShellAssembler.hpp: _assembleWeakIfc"), ("outer normal variations", "src/gsThinShellUtils.h: ovar1_expr, ovar2_expr, tvar1_expr, tvar2_expr")],
     D_, C_, ["gsThinShellAssembler::_assembleWeakBCs, _assembleWeakIfc (linear and nonlinear)", "gsThinShellUtils expressions ovar1, ovar2, tvar1, tvar2, var1, var2, unit_normal"],
     ASMB + "one or two patches, one or two symbolic displacement coefficients and prescribed values", ASMO, ASMA)

D_, C_ = three("dofs.cpp", "df", "round elim fullVector coupledSet coupledOpt coupledSys")
prop("A04", "Degrees of freedom and prescribed displacements are treated exactly",
     "Every unconstrained displacement coefficient is one degree of freedom (one for both patches where they are joined) and every constrained one takes its prescribed value: a solution vector turned into a displacement or deformed geometry and back is unchanged. "
     "The assembled linear and nonlinear systems are those of the unconstrained shell restricted to the free coefficients, with the prescribed values moved to the right-hand side of the linear problem.",
     ["inputs", "configurations"], "all solution vectors, prescribed values and displacements within the bounds, for the three shell models",
     "Tests prescribe zero displacements on whole sides; non-zero, varying or partly constrained values and their bookkeeping are not covered.",
     ASM, [("bookkeeping", "src/gsThinShellAssembler.hpp: _assembleDirichlet, homogenizeDirichlet, constructSolution, constructDisplacement, constructSolutionVector, updateMultiPatch"), ("initialisation", "src/gsThinShellAssembler.hpp: _initialize")],
     D_, C_, ["gsThinShellAssembler::_initialize/_assembleDirichlet/homogenizeDirichlet/assemble/assembleMatrix/assembleVector", "constructSolution, constructDisplacement, constructMultiPatch, constructSolutionVector, updateMultiPatch"],
     ASMB + "rectangle with prescribed affine values on one side, one fixed side; two patches joined with C0 continuity (through options or setOptions); symbolic solution vector in [-1,1]", ASMO, ASMA)

D_, C_ = three("dofs.cpp", "df", "mass massBc pointMass massTwo scalars bfWest bfEast bfNorth bfTwo bfAll bfJoined bfJoined2 bfApart")
prop("A05", "Mass, area, energy, displacement norm and reaction forces are exact",
     "The consistent mass matrix is that of density times thickness plus the point masses, and the lumped one its row sums; the area, the elastic energy and the mean displacement norm are the integrals they name. "
     "The force on a set of sides is the sum of the internal forces of the functions on those sides, each counted once.",
     ["inputs", "configurations"], "all densities, thicknesses, point masses, displacements and side sets within the bounds, for the three shell models",
     "These outputs are used for dynamics and post-processing and are compared with no reference in the tests.",
     ASM, [("mass", "src/gsThinShellAssembler.hpp: assembleMass, _applyMass"), ("scalars", "src/gsThinShellAssembler.hpp: getArea, getDisplacementNorm, getElasticEnergy"), ("reaction forces", "src/gsThinShellAssembler.hpp: boundaryForce")],
     D_, C_, ["gsThinShellAssembler::assembleMass, _applyMass, getArea, getDisplacementNorm, getElasticEnergy, boundaryForce"],
     ASMB + "scalars and reaction forces on a bilinear patch with the default quadrature; density in [0.1,5], thickness in [0.01,1/2], point mass in [0.1,3] anywhere; mass and reaction forces also on two patches, joined or not", ASMO, ASMA)

D_, C_ = three("dofs.cpp", "df", "history historyP replace reset")
prop("A06", "Assembly results do not depend on what was assembled before",
     "Linear system, residual, tangent and mass matrix assembled by an assembler object are the same whatever was assembled, evaluated or loaded earlier with that object, as those of a fresh one. "
     "Replacing boundary conditions, basis or geometry or removing loads gives the results of an assembler that was created with the new data.",
     ["histories", "inputs"], "all ordered pairs of assembly calls, and sequences of all of them, with symbolic loads, prescribed values and displacements",
     "Tests run one assembly order each; state left behind by one call changes another only for particular orders, non-zero boundary data or loads.",
     ASM, [("state", "src/gsThinShellAssembler.hpp: assemble, assembleVector, assembleMatrix, assembleMass, homogenizeDirichlet, updateBCs, setPointLoads")],
     D_, C_, ["gsThinShellAssembler::assemble/assembleVector/assembleMatrix/assembleMass/updateBCs/setPointLoads/homogenizeDirichlet"],
     ASMB + "all ordered pairs out of six assembly operations and six sequences of seven to nine calls", ASMO + "; longer histories", ASMA)

def mats(kinds, dims, names, only3=""):
    """cases of integrate.cpp: linear (0), incompressible (1) and compressible (2) materials on surfaces (3) and in the plane (2)"""
    return (["integrate.cpp:-DKIND=%d:-DDIM=%d" % (k, d) for d in dims for k in kinds],
            [Case("m%s%d_%s" % ("lic"[k], d, n), flips=False, max_paths=1) for d in dims for k in kinds for n in (names + (" " + only3 if d == 3 else "")).split()])


MATF = ["src/gsMaterialMatrixIntegrate.hpp", "src/gsMaterialMatrixIntegrate.h", "src/gsMaterialMatrixEval.hpp", "src/gsMaterialMatrixEval.h", "src/gsMaterialMatrixBase.h", "src/gsMaterialMatrixBaseDim.hpp", "src/gsMaterialMatrixContainer.h", "src/gsMaterialMatrixLinear.hpp", "src/gsMaterialMatrixNonlinear.hpp"]
MATB = "two bi-quadratic patches with their own geometry, thickness, density and parameters that vary over the surface; linear, incompressible and compressible neo-Hookean materials; three points per call; symbolic thicknesses in [0.05,0.3], moduli in [1/2,10], density in [0.1,5] and two symbolic displacement coefficients"
D_, C_ = mats((0, 1, 2), (3,), "N M A B C D CN CM PN PM ctors gauss density")
DT_, CT_ = mats((0, 1, 2), (2,), "N M A B C D CN CM PN PM ctors gauss density")
prop("C06", "Stress and stiffness resultants are the through-thickness integrals",
     "Membrane forces, bending moments and the membrane, coupling and bending stiffnesses of a patch, and the principal and Cauchy variants of the stress resultants, are the zeroth, first and second moments over the thickness of the stress and material tensor at that patch and point, with the local thickness; the mass per area is density times thickness. "
     "This holds for every patch and point of a call, however the integrator is created, with the number of integration points that is set.",
     ["inputs", "configurations"], "all thicknesses, parameters and displacements within the bounds, for every resultant and every way to create the integrator",
     "Tests use one patch, constant thickness and one constructor; the height index, the patch and the moment only show for several points, patches and heights.",
     MATF, [("integration", "src/gsMaterialMatrixIntegrate.hpp: integrateZ_into, multiplyZ_into, multiplyLinZ_into, eval_into_impl"), ("creation", "src/gsMaterialMatrixIntegrate.h: constructors of gsMaterialMatrixIntegrate and gsMaterialMatrixIntegrateSingle")],
     D_, C_, ["gsMaterialMatrixIntegrate, gsMaterialMatrixIntegrateSingle (constructors, piece, eval_into and the integration rules)", "gsMaterialMatrixContainer", "gsMaterialMatrixLinear/Nonlinear::eval3D_vector/matrix/CauchyVector/pstress and density_into, thickness_into"],
     MATB + "; one to five integration points over the thickness", "more patches and points, other materials, the pointwise values themselves (C01-C04, C07), rounding", STD + ["The pointwise stress and tensor values are generalised to any values (same expression, same value)."], thorough=CT_, tdrivers=DT_)

D_, C_ = mats((0, 1, 2), (3,), "pwGeneric pwVectorN pwMatrixA pwCauchyVectorN pwCov2CartTransform pwCon2CartTransform pwStrain pwStressN pwCauchyStressN pwDeformation pwPStress pwPCauchyStressN pwPStressDir pwStretch pwStretchDir pwPStrainN pwSpec2CovTransform pwSpec2ConTransform pwTensionField evctors single replace state",
               "pwPStressM pwPCauchyStressM pwVectorM pwStressM pwCauchyStressM")
DT_, CT_ = mats((0, 1, 2), (2,), "pwGeneric pwVectorN pwMatrixA pwCauchyVectorN pwCov2CartTransform pwCon2CartTransform pwStrain pwStressN pwCauchyStressN pwDeformation pwPStress pwPCauchyStressN pwPStressDir pwStretch pwStretchDir pwPStrainN pwSpec2CovTransform pwSpec2ConTransform pwTensionField evctors single replace state")
prop("C10", "Material evaluation is pointwise, per patch and memoryless",
     "Every quantity a material or material evaluator returns at a point, height and patch is the one obtained by evaluating that point alone with a fresh material: it does not depend on the other points or heights of the call, on earlier calls, or on the way the material and evaluator are created. "
     "After parameters, thickness, density or a configuration are replaced, the values are those of a material created with the new data, and clones and other materials are unaffected.",
     ["inputs", "histories", "configurations"], "all thicknesses, parameters and displacements within the bounds, for every output, batches of points and heights, two patches and short histories",
     "Materials keep per-point data in members that are overwritten by every call; a stale or wrongly indexed entry shows only for particular batches, heights, patches or orders of calls.",
     MATF, [("stored point data", "src/gsMaterialMatrixBaseDim.hpp: _computePoints, _getMetric and the eval3D_* functions"), ("evaluators", "src/gsMaterialMatrixEval.h: gsMaterialMatrixEval, gsMaterialMatrixEvalSingle"), ("setters", "src/gsMaterialMatrixBase.h: setParameters, setThickness, setDensity, setUndeformed, setDeformed, clone")],
     D_, C_, ["all eval3D_* functions of gsMaterialMatrixBaseDim, gsMaterialMatrixLinear and gsMaterialMatrixNonlinear", "gsMaterialMatrixEval, gsMaterialMatrixEvalSingle", "gsMaterialMatrixBase setters, copies and state queries; gsMaterialMatrixContainer"],
     MATB + "; two heights per point that differ from point to point. Batches of compressible materials are decided for one fixed configuration (no symbolic inputs)", "more patches, points and longer histories, other materials; evaluators sharing one material object (the last one created sets its configuration); rounding", STD, thorough=CT_, tdrivers=DT_)

TFN = "wrStress wrStress2 wrStrain wrCauchy wrMatrix wrMatrix2 wrTangent wrTangentA wrTangentB wrTangentC direction taut slack tautN slackN batch batchN angles explicitState"
TFC = " ".join("class%d%s" % (o, w) for o in range(3) for w in "tws")
def tfcases(d):
    return C(" ".join("tf%d_%s" % (d, n) for n in TFN.split()), flips=False, max_paths=1, timeout=200) + C(" ".join("tf%d_%s" % (d, n) for n in TFC.split()), max_paths=6)
prop("C08", "Tension-field materials carry no compression across wrinkles and are consistently linearised",
     "A tension-field material classifies every point as taut, wrinkled or slack from its principal strains and stresses by the chosen criterion. A taut point responds like the base material and a slack point like the base material times the slack multiplier. "
     "At a wrinkled point a wrinkling strain along the wrinkling direction is added such that the stress across the wrinkles vanishes; stress, strain and Cauchy stress follow from it, and the stiffness is the derivative of that stress, including the change of the wrinkling direction. Every point and height of a call is treated by its own state, and in explicit mode the state is that of the stored configuration.",
     ["inputs", "configurations"], "all stiffnesses, stresses, strains, stiffness derivatives and slack multipliers of the base material within the bounds, and all principal values for the classification",
     "Tests run one tension-field simulation with a tolerance on a displacement; a wrong sign in the tangent or a wrong state at one point only changes convergence or local stresses.",
     ["src/gsMaterialMatrixTFT.hpp", "src/gsMaterialMatrixTFT.h", "src/gsMaterialMatrixBaseDim.hpp"], [("states", "src/gsMaterialMatrixBaseDim.hpp: eval3D_tensionfield, _tensionField"), ("wrinkled response", "src/gsMaterialMatrixTFT.hpp: eval3D_stress, eval3D_strain, eval3D_CauchyStress, eval3D_matrix, _compute_E, _compute_S, _compute_C"), ("explicit mode", "src/gsMaterialMatrixTFT.hpp: _compute_TF; gsMaterialMatrixTFT.h: updateDeformed")],
     ["tft.cpp:-DDIM=3"], tfcases(3), ["gsMaterialMatrixTFT<linear=true|false>::eval3D_stress/vector/strain/CauchyStress/matrix/pstress/pstrain/theta/gamma/tensionfield, eval_theta, _theta_interval, _check_theta_full, _compute_E/_compute_S/_compute_C", "gsMaterialMatrixBaseDim::eval3D_tensionfield, _tensionField"],
     "base material: symmetric stiffness within 1/2 of two reference stiffnesses, stress and strain components in [-2,2], fully symmetric stiffness derivatives in [-2,2] (all ten, or four together with the stress), slack multiplier in [0,1/2]; wrinkling angle arbitrary; principal values in [-4,4]; two points with two heights per call",
     "convergence of the search for the wrinkling direction (24 fixed wrinkled states only, as ground obligations), principal stresses of wrinkled points, base materials with unsymmetric stiffness, rounding", STD + ["The stiffness and response of wrinkled points are decided for any angle; for the stiffness the angle satisfies the wrinkling condition n2.S=0, which is used once in the reference (derivative of the wrinkling strain to the angle).", "The base material is a stand-in with arbitrary values; the values of the real materials are those of C01-C04."],
     thorough=tfcases(2), tdrivers=["tft.cpp:-DDIM=2"])

CPN = "matThick matStiff matAngle matAll vecN0 vecN1 vecM0 vecM1 iso points mass noRho integ asm"
def cpcases(d):
    return C(" ".join("cp%d_%s" % (d, n) for n in CPN.split()), flips=False, max_paths=1, timeout=200)
prop("C09", "Laminates: resultants follow classical lamination theory in any parametrisation",
     "The membrane, coupling and bending stiffnesses of a laminate are the sums over its layers of the rotated layer stiffness times the layer thickness and its first and second moments about the mid-surface, expressed in the parametrisation of the surface; the stress resultants are these stiffnesses times membrane and bending strains, including the coupling; its mass is the sum of density times thickness. "
     "A laminate of equal isotropic layers is the isotropic plate of the total thickness, and integrated and assembled quantities are those of these resultants, at every point and for every parametrisation of the surface.",
     ["inputs", "configurations"], "all layer thicknesses, stiffnesses, densities, fibre angles and strains within the bounds, for skew parametrisations",
     "No stable test runs a laminate; stacking order, coupling and the transformation to a skew basis only matter for unsymmetric stacks and oblique parametrisations.",
     ["src/gsMaterialMatrixComposite.hpp", "src/gsMaterialMatrixComposite.h", "src/gsMaterialMatrixIntegrate.hpp", "src/gsThinShellAssembler.hpp"], [("laminate stiffness", "src/gsMaterialMatrixComposite.hpp: eval3D_matrix, _cart2cov, _transformation"), ("resultants and mass", "src/gsMaterialMatrixComposite.hpp: eval3D_vector, density_into, thickness_into"), ("use", "src/gsMaterialMatrixIntegrate.hpp, src/gsThinShellAssembler.hpp")],
     ["composite.cpp:-DDIM=3"], cpcases(3), ["gsMaterialMatrixComposite (constructors, eval3D_matrix, eval3D_vector, density_into, thickness_into, parameters)", "gsMaterialMatrixIntegrate and gsThinShellAssembler on a laminate"],
     "two layers (isotropy: equal layers), full symmetric layer stiffness, thicknesses, angles and densities symbolic within the ranges of the driver; skew tangents and curvature; three points per call; one bi-quadratic element for assembly",
     "more layers, layers that vary within the symbolic runs other than stated, evaluation without a deformed configuration, rounding", STD, thorough=cpcases(2), tdrivers=["composite.cpp:-DDIM=2"])

def stcases():
    n="displacement flexStrain memStrain membrane membranePK2 flexural flexuralPK2 force forcePK2 moment momentPK2 misesM misesF pstrain stretch pstress pstressM pstressF sdir1 sdir2 sdir3 tdir1 tdir2 tdir3 tension".split()
    return lambda p: C(" ".join(p+"3_"+x for x in n), flips=False, max_paths=1)
prop("F01", "Stress and strain output fields are the material's values in a local Cartesian frame",
     "Every field that the assembler constructs for output has, at every point of every patch, the value of the stated quantity of that patch's own material and geometry: displacement is deformed minus undeformed position; membrane and flexural strains are the tensor components of the change of metric and curvature in the orthonormal frame attached to the undeformed surface; membrane and flexural stresses, forces and moments (Cauchy or second Piola-Kirchhoff) are the material's values or its thickness integrals in the orthonormal frame of the deformed or undeformed surface; the von Mises fields of membrane and flexural stress are the plane-stress von Mises norm of those stresses; "
     "principal stretches, strains, stresses, their directions and the tension field indicator are the ones the material reports at that point. The number of components equals the declared dimension.",
     ["inputs", "configurations"], "all control nets, thicknesses, material parameters and evaluation points of two patches with different geometries and materials, within the bounds",
     "Output fields are only written to files in the examples; a value taken from another patch or in the wrong basis is visible only for several patches, skew parametrisations and non-constant deformations.",
     ["src/gsThinShellFunctions.hpp", "src/gsThinShellFunctions.h", "src/gsThinShellAssembler.hpp", "src/gsThinShellUtils.h", "src/gsMaterialMatrixEval.hpp"], [("fields", "src/gsThinShellFunctions.hpp: gsShellStressFunction::eval_into"), ("construction per patch", "src/gsThinShellAssembler.hpp: constructStress"), ("frames", "src/gsThinShellUtils.h: cartcov_expr, cartcon_expr"), ("material values", "src/gsMaterialMatrixEval.hpp, src/gsMaterialMatrixIntegrate.hpp")],
     ["stress.cpp:-DKIND=0:-DDIM=3", "stress.cpp:-DKIND=1:-DDIM=3"], stcases()("sl")+stcases()("si"), ["gsThinShellAssembler::constructStress", "gsShellStressFunction (all kinds but von_mises, principal_flexural_strain and total)", "cartcov, cartcon, deriv2, E_m, E_f expressions", "gsMaterialMatrixEval and gsMaterialMatrixIntegrate"],
     "two bi-quadratic patches with different symbolic geometries (principal quantities: undeformed patches in a plane), linear and incompressible neo-Hookean materials that differ per patch, three evaluation points per call",
     "the combined von Mises stress, the principal flexural strain and the total stress; planar (2D) assemblers, for which the expression library refuses the surface normal; compressible materials; rounding", STD)

DWN = ("%s_a %s_c %s_ba %s_bc %s_pa %s_pc " * 7) % tuple(x for n in "disp mstrain mstress mforce fstrain fstress fmoment".split() for x in [n] * 6)
DWP = " ".join("%s_%s" % (a, b) for a in "stretch pstrain pstress".split() for b in "a c d ba bc bd pa p0 p1".split())
DWL = " ".join("lam_%s_%s" % (a, b) for a in "mforce fmoment".split() for b in "a c ba bc pa pc".split())
DWE = "err errN errP errPn errD errDN errDP errDPn elems two merr merrP merrD merrDP modal mnorm buckling bnorm lmodal lbuckling lbnorm systems"
prop("D01", "Goal-oriented error estimation: dual loads are derivatives of the goals and estimates are residuals tested with the dual",
     "For every goal functional (displacement, principal stretch, strain and stress, membrane and flexural strain and stress, membrane force and moment; norm or component; over the surface, on sides or in points) the assembled dual load is the derivative of the computed goal with respect to the displacement, in the enriched and in the coarse space, and the goals of displacement, strains, stresses, forces and moments are the integrals (point sums) of these quantities. "
     "The (unsquared) error estimate of a linear or deformed configuration is the shell's out-of-balance load, including Neumann and point loads when asked for, tested with the difference of the enriched and coarse dual solutions; element contributions are those of their element and add up to the total. For modal and buckling problems the estimates and norms are the same combinations of the mass, linear and tangent stiffness forms, and the systems of both spaces are those of the shell on that basis.",
     ["inputs", "configurations"], "all displacements, dual and primal fields, loads, eigenvalues and laminate thicknesses within the bounds, for 13 goals on the surface, on sides and in points",
     "The DWR examples run three goals on one geometry and pass whatever the estimate is; a wrong derivative or a wrong sign only makes the estimate inaccurate.",
     ["src/gsThinShellAssemblerDWR.hpp", "src/gsThinShellAssemblerDWR.h", "src/gsThinShellUtils.h"], [("goals", "src/gsThinShellAssemblerDWR.hpp: computeGoal"), ("dual loads", "src/gsThinShellAssemblerDWR.hpp: _assembleDual"), ("estimates", "src/gsThinShellAssemblerDWR.hpp: computeError_impl, computeErrorEig_impl, _applyLoadsToError, _applyLoadsToElWiseError, matrixNorm"), ("variations of the normal", "src/gsThinShellUtils.h: var1_expr, var2_expr, deriv2_expr, deriv2dot_expr")],
     ["dwr.cpp"], C(" ".join("dw_" + n for n in (DWN + DWP + " " + DWL + " " + DWE).split()), flips=False, max_paths=1, timeout=200), ["gsThinShellAssemblerDWR<3,T,true>: computeGoal, assembleDualL/H, computeError, computeErrorElements, computeErrorEig, matrixNorm, assembleMass/Matrix/PrimalL/H, setPointLoads", "gsThinShellAssemblerDWR<3,T,false>: computeError", "var1, var2, deriv2 of variables and spaces"],
     "one bi-quadratic element for the enriched space and one bi-linear element for the coarse space (element-wise: two elements and two patches); curved irregular surface with one or two symbolic displacement components, plane or graph surfaces with one symbolic component for principal and bending quantities; symbolic dual fields, loads and eigenvalues; linear material, and an unsymmetric two-layer laminate for forces, moments, modal and buckling estimates",
     "squared error estimates, Neumann loads in element-wise estimates, point loads on element boundaries, pressure and foundation (not part of the estimates), conditions changed by updateBCs, planar (2D) assemblers (refused by the expression library), hyperelastic materials, rounding", STD + ["The abscissae and weights of the Gauss rules belong to the library: rational ones of the same number stand for them in the symbolic run (counterexamples are replayed with the real ones)."])

SPECS = {p["id"]: p for p in P}
NOT_APPLICABLE = []
