From ab0d19009d10548270e5ea7790b43a2616b2561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:57 +0000
Subject: [PATCH 01/44] fix: use the contravariant metric of planar geometries
 in the planar metric

---
 src/gsMaterialMatrixBaseDim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 8ca1bfc..9e9e82c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1154,7 +1154,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Get metric information
     Acov_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
-    Acon_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
+    Acon_def = m_data.mine().m_Acon_def_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_def.setZero();
@@ -1283,7 +1283,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Get metric information
     Acov_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
-    Acon_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
+    Acon_ori = m_data.mine().m_Acon_ori_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_ori.setZero();
-- 
2.43.0


From 382c5d271e8aa81ec6d9a1c19570e19a2d9b91db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:59 +0000
Subject: [PATCH 02/44] fix: return the Cauchy stress of compressible
 hyperelastic materials instead of zero

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 488a24c..8827584 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1065,7 +1065,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             C33 = C33s(0,colIdx);
             detF = math::sqrt(m_data.mine().m_J0_sq*C33);
-            Smat.col(colIdx) /= detF;
+            result.col(colIdx) = Smat.col(colIdx) / detF;
         }
     }
     return result;
-- 
2.43.0


From 6d7b4fbfdbf6cc3395f5b94256e0b66ee40448e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:50 +0000
Subject: [PATCH 03/44] fix: take the shortcut for unit stretches only if the
 whole deformation tensor is the identity

---
 src/gsMaterialMatrixBaseDim.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 9e9e82c..016874f 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1347,7 +1347,10 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
     gsMatrix<T> eigVectors(3,3);
     gsMatrix<T> eigValues(3,1);
-    if (math::abs(((B.block(0,0,2,2).diagonal()).array()-1).sum()) < 10*std::numeric_limits<T>::epsilon())
+    gsMatrix<T> I(3,3);
+    I.setZero();
+    I(0,0) = I(1,1) = 1;
+    if ((B-I).array().abs().maxCoeff() < 10*std::numeric_limits<T>::epsilon())
     {
         eigValues<<0,1,1; // eigenvalues when B = [1 0 0; 0 1 0; 0 0 0]
         eigVectors<<0,0,1,
-- 
2.43.0


From 37226dd5963d0271fbcba999c312872512d95763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:50 +0000
Subject: [PATCH 04/44] fix: use the contravariant basis in the
 spectral-to-contravariant transformation

---
 src/gsMaterialMatrixBaseDim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 016874f..da6ca6e 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -100,7 +100,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch,
             colIdx = j*u.cols()+k;
             _getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             sbasis = tmp.reshapeCol(colIdx,3,3);
-            conbasis = m_data.mine().m_gcov_ori;
+            conbasis = m_data.mine().m_gcon_ori;
             result.col(colIdx) = this->_transformation(conbasis,sbasis).reshape(9,1);
         }
     }
-- 
2.43.0


From 9ff108118e400d3bdd2813b5e3a99462e2f23af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:50 +0000
Subject: [PATCH 05/44] fix: size the basis transformations for all
 through-thickness points

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index da6ca6e..5b54b42 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -67,7 +67,7 @@ void gsMaterialMatrixBaseDim<dim,T>::thickness_into(const index_t patch, const g
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> covbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -89,7 +89,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch,
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> conbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -113,7 +113,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_cov2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, covbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
@@ -136,7 +136,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_con2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, conbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
-- 
2.43.0


From 89357cd055a989ee1508f47dc6fae1425552fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:50 +0000
Subject: [PATCH 06/44] fix: return three principal stress directions, as the
 3x3 reshape expects

---
 src/gsMaterialMatrixBaseDim.hpp   | 3 ++-
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 5b54b42..16c217c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1389,7 +1389,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     gsMatrix<T> pstressvec;
     std::pair<gsVector<T>,gsMatrix<T>> result;
     pstresses.resize(2,1);    pstresses.setZero();
-    pstressvec.resize(3,2);   pstressvec.setZero();
+    pstressvec.resize(3,3);   pstressvec.setZero();
 
     typename gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base >  eigSolver;
 
@@ -1411,6 +1411,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
 
     index_t count = 0;
+    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 8827584..deaf3de 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -647,7 +647,7 @@ template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enu
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
     gsMatrix<T> Smat = eval3D_stress(patch,u,z,out);
-    gsMatrix<T> result(2, u.cols() * z.rows());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     result.setZero();
     gsMatrix<T,3,3> S;
     index_t colIdx;
-- 
2.43.0


From e617abe991530df1191ceb53e53417a7290db6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:50 +0000
Subject: [PATCH 07/44] fix: evaluate principal stresses and strains with the
 metric of their own point

---
 src/gsMaterialMatrixBaseDim.hpp   | 1 +
 src/gsMaterialMatrixLinear.hpp    | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 16c217c..8fc178e 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -259,6 +259,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_pstrain(const index_t patch,
             E(1,1) = Emat(1,colIdx);
             E(0,1) = E(1,0) = 0.5*Emat(2,colIdx);
             E(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStrain(E);
             result.col(j * u.cols() + k) = res.first;
         }
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 6908828..17c2c80 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -382,6 +382,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
@@ -415,6 +416,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.second.reshape(9,1);
         }
@@ -448,6 +450,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index deaf3de..fe18f01 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -636,6 +636,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(colIdx) = res.first;
         }
@@ -666,6 +667,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(colIdx) = res.second.reshape(9,1);
         }
@@ -696,6 +698,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             res = this->_evalPStress(S);
             result.col(j * u.cols() + k) = res.first;
         }
-- 
2.43.0


From 11fa03e30636d8e77c09571ffc81065e27a314ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 08/44] fix: let the elastic foundation resist the displacement
 in the residual, as in the matrix

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..dbe489d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -549,7 +549,7 @@ gsThinShellAssembler<d, T, bending>::_assembleFoundation_impl(const gsFunction<T
 
     // Assemble vector
     m_assembler.assemble(
-                  m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
+                  - m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
                 );
 }
 
-- 
2.43.0


From f4651543e50bcd31cb519c70292f390f182bc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 09/44] fix: allocate the system on initialization, such that a
 residual can be assembled first

---
 src/gsThinShellAssembler.h   | 4 ++++
 src/gsThinShellAssembler.hpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..4230904 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -182,6 +182,10 @@ public:
 
         m_ddofs = m_space.fixedPart();
         m_mapper = m_space.mapper();
+
+        // The number of degrees of freedom can change
+        if (m_assembler.matrix().cols()!=m_mapper.freeSize())
+            m_assembler.initSystem();
     }
 
     /// See \ref gsThinShellAssemblerBase for details
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index dbe489d..85cc363 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -276,6 +276,8 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     // todo
     // Put the interfaces in the right container depending on the
 
+    // Allocate the system, such that vectors can be assembled without assembling a matrix first
+    m_assembler.initSystem();
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From aedb5de7619ac53ec91fb33b4cd4781c1671d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 10/44] fix: scale the right-hand side of planar weak Dirichlet
 conditions as the matrix

---
 src/gsThinShellAssembler.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 85cc363..a129c47 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -687,17 +687,29 @@ template <short_t _d, bool _matrix>
 typename std::enable_if<!(_d==3) && !_matrix, void>::type
 gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
 {
+    gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
 
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     auto g_N = m_assembler.getBdrFunction(m_ori);
 
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
+    auto mmA = m_assembler.getCoeff(m_mmA);
+
+    auto cart2cov = cartcov(m_ori);
+    auto con2cartI = cartcon(m_ori).inv();
+
+    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+
+    element el = m_assembler.getElement();
+    auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
+
     // Weak BCs
     m_assembler.assembleBdr
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        -(alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From 56e70d6b1696fa01fd4df3c1bb1bede8432d7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 11/44] fix: make residual and tangent of weak clamped
 conditions those of the clamping penalty

---
 src/gsThinShellAssembler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a129c47..e49dcee 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -765,7 +765,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            alpha_r * dnN * ( var2deriv2(m_space,m_space,m_def,unv(m_ori).tr()) )
+            alpha_r * dnN * ( var2(m_space,m_space,m_def,unv(m_ori).tr()) )
             +
             alpha_r * ( ( var1(m_space,m_def) * unv(m_ori) ) * ( var1(m_space,m_def) * unv(m_ori) ).tr() )
         ) * meas(m_ori)
@@ -799,7 +799,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto alpha_r = m_alpha_r_bc * reshape(mmDcart,9,1).max().val() / el.area(m_ori);
 
     auto du  = m_def - m_ori;
-    auto dnN = ( usn(m_def).tr()*nv(m_ori) - usn(m_ori).tr()*nv(m_ori) ).val();
+    auto dnN = ( usn(m_def).tr()*unv(m_ori) - usn(m_ori).tr()*unv(m_ori) ).val();
 
     // Weak BCs
     m_assembler.assembleBdr
@@ -815,7 +815,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            - alpha_r * dnN * ( var1(m_space,m_def) * usn(m_ori) )
+            - alpha_r * dnN * ( var1(m_space,m_def) * unv(m_ori) )
         ) * meas(m_ori)
     );
 }
-- 
2.43.0


From c4de3643c74626d4bbc36dbdceab00c8b9bb000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 12/44] fix: let planar interface penalties resist the jump and
 integrate them with a single measure

---
 src/gsThinShellAssembler.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e49dcee..4140760 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1005,13 +1005,13 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
 
     // C^0 coupling
     m_assembler.assembleIfc(m_weakC0,
-                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori)
                     ,
-                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori)
                      );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
@@ -1306,9 +1306,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
 
     // C^0 coupling
      m_assembler.assembleIfc(m_weakC0,
-                      alpha_d * m_space.left() * du * meas(m_ori)
+                     -alpha_d * m_space.left() * du * meas(m_ori)
                      ,
-                     -alpha_d * m_space.right()* du * meas(m_ori)
+                      alpha_d * m_space.right()* du * meas(m_ori)
                       );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From dc2b8fb13cdd310b9567a19cae00c843dfdf126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:01 +0000
Subject: [PATCH 13/44] fix: make the tangent of the in-plane interface penalty
 the derivative of its residual

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4140760..4a72802 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1133,17 +1133,17 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     m_assembler.assembleIfc(m_weakC1,
                      alpha_r * dnN_lr * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
                     + // Symmetry
-                     alpha_r * dnN_rl * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
+                     alpha_r * dnN_rl * var2(m_space.left(),m_space.left(),m_def.left(),unv(m_def.right()).tr()) * meas(m_ori) // left left
                     ,
                      alpha_r * dnN_lr * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     + // Symmetry
-                     alpha_r * dnN_rl * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_rl * ( var1(m_space.left() ,m_def.left() ) * ovar1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     ,
-                     alpha_r * dnN_lr * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_lr * ( var1(m_space.right(),m_def.right()) * ovar1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     + // Symmetry
                      alpha_r * dnN_rl * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     ,
-                     alpha_r * dnN_lr * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
+                     alpha_r * dnN_lr * var2(m_space.right(),m_space.right(),m_def.right(),unv(m_def.left()).tr()) * meas(m_ori) // right right
                     + // Symmetry
                      alpha_r * dnN_rl * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
                      );
-- 
2.43.0


From 36a2487fd0fd7282658b0ebf288095839549b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:08 +0000
Subject: [PATCH 14/44] fix: use the actual tangents in the second variation of
 the outer normal

---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index eec8b42..7e4985c 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1042,11 +1042,10 @@ public:
         eC.resize(1,3);
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cJac.colwise().normalize();
 
         onormal = _G.data().outNormal(k);
         onormal.normalize();
-        tmp = cJac.transpose() * onormal;
+        tmp = cJac.colwise().normalized().transpose() * onormal;
         tmp.colwise().normalize(); //normalize the inner product for fair comparison
 
         Scalar tol = 1e-8;
-- 
2.43.0


From 5816ef57ca67583588b03d9aa7090a9aa8a94e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 15/44] fix: let the linear assembly use the Dirichlet values,
 also after assemblies that homogenize them

---
 src/gsThinShellAssembler.h   |  6 ++++++
 src/gsThinShellAssembler.hpp | 26 +++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 4230904..f1977a8 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -178,6 +178,7 @@ public:
     {
         m_bcs = bconditions;
         space m_space = m_assembler.trialSpace(0);
+        m_homogenized = false;
         this->_assembleDirichlet();
 
         m_ddofs = m_space.fixedPart();
@@ -530,6 +531,9 @@ protected:
 
     void _assembleDirichlet();
 
+    /// Sets the Dirichlet values of the space to zero, until they are assembled again
+    void _homogenizeDirichlet();
+
     void _applyLoads();
     void _applyMass();
 
@@ -676,6 +680,8 @@ protected:
     gsBoundaryConditions<T> m_bcs;
 
     mutable gsMatrix<T> m_ddofs;
+    /// True if the user asked for homogeneous Dirichlet values
+    bool m_homogenized;
 
     gsSparseMatrix<T> m_mass;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4a72802..c1c1df7 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -109,6 +109,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_spaceBasis=other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
+        m_homogenized=other.m_homogenized;
         m_mass=other.m_mass;
         m_parametricForce=other.m_parametricForce;
         m_forceFun=other.m_forceFun;
@@ -157,6 +158,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_spaceBasis=give(other.m_spaceBasis);
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
+    m_homogenized=other.m_homogenized;
     m_mass=give(other.m_mass);
     m_parametricForce=give(other.m_parametricForce);
     m_forceFun=give(other.m_forceFun);
@@ -258,6 +260,7 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     // Set the discretization space
     space m_space = m_assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
 
+    m_homogenized = false;
     this->_assembleDirichlet();
 
     m_ddofs = m_space.fixedPart();
@@ -1326,6 +1329,13 @@ void gsThinShellAssembler<d, T, bending>::_assembleDirichlet()
 
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::homogenizeDirichlet()
+{
+    m_homogenized = true;
+    this->_homogenizeDirichlet();
+}
+
+template<short_t d, class T, bool bending>
+void gsThinShellAssembler<d, T, bending>::_homogenizeDirichlet()
 {
     this->_getOptions();
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
@@ -1564,6 +1574,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(defpatches);
 
+    // Previously assembled nonlinear systems or mass matrices homogenize the boundary values
+    if (!m_homogenized) this->_assembleDirichlet();
+
     // Initialize stystem
     m_assembler.initSystem();
     m_assembler.initVector(1);
@@ -1655,6 +1668,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(defpatches);
 
+    // Previously assembled nonlinear systems or mass matrices homogenize the boundary values
+    if (!m_homogenized) this->_assembleDirichlet();
+
     // Initialize stystem
     m_assembler.initSystem();
 
@@ -1756,7 +1772,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
 
     space       m_space = m_assembler.trialSpace(0);
 
-    this->homogenizeDirichlet();
+    this->_homogenizeDirichlet();
 
     auto m_N        = S0.tr();
     auto m_Em_der   = flat( jac(m_def).tr() * jac(m_space) ) ; //[checked]
@@ -1826,7 +1842,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     space       m_space = m_assembler.trialSpace(0);
 
 
-    this->homogenizeDirichlet();
+    this->_homogenizeDirichlet();
 
     auto m_N        = S0.tr();
     auto m_Em_der   = flat( jac(m_def).tr() * jac(m_space) ) ; //[checked]
@@ -1922,7 +1938,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     space       m_space = m_assembler.trialSpace(0);
     solution    m_du = m_assembler.getSolution(m_space,update);
 
-    this->homogenizeDirichlet();
+    this->_homogenizeDirichlet();
 
     auto m_E_mc = flat( jac(m_prev).tr() * grad(m_du) ) ; //[checked]
     auto m_E_fc = -( deriv2(m_du,sn(m_prev).normalized().tr() ) + deriv2(m_prev,var1(m_du,m_prev) ) ) * reshape(m_m2,3,3); //[checked]
@@ -2027,7 +2043,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     auto m_parforce  = m_assembler.getCoeff(*m_forceFun); // force defined in parametric domain
 
 
-    if (homogenize) this->homogenizeDirichlet();
+    if (homogenize) this->_homogenizeDirichlet();
     else            this->_assembleDirichlet();
 
     auto m_N        = S0.tr();
@@ -2098,7 +2114,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     auto m_physforce = m_assembler.getCoeff(*m_forceFun,m_ori); // force defined in physical domain
     auto m_parforce  = m_assembler.getCoeff(*m_forceFun); // force defined in parametric domain
 
-    if (homogenize) this->homogenizeDirichlet();
+    if (homogenize) this->_homogenizeDirichlet();
     else            this->_assembleDirichlet();
 
     auto m_N        = S0.tr();
-- 
2.43.0


From 3ae2fc539545563ea2aff41f30345135a7332772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:26 +0000
Subject: [PATCH 16/44] fix: add point loads to the assembled vector itself,
 such that later contributions and removed loads are seen

---
 src/gsThinShellAssembler.h   |  4 +---
 src/gsThinShellAssembler.hpp | 10 +++-------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index f1977a8..ea22b93 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -403,8 +403,7 @@ public:
     const gsSparseMatrix<T> & matrix()      const   {return m_assembler.matrix();}
     gsSparseMatrix<T> & massMatrix() {return m_mass;}
 
-    const gsMatrix<T>       & rhs()         const {return m_rhs.size()==0 ? m_assembler.rhs() : m_rhs;}
-    // const gsMatrix<T>       & rhs()     const {return m_assembler.rhs();}
+    const gsMatrix<T>       & rhs()         const {return m_assembler.rhs();}
 
     //--------------------- INTERFACE HANDLING -----------------------------//
     void addStrongC0(const gsBoxTopology::ifContainer & interfaces);
@@ -696,7 +695,6 @@ protected:
 
     mutable gsMatrix<T> m_solvector;
 
-    gsMatrix<T> m_rhs;
 
     mutable gsOptionList m_options;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index c1c1df7..0d54e85 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -119,7 +119,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_pLoads=other.m_pLoads;
         m_pMass=other.m_pMass;
         m_solvector=other.m_solvector;
-        m_rhs=other.m_rhs;
         m_options=other.m_options;
         m_foundInd=other.m_foundInd;
         m_pressInd=other.m_pressInd;
@@ -168,7 +167,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_pLoads=give(other.m_pLoads);
     m_pMass=give(other.m_pMass);
     m_solvector=give(other.m_solvector);
-    m_rhs=give(other.m_rhs);
     m_options=give(other.m_options);
     m_foundInd=give(other.m_foundInd);
     m_pressInd=give(other.m_pressInd);
@@ -1353,6 +1351,8 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
     space       m_space = m_assembler.trialSpace(0);
     m_mapper = m_space.mapper();
 
+    gsMatrix<T> & rhs = const_cast<gsMatrix<T> &>(m_assembler.rhs());
+
     for (size_t i = 0; i< m_pLoads.numLoads(); ++i )
     {
         GISMO_ASSERT(m_pLoads[i].value.size()==d,"Point load has wrong dimension "<<m_pLoads[i].value.size()<<" instead of "<<d<<"\n");
@@ -1401,7 +1401,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
                     if (m_mapper.is_free_index(globalActs(k,0)))
-                        m_rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
+                        rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
                 }
             }
         }
@@ -1639,7 +1639,6 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
         {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
         }
         m_status = ThinShellAssemblerStatus::Success;
@@ -1718,7 +1717,6 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
         {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
         }
 
@@ -2078,7 +2076,6 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
         {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
         }
 
@@ -2146,7 +2143,6 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
         {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
         }
 
-- 
2.43.0


From 41d61091ec82811094f64a305decf236e99121f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 17/44] fix: report the mass assembly, build the lumped mass
 matrix and add point masses

---
 src/gsThinShellAssembler.h      |  2 +-
 src/gsThinShellAssembler.hpp    | 42 ++++++++++++++++-----------------
 src/gsThinShellAssemblerDWR.hpp |  2 +-
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index ea22b93..7f8b1e3 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -534,7 +534,7 @@ protected:
     void _homogenizeDirichlet();
 
     void _applyLoads();
-    void _applyMass();
+    void _applyMass(const bool lumped = false);
 
     void _ifcTest(const T tol = 1e-2);
     bool _isInPlane(const boundaryInterface & ifc, const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 0d54e85..3903017 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1409,7 +1409,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
 }
 
 template<short_t d, class T, bool bending>
-void gsThinShellAssembler<d, T, bending>::_applyMass()
+void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
 {
     gsMatrix<T>        bVals;
     gsMatrix<index_t> acts,globalActs;
@@ -1426,15 +1426,15 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
         // Compute actives and values of basis functions on point load location.
         if ( m_pMass[i].parametric )   // in parametric space
         {
-            m_basis.front().basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
         }
         else                            // in physical space
         {
             gsMatrix<T> forcePoint;
             m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.front().basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
         }
 
         // Add the point load values in the right entries in the global RHS
@@ -1445,10 +1445,16 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
                 m_mapper.localToGlobal(acts, m_pMass[i].patch, globalActs,j);
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
+                    if (lumped)
+                    {
+                        if (m_mapper.is_free_index(globalActs(k,0)))
+                            m_mass.coeffRef(globalActs(k,0), globalActs(k,0)) += bVals(k,0) * m_pMass[i].value[0];
+                        continue;
+                    }
                     for (index_t l=0; l < globalActs.rows(); ++l)
                     {
                         if (m_mapper.is_free_index(globalActs(k,0)) && m_mapper.is_free_index(globalActs(l,0)))
-                            m_mass(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
+                            m_mass.coeffRef(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
                     }
                 }
             }
@@ -1482,30 +1488,24 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     try
     {
         // assemble system
-        if (!lumped)
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-        else
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-
-        m_mass = m_assembler.matrix();
-
-/*        // assemble system
         if (!lumped)
         {
             m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
             m_mass = m_assembler.matrix();
-            this->_applyMass();
         }
         else
         {
-            // To do: add point masses in lumped case
+            // The row sums are assembled in a vector, which is the diagonal of the lumped mass matrix
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-            m_rhs = m_assembler.rhs();
+            const gsMatrix<T> & diag = m_assembler.rhs();
+            m_mass.resize(diag.rows(),diag.rows());
+            m_mass.reserve(gsVector<index_t>::Constant(diag.rows(),1));
+            for (index_t k=0; k!=diag.rows(); k++)
+                m_mass.insert(k,k) = diag(k,0);
+            m_mass.makeCompressed();
         }
-        m_mass = m_assembler.matrix();
-
-        this->_applyMass();
-        m_status = ThinShellAssemblerStatus::Success;*/
+        this->_applyMass(lumped);
+        m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
     {
diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..94d5d85 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -67,7 +67,7 @@ template <short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleMass(gsThinShellAssemblerBase<T> * assembler, gsSparseMatrix<T> & result, bool lumped)
 {
     ThinShellAssemblerStatus status =  assembler->assembleMass(lumped);
-    result = assembler->matrix();
+    result = assembler->massMatrix();
     GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly failed");
     return status;
 }
-- 
2.43.0


From 1f59c9b4957eedf668e63ade69799867e3b21c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:27 +0000
Subject: [PATCH 18/44] fix: compute the displacement norm and the elastic
 energy of the shell with consistent measures and strains

---
 src/gsThinShellAssembler.h   | 15 +++++++++++-
 src/gsThinShellAssembler.hpp | 46 ++++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 7f8b1e3..729ff00 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -395,6 +395,19 @@ public:
     /// See \ref gsThinShellAssemblerBase for details
     T getElasticEnergy(const gsFunctionSet<T> & deformed);
 
+private:
+    /// Implementation of getElasticEnergy for surfaces (3D)
+    template<short_t _d, bool _bending>
+    typename std::enable_if<(_d==3) && _bending, T>::type
+    getElasticEnergy_impl(const gsFunctionSet<T> & deformed);
+
+    /// Implementation of getElasticEnergy for planar geometries (2D)
+    template<short_t _d, bool _bending>
+    typename std::enable_if<!(_d==3 && _bending), T>::type
+    getElasticEnergy_impl(const gsFunctionSet<T> & deformed);
+
+public:
+
     //--------------------- MATERIAL ACCESS --------------------------------//
     gsMaterialMatrixContainer<T> materials()    const  {return m_materialMatrices;}
     gsMaterialMatrixBase<T> * material(const index_t p)    const  {return m_materialMatrices.piece(p);}
@@ -1005,7 +1018,7 @@ public:
     /// Returns the displacement norm, i.e. norm = sqrt(u'*u/area)
     virtual T getDisplacementNorm(const gsFunctionSet<T> & deformed) = 0;
 
-    /// Returns the elastic energy norm, i.e. norm = 0.5 * u'*F_int
+    /// Returns the elastic energy, i.e. the integral of 0.5 * ( N:E_m + M:E_f )
     virtual T getElasticEnergy(const gsFunctionSet<T> & deformed) = 0;
 
     /// Returns a reference to the system matrix that is assembled
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 3903017..22dcb0c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2558,7 +2558,7 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
     auto u   = m_def - m_ori;
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral( u.tr() * u * meas(m_def));
+    T result = evaluator.integral( u.tr() * u * meas(m_ori));
     T area = evaluator.integral(meas(m_ori));
 
     return std::pow(result/area,0.5);
@@ -2566,6 +2566,14 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
 
 template<short_t d, class T, bool bending>
 T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> & deformed)
+{
+    return getElasticEnergy_impl<d, bending>(deformed);
+}
+
+template <short_t d, typename T, bool bending>
+template <short_t _d, bool _bending>
+typename std::enable_if<(_d==3) && _bending, T>::type
+gsThinShellAssembler<d, T, bending>::getElasticEnergy_impl(const gsFunctionSet<T> & deformed)
 {
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
@@ -2574,17 +2582,41 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
-    auto u   = m_def - m_ori;
 
-    auto m_N        = S0.tr();
-    auto m_M        = S1.tr(); // output is a column
+    gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
+    auto m_m2 = m_assembler.getCoeff(mult2t);
+
+    auto m_Em = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()*jac(m_ori)) );
+    auto m_Ef = ( deriv2(m_ori,sn(m_ori).normalized().tr()) - deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3);
+
+    gsExprEvaluator<T> evaluator(m_assembler);
+    T result = evaluator.integral( 0.5 * ( S0.tr() * m_Em.tr() + S1.tr() * m_Ef.tr() ) * meas(m_ori) );
+    return result;
+}
+
+template <short_t d, typename T, bool bending>
+template <short_t _d, bool _bending>
+typename std::enable_if<!(_d==3 && _bending), T>::type
+gsThinShellAssembler<d, T, bending>::getElasticEnergy_impl(const gsFunctionSet<T> & deformed)
+{
+    m_assembler.cleanUp();
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+
+    geometryMap m_ori   = m_assembler.getMap(m_patches);
+    geometryMap m_def   = m_assembler.getMap(deformed);
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    auto S0  = m_assembler.getCoeff(m_S0);
+
+    auto m_Em = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()*jac(m_ori)) );
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral(0.5 * ( u.tr() * ( m_N + m_M ).tr() ) * meas(m_def));
+    T result = evaluator.integral( 0.5 * ( S0.tr() * m_Em.tr() ) * meas(m_ori) );
     return result;
 }
 
-- 
2.43.0


From d9196f358af4b49de4a8cfa4641713812dea7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:42 +0000
Subject: [PATCH 19/44] fix: evaluate the previous step of the mixed matrix
 assembly with its own copies of the materials

---
 src/gsThinShellAssembler.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 22dcb0c..61e3951 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1917,12 +1917,16 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     // auto S0  = m_assembler.getCoeff(m_S0);
     // auto S1  = m_assembler.getCoeff(m_S1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(m_materialMatrices,&m_patches,&previous);
+    // The stresses of the previous step have their own copies of the materials, since a material refers to a single deformed geometry
+    gsMaterialMatrixContainer<T> prevMaterials;
+    for (index_t p = 0; p!=m_materialMatrices.size(); ++p)
+        prevMaterials.add(*m_materialMatrices.piece(p));
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(prevMaterials,&m_patches,&previous);
     auto mmAp = m_assembler.getCoeff(m_mmAd);
     auto mmBp = m_assembler.getCoeff(m_mmBd);
     auto mmCp = m_assembler.getCoeff(m_mmCd);
-- 
2.43.0


From e2735a0861fed6f8ac4f8b26ac610f526961330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:41 +0000
Subject: [PATCH 20/44] fix: let setBasis change the space and keep the
 foundation and pressure when the assembler is re-initialized

---
 src/gsThinShellAssembler.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 61e3951..5ca1e31 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -49,6 +49,11 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
     // surface forces defined in the parametric domain (ONLY WORKS FOR 3D)
     m_parametricForce = (surface_force.domainDim()==2 && (d==2||d==3));
 
+    // foundation is off by default
+    m_foundInd = false;
+    // pressure is off by default
+    m_pressInd = false;
+
     this->_defaultOptions();
     this->_getOptions();
     this->_initialize();
@@ -77,7 +82,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
@@ -90,6 +95,11 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
     // surface forces defined in the parametric domain (ONLY WORKS FOR 3D)
     m_parametricForce = (surface_force.domainDim()==2 && (d==2||d==3));
 
+    // foundation is off by default
+    m_foundInd = false;
+    // pressure is off by default
+    m_pressInd = false;
+
     this->_defaultOptions();
     this->_getOptions();
     this->_initialize();
@@ -106,7 +116,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_homogenized=other.m_homogenized;
@@ -154,7 +164,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_patches=give(other.m_patches);
     m_itpatches=give(other.m_itpatches);
     m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
+    m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : give(other.m_spaceBasis);
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
     m_homogenized=other.m_homogenized;
@@ -264,11 +274,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From aa99f3ab720be00047b85d55ec43ab56024107ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 21/44] fix: create the integrated material of all patches once
 all materials are set

---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From e7a2585f87a2c326274423d9beead371133bb052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 22/44] fix: let the material evaluator use the undeformed
 configuration it is given

---
 src/gsMaterialMatrixEval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..cf61c64 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
-- 
2.43.0


From 23ee0fa01c606f3ef1f3f4ad27e872d232160a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 23/44] fix: use the thickness stretch of the point itself in
 the principal stretches over the thickness

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index fe18f01..2178e73 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -591,7 +591,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch_impl(const
             colIdx = j*u.cols()+k;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
 
-            C33 = C33s(0,k);
+            C33 = C33s(0,colIdx);
 
             // Compute c
             c.setZero();
-- 
2.43.0


From 08273169261217dd0315ca66eaf51d5bf811b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 24/44] fix: evaluate the principal stress directions of linear
 materials

---
 src/gsMaterialMatrixLinear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 17c2c80..b2ce39a 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -620,7 +620,8 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::_E(const T /*z*/, enum MaterialOutput
     else if (   out == MaterialOutput::Generic          ||
                 out == MaterialOutput::Strain           ||
                 out == MaterialOutput::Stress           ||
-                out == MaterialOutput::PStress             ) // To be used with multiplyLinZ_into or integrateZ_into
+                out == MaterialOutput::PStress          ||
+                out == MaterialOutput::PStressDir          ) // To be used with multiplyLinZ_into or integrateZ_into
         strain = 0.5*(m_data.mine().m_Gcov_def.block(0,0,2,2) - m_data.mine().m_Gcov_ori.block(0,0,2,2));
     else
         GISMO_ERROR("Output type MaterialOutput::" + std::to_string((short_t)(out)) + " not understood. See gsMaterialMatrixUtils.h");
-- 
2.43.0


From 0b27457ef122dada926363ed148ae00472665256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 25/44] fix: integrate the principal bending stresses of linear
 materials as their bending moments

---
 src/gsMaterialMatrixIntegrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index d85252d..fed07c2 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -234,7 +234,7 @@ gsMaterialMatrixIntegrateSingle<T,out>::eval_into_impl(const gsMatrix<T>& u, gsM
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Integrated)
         result = this->_eval(u);
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Constant)
-        this->multiplyZ_into(u,getMoment(),result);
+        this->multiplyZ_into(u,(_out==MaterialOutput::PStressM) ? 2 : 0,result);
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Linear)
         this->multiplyLinZ_into(u,getMoment(),result);
     else
-- 
2.43.0


From beb0e972c8056d8ea2b51817ca53023030400faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:50 +0000
Subject: [PATCH 26/44] fix: let materials be constructed without a geometry

---
 src/gsMaterialMatrixBaseDim.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 7bedc88..7384a71 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -58,7 +58,7 @@ public:
     :
     Base(mp,nullptr,nullptr,nullptr)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -68,8 +68,8 @@ public:
     :
     Base(mp,mp_def,nullptr,nullptr)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
-        GISMO_ASSERT(mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp_def==nullptr || mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -80,7 +80,7 @@ public:
     :
     Base(mp,nullptr,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
@@ -92,8 +92,8 @@ public:
     :
     Base(mp,mp_def,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
-        GISMO_ASSERT(mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp_def==nullptr || mp_def->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
-- 
2.43.0


From cbf77493fa6b8a380a64acb753541b4a73c2a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:50 +0000
Subject: [PATCH 27/44] fix: report the undeformed configuration of a material
 when it has one

---
 src/gsMaterialMatrixBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index cef3f66..78bce9b 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -795,7 +795,7 @@ public:
     const function_ptr getDeformed()  const { return m_defpatches; }
 
     virtual bool hasUndeformed() const
-    { return m_defpatches!=nullptr; }
+    { return m_patches!=nullptr; }
     virtual bool hasDeformed() const { return m_defpatches!=nullptr; }
 
     virtual bool initialized() const
-- 
2.43.0


From ab94617c6d85bb3b5f3447845c66d77a699470e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 28/44] fix: transform laminate stiffness matrices correctly on
 skew parametrizations

---
 src/gsMaterialMatrixComposite.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fb5c0cf..0b9e2f1 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -357,7 +357,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_cart2cov(const gsVector<T> & a1,
     Tmat.setZero();
     // Covariant to local cartesian
     Tmat(0,0) = (e1.dot(a1))*(a1.dot(e1));
-    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e2));
+    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e1));
     Tmat(0,2) = 2*(e1.dot(a1))*(a2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(a1))*(a1.dot(e2));
@@ -377,17 +377,17 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_con2cart(const gsVector<T> & ac1,
 {
     gsMatrix<T,3,3> Tmat;
     Tmat.setZero();
-    // Contravariant to local cartesian
+    // Contravariant to local cartesian, for strains in Voigt notation: (E11,E22,2*E12)
     Tmat(0,0) = (e1.dot(ac1))*(ac1.dot(e1));
-    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e2));
-    Tmat(0,2) = 2*(e1.dot(ac1))*(ac2.dot(e1));
+    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e1));
+    Tmat(0,2) = (e1.dot(ac1))*(ac2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(ac1))*(ac1.dot(e2));
     Tmat(1,1) = (e2.dot(ac2))*(ac2.dot(e2));
-    Tmat(1,2) = 2*(e2.dot(ac1))*(ac2.dot(e2));
+    Tmat(1,2) = (e2.dot(ac1))*(ac2.dot(e2));
     // Row 2
-    Tmat(2,0) = (e1.dot(ac1))*(ac1.dot(e2));
-    Tmat(2,1) = (e1.dot(ac2))*(ac2.dot(e2));
+    Tmat(2,0) = 2*(e1.dot(ac1))*(ac1.dot(e2));
+    Tmat(2,1) = 2*(e1.dot(ac2))*(ac2.dot(e2));
     Tmat(2,2) = (e1.dot(ac1))*(ac2.dot(e2)) + (e1.dot(ac2))*(ac1.dot(e2));
     return Tmat;
 }
-- 
2.43.0


From f29cc4fd8d2f978c6c0bc02f50c7e6b17ef2b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 29/44] fix: return the thickness of every layer of a laminate
 on the patch itself

---
 src/gsMaterialMatrixComposite.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 0b9e2f1..fadc8ef 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -176,15 +176,15 @@ void gsMaterialMatrixComposite<dim,T>::thickness_into(const index_t patch, const
     static_cast<const gsFunction<T>&>(m_patches->piece(patch)   ).computeMap(map); // the piece(0) here implies that if you call class.eval_into, it will be evaluated on piece(0). Hence, call class.piece(k).eval_into()
 
     std::vector<gsMatrix<T>> Tcontainer(m_nLayers);
-    for (size_t k=0; k!= m_Rs.size(); k++)
+    for (index_t k=0; k!= m_nLayers; k++)
     {
-        Tcontainer[k] = m_Ts[k]->eval(map.values[0]);
+        Tcontainer[k] = m_Ts[k]->piece(patch).eval(map.values[0]);
         GISMO_ASSERT(Tcontainer[k].rows()==1,"Thickness has the wrong size, must be scalar");
     }
 
+    result.resize(m_nLayers, u.cols());
     for (index_t i = 0; i != m_nLayers; ++i) // layers
-        for (index_t k = 0; k != u.cols(); ++k) // points
-            result.row(i) = Tcontainer[i].row(0);
+        result.row(i) = Tcontainer[i].row(0);
 }
 
 template <short_t dim, class T >
-- 
2.43.0


From d46e02a0fa2124e5e328d0ac1d3d806d202b5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 30/44] fix: include the membrane-bending coupling in the
 stress resultants of laminates

---
 src/gsMaterialMatrixComposite.hpp | 44 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fadc8ef..65f0247 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -293,35 +293,33 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_vector(const index_t patch,
 
     this->_computePoints(patch,u);
     gsMatrix<T> result(3, u.cols());
-    enum MaterialOutput _out;
-    if      (out==MaterialOutput::VectorN)
-        _out=MaterialOutput::MatrixA;
-    else if (out==MaterialOutput::VectorM)
-        _out=MaterialOutput::MatrixD;
-    else
-        GISMO_ERROR("Output unknown");
+    GISMO_ENSURE(out==MaterialOutput::VectorN || out==MaterialOutput::VectorM,"Output type is not VectorN or VectorM!");
 
-    gsMatrix<T> Cmat = this->eval3D_matrix(patch,u,z,_out);
-    gsMatrix<T> Eij(2,2);
+    // Membrane-bending coupling: N = A*E + B*K, M = C*E + D*K
+    gsMatrix<T> Emat, Kmat;
+    if (out==MaterialOutput::VectorN)
+    {
+        Emat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixA);
+        Kmat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixB);
+    }
+    else
+    {
+        Emat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixC);
+        Kmat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixD);
+    }
+    gsMatrix<T> Eij, Kij;
+    gsVector<T,3> Evec, Kvec;
 
     for (index_t k = 0; k != u.cols(); ++k)
     {
         this->_getMetric(k,0.0); // on point i, with height 0.0
 
-        if      (out == MaterialOutput::VectorN) // To be used with multiplyZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
-        else if (out == MaterialOutput::VectorM) // To be used with multiplyZ_into
-            Eij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else if (out == MaterialOutput::Generic) // To be used with multiplyLinZ_into or integrateZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori) + z*(m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else
-            GISMO_ERROR("Output type is not VectorN, VectorM or Generic!");
-
-        Eij(0,1) += Eij(1,0);
-        std::swap(Eij(1,0), Eij(1,1));
-        Eij.resize(4,1);
-        Eij.conservativeResize(3,1);
-        result.col(k) = Cmat.reshapeCol(k,3,3) * Eij;
+        Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
+        Kij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
+
+        Evec << Eij(0,0), Eij(1,1), Eij(0,1) + Eij(1,0);
+        Kvec << Kij(0,0), Kij(1,1), Kij(0,1) + Kij(1,0);
+        result.col(k) = Emat.reshapeCol(k,3,3) * Evec + Kmat.reshapeCol(k,3,3) * Kvec;
     }
     return result;
 }
-- 
2.43.0


From f198ef397817578ceecafa0aea372cfba8af97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:04 +0000
Subject: [PATCH 31/44] fix: sign of the wrinkling direction's sensitivity in
 the linear tension field tangent

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a87fe4f..1143d07 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -865,7 +865,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // dF/dE
     // gsMatrix<T> dfdE = ( n2_vec.transpose() - tmp * n1_vec.transpose() ) * C;
-    gsMatrix<T> dfdE = n2_vec.transpose() * C - dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
+    gsMatrix<T> dfdE = n2_vec.transpose() * C + dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
     dfdE.transposeInPlace();
 
     // dF/dT
-- 
2.43.0


From 25508da5c4f99bc2314fadf89490cefc8023a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:04 +0000
Subject: [PATCH 32/44] fix: divide the Cauchy stress of wrinkled states by the
 determinant of the deformation gradient

---
 src/gsMaterialMatrixTFT.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 1143d07..f7efbb2 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -207,8 +207,6 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
     T theta;
-
-    this->_computePoints(patch,u);
     for (index_t k=0; k!=u.cols(); k++)
     {
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
@@ -226,15 +224,14 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
             }
             else if (TF(0,colIdx) == 0) // wrinkled
             {
-                this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
                 gsMatrix<T> C = m_materialMat->eval3D_matrix(patch,u.col(k),z(j,k),MaterialOutput::MatrixA);
                 gsMatrix<T> N = m_materialMat->eval3D_stress(patch,u.col(k),z(j,k),MaterialOutput::VectorN);;
                 gsMatrix<T> E = m_materialMat->eval3D_strain(patch,u.col(k),z(j,k));
                 gsMatrix<T> thetas = eval_theta(C,N,E);
                 theta = thetas(0,0);
                 gsMatrix<T> S = this->_compute_S(theta,C.reshape(3,3),N);
-                T detF = math::sqrt(m_data.mine().m_J0_sq)*1.0;
-                result.col(colIdx) = S / math::sqrt(detF);
+                gsMatrix<T> detF = m_materialMat->eval3D_detF(patch,u.col(k),z.block(j,k,1,1),MaterialOutput::Generic);
+                result.col(colIdx) = S / detF(0,0);
             }
             else
                 GISMO_ERROR("Tension field data not understood: "<<TF(0,colIdx));
-- 
2.43.0


From 6187317d730c3a035943fa2e89093198df16fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:04 +0000
Subject: [PATCH 33/44] fix: size of the wrinkling angle and strain for several
 through-thickness points

---
 src/gsMaterialMatrixTFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index f7efbb2..4b7fc19 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -300,7 +300,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_tensionfield(const index_t
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
@@ -332,7 +332,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch,
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_gamma(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
-- 
2.43.0


From 17064068745d400baae1221f4eed8af7ab4bbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:45 +0000
Subject: [PATCH 34/44] fix: principal stress output was evaluated on the first
 patch only

---
 src/gsThinShellFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..374c5e6 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -206,7 +206,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_stress :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Sp,u.col(k));
+                result.col(k) = ev.eval(Sp,u.col(k),m_patchID);
             break;
         case stress_type::principal_stress_membrane :
             for (index_t k = 0; k != u.cols(); ++k)
@@ -240,21 +240,21 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::principal_stress_dir1 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(0);
             }
             break;
         case stress_type::principal_stress_dir2 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(1);
             }
             break;
         case stress_type::principal_stress_dir3 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(2);
             }
             break;
-- 
2.43.0


From 6d3326c39456f148728cb6306b98ffc06466be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:45 +0000
Subject: [PATCH 35/44] fix: flexural strain output doubled the shear component
 before rotating it

---
 src/gsThinShellFunctions.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 374c5e6..9e64d79 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -80,8 +80,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
-    gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-    variable m_m2 = ev.getVariable(mult2t);
     gsFunctionExpr<> mult12t("1","0","0","0","1","0","0","0","0.5",2);
     variable m_m12 = ev.getVariable(mult12t);
 
@@ -90,7 +88,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
+    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
-- 
2.43.0


From c094182aed4df16c8132399fae830039ffce15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:09 +0000
Subject: [PATCH 36/44] fix: membrane force component goals on boundaries and
 in points assembled the force instead of its variation

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 94d5d85..1265b7e 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -983,7 +983,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1459,7 +1459,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         else
         {
             // remove N_der from this scipe
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From 383c44dbebe13cbaa8c8cccad9b380dce6173de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:09 +0000
Subject: [PATCH 37/44] fix: the dual of the flexural strain norm on boundaries
 doubled the shear contribution

---
 src/gsThinShellAssemblerDWR.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 1265b7e..299db0c 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1001,9 +1001,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     {
         if (m_component==9)
         {
-            gsFunctionExpr<T> mult110t("1","0","0","0","1","0","0","0","0",2);
-            auto m110 = exprAssembler.getCoeff(mult2t);
-            auto expr = 2*Ef_der * reshape(m110,3,3) *  Ef.tr() * meas(Gori);
+            auto expr = 2 * Ef_der * Ef.tr() * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
-- 
2.43.0


From cfcfec8ff9a36eb3c5bbf152864d50c03d289c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 38/44] fix: component goal of the principal stretch in points
 evaluated the displacement

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 299db0c..51c83db 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3305,7 +3305,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = lambda.tr() * gismo::expr::uv(m_component,3)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From ea010883a6de6a4f0a7f2cc09482f6a569ce7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:48 +0000
Subject: [PATCH 39/44] fix: buckling error estimate and norm used the wrong
 sign in the variation of the curvature

---
 src/gsThinShellAssemblerDWR.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 51c83db..9356285 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2478,9 +2478,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsolH) - jac(zsolL) ) ) ;
 
     auto M_L        = S1.tr(); // output is a column
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_L  = -(
-                         deriv2(zsolH, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolH, Gori) )
+                         deriv2(zsolH, sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsolH, Gori) )
                         -deriv2(zsolL, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolL, Gori) )
                        ) * reshape(m2, 3, 3);
 
@@ -2500,9 +2500,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Emd_der2   = flat( jac(usol).tr() * ( jac(zsolH) - jac(zsolL) ) ) * N_NL.tr();
 
     auto M_NL       = S1.tr(); // output is a column
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_NL = -(
-                         deriv2(zsolH, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolH, Gdef) )
+                         deriv2(zsolH, sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsolH, Gdef) )
                         -deriv2(zsolL, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolL, Gdef) )
                        ) * reshape(m2, 3, 3);
 
@@ -3597,10 +3597,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     auto zsol = exprAssembler.getCoeff(other);
 
     auto Em_der_L   = flat(  jac(Gori).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
 
 
     auto N_der_L     = Em_derd_L * reshape(mmA_L,3,3) + Ef_derd_L * reshape(mmB_L,3,3);
@@ -3608,10 +3608,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
 
     auto N_NL       = S0.tr();
     auto Em_der_NL  = flat(  jac(Gdef).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_NL = flat(  jac(Gdef).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_der2    = flat( jac(usol).tr() * ( jac(zsol )               ) ) * N_NL.tr();
 
-- 
2.43.0


From bf3713889075207ef0373b159e9fa59a73c780be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 40/44] fix: principal stretch goal in points used the
 transposed transformation

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 9356285..22e03d1 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3241,7 +3241,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     auto Cm      = flat( jac(Gdef).tr() * jac(Gdef) ) * reshape(m12,3,3);
 
     // Principal stretch
-    auto lambda  = reshape(Tstretch,3,3).tr() * Cm.tr();
+    auto lambda  = reshape(Tstretch,3,3) * Cm.tr();
 
     // Membrane strain
     auto Em     = 0.5 * ( flat(jac(Gdef).tr()*jac(Gdef)) - flat(jac(Gori).tr()* jac(Gori)) ) ;
-- 
2.43.0


From cdc450225c44540d019351d588482c29b024c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 41/44] fix: dual of the principal stress goal in points
 multiplied matrices of different sizes

---
 src/gsThinShellAssemblerDWR.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 22e03d1..82d4ba8 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1333,9 +1333,15 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     }
     else if (m_goalFunction == GoalFunction::PStress)
     {
+        // to convert P0 from a vector of length 2 to 3, this matrix is [[1,0],[0,1],[0,0]]
+        gsMatrix<T> convMat(3,2);
+        convMat.setZero();
+        convMat(0,0) = convMat(1,1) = 1;
+        gsConstantFunction<T> convFun(convMat.reshape(6,1),2);
+        auto conv = exprAssembler.getCoeff(convFun);
         if (m_component==9)
         {
-            auto expr = 2 * Smp_der * P0 * meas(Gori);
+            auto expr = 2 * Smp_der * reshape(conv,3,2) * P0 * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
@@ -1351,7 +1357,8 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = Smp_der * gismo::expr::uv(m_component,3) * meas(Gori);
+            GISMO_ASSERT(m_component < 2,"Can only select principle stress component 0 or 1, but "<<m_component<<" selected.");
+            auto expr = Smp_der * reshape(conv,3,2) * gismo::expr::uv(m_component,2) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From 7fe16ead93e6721538bc24e9f796d87315af2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 42/44] fix: second variation of the normal for two variables
 returned a projected, wrongly combined vector

---
 src/gsThinShellUtils.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 7e4985c..dabdd5c 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -606,7 +606,7 @@ private:
         n_der.noalias() = (m_v - ( normal*m_v.transpose() ) * normal); // outer-product version
 
         m_uv.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( vGrads.col(1).template head<3>() )
-                         - ( vGrads.col(1).template head<3>() ).cross( uGrads.col(0).template head<3>() ) )
+                         + ( vGrads.col(0).template head<3>() ).cross( uGrads.col(1).template head<3>() ) )
                         / measure;
 
         m_u_der.noalias() = (m_uv - ( normal.dot(m_v) ) * m_u);
@@ -616,9 +616,6 @@ private:
         tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
         // tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
 
-        // Evaluate the product
-        tmp = cDer2 * tmp; // E_f_der2, last component
-        tmp.row(2) *= 2.0;
         res = tmp;
         return res;
     }
-- 
2.43.0


From fb8fe11701c8dff40ee1fa16d3d7c4d425fe971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:02 +0000
Subject: [PATCH 43/44] fix: second derivatives of a variable were those of the
 first evaluation point

---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index dabdd5c..5baf965 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1496,7 +1496,6 @@ public:
         typename util::enable_if< util::is_same<U,gsFeVariable<Scalar> >::value, const gsMatrix<Scalar> & >::type
         eval_impl(const U & u, const index_t k)  const
         {
-            GISMO_UNUSED(k); //should this use k??
             /*
                 Here, we compute the hessian of the geometry map.
                 The hessian of the geometry map c has the form: hess(c)
@@ -1510,7 +1509,7 @@ public:
             tmp = u.data().values[2];
             res.resize(rows(),cols());
             for (index_t comp = 0; comp != u.source().targetDim(); comp++)
-                res.col(comp) = tmp.block(comp*rows(),0,rows(),1); //star,length
+                res.col(comp) = tmp.block(comp*rows(),k,rows(),1); //star,length
             return res;
         }
 
-- 
2.43.0


From 4cd16b2220faf38ba4cce0f5d89a6b6707fdc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:25 +0000
Subject: [PATCH 44/44] fix: point loads were spread over the elements of all
 patches in element-wise error estimates

---
 src/gsThinShellAssemblerDWR.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 82d4ba8..c9b49ae 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3702,7 +3702,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                 for (; domIt<domItEnd; ++domIt )
 #               endif
                 {
-                    bool test = !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
+                    bool test = (static_cast<index_t>(patchInd)==m_pLoads[i].patch) &&
+                                !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
                                     (domIt.upperCorner() - forcePoint).array() >= 0)   ).array() == 0).any();
                     if (test)
                         elements_private.push_back(c);
@@ -3712,9 +3713,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                                     c++;
                     #endif
                 }
-#pragma omp critical
-                elements.insert(elements.end(), elements_private.begin(), elements_private.end());
             }
+#pragma omp critical
+            elements.insert(elements.end(), elements_private.begin(), elements_private.end());
         }
 
         // Compute load value on the point
-- 
2.43.0

