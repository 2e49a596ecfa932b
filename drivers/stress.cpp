// Stress and strain output fields of the assembler on two patches.  -DKIND=0 linear, 1 incompressible neo-Hookean  -DDIM=2|3
#include "twomat.h"
#if KIND==0
#define KN sl
#elif KIND==1
#define KN si
#else
#define KN sc
#endif
namespace {
typedef gsThinShellAssembler<DIM,R,DIM==3> Asm;
typedef stress_type::type ST;
struct Out : public Two
{
    gsMultiBasis<R> bs; gsBoundaryConditions<R> bc; gsConstantFunction<R> force; std::unique_ptr<Asm> as; gsMaterialMatrixContainer<R> mc; gsPiecewiseFunction<R> f; Mat u;
    Out(Ctx & c,ST t,bool flat=false):Two(c,KIND!=2,flat),bs(mp),mc(2)
    {
        gsVector<R> z(DIM); z.setZero(); force=gsConstantFunction<R>(z,2); mc.set(0,*m1); mc.set(1,*m2); bc.setGeoMap(mp); as.reset(new Asm(mp,bs,bc,force,mc)); as->constructStress(def,f,t); u=points();
    }
    Loc lo(int p,const Mat & x) const { return Bern(x(0,0),x(1,0)).at(mp.patch(p).coefs()); }
    Loc ld(int p,const Mat & x) const { return Bern(x(0,0),x(1,0)).at(def.patch(p).coefs()); }
};
// orthonormal tangent vectors: the first along the first tangent of the surface
void frame(const Loc & l,R e[2][3]){ R q=len3(l.a1),s(0),v[3]; for(int i=0;i<3;++i) e[0][i]=l.a1[i]/q; s=dot3(l.a2,e[0]); for(int i=0;i<3;++i) v[i]=l.a2[i]-s*e[0][i]; q=len3(v); for(int i=0;i<3;++i) e[1][i]=v[i]/q; }
// Cartesian components (11,22,12) of a tensor with components X on the basis g
Mat cart(const R X[2][2],const R g[2][3],const R e[2][3])
{ Mat r(3,1); for(int v=0;v<3;++v){ int a= v==1,b= v>0; r(v,0)=R(0); for(int i=0;i<2;++i) for(int j=0;j<2;++j) r(v,0)+=X[i][j]*dot3(g[i],e[a])*dot3(g[j],e[b]); } return r; }
Mat stressCart(const Mat & s,const Loc & l){ R e[2][3]; frame(l,e); R X[2][2]={{s(0,0),s(2,0)},{s(2,0),s(1,0)}}; Kin k(l,R(0),3); return cart(X,k.g,e); }
void cuts(Ctx & c,const std::string & n,Mat & v){ for(int i=0;i<v.rows();++i) c.cut(S(n,i),v(i,0)); }
void column(Ctx & c,const std::string & n,const Mat & got,int k,const Mat & want){ c.eq(n+".rows",R((int)got.rows()),R((int)want.rows())); for(int i=0;i<want.rows()&&i<got.rows();++i) c.eq(S(n+"_",i),got(i,k),want(i,0)); }

template<class F> void field(Ctx & c,ST t,F want,bool flat=false)
{
    Out o(c,t,flat); for(int p=0;p<2;++p){ Mat V=o.f.piece(p).eval(o.u); c.eq(S("cols",p),R((int)V.cols()),R(3)); c.eq(S("dim",p),R((int)o.f.piece(p).targetDim()),R((int)V.rows())); for(int k=0;k<3;++k){ std::string n=S2("f",p,k); column(c,n,V,k,want(c,n,o,p,Mat(o.u.col(k)))); } }
}
// pointwise stress of the material of the patch, in the local Cartesian frame of the undeformed (deformed: Cauchy) surface
template<O o> struct PS { Mat operator()(Ctx & c,const std::string & n,Out & s,int p,const Mat & x) const { std::unique_ptr<MM> m=s.alone(p,p); Mat v=value(*m,o,0,x,sc(R(0))); cuts(c,n+"v",v); bool ca= o==O::CauchyStressN||o==O::CauchyStressM; return stressCart(v,ca? s.ld(p,x): s.lo(p,x)); } };
template<O o> struct IN { Mat operator()(Ctx & c,const std::string & n,Out & s,int p,const Mat & x) const { std::unique_ptr<MM> m=s.alone(p,p); gsMaterialMatrixIntegrate<R,o> I(m.get(),&s.oneDef[p]); Mat v=I.piece(0).eval(x); cuts(c,n+"v",v); bool ca= o==O::CauchyVectorN||o==O::CauchyVectorM; return stressCart(v,ca? s.ld(p,x): s.lo(p,x)); } };
template<O o> struct VM { Mat operator()(Ctx & c,const std::string & n,Out & s,int p,const Mat & x) const { Mat w=PS<o>()(c,n,s,p,x),r(1,1); r(0,0)=sqrt(w(0,0)*w(0,0)+w(1,0)*w(1,0)-w(0,0)*w(1,0)+3*w(2,0)*w(2,0)); return r; } };
// the value of the material itself
template<O o,int row=-1> struct VA { Mat operator()(Ctx & c,const std::string & n,Out & s,int p,const Mat & x) const { std::unique_ptr<MM> m=s.alone(p,p); Mat v=value(*m,o,0,x,sc(R(0))); cuts(c,n+"v",v); if(row<0) return v; Mat r(3,1); for(int i=0;i<3;++i) r(i,0)=v(i+3*row,0); return r; } };
struct Disp { Mat operator()(Ctx &,const std::string &,Out & s,int p,const Mat & x) const { Loc a=s.lo(p,x),b=s.ld(p,x); Mat r(3,1); for(int i=0;i<3;++i) r(i,0)=b.x[i]-a.x[i]; return r; } };
struct Mem { Mat operator()(Ctx &,const std::string &,Out & s,int p,const Mat & x) const { Loc a=s.lo(p,x); Kin o(a,R(0),3),f(s.ld(p,x),R(0),3); R X[2][2],e[2][3]; for(int i=0;i<2;++i) for(int j=0;j<2;++j) X[i][j]=(f.A[i][j]-o.A[i][j])/2; frame(a,e); return cart(X,o.gc,e); } };
struct Flex { Mat operator()(Ctx &,const std::string &,Out & s,int p,const Mat & x) const { Loc a=s.lo(p,x); Kin o(a,R(0),3),f(s.ld(p,x),R(0),3); R X[2][2],e[2][3]; for(int i=0;i<2;++i) for(int j=0;j<2;++j) X[i][j]=o.B[i][j]-f.B[i][j]; frame(a,e); return cart(X,o.gc,e); } };

#if DIM==3
NM(displacement){ field(c,stress_type::displacement,Disp()); }
NM(flexStrain){ field(c,stress_type::flexural_strain,Flex()); }
#endif
NM(memStrain){ field(c,stress_type::membrane_strain,Mem()); }
NM(membrane){ field(c,stress_type::membrane,PS<O::CauchyStressN>()); }
NM(membranePK2){ field(c,stress_type::membrane_PK2,PS<O::StressN>()); }
NM(flexural){ field(c,stress_type::flexural,PS<O::CauchyStressM>()); }
NM(flexuralPK2){ field(c,stress_type::flexural_PK2,PS<O::StressM>()); }
NM(force){ field(c,stress_type::membrane_force,IN<O::CauchyVectorN>()); }
NM(forcePK2){ field(c,stress_type::membrane_force_PK2,IN<O::VectorN>()); }
NM(moment){ field(c,stress_type::flexural_moment,IN<O::CauchyVectorM>()); }
NM(momentPK2){ field(c,stress_type::flexural_moment_PK2,IN<O::VectorM>()); }
NM(misesM){ field(c,stress_type::von_mises_membrane,VM<O::StressN>()); }
NM(misesF){ field(c,stress_type::von_mises_flexural,VM<O::StressM>()); }
NM(pstrain){ field(c,stress_type::principal_membrane_strain,VA<O::PStrainN>(),true); }
NM(stretch){ field(c,stress_type::principal_stretch,VA<O::Stretch>(),true); }
NM(pstress){ field(c,stress_type::principal_stress,VA<O::PStress>(),true); }
NM(pstressM){ field(c,stress_type::principal_stress_membrane,VA<O::PCauchyStressN>(),true); }
NM(pstressF){ field(c,stress_type::principal_stress_flexural,VA<O::PCauchyStressM>(),true); }
NM(sdir1){ field(c,stress_type::principal_stretch_dir1,VA<O::StretchDir,0>(),true); }
NM(sdir2){ field(c,stress_type::principal_stretch_dir2,VA<O::StretchDir,1>(),true); }
NM(sdir3){ field(c,stress_type::principal_stretch_dir3,VA<O::StretchDir,2>(),true); }
NM(tdir1){ field(c,stress_type::principal_stress_dir1,VA<O::PStressDir,0>(),true); }
NM(tdir2){ field(c,stress_type::principal_stress_dir2,VA<O::PStressDir,1>(),true); }
NM(tdir3){ field(c,stress_type::principal_stress_dir3,VA<O::PStressDir,2>(),true); }
NM(tension){ field(c,stress_type::tension_field,VA<O::TensionField>(),true); }
}
