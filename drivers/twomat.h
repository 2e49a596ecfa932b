// Two patches with their own geometry and materials that vary over the surface (needs KIND: 0 linear, 1 incompressible, 2 compressible neo-Hookean; DIM).
#pragma once
#include "shell.h"
#include <gsKLShell/src/gsMaterialMatrixNonlinear.h>
#include <gsKLShell/src/gsMaterialMatrixEval.h>
#include <gsKLShell/src/gsMaterialMatrixIntegrate.h>
#ifndef DIM
#define DIM 3
#endif
namespace {
#if KIND==0
typedef gsMaterialMatrixLinear<DIM,R> MM;
#elif KIND==1
typedef gsMaterialMatrixNonlinear<DIM,R,11,false> MM;
#elif KIND==2
typedef gsMaterialMatrixNonlinear<DIM,R,11,true> MM;
#endif
#define CAT_(a,d,b) a##d##_##b
#define CAT(a,d,b) CAT_(a,d,b)
#define VC_(n) VCASE(n)
#define NM(n) VC_(CAT(KN,DIM,n))
typedef MaterialOutput O;
typedef gsMaterialMatrixBase<R> MB;

// two patches with different geometry, thickness, density and parameters that vary over the surface; two materials
// an affine function per patch
struct Pw : public gsPiecewiseFunction<R>
{
    Affine a[2]; Pw(int in,int out){ a[0]=a[1]=Affine(in,out); }
    void seal(const R & f){ a[1].c0=a[1].c0+a[0].c0*f; a[1].C=a[1].C-a[0].C*f; addPiece(a[0]); addPiece(a[1]); }
};
struct Two
{
    gsMultiPatch<R> mp,def; Pw t,E,nu,rho,E2,rho2,t2; std::vector<gsFunctionSet<R>*> p1,p2; std::unique_ptr<MM> m1,m2;
    Two(Ctx & c,bool sym=true,bool flat=false): t(DIM,1),E(DIM,1),nu(DIM,1),rho(DIM,1),E2(DIM,1),rho2(DIM,1),t2(DIM,1)
    {
        Mat a=net(DIM),b=net(DIM),u=dispNet(DIM),w=dispNet(DIM); for(int m=0;m<9;++m){ b(m,0)=b(m,0)*rat(5,4)+R(2); b(m,1)=b(m,1)-b(m,0)/8; w(m,1)=w(m,0)*rat(1,2)-w(m,1); }
        if(flat&&DIM==3) for(int m=0;m<9;++m) a(m,DIM-1)=b(m,DIM-1)=R(0);
        if(sym){ u(4,DIM-1)=c.in("u4",0.07,-0.2,0.2); w(4,0)=c.in("w4",0.04,-0.2,0.2); }
        mp.addPatch(bern(a)); mp.addPatch(bern(b)); def.addPatch(bern(a+u)); def.addPatch(bern(b+w));
        t.a[0].c0(0,0)= sym? c.in("t",0.1,0.05,0.3): rat(1,10); t.a[0].C(0,0)=rat(1,50); t.a[0].C(0,1)=rat(1,80);
        t2.a[0].c0(0,0)= sym? c.in("tb",0.2,0.05,0.3): rat(1,5); t2.a[0].C(0,1)=rat(1,70);
        E.a[0].c0(0,0)= sym? c.in("E",3,0.5,10): R(3); E.a[0].C(0,1)=rat(1,2); E2.a[0].c0(0,0)= sym? c.in("E2",5,0.5,10): R(5); E2.a[0].C(0,0)=rat(1,4);
        nu.a[0].c0(0,0)=rat(3,10); nu.a[0].C(0,0)=rat(1,50);
        rho.a[0].c0(0,0)= sym? c.in("rho",2,0.1,5): R(2); rho.a[0].C(0,0)=rat(1,3); rho2.a[0].c0(0,0)=R(7); rho2.a[0].C(0,1)=rat(1,5);
        t.seal(rat(3,2)); t2.seal(rat(4,5)); E.seal(rat(4,3)); E2.seal(rat(3,4)); nu.seal(rat(5,4)); rho.seal(rat(7,5)); rho2.seal(rat(2,3)); p1={&E,&nu}; p2={&E2,&nu}; m1.reset(new MM(mp,t,p1,rho)); m2.reset(new MM(mp,t2,p2,rho2));
    }
    // a material on its own, to be evaluated in one point
    std::unique_ptr<MM> fresh(int which) const { std::unique_ptr<MM> m(which? new MM(mp,t2,p2,rho2): new MM(mp,t,p1,rho)); m->setDeformed(&def); return m; }
    // the same on patch p only
    gsMultiPatch<R> one[2],oneDef[2];
    std::unique_ptr<MM> alone(int which,int p)
    {
        if(one[p].nPatches()==0){ one[p].addPatch(mp.patch(p)); oneDef[p].addPatch(def.patch(p)); }
        std::vector<gsFunctionSet<R>*> q={&(which?E2:E).a[p],&nu.a[p]}; std::unique_ptr<MM> m(new MM(one[p],(which?t2:t).a[p],q,(which?rho2:rho).a[p])); m->setDeformed(&oneDef[p]); return m;
    }
    R thick(int which,int patch,const Mat & u) const { Mat x=mp.patch(patch).eval(u); R X[3]={x(0,0),x(1,0),DIM==3? x(DIM-1,0):R(0)}; return (which?t2:t).a[patch].at(X)(0,0); }
    R dens(int which,int patch,const Mat & u) const { Mat x=mp.patch(patch).eval(u); R X[3]={x(0,0),x(1,0),DIM==3? x(DIM-1,0):R(0)}; return (which?rho2:rho).a[patch].at(X)(0,0); }
};
Mat points(){ Mat u(2,3); u<<rat(1,4),rat(1,2),R(1),rat(1,2),rat(3,4),rat(1,8); return u; }
Mat hs(int n,int cols){ Mat z(n,cols); for(int j=0;j<n;++j) for(int k=0;k<cols;++k) z(j,k)= rat(2*j-1,8)+rat(k,16); return z; }

// values of the material at one point and height
Mat value(const MB & m,O o,int p,const Mat & u,const Mat & z)
{
    switch(o)
    {
    case O::VectorN: case O::VectorM: case O::Generic: return m.eval3D_vector(p,u,z,o);
    case O::MatrixA: case O::MatrixB: case O::MatrixC: case O::MatrixD: return m.eval3D_matrix(p,u,z,o);
    case O::CauchyVectorN: case O::CauchyVectorM: return m.eval3D_CauchyVector(p,u,z,o);
    case O::PStress: case O::PStressN: case O::PStressM: return m.eval3D_pstress(p,u,z,o);
    case O::PCauchyStressN: case O::PCauchyStressM: return m.eval3D_CauchyPStress(p,u,z,o);
    case O::PStressDir: return m.eval3D_pstressDir(p,u,z,o);
    case O::Stretch: return m.eval3D_pstretch(p,u,z);
    case O::StretchDir: return m.eval3D_pstretchDir(p,u,z);
    case O::PStrainN: return m.eval3D_pstrain(p,u,z);
    case O::Spec2CovTransform: return m.eval3D_spec2cov(p,u,z);
    case O::Spec2ConTransform: return m.eval3D_spec2con(p,u,z);
    case O::Cov2CartTransform: return m.eval3D_cov2cart(p,u,z);
    case O::Con2CartTransform: return m.eval3D_con2cart(p,u,z);
    case O::TensionField: return m.eval3D_tensionfield(p,u,z,o);
    case O::Strain: case O::StrainN: return m.eval3D_strain(p,u,z);
    case O::Stress: case O::StressN: case O::StressM: return m.eval3D_stress(p,u,z,o);
    case O::CauchyStressN: case O::CauchyStressM: return m.eval3D_CauchyStress(p,u,z,o);
    case O::Deformation: return m.eval3D_deformation(p,u,z);
    case O::Thickness: { Mat r; m.thickness_into(p,u,r); return r; }
    case O::Density: { Mat r; m.density_into(p,u,r); return r; }
    case O::Parameters: { Mat r; m.parameters_into(p,u,r); return r; }
    default: GISMO_ERROR("value");
    }
}
}
