#include "common.h"
#include <gsKLShell/src/gsMaterialMatrixLinear.h>

namespace {
// plane-stress isotropic elasticity tensor in the basis with contravariant metric Ac
static R svk(const R & E,const R & nu,R Ac[2][2],int i,int j,int k,int l)
{ return E*nu/(1-nu*nu)*Ac[i][j]*Ac[k][l]+E/(2*(1+nu))*(Ac[i][k]*Ac[j][l]+Ac[i][l]*Ac[j][k]); }
static const int VI[3]={0,1,0},VJ[3]={0,1,1};

template<int d> struct LinFix
{
    Loc lo,ld; R E,nu,t,z; gsMultiPatch<R> mp,mpd;
    gsConstantFunction<R> ft,fE,fnu,frho;
    std::unique_ptr<gsMaterialMatrixLinear<d,R> > m;
    LinFix(Ctx & c,bool curv,bool curvo)
    {
        lo=planar(c,"o",1.2,0.25,0.9); ld=planar(c,"d",1.4,-0.3,1.1);
        if(d==3&&curv) curved(c,ld,"d",0.3,-0.2,0.5);
        if(d==3&&curvo) curved(c,lo,"o",0.2,0.1,-0.4);
        E=c.in("E",3,0.5,10); nu=c.in("nu",0.3,0,0.49); t=c.in("t",0.1,0.01,0.5); z=c.in("z",0.2,-0.5,0.5);
        mp=mpOf(lo,d); mpd=mpOf(ld,d);
        ft=gsConstantFunction<R>(t,d); fE=gsConstantFunction<R>(E,d); fnu=gsConstantFunction<R>(nu,d);
        m.reset(new gsMaterialMatrixLinear<d,R>(mp,ft,fE,fnu)); m->setDeformed(&mpd);
    }
};

template<int d> void matrixCase(Ctx & c)
{
    LinFix<d> f(c,true,true);
    Mat C=as33(f.m->eval3D_matrix(0,pt(0,0),sc(f.z),MaterialOutput::Generic),0);
    Kin k(f.lo,R(0),d); Mat X(3,3);
    for(int i=0;i<3;++i) for(int j=0;j<3;++j) X(i,j)=svk(f.E,f.nu,k.Ac,VI[i],VJ[i],VI[j],VJ[j]);
    c.eqm("C",C,X);
}
VCASE(lin3_matrix){ matrixCase<3>(c); }
VCASE(lin2_matrix){ matrixCase<2>(c); }

static Mat stressOf(const R & E,const R & nu,R Ac[2][2],R e[2][2])
{ Mat s(3,1); for(int a=0;a<3;++a){ s(a,0)=R(0); for(int k=0;k<2;++k) for(int l=0;l<2;++l) s(a,0)+=svk(E,nu,Ac,VI[a],VJ[a],k,l)*e[k][l]; } return s; }

// stress resultants: N from the membrane strain, M from the change of curvature, generic from the full strain at height z
template<int d> void vectorCase(Ctx & c,int which)
{
    LinFix<d> f(c,which>0,which==1);
    Kin k0(f.lo,R(0),d),k1(f.ld,R(0),d); R e[2][2];
    Mat V;
    if(which==0){ V=f.m->eval3D_vector(0,pt(0,0),sc(f.z),MaterialOutput::VectorN); for(int i=0;i<2;++i) for(int j=0;j<2;++j) e[i][j]=(k1.A[i][j]-k0.A[i][j])/2; }
    else if(which==1){ V=f.m->eval3D_vector(0,pt(0,0),sc(f.z),MaterialOutput::VectorM); for(int i=0;i<2;++i) for(int j=0;j<2;++j) e[i][j]=k0.B[i][j]-k1.B[i][j]; }
    else
    {
        R h=f.z*f.t; Kin z0(f.lo,h,d),z1(f.ld,h,d);
        V=f.m->eval3D_vector(0,pt(0,0),sc(f.z),MaterialOutput::Generic); for(int i=0;i<2;++i) for(int j=0;j<2;++j) e[i][j]=(z1.G[i][j]-z0.G[i][j])/2;
    }
    c.eqm("S",V,stressOf(f.E,f.nu,k0.Ac,e));
}
VCASE(lin3_vectorN){ vectorCase<3>(c,0); }
VCASE(lin3_vectorM){ vectorCase<3>(c,1); }
VCASE(lin3_generic){ vectorCase<3>(c,2); }
VCASE(lin2_vectorN){ vectorCase<2>(c,0); }
VCASE(lin2_generic){ vectorCase<2>(c,2); }

// Green-Lagrange strain of the shifted surface
template<int d> void strainCase(Ctx & c,bool curvo)
{
    LinFix<d> f(c,true,curvo); R h=f.z*f.t; Kin z0(f.lo,h,d),z1(f.ld,h,d);
    Mat E=f.m->eval3D_strain(0,pt(0,0),sc(f.z)); Mat X(3,1);
    X(0,0)=(z1.G[0][0]-z0.G[0][0])/2; X(1,0)=(z1.G[1][1]-z0.G[1][1])/2; X(2,0)=z1.G[0][1]-z0.G[0][1];
    c.eqm("E",E,X);
}
VCASE(strain3){ strainCase<3>(c,true); }
VCASE(strain3_flat){ strainCase<3>(c,false); }
VCASE(strain2){ strainCase<2>(c,false); }

// Cauchy stress: second Piola stress over the area-and-thickness ratio of the deformation
template<int d> void cauchyCase(Ctx & c)
{
    LinFix<d> f(c,false,false); Kin k0(f.lo,R(0),d),k1(f.ld,R(0),d); R e[2][2];
    for(int i=0;i<2;++i) for(int j=0;j<2;++j) e[i][j]=(k1.A[i][j]-k0.A[i][j])/2;
    Mat V=f.m->eval3D_CauchyStress(0,pt(0,0),sc(f.z),MaterialOutput::CauchyStressN); Mat X=stressOf(f.E,f.nu,k0.Ac,e);
    R J=f.ld.a1[0]*f.ld.a2[1]/(f.lo.a1[0]*f.lo.a2[1]);
    for(int i=0;i<3;++i) X(i,0)=X(i,0)/J;
    c.eqm("sigma",V,X);
    Mat dF=f.m->eval3D_detF(0,pt(0,0),sc(f.z),MaterialOutput::Generic); c.eq("detF",dF(0,0),J);
}
VCASE(lin3_cauchy){ cauchyCase<3>(c); }
VCASE(lin2_cauchy){ cauchyCase<2>(c); }
} // namespace
