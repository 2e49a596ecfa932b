// Principal stretches, strains and stresses with their directions, and the basis transformations.
#include "common.h"
#include <gsKLShell/src/gsMaterialMatrixLinear.h>
#include <gsKLShell/src/gsMaterialMatrixNonlinear.h>
namespace {
template<class MM,int d> struct PFix
{
    Loc lo,ld; R E,nu,t,z; gsMultiPatch<R> mp,mpd; gsConstantFunction<R> ft,fE,fnu; std::unique_ptr<MM> m; Kin k0,k1;
    static Loc ori(Ctx & c,int tilt)
    {
        Loc l=planar(c,"o",1.2,0.25,0.9);
        tiltBy(l,tilt); return l;
    }
    static void tiltBy(Loc & l,int tilt)
    {
        if(tilt) for(int k=0;k<2;++k){ R * v= k? l.a2: l.a1; R x=v[0],y=v[1]; if(tilt==1){ v[0]=x; v[1]=R(0); v[2]=y; } else { v[0]=rat(3,5)*x; v[1]=y; v[2]=rat(-4,5)*x; } }
    }
    // deformed tangents: stretches l1, l2 along directions at a given angle to the first tangent (wit>=10), or general
    static Loc defo(Ctx & c,const Loc & lo,int wit)
    {
        if(wit<10) return planar(c,"d",wit==1?0.8:wit==2?1.2:1.4,wit==2?0.1:-0.3,wit==1?0.7:1.1);
        R l1=c.in("l1",wit==11?1.3:0.7,0.5,1.6),l2=c.in("l2",wit==11?0.85:1.2,0.5,1.6),m=c.in("m",0.25,0.05,0.9); R cs=(1-m*m)/(1+m*m),sn=2*m/(1+m*m);
        c.assumeGt((l1-l2)*(l1-l2)-rat(1,100));
        Loc ld; R x[2][2]; for(int i=0;i<2;++i){ const R * a= i? lo.a2: lo.a1; x[i][0]=a[0]; x[i][1]=a[1]; }
        for(int i=0;i<2;++i){ R * w= i? ld.a2: ld.a1; w[0]=l1*(cs*x[i][0]+sn*x[i][1]); w[1]=l2*(cs*x[i][1]-sn*x[i][0]); }
        return ld;
    }
    PFix(Ctx & c,int tilt,int wit): lo(ori(c,wit>=10?0:tilt)),ld(defo(c,lo,wit)),
        E(c.in("E",3,0.5,10)),nu(c.in("nu",0.3,0,0.49)),t(c.in("t",0.1,0.01,0.5)),z(0),mp(mpOf(lo,d)),mpd(mpOf(ld,d)),ft(t,d),fE(E,d),fnu(nu,d),k0(lo,R(0),d),k1(ld,R(0),d)
    {
        if(wit>=10&&tilt) { tiltBy(lo,tilt); mp=mpOf(lo,d); k0=Kin(lo,R(0),d); }
        std::vector<gsFunctionSet<R>*> p; p.push_back(&fE); p.push_back(&fnu); m.reset(new MM(mp,ft,p)); m->setDeformed(&mpd); }
    // the symmetric tensor sum_ij c_ij v_i v_j
    static Mat tensor(R c[2][2],R v[2][3]){ Mat B(3,3); for(int a=0;a<3;++a) for(int b=0;b<3;++b){ B(a,b)=R(0); for(int i=0;i<2;++i) for(int j=0;j<2;++j) B(a,b)+=c[i][j]*v[i][a]*v[j][b]; } return B; }
    R J0sq(){ return (k1.A[0][0]*k1.A[1][1]-k1.A[0][1]*k1.A[0][1])/(k0.A[0][0]*k0.A[1][1]-k0.A[0][1]*k0.A[0][1]); }
};
R tr3(const Mat & B){ return B(0,0)+B(1,1)+B(2,2); }
R i23(const Mat & B){ return B(0,0)*B(1,1)-B(0,1)*B(1,0)+B(1,1)*B(2,2)-B(1,2)*B(2,1)+B(0,0)*B(2,2)-B(0,2)*B(2,0); }
// v is a unit eigenvector of B for the value l
void eigen(Ctx & c,const std::string & n,const Mat & B,const R & l,const Mat & v)
{ for(int a=0;a<3;++a) c.eq(S(n,a),B(a,0)*v(0,0)+B(a,1)*v(1,0)+B(a,2)*v(2,0),l*v(a,0)); c.eq(n+"unit",v(0,0)*v(0,0)+v(1,0)*v(1,0)+v(2,0)*v(2,0),R(1)); }
Mat ecol(const Mat & m,int k,int a){ Mat r(3,1); for(int i=0;i<3;++i) r(i,0)=m(3*a+i,k); return r; }

template<class F> void stretchCase(Ctx & c,int tilt,int wit,bool dirs)
{
    F f(c,tilt,wit); Mat B=F::tensor(f.k1.A,f.k0.gc);
    Mat l=f.m->eval3D_pstretch(0,pt(0,0),sc(f.z));
    c.eq("sum",l(0,0)*l(0,0)+l(1,0)*l(1,0),tr3(B)); c.eq("product",l(0,0)*l(0,0)*l(1,0)*l(1,0),f.J0sq());
    c.le("order",l(0,0),l(1,0)); c.eq("thickness",l(2,0)*l(2,0)*f.J0sq(),R(1));
    if(dirs)
    {
        Mat D=f.m->eval3D_pstretchDir(0,pt(0,0),sc(f.z));
        for(int a=0;a<2;++a) eigen(c,S("dir",a),B,l(a,0)*l(a,0),ecol(D,0,a));
        Mat x=ecol(D,0,0),y=ecol(D,0,1),n=ecol(D,0,2); c.eq("orth",x(0,0)*y(0,0)+x(1,0)*y(1,0)+x(2,0)*y(2,0),R(0));
        for(int a=0;a<3;++a) c.eq(S("normal",a),n(a,0),f.k0.n[a]);
    }
}
template<class F> void strainCase(Ctx & c,int tilt,int wit)
{
    F f(c,tilt,wit); R e[2][2]; for(int i=0;i<2;++i) for(int j=0;j<2;++j) e[i][j]=(f.k1.A[i][j]-f.k0.A[i][j])/2;
    Mat B=F::tensor(e,f.k0.gc); Mat l=f.m->eval3D_pstrain(0,pt(0,0),sc(f.z));
    c.eq("sum",l(0,0)+l(1,0),tr3(B)); c.eq("product",l(0,0)*l(1,0),i23(B)); c.le("order",l(0,0),l(1,0));
}
template<class F> void stressCase(Ctx & c,int tilt,int wit,bool dirs)
{
    F f(c,tilt,wit); Mat V=f.m->eval3D_stress(0,pt(0,0),sc(f.z),MaterialOutput::Generic);
    R s[2][2]={{V(0,0),V(2,0)},{V(2,0),V(1,0)}}; Mat B=F::tensor(s,f.k0.g);
    Mat l=f.m->eval3D_pstress(0,pt(0,0),sc(f.z),MaterialOutput::Generic);
    c.eq("sum",l(0,0)+l(1,0),tr3(B)); c.eq("product",l(0,0)*l(1,0),i23(B)); c.le("order",l(0,0),l(1,0));
    if(dirs){ Mat D=f.m->eval3D_pstressDir(0,pt(0,0),sc(f.z),MaterialOutput::Generic); for(int a=0;a<2;++a) eigen(c,S("dir",a),B,l(a,0),ecol(D,0,a)); }
}
// Voigt transformation: components of  s^ij b_i b_j  along pairs of the directions v
template<class V1,class V2> void voigt(Ctx & c,const std::string & n,const Mat & T,const V1 & b,const V2 & v)
{
    static const int I[3]={0,1,0},J[3]={0,1,1};
    for(int q=0;q<3;++q) for(int p=0;p<3;++p)
    { R a=dot3(v[I[q]],b[I[p]])*dot3(v[J[q]],b[J[p]]); if(p==2) a+=dot3(v[I[q]],b[1])*dot3(v[J[q]],b[0]); c.eq(Ctx::ix(n,q,p),T(q,p),a); }
}
template<class F> void transCase(Ctx & c,int tilt,int which)
{
    F f(c,tilt,0); R e[2][3]={{R(1),R(0),R(0)},{R(0),R(1),R(0)}}; Mat T;
    if(which==0){ T=as33(f.m->eval3D_cov2cart(0,pt(0,0),sc(f.z)),0); voigt(c,"cov2cart",T,e,f.k0.g); }
    if(which==1){ T=as33(f.m->eval3D_con2cart(0,pt(0,0),sc(f.z)),0); voigt(c,"con2cart",T,e,f.k0.gc); }
    if(which>=2)
    {
        Mat D=f.m->eval3D_pstretchDir(0,pt(0,0),sc(f.z)); R n[2][3]; for(int a=0;a<2;++a) for(int i=0;i<3;++i) n[a][i]=D(3*a+i,0);
        if(which==2){ T=as33(f.m->eval3D_spec2cov(0,pt(0,0),sc(f.z)),0); voigt(c,"spec2cov",T,f.k0.g,n); }
        else { T=as33(f.m->eval3D_spec2con(0,pt(0,0),sc(f.z)),0); voigt(c,"spec2con",T,f.k0.gc,n); }
    }
}
typedef PFix<gsMaterialMatrixLinear<3,R>,3> L3; typedef PFix<gsMaterialMatrixLinear<2,R>,2> L2; typedef PFix<gsMaterialMatrixNonlinear<3,R,11,false>,3> N3;
VCASE(ps_stretch3){ stretchCase<L3>(c,0,10,true); }
VCASE(ps_stretch3w){ stretchCase<L3>(c,0,11,true); }
VCASE(ps_stretch3t){ stretchCase<L3>(c,1,10,true); }
VCASE(ps_stretch2){ stretchCase<L2>(c,0,11,true); }
VCASE(ps_stretchN){ stretchCase<N3>(c,0,10,true); }
VCASE(ps_strain3){ strainCase<L3>(c,0,0); }
VCASE(ps_strain3w){ strainCase<L3>(c,0,1); }
VCASE(ps_strain2){ strainCase<L2>(c,0,2); }
VCASE(ps_strain3t){ strainCase<L3>(c,1,1); }
VCASE(ps_stress3){ stressCase<L3>(c,0,0,false); }
VCASE(ps_stress3w){ stressCase<L3>(c,0,1,false); }
VCASE(ps_stress2){ stressCase<L2>(c,0,2,false); }
VCASE(ps_stressN){ stressCase<N3>(c,0,0,false); }
VCASE(ps_stressdir3){ stressCase<L3>(c,0,0,true); }
VCASE(ps_stressdirN){ stressCase<N3>(c,0,0,true); }
VCASE(ps_cov2cart){ transCase<L3>(c,2,0); }
VCASE(ps_con2cart){ transCase<L3>(c,2,1); }
VCASE(ps_spec2cov){ transCase<L3>(c,0,2); }
VCASE(ps_spec2con){ transCase<L3>(c,0,3); }

// a degenerate direction: nothing stretched in the sum of the diagonal, i.e. the two squared stretches sum to two
VCASE(ps_trace2)
{
    R a=c.in("a",0.3,0.05,0.7);   // squared stretches 1+a, 1-a
    Loc lo,ld; lo.a1[0]=R(1); lo.a2[1]=R(1); ld.a1[0]=sqrt(1+a); ld.a2[1]=sqrt(1-a);
    gsMultiPatch<R> mp=mpOf(lo,3),md=mpOf(ld,3); gsConstantFunction<R> t(R(1),3),E(R(1),3),nu(R(0),3);
    gsMaterialMatrixLinear<3,R> m(mp,t,E,nu); m.setDeformed(&md);
    Mat l=m.eval3D_pstretch(0,pt(0,0),sc(R(0))); c.eq("l1",l(0,0)*l(0,0),1-a); c.eq("l2",l(1,0)*l(1,0),1+a);
}
VCASE(ps_undeformed)
{
    Loc lo=planar(c,"o",1.2,0.25,0.9); gsMultiPatch<R> mp=mpOf(lo,3),md=mpOf(lo,3); gsConstantFunction<R> t(R(1),3),E(R(1),3),nu(R(0),3);
    gsMaterialMatrixLinear<3,R> m(mp,t,E,nu); m.setDeformed(&md);
    Mat l=m.eval3D_pstretch(0,pt(0,0),sc(R(0))); for(int i=0;i<3;++i) c.eq(S("l",i),l(i,0),R(1));
}
} // namespace
