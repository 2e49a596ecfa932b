// Hyperelastic plane-stress materials: the stress derives from the stored energy, the tangent is the
// derivative of the stress.  -DID=<material id> -DDIM=<2|3>
#include "common.h"
#include <gsKLShell/src/gsMaterialMatrixNonlinear.h>
#ifdef MORE
#include MORE
#endif
#ifndef DIM
#define DIM 3
#endif
namespace {
static const int MAT= ID%10, IMP= ID/10;

template<bool comp> struct NlFix
{
    typedef gsMaterialMatrixNonlinear<DIM,R,ID,comp> MM;
    Loc lo,ld; R E,nu,t,z,ratio,m1,m2; gsMultiPatch<R> mp,mpd; R a1,a2;
    gsConstantFunction<R> ft; std::vector<std::unique_ptr<gsConstantFunction<R> > > fs; std::vector<gsFunctionSet<R>*> pars;
    std::unique_ptr<MM> m; std::vector<std::string> vars;
    void par(const R & v){ fs.emplace_back(new gsConstantFunction<R>(v,DIM)); pars.push_back(fs.back().get()); }
    NlFix(Ctx & c,int geom,int wit)
    {
        // geom 0: general planar states; 1: curved, at height z; 2: principal axes (for the spectral form)
        if(geom==2)
        {
            // reference basis orthonormal up to a concrete shear; deformed metric from principal stretches and their direction
            R l1=c.in("l1",wit==1?0.7:1.3,0.5,1.6),l2=c.in("l2",wit==1?1.2:0.85,0.5,1.6),m=c.in("m",0.25,0.05,0.9);
            R q=c.in("qo",0.25,-0.5,0.5);
            R cs=(1-m*m)/(1+m*m),sn=2*m/(1+m*m);
            lo.a1[0]=R(1); lo.a2[0]=q; lo.a2[1]=R(1);
            R n1[2]={cs,sn},n2[2]={-sn,cs};
            const R * g[2]={lo.a1,lo.a2}; R * w[2]={ld.a1,ld.a2};
            for(int i=0;i<2;++i){ R x=n1[0]*g[i][0]+n1[1]*g[i][1],y=n2[0]*g[i][0]+n2[1]*g[i][1]; w[i][0]=l1*x; w[i][1]=l2*y; }
            c.assumeGt((l1-l2)*(l1-l2)-rat(1,100));
            vars={"l1","l2","m"};
        }
        else
        {
            lo=planar(c,"o",1.2,0.25,0.9); ld=planar(c,"d",wit==1?1.05:1.5,-0.3,wit==1?0.7:1.1);
            R dp=ld.a1[0]-lo.a1[0],dq=ld.a2[0]-lo.a2[0],dr=ld.a2[1]-lo.a2[1];
            if(geom==0) c.assumeGt(dp*dp+dq*dq+dr*dr-rat(1,10000));
            vars={"pd","qd","rd"};
            if(geom==1){ curved(c,ld,"d",0.3,-0.2,0.5); vars={"pd","k11d","k22d"}; }
        }
        E=c.in("E",3,0.5,10); nu= comp? c.in("nu",0.3,0.05,0.45): c.in("nu",0.45,0.05,0.5); t=c.in("t",0.1,0.01,0.5); z= geom==1? c.in("z",0.2,-0.5,0.5): R(0);
        mp=mpOf(lo,DIM); mpd=mpOf(ld,DIM);
        ft=gsConstantFunction<R>(t,DIM); par(E); par(nu);
        if(MAT==3){ ratio=c.in("ratio",4,0.5,10); par(ratio); }
        if(MAT==4){ m1=c.in("mu1",2,0.5,4); m2=c.in("mu2",-0.5,-2,-0.1); a1=R(2); a2=R(-2); par(m1); par(a1); par(m2); par(a2); }
        m.reset(new MM(mp,ft,pars)); m->setDeformed(&mpd);
    }
    Mat Z(){ return sc(z); }
};

// stored energy per unit reference volume as a function of the in-plane metrics and c33
template<class Fx> R energy(const Fx & f,bool comp,R G0c[2][2],R G[2][2],const R & J0,const R & c33)
{
    R mu=f.E/(2*(1+f.nu)); R tr(0); for(int i=0;i<2;++i) for(int j=0;j<2;++j) tr+=G[i][j]*G0c[i][j];
    R I1=tr+c33,I2=c33*tr+J0*J0,J2=J0*J0*c33;
    R vol(0); if(comp){ R K=f.E/(3-6*f.nu); if(MAT==2) K=f.E*f.nu/((1+f.nu)*(1-2*f.nu)); vol=K/4*(J2-1-log(J2)); }
    R s1= comp? pow(J2,-1.0/3.0): R(1);
    if(MAT==1) return mu/2*(s1*I1-3)+vol;
    if(MAT==2) return mu/2*(I1-3-log(J2))+vol;
    if(MAT==3){ R c2=mu/(f.ratio+1),c1=f.ratio*c2; return c1/2*(s1*I1-3)+c2/2*(s1*s1*I2-3)+vol; }
    // Ogden with exponents 2 and -2: sums of squared stretches and of their inverses
    R Im=I2/J2; R si= comp? pow(J2,1.0/3.0): R(1);
    return f.m1/2*(s1*I1-3)-f.m2/2*(si*Im-3)+vol;
}

// derivative of an output along an input, the thickness stretch following the plane stress condition
static R total(Ctx & c,const std::string & o,const std::string & v,bool comp,const std::map<std::string,R> & dc)
{
#ifdef VSYM
    R r=c.D(o,v); if(comp) r+=c.D(o,"c33")*dc.at(v); return r;
#else
    return c.D(o,v);
#endif
}

// what: 1 stress, 2 tangent, 4 plane stress
template<bool comp> void nlCase(Ctx & c,int geom,int wit,int what)
{
    NlFix<comp> f(c,geom,wit);
    R h=f.z*f.t; Kin k0(f.lo,h,DIM),k1(f.ld,h,DIM);
    R J0sq=(k1.G[0][0]*k1.G[1][1]-k1.G[0][1]*k1.G[0][1])/(k0.G[0][0]*k0.G[1][1]-k0.G[0][1]*k0.G[0][1]); R J0=sqrt(J0sq);
    R c33=1/J0sq;
    if(comp){ Mat ps=f.m->eval3D_pstretch(0,pt(0,0),f.Z()); c33=ps(2,0)*ps(2,0); c.cut("c33",c33); c.assumeGt(c33); }
    Mat V=f.m->eval3D_vector(0,pt(0,0),f.Z(),MaterialOutput::Generic);
    if(V.rows()!=3||V.cols()!=1){ c.eq("shape",R(V.rows()),R(3)); return; }
    for(int i=0;i<3;++i) c.out(S("S",i),V(i,0));
    R Ev[3]={(k1.G[0][0]-k0.G[0][0])/2,(k1.G[1][1]-k0.G[1][1])/2,k1.G[0][1]-k0.G[0][1]};
    for(int i=0;i<3;++i) c.out(S("E",i),Ev[i]);
    R W=energy(f,comp,k0.Gc,k1.G,J0,c33); c.out("W",W);
    std::map<std::string,R> dc;
#ifdef VSYM
    if(comp) { R s33=2*c.D("W","c33"); c.out("s33",s33); for(size_t a=0;a<f.vars.size();++a) dc[f.vars[a]]=-c.D("s33",f.vars[a])/c.D("s33","c33"); }
#endif
    if(what&1)
        for(size_t a=0;a<f.vars.size();++a)
        { R s(0); for(int i=0;i<3;++i) s+=V(i,0)*c.D(S("E",i),f.vars[a]); c.eq("S.dE="+f.vars[a],s,c.D("W",f.vars[a])); }
    if(what&2)
    {
        Mat C=as33(f.m->eval3D_matrix(0,pt(0,0),f.Z(),MaterialOutput::Generic),0);
        for(int i=0;i<3;++i) for(size_t a=0;a<f.vars.size();++a)
        { R s(0); for(int j=0;j<3;++j) s+=C(i,j)*c.D(S("E",j),f.vars[a]); c.eq(S("C.dE",i)+f.vars[a],s,total(c,S("S",i),f.vars[a],comp,dc)); }
        c.eq("symm01",C(0,1),C(1,0)); c.eq("symm02",C(0,2),C(2,0)); c.eq("symm12",C(1,2),C(2,1));
    }
    if(what&4)
    {
        Mat dF=f.m->eval3D_detF(0,pt(0,0),f.Z(),MaterialOutput::Generic); c.eq("detF",dF(0,0)*dF(0,0),J0sq*c33);
        Mat cs=f.m->eval3D_CauchyStress(0,pt(0,0),f.Z(),MaterialOutput::Generic); R J= comp? J0*sqrt(c33): R(1);
        for(int i=0;i<3;++i) c.eq(S("cauchy",i),cs(i,0)*J,V(i,0));
    }
}
// the out-of-plane stress of the returned thickness stretch vanishes (to the tolerance of the iteration)
void nlPlane(Ctx & c,int geom,int wit)
{
    NlFix<true> f(c,geom,wit); R h=f.z*f.t; Kin k0(f.lo,h,DIM),k1(f.ld,h,DIM);
    R J0=sqrt((k1.G[0][0]*k1.G[1][1]-k1.G[0][1]*k1.G[0][1])/(k0.G[0][0]*k0.G[1][1]-k0.G[0][1]*k0.G[0][1]));
    Mat ps=f.m->eval3D_pstretch(0,pt(0,0),f.Z()); R c33=ps(2,0)*ps(2,0); 
#ifdef VSYM
    std::vector<R> ab=pathAbsArgs();
    c.cut("c33",c33); c.assumeGt(c33); c.out("W",energy(f,true,k0.Gc,k1.G,J0,c33)); R W1=c.D("W","c33"); c.out("W1",W1); R W2=c.D("W1","c33");
    // the Newton increment (or the residual) tested by the code at the returned value is that of the stored energy
    for(size_t i=0;i<ab.size()&&i<6;++i)
    {
        vsym::F a=ab[i].sh()*W2.sh(),b=W1.sh(),d=ab[i].sh(),q=2*W1.sh();
        if(fabsq(a+b)<=1e-8*fabsq(b)&&fabsq(b)>1e-30){ c.eq("increment",ab[i]*W2,-W1); break; }
        if(fabsq(d-q)<=1e-8*fabsq(q)&&fabsq(q)>1e-30){ c.eq("residual",ab[i],2*W1); break; }
    }
    c.le("plane-stress",R((double)(fabsq(W1.sh()/W2.sh()))),R(1e-6));
#else
    R e=1e-4; R wp=energy(f,true,k0.Gc,k1.G,J0,c33*(1+e)),wm=energy(f,true,k0.Gc,k1.G,J0,c33*(1-e)),w0=energy(f,true,k0.Gc,k1.G,J0,c33);
    c.le("plane-stress",R(std::fabs((wp-wm)/2/((wp-2*w0+wm)/e)))*c33*0.2,R(1e-6));
#endif
}
// no stress in the undeformed configuration
template<bool comp> void nlRef(Ctx & c)
{
    NlFix<comp> f(c,IMP==3?2:0,0); f.mpd=f.mp;
    Mat V=f.m->eval3D_vector(0,pt(0,0),f.Z(),MaterialOutput::Generic); for(int i=0;i<3;++i) c.eq(S("S",i),V(i,0),R(0));
    Mat dF=f.m->eval3D_detF(0,pt(0,0),f.Z(),MaterialOutput::Generic); c.eq("detF",dF(0,0)*dF(0,0),R(1));
    Mat ps=f.m->eval3D_pstretch(0,pt(0,0),f.Z()); for(int i=0;i<3;++i) c.eq(S("stretch",i),ps(i,0),R(1));
}
} // namespace
#define CAT2(a,b,c,d) a##b##_##c##d
#define CAT(a,b,c,d) CAT2(a,b,c,d)
#define NLCASE(name,...) VCASEF2(CAT(nl,ID,DIM,name),__VA_ARGS__)
#define VCASEF2(n,...) VCASEF(n,__VA_ARGS__)
#if ID!=12 && ID!=22
NLCASE(is, nlCase<false>(c,IMP==3?2:0,0,1))
NLCASE(it, nlCase<false>(c,IMP==3?2:0,0,2))
NLCASE(ip, nlCase<false>(c,IMP==3?2:0,0,4))
NLCASE(iu, nlRef<false>(c))
#if DIM==3 && ID<30
NLCASE(isz, nlCase<false>(c,1,0,1))
NLCASE(itz, nlCase<false>(c,1,0,2))
#endif
#endif
NLCASE(cs, nlCase<true>(c,IMP==3?2:0,0,1))
NLCASE(ct, nlCase<true>(c,IMP==3?2:0,0,2))
NLCASE(cp, nlCase<true>(c,IMP==3?2:0,0,4))
NLCASE(cs1, nlCase<true>(c,IMP==3?2:0,1,1))
NLCASE(ct1, nlCase<true>(c,IMP==3?2:0,1,2))
NLCASE(cz, nlPlane(c,IMP==3?2:0,0))
NLCASE(cz1, nlPlane(c,IMP==3?2:0,1))
NLCASE(cu, nlRef<true>(c))
