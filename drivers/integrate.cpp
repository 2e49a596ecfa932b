// Through-thickness integration and pointwise evaluation of the materials on two patches.  -DKIND=0 linear, 1 incompressible, 2 compressible neo-Hookean
#include "twomat.h"
#include <gsAssembler/gsGaussRule.h>
#if KIND==0
#define KN ml
#elif KIND==1
#define KN mi
#else
#define KN mc
#endif
namespace {
int moment(O o){ return o==O::VectorM||o==O::CauchyVectorM||o==O::PStressM||o==O::MatrixB||o==O::MatrixC? 1: o==O::MatrixD? 2: 0; }

// expected integral at one point
Mat expected(Ctx & c,const std::string & n,Two & s,int which,int patch,const Mat & u,O o,int nGauss)
{
    std::unique_ptr<MM> m=s.alone(which,patch); R t=s.thick(which,patch,u);
    if(KIND==0)
    {
        Mat v=value(*m,o,0,u,sc(R(0)));
        bool N= o==O::VectorN||o==O::CauchyVectorN||o==O::MatrixA||o==O::PStressN, z= o==O::MatrixB||o==O::MatrixC; R f= z? R(0): N? t: t*t*t/12;
        for(int i=0;i<v.rows();++i){ c.cut(S(n+"v",i),v(i,0)); v(i,0)=v(i,0)*f; }
        return v;
    }
    gsGaussRule<R> g(nGauss); Mat q; gsVector<R> w; g.mapTo(rat(-1,2),rat(1,2),q,w); Mat r; 
    for(int j=0;j<nGauss;++j)
    {
        Mat v=value(*m,o,0,u,sc(q(0,j))); if(j==0) r=Mat::Zero(v.rows(),1); R h=q(0,j)*t,f=w[j]*t; for(int k=0;k<moment(o);++k) f=f*h;
        for(int i=0;i<v.rows();++i){ c.cut(S2(n+"v",j,i),v(i,0)); r(i,0)+=f*v(i,0); }
    }
    return r;
}
void column(Ctx & c,const std::string & n,const Mat & got,int k,const Mat & want){ c.eq(n+".rows",R((int)got.rows()),R((int)want.rows())); for(int i=0;i<want.rows()&&i<got.rows();++i) c.eq(S(n+"_",i),got(i,k),want(i,0)); }

// resultants on both patches, three points at once, for one way to create the integrator
template<O o> void check(Ctx & c,const std::string & n,Two & s,const gsFunction<R> & f0,const gsFunction<R> & f1,int w0,int w1,int nG=4)
{
    Mat u=points(); Mat a=f0.eval(u),b=f1.eval(u); c.eq(n+".cols",R((int)a.cols()+(int)b.cols()),R(6));
    for(int k=0;k<3;++k){ Mat x=u.col(k); column(c,S(n+"a",k),a,k,expected(c,S(n+"a",k),s,w0,0,x,o,nG)); column(c,S(n+"b",k),b,k,expected(c,S(n+"b",k),s,w1,1,x,o,nG)); }
}
template<O o> void one(Ctx & c,const std::string & n,bool flat=false)
{
    Two s(c,true,flat); gsMaterialMatrixContainer<R> mc(2); mc.set(0,*s.m1); mc.set(1,*s.m2); gsMaterialMatrixIntegrate<R,o> f(mc,&s.def); check<o>(c,n,s,f.piece(0),f.piece(1),0,1);
}
NM(N){ one<O::VectorN>(c,"N"); }
NM(M){ one<O::VectorM>(c,"M"); }
NM(A){ one<O::MatrixA>(c,"A"); }
NM(B){ one<O::MatrixB>(c,"B"); }
NM(C){ one<O::MatrixC>(c,"C"); }
NM(D){ one<O::MatrixD>(c,"D"); }
NM(CN){ one<O::CauchyVectorN>(c,"CN"); }
NM(CM){ one<O::CauchyVectorM>(c,"CM"); }
NM(PN){ one<O::PStressN>(c,"PN",true); }
NM(PM){ one<O::PStressM>(c,"PM",true); }
// ways to create the integrator
NM(ctors){
    typedef gsMaterialMatrixIntegrate<R,O::VectorN> I; Two s(c);
    { gsMaterialMatrixContainer<R> mc; mc.add(*s.m1); mc.add(s.m2.get()); I f(mc,&s.def); check<O::VectorN>(c,"cont",s,f.piece(0),f.piece(1),0,1); }
    { I f(s.m2.get(),&s.def); check<O::VectorN>(c,"ptr",s,f.piece(0),f.piece(1),1,1); }
    { std::unique_ptr<MM> m=s.fresh(0); m->setUndeformed(&s.def); I f(m.get(),&s.mp,&s.def); check<O::VectorN>(c,"ptrU",s,f.piece(0),f.piece(1),0,0); }
    { gsMaterialMatrixContainer<R> mc(2); mc.set(0,*s.m2); mc.set(1,*s.m1); mc.piece(0)->setUndeformed(&s.def); mc.piece(1)->setUndeformed(&s.def); I f(mc,&s.mp,&s.def); check<O::VectorN>(c,"contU",s,f.piece(0),f.piece(1),1,0); }
    { MB::uPtr p(s.fresh(1).release()); I f(p,&s.def); check<O::VectorN>(c,"uptr",s,f.piece(0),f.piece(1),1,1); }
    { MB::uPtr p(s.fresh(1).release()); p->setUndeformed(&s.def); I f(p,&s.mp,&s.def); check<O::VectorN>(c,"uptrU",s,f.piece(0),f.piece(1),1,1); }
}
// number of points over the thickness
NM(gauss){
    Two s(c); std::unique_ptr<MM> m=s.fresh(0);
    for(int n=1;n<=5;++n){ m->options().setInt("NumGauss",n); gsMaterialMatrixIntegrate<R,O::VectorM> f(m.get(),&s.def); check<O::VectorM>(c,S("n",n),s,f.piece(0),f.piece(1),0,0,n);
        gsMaterialMatrixIntegrate<R,O::MatrixB> g(m.get(),&s.def); Mat u=points(); Mat x=u.col(1); Mat a=g.piece(1).eval(x); column(c,S("B",n),a,0,expected(c,S("B",n),s,0,1,x,O::MatrixB,n)); }
}
NM(density){
    Two s(c); gsMaterialMatrixContainer<R> mc; mc.add(*s.m1); mc.add(s.m2.get()); gsMaterialMatrixIntegrate<R,O::Density> f(mc,&s.def); gsMaterialMatrixEval<R,O::Density> g(mc,&s.def,sc(R(0))); gsMaterialMatrixEval<R,O::Thickness> h(mc,&s.def,sc(R(0))); gsMaterialMatrixEval<R,O::Parameters> p(mc,&s.def,sc(R(0)));
    Mat u=points();
    for(int q=0;q<2;++q){ Mat a=f.piece(q).eval(u),b=g.piece(q).eval(u),t=h.piece(q).eval(u),P=p.piece(q).eval(u); for(int k=0;k<3;++k){ Mat x=u.col(k); R T=s.thick(q,q,x),D=s.dens(q,q,x); std::string n=S2("p",q,k); c.eq(n+"i",a(0,k),T*D); c.eq(n+"e",b(0,k),T*D); c.eq(n+"t",t(0,k),T);
        Mat X=s.mp.patch(q).eval(x); R xx[3]={X(0,0),X(1,0),X(DIM-1,0)}; c.eq(n+"E",P(0,k),(q?s.E2:s.E).a[q].at(xx)(0,0)); c.eq(n+"nu",P(1,k),s.nu.a[q].at(xx)(0,0)); } }
}
// evaluation: many points and heights at once, on either patch, after other evaluations, as evaluating each alone
template<O o> void pointwise(Ctx & c,const std::string & n,bool flat=false)
{
    Two s(c,KIND!=2,flat); Mat u=points(),z=hs(2,3); std::unique_ptr<MM> m=s.fresh(0); Mat got[2];
    { Mat w=points(); w(0,0)=rat(1,8); value(*m,o,1,w,hs(3,3)); }
    for(int q=0;q<2;++q) got[q]=value(*m,o,q,u,z);
    gsMaterialMatrixContainer<R> mc; mc.add(*s.m1); mc.add(s.m2.get()); Mat zz(2,1); zz<<rat(-1,8),rat(3,8); gsMaterialMatrixEval<R,o> ev(mc,&s.def,zz); Mat ge[2]; for(int q=0;q<2;++q) ge[q]=ev.piece(q).eval(u);
    for(int q=0;q<2;++q) for(int k=0;k<3;++k) for(int j=0;j<2;++j)
    {
        std::unique_ptr<MM> a=s.alone(0,q),b=s.alone(q,q); Mat x=u.col(k); Mat v=value(*a,o,0,x,sc(z(j,k))),w=value(*b,o,0,x,sc(zz(j,0))); std::string t=S2(n,q,k)+S("h",j);
        for(int i=0;i<v.rows();++i) c.cut(S(t+"v",i),v(i,0)); for(int i=0;i<w.rows();++i) c.cut(S(t+"w",i),w(i,0));
        column(c,t,got[q],j*3+k,v); column(c,t+"e",ge[q],j*3+k,w);
    }
}
#define PW(n) NM(pw##n){ pointwise<O::n>(c,#n); }
#define PF(n) NM(pw##n){ pointwise<O::n>(c,#n,true); }
PW(Generic) PW(VectorN) PW(MatrixA) PW(CauchyVectorN) PW(Cov2CartTransform) PW(Con2CartTransform) PW(Strain) PW(StressN) PW(CauchyStressN) PW(Deformation)
PF(PStress) PF(PCauchyStressN) PF(PStressDir) PF(Stretch) PF(StretchDir) PF(PStrainN) PF(Spec2CovTransform) PF(Spec2ConTransform) PF(TensionField)
#if DIM==3
PF(PStressM) PF(PCauchyStressM) PW(VectorM) PW(StressM) PW(CauchyStressM)
#endif
// evaluators created with both configurations use these
NM(evctors){
    Two s(c); Mat u=points(),z(2,1); z<<rat(-1,8),rat(3,8); typedef gsMaterialMatrixEval<R,O::Strain> Ev; Mat w[2][3][2];
    for(int q=0;q<2;++q) for(int k=0;k<3;++k) for(int j=0;j<2;++j){ std::unique_ptr<MM> a=s.alone(q,q); Mat x=u.col(k); w[q][k][j]=value(*a,O::Strain,0,x,sc(z(j,0))); for(int i=0;i<3;++i) c.cut(S2("w",q,k)+S2("",j,i),w[q][k][j](i,0)); }
    gsMaterialMatrixContainer<R> mc(2); mc.set(0,*s.m1); mc.set(1,*s.m2); for(int q=0;q<2;++q) mc.piece(q)->setUndeformed(&s.def);
    for(int v=0;v<2;++v) { Ev * e= v? new Ev(mc,&s.def,z): new Ev(mc,&s.mp,&s.def,z); for(int q=0;q<2;++q){ Mat g=e->piece(q).eval(u); for(int k=0;k<3;++k) for(int j=0;j<2;++j) column(c,S2("c",v,q)+S2("",k,j),g,j*3+k,w[q][k][j]); } delete e; }
    { std::unique_ptr<MM> m=s.fresh(1); m->setUndeformed(&s.def); Ev e(m.get(),&s.mp,&s.def,z); Mat g=e.piece(1).eval(u); for(int k=0;k<3;++k) for(int j=0;j<2;++j) column(c,S2("p",k,j),g,j*3+k,w[1][k][j]); }
    { MB::uPtr m(s.fresh(1).release()); m->setUndeformed(&s.def); Ev e(m,&s.mp,&s.def,z); Mat g=e.piece(1).eval(u); for(int k=0;k<3;++k) for(int j=0;j<2;++j) column(c,S2("q",k,j),g,j*3+k,w[1][k][j]); }
}
// single-point forms
void sameM(Ctx & c,const std::string & n,const Mat & a,const Mat & b)
{ for(int k=0;k<b.cols();++k) for(int i=0;i<b.rows();++i) c.cut(n+S2("w",i,k),b(i,k)); c.eqm(n,a,b); }
NM(single){
    Two s(c,KIND!=2,true); std::unique_ptr<MM> m=s.fresh(1); gsVector<R> u(2); u<<rat(1,4),rat(3,4); Mat U=u; R z=rat(3,8); Mat Z=sc(z); const MB & b=*m;
    sameM(c,"matrix",b.eval3D_matrix(1,u,z,O::MatrixA),s.alone(1,1)->eval3D_matrix(0,U,Z,O::MatrixA)); sameM(c,"vector",b.eval3D_vector(1,u,z,O::Generic),s.alone(1,1)->eval3D_vector(0,U,Z,O::Generic));
    sameM(c,"strain",b.eval3D_strain(1,u,z),s.alone(1,1)->eval3D_strain(0,U,Z)); sameM(c,"stress",b.eval3D_stress(1,u,z,O::Generic),s.alone(1,1)->eval3D_stress(0,U,Z,O::Generic));
    sameM(c,"cauchy",b.eval3D_CauchyStress(1,u,z,O::StressN),s.alone(1,1)->eval3D_CauchyStress(0,U,Z,O::StressN)); sameM(c,"tf",b.eval3D_tensionfield(1,u,z,O::TensionField),s.alone(1,1)->eval3D_tensionfield(0,U,Z,O::TensionField));
}
// data replaced after use, and copies
void same(Ctx & c,const std::string & n,const MB & a,int which,Two & s)
{
    Mat u=points(),z=hs(2,3); O os[4]={O::Generic,O::MatrixA,O::Density,O::Thickness};
    for(int q=0;q<2;++q) for(int o=0;o<4;++o){ Mat w=value(*s.alone(which,q),os[o],0,u,z); for(int k=0;k<w.cols();++k) for(int i=0;i<w.rows();++i) c.cut(n+S2("w",q,o)+S2("",i,k),w(i,k)); c.eqm(n+S2("",q,o),value(a,os[o],q,u,z),w); }
}
NM(replace){
    Two s(c); std::unique_ptr<MM> m=s.fresh(0); Mat u=points(),z=hs(2,3); value(*m,O::Generic,0,u,z);
    MB::uPtr k=m->clone();
    m->setThickness(s.t2); m->setDensity(s.rho2); m->setParameters(s.p2); same(c,"set",*m,1,s); same(c,"clone",*k,0,s);
    k->setParameter(0,s.E2); k->setThickness(s.t2); k->setDensity(s.rho2); same(c,"par",*k,1,s); same(c,"orig",*m,1,s);
    MM n(s.t,s.p1,s.rho); n.setUndeformed(&s.mp); n.setDeformed(&s.def); same(c,"late",n,0,s);
    k->setDeformed(&s.mp); k->setUndeformed(&s.def); value(*k,O::Generic,0,u,z); k->setUndeformed(&s.mp); k->setDeformed(&s.def); same(c,"geo",*k,1,s);
    gsMaterialMatrixContainer<R> mc(1); mc.set(0,*s.m1); gsMaterialMatrixContainer<R> md=mc; s.m1->setParameters(s.p2); mc.piece(0)->setDeformed(&s.def); same(c,"cont",*md.piece(0),0,s);
}
NM(state){
    Two s(c); MM m(s.t,s.p1,s.rho); c.eq("u0",R((int)m.hasUndeformed()),R(0)); c.eq("d0",R((int)m.hasDeformed()),R(0)); m.setUndeformed(&s.mp); c.eq("u1",R((int)m.hasUndeformed()),R(1)); c.eq("d1",R((int)m.hasDeformed()),R(0)); m.setDeformed(&s.def); c.eq("u2",R((int)m.hasUndeformed()),R(1)); c.eq("d2",R((int)m.hasDeformed()),R(1)); c.eq("t",R((int)m.hasThickness()),R(1)); c.eq("r",R((int)m.hasDensity()),R(1)); c.eq("np",R((int)m.numParameters()),R(2));
}
}
