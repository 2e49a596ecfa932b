// Assembly with hyperelastic materials: forces and stiffness are those of the material's stress and tangent resultants. -DDIM=2|3 -DBEND=0|1
#include "refmodel.h"
#include <gsKLShell/src/gsMaterialMatrixNonlinear.h>
namespace {
typedef Shell<DIM,BEND> Sh; typedef Sh::Asm Asm;
#if DIM==3 && BEND
#define NM(n) VCASE(hy3b_##n)
#elif DIM==3
#define NM(n) VCASE(hy3m_##n)
#else
#define NM(n) VCASE(hy2m_##n)
#endif
Mat dense(const gsSparseMatrix<R> & K){ Mat m(K.rows(),K.cols()); for(int i=0;i<K.rows();++i) for(int j=0;j<K.cols();++j) m(i,j)=K.coeff(i,j); return m; }
void cmp(Ctx & c,const std::string & n,Asm & A,const Ref & f,const Mat * r,const Mat * K)
{
    const gsDofMapper & mp=A.getMapper();
    for(int i=0;i<f.n*DIM;++i)
    {
        int I=mp.index(i/DIM,0,i%DIM); if(r) c.eq(S(n+".r",I),(*r)(I,0),-f.force(i));
        if(K) for(int j=0;j<f.n*DIM;++j){ int J=mp.index(j/DIM,0,j%DIM); c.eq(S2(n+".K",I,J),(*K)(I,J),f.stiff(i,j)); }
    }
}
// stress and tangent resultants, generalised to free variables
void resultants(Ctx & c,const std::string & n,Ref & f,gsMaterialMatrixBase<R> * m,const gsMultiPatch<R> & o,const gsMultiPatch<R> & d)
{
    Mat u(2,1); u<<rat(1,2),rat(1,2); Mat N=integrated<MaterialOutput::VectorN>(m,o,d,u),A=integrated<MaterialOutput::MatrixA>(m,o,d,u),M,B,C,D;
    f.A=as33(A,0); 
    if(BEND){ M=integrated<MaterialOutput::VectorM>(m,o,d,u); B=integrated<MaterialOutput::MatrixB>(m,o,d,u); C=integrated<MaterialOutput::MatrixC>(m,o,d,u); D=integrated<MaterialOutput::MatrixD>(m,o,d,u); f.B=as33(B,0); f.C=as33(C,0); f.D=as33(D,0); }
    for(int a=0;a<3;++a){ f.N[a]=N(a,0); c.cut(S(n+"N",a),f.N[a]); if(BEND){ f.M[a]=M(a,0); c.cut(S(n+"M",a),f.M[a]); } }
    for(int a=0;a<3;++a) for(int b=0;b<3;++b){ c.cut(S2(n+"A",a,b),f.A(a,b)); if(BEND){ c.cut(S2(n+"B",a,b),f.B(a,b)); c.cut(S2(n+"C",a,b),f.C(a,b)); c.cut(S2(n+"D",a,b),f.D(a,b)); } }
}
template<bool comp> std::unique_ptr<gsMaterialMatrixBase<R> > nh(Sh & s,std::vector<gsFunctionSet<R>*> & pars)
{ pars={&s.fE,&s.fnu}; return std::unique_ptr<gsMaterialMatrixBase<R> >(new gsMaterialMatrixNonlinear<DIM,R,11,comp>(s.mp,s.ft,pars,s.frho)); }
template<bool comp> void full(Ctx & c,const std::vector<Dof> & v)
{
    Sh s(c,v); std::vector<gsFunctionSet<R>*> pars; s.mat=nh<comp>(s,pars); Asm & A=s.make();
    Ref f(DIM,BEND); f.setBern(Bern(rat(1,2),rat(1,2))); f.geometry(s.Ko,s.Ko+s.Ku,R(1)); resultants(c,"",f,s.mat.get(),s.mp,s.def);
    A.assembleVector(s.def); Mat r=A.rhs(); A.assembleMatrix(s.def); Mat K=dense(A.matrix()); cmp(c,"a",A,f,&r,&K);
}
NM(inc){ full<false>(c,dofs(4,DIM-1)); }
NM(inc2){ full<false>(c,dofs(1,0)); }
NM(comp){ full<true>(c,dofs(4,DIM-1)); }
// the linear problem uses the material of the undeformed state
NM(zero)
{
    Sh s(c,dofs(4,DIM-1)); std::vector<gsFunctionSet<R>*> pars; s.mat=nh<false>(s,pars); Asm & A=s.make();
    Ref f(DIM,BEND); f.setBern(Bern(rat(1,2),rat(1,2))); f.geometry(s.Ko,s.Ko,R(1)); resultants(c,"",f,s.mat.get(),s.mp,s.mp); for(int a=0;a<3;++a) f.N[a]=f.M[a]=R(0);
    A.assembleMatrix(s.def); A.assemble(); Mat K=dense(A.matrix()); cmp(c,"a",A,f,0,&K);
}
#if DIM==3 && BEND
NM(mip)
{
    Sh s(c,dofs(4,2)); std::vector<gsFunctionSet<R>*> pars; s.mat=nh<false>(s,pars); Asm & A=s.make(); Mat Kp=s.Ko; for(int m=0;m<9;++m){ for(int k=0;k<2;++k) Kp(m,k)+=rat((m+2*k)%5-2,40); Kp(m,2)=R(0); } gsMultiPatch<R> prev; prev.addPatch(bern(Kp)); gsMultiPatch<R> du; du.addPatch(bern(Mat(s.Ko+s.Ku-Kp))); Mat up=A.constructSolutionVector(du);
    Ref f(3,true),p(3,true); Bern q(rat(1,2),rat(1,2)); f.setBern(q); p.setBern(q); f.geometry(s.Ko,s.Ko+s.Ku,R(1)); p.geometry(s.Ko,Kp,R(1)); resultants(c,"d",f,s.mat.get(),s.mp,s.def); resultants(c,"p",p,s.mat.get(),s.mp,prev);
    R e[3]={R(0),R(0),R(0)},k[3]={R(0),R(0),R(0)}; for(int m=0;m<9;++m) for(int d=0;d<3;++d) for(int a=0;a<3;++a){ R w=s.Ko(m,d)+s.Ku(m,d)-Kp(m,d); e[a]+=p.em[3*m+d][a]*w; k[a]+=p.ef[3*m+d][a]*w; }
    for(int a=0;a<3;++a){ f.N[a]=p.N[a]; f.M[a]=p.M[a]; for(int b=0;b<3;++b){ f.N[a]+=p.A(a,b)*e[b]+p.B(a,b)*k[b]; f.M[a]+=p.C(a,b)*e[b]+p.D(a,b)*k[b]; } }
    A.assembleMatrix(s.def,prev,up); Mat K=dense(A.matrix()); cmp(c,"a",A,f,0,&K);
}
#endif
}
