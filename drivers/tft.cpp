// Tension-field materials: classification of the stress state, response of the taut, wrinkled and slack states.  -DDIM=2|3
// The base material is a stand-in whose stress, stiffness and strain at a point are arbitrary (symbolic); the tension-field class and the classification are the real code.
#include "shell.h"
#include <gsKLShell/src/gsMaterialMatrixTFT.h>
namespace {
typedef MaterialOutput O;
typedef gsMaterialMatrixLinear<DIM,R> Lin;
typedef gsMaterialMatrixTFT<DIM,R,true> TL;
typedef gsMaterialMatrixTFT<DIM,R,false> TN;
#define CAT_(a,d,b) a##d##_##b
#define CAT(a,d,b) CAT_(a,d,b)
#define VC_(n) VCASE(n)
#define NM(n) VC_(CAT(tf,DIM,n))
#ifdef VSYM
R val(const R & x){ return R((double)x.sh()); }
#else
R val(const R & x){ return x; }
#endif

// response of the base material at one point; state 1 taut, 0 wrinkled, -1 slack through its principal stresses p and strains e
struct Data
{
    Mat C,N,E; R p[2],e[2]; std::vector<Mat> dC;
    Data(): C(3,3),N(3,1),E(3,1),dC(3,Mat(3,3)) { C.setZero(); N.setZero(); E.setZero(); for(int i=0;i<3;++i) dC[i].setZero(); state(1); }
    void state(int s){ p[0]=R(s); p[1]= s==-1? R(-1)/2: R(2); e[0]=rat(s,10); e[1]= s==-1? rat(-1,20): rat(1,5); if(s==0){ p[0]=-rat(1,2); e[0]=-rat(1,5); } }
};
const double W[3][12]={ // C00 C11 C22 C01 C02 C12, N, E: wrinkled states of an elastic sheet
    {3.3,3.1,1.2,1.0,0.1,-0.05, 0.55,-0.30,0.15, 0.20,-0.16,0.14}, {3.0,3.6,1.1,0.9,-0.2,0.15, -0.40,0.50,-0.20, -0.18,0.19,-0.20}, {3.2,3.2,1.15,0.95,0.0,0.0, 0.10,0.20,0.60, 0.05,0.06,1.0}};
// sym: 1 stiffness, 2 stress, 4 strain symbolic; dsym: bit set of symbolic stiffness derivatives
Data make(Ctx & c,const std::string & nm,const double * w,int state,int sym,int dsym=0)
{
    Data d; static const int I[6]={0,1,2,0,0,1},J[6]={0,1,2,1,2,2};
    for(int a=0;a<6;++a){ R v= sym&1? c.in(S2((nm+"C").c_str(),I[a],J[a]),w[a],w[a]-0.5,w[a]+0.5): R(w[a]); d.C(I[a],J[a])=d.C(J[a],I[a])=v; }
    for(int a=0;a<3;++a){ d.N(a,0)= sym&2? c.in(S((nm+"N").c_str(),a),w[6+a],-2,2): R(w[6+a]); d.E(a,0)= sym&4? c.in(S((nm+"E").c_str(),a),w[9+a],-2,2): R(w[9+a]); }
    int bit=0; for(int i=0;i<3;++i) for(int j=i;j<3;++j) for(int k=j;k<3;++k)
    { double q=0.1*(i+1)-0.15*j+0.07*k; R v= dsym<0? R(0): (dsym>>bit)&1? c.in(S2((nm+"dC").c_str(),i,j)+S("_",k),q,-2,2): R(q); ++bit; int x[3]={i,j,k}; for(int a=0;a<3;++a) for(int b=0;b<3;++b) if(a!=b) d.dC[x[a]](x[b],x[3-a-b])=v; }
    d.state(state); return d;
}
class Base : public Lin
{
public:
    Data d[2][2];                                   // point, height
    Base(const gsMultiPatch<R> & mp,const gsFunction<R> & t,const std::vector<gsFunctionSet<R>*> & p,const gsFunction<R> & rho): Lin(mp,t,p,rho) {}
    template<class F> Mat all(int rows,const Mat & u,const Mat & z,F f) const
    { Mat r(rows,u.cols()*z.rows()); for(int k=0;k<u.cols();++k) for(int j=0;j<z.rows();++j) r.col(j*u.cols()+k)=f(d[u(0,k)>rat(1,8)][!(z(j,k)==R(0))]); return r; }
    static Mat v9(const Data & x){ Mat r(9,1); for(int i=0;i<9;++i) r(i,0)=x.C(i%3,i/3); return r; }
    static Mat v27(const Data & x){ Mat r(27,1); for(int i=0;i<27;++i) r(i,0)=x.dC[i/9](i%3,(i/3)%3)/2; return r; }
    static Mat vN(const Data & x){ return x.N; }
    static Mat vE(const Data & x){ return x.E; }
    static Mat vp(const Data & x){ Mat r(2,1); r<<x.p[0],x.p[1]; return r; }
    static Mat ve(const Data & x){ Mat r(3,1); r<<x.e[0],x.e[1],R(0); return r; }
    gsMatrix<R> eval3D_matrix(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z,enum MaterialOutput) const override { return all(9,u,z,v9); }
    gsMatrix<R> eval3D_dmatrix(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z,enum MaterialOutput) const override { return all(27,u,z,v27); }
    gsMatrix<R> eval3D_vector(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z,enum MaterialOutput) const override { return all(3,u,z,vN); }
    gsMatrix<R> eval3D_stress(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z,enum MaterialOutput) const override { return all(3,u,z,vN); }
    gsMatrix<R> eval3D_strain(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z) const override { return all(3,u,z,vE); }
    gsMatrix<R> eval3D_pstress(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z,enum MaterialOutput) const override { return all(2,u,z,vp); }
    gsMatrix<R> eval3D_pstrain(const index_t,const gsMatrix<R>& u,const gsMatrix<R>& z) const override { return all(3,u,z,ve); }
    using Lin::eval3D_matrix; using Lin::eval3D_dmatrix; using Lin::eval3D_vector; using Lin::eval3D_stress; using Lin::eval3D_strain;
};
struct Fix
{
    Loc lo,ld; gsMultiPatch<R> mp,def; gsConstantFunction<R> ft,fE,fnu,frho; std::vector<gsFunctionSet<R>*> p; std::unique_ptr<Base> m;
    Fix(Ctx & c,bool geo=false)
    {
        lo.a1[0]=R(1); lo.a2[0]=rat(1,4); lo.a2[1]=R(1); ld.a1[0]= geo? c.in("d11",1.3,0.5,2): rat(5,4); ld.a1[1]=rat(1,10); ld.a2[0]=rat(1,5); ld.a2[1]= geo? c.in("d22",0.8,0.5,2): rat(4,5);
        mp=mpOf(lo,DIM); def=mpOf(ld,DIM); ft=gsConstantFunction<R>(rat(1,10),DIM); fE=gsConstantFunction<R>(R(3),DIM); fnu=gsConstantFunction<R>(rat(3,10),DIM); frho=gsConstantFunction<R>(R(2),DIM); p={&fE,&fnu};
        m.reset(new Base(mp,ft,p,frho)); m->setDeformed(&def);
    }
};
// the wrinkled response to (C,N,E) for the direction theta: strain E+g*n1 with n1.S=0
struct Wr
{
    const Data & d; R th,cs,sn,n1[3],n2[3],h,g;
    Wr(Ctx & c,const Data & d_,const R & th_): d(d_),th(th_)
    {
        c.cut("theta",th); cs=cos(th); sn=sin(th); n1[0]=cs*cs; n1[1]=sn*sn; n1[2]=2*cs*sn; n2[0]=-cs*sn; n2[1]=cs*sn; n2[2]=cs*cs-sn*sn; h=quad(n1,n1); g=-dotN(n1)/h;
    }
    R quad(const R * a,const R * b) const { R s(0); for(int i=0;i<3;++i) for(int j=0;j<3;++j) s+=a[i]*d.C(i,j)*b[j]; return s; }
    R dotN(const R * a) const { return a[0]*d.N(0,0)+a[1]*d.N(1,0)+a[2]*d.N(2,0); }
    Mat Cn(const R * a) const { Mat r(3,1); for(int i=0;i<3;++i){ r(i,0)=R(0); for(int j=0;j<3;++j) r(i,0)+=d.C(i,j)*a[j]; } return r; }
    Mat stress() const { Mat r=Cn(n1); for(int i=0;i<3;++i) r(i,0)=d.N(i,0)+g*r(i,0); return r; }
    // derivative of the wrinkled stress while the direction keeps satisfying n2.S=0, in the layout M(i,j) = d S_j / d E_i
    Mat tangent() const
    {
        Mat X=stress(),Cn1=Cn(n1),Cn2=Cn(n2),M(3,3); R n3[3]; n3[0]=sn*sn-cs*cs; n3[1]=cs*cs-sn*sn; n3[2]=-4*cs*sn;
        R fT(0); Mat dS(3,3); R fE[3];
        for(int i=0;i<3;++i)
        {
            R dCn[3],nd(0); for(int j=0;j<3;++j){ dCn[j]=R(0); for(int k=0;k<3;++k) dCn[j]+=d.dC[i](j,k)*n1[k]; nd+=n1[j]*dCn[j]; }
            R gi=-(Cn1(i,0)+g*nd)/h; fE[i]=R(0); for(int j=0;j<3;++j){ dS(i,j)=d.C(j,i)+gi*Cn1(j,0)+g*dCn[j]; fE[i]+=n2[j]*dS(i,j); }
        }
        R gT=-2*g*quad(n2,n1)/h; /* -(2 n2.N+4 g n2.C.n1)/h, where n2.N+g n2.C.n1 = 0 for the wrinkling direction */ Mat sT(3,1); for(int j=0;j<3;++j){ sT(j,0)=gT*Cn1(j,0)+2*g*Cn2(j,0); fT+=n3[j]*X(j,0)+n2[j]*sT(j,0); }
        for(int i=0;i<3;++i) for(int j=0;j<3;++j) M(i,j)=dS(i,j)-sT(j,0)*fE[i]/fT;
        return M;
    }
};
Mat U0(){ return pt(0,0); }
Mat Z0(){ return sc(R(0)); }
R theta(const gsMaterialMatrixBase<R> & t){ return t.eval3D_theta(0,U0(),Z0(),O::Generic)(0,0); }

void wrStress(Ctx & c,int w)
{
    Fix f(c); f.m->d[0][0]=make(c,"",W[w],0,7,-1); TL t(f.m.get()); R th=theta(t); Mat V=t.eval3D_vector(0,U0(),Z0(),O::VectorN),X=t.eval3D_stress(0,U0(),Z0(),O::StressN); Wr r(c,f.m->d[0][0],th);
    c.eqm("S",V,r.stress()); c.eqm("T",X,r.stress()); c.eq("free",r.n1[0]*V(0,0)+r.n1[1]*V(1,0)+r.n1[2]*V(2,0),R(0));
}
NM(wrStress){ wrStress(c,0); }
NM(wrStress2){ wrStress(c,1); }
NM(wrStrain){ Fix f(c); Data & d=f.m->d[0][0]; d=make(c,"",W[0],0,7,-1); TN t(f.m.get()); R th=theta(t); Mat V=t.eval3D_strain(0,U0(),Z0()),G=t.eval3D_gamma(0,U0(),Z0(),O::Generic); Wr r(c,d,th); for(int i=0;i<3;++i) c.eq(S("E",i),V(i,0),d.E(i,0)+r.g*r.n1[i]); c.eq("gamma",G(0,0),r.g); }
NM(wrCauchy){ Fix f(c,true); Data & d=f.m->d[0][0]; d=make(c,"",W[1],0,0); TL t(f.m.get()); Mat V=t.eval3D_CauchyStress(0,U0(),Z0(),O::CauchyStressN),X=t.eval3D_stress(0,U0(),Z0(),O::StressN),J=f.m->eval3D_detF(0,U0(),Z0(),O::Generic); for(int i=0;i<3;++i){ R x=X(i,0); c.cut(S("S",i),x); c.eq(S("s",i),V(i,0)*J(0,0),x); } }
template<class T> void wrMatrix(Ctx & c,int w,int sym,int dsym)
{
    Fix f(c); Data & d=f.m->d[0][0]; d=make(c,"",W[w],0,sym,dsym); T t(f.m.get()); R th=theta(t); Mat M=as33(t.eval3D_matrix(0,U0(),Z0(),O::MatrixA),0); Wr r(c,d,th);
    c.eqm("M",M,r.tangent());
}
NM(wrMatrix){ wrMatrix<TL>(c,0,7,-1); }
NM(wrMatrix2){ wrMatrix<TL>(c,1,7,-1); }
NM(wrTangent){ wrMatrix<TN>(c,0,3,-1); }        // constant stiffness
NM(wrTangentA){ wrMatrix<TN>(c,0,0,1023); }     // stiffness derivatives arbitrary
NM(wrTangentB){ wrMatrix<TN>(c,1,2,0x55); }     // stress and four of the derivatives arbitrary
NM(wrTangentC){ wrMatrix<TN>(c,1,1,0); }        // stiffness arbitrary
// the direction found: stress perpendicular to the wrinkles vanishes, tension along them (ground instances, 24 states)
NM(direction)
{
    for(int w=0;w<3;++w) for(int a=0;a<8;++a)
    {
        std::vector<double> v(W[w],W[w]+12); v[6]+=0.04*(a%3); v[7]-=0.03*(a%2); v[8]+=0.1*(a/4); Fix f(c); f.m->d[0][0]=make(c,"",v.data(),0,0); TL t(f.m.get()); R th=theta(t); Mat V=t.eval3D_stress(0,U0(),Z0(),O::StressN);
        R cs=val(cos(th)),sn=val(sin(th)),s0=val(V(0,0)),s1=val(V(1,0)),s2=val(V(2,0)); std::string n=S2("d",w,a);
        R sh=-cs*sn*s0+cs*sn*s1+(cs*cs-sn*sn)*s2,te=sn*sn*s0+cs*cs*s1-2*cs*sn*s2; c.le(n+"+",sh,R(1e-8)); c.le(n+"-",-sh,R(1e-8)); c.le(n+"t",R(0),te);
    }
}
// taut: the base material; slack: the base material times the slack multiplier
template<class T> void plain(Ctx & c,int state)
{
    Fix f(c); Data & d=f.m->d[0][0]; d=make(c,"",W[0],state,7,-1); T tf(f.m.get()); R k= state==1? R(1): R(0); if(state==-1){ k=c.in("k",0.01,0,0.5); tf.options().setReal("SlackMultiplier",k); }
    Mat u=U0(),z=Z0(); c.eq("state",tf.eval3D_tensionfield(0,u,z,O::TensionField)(0,0),R(state));
    c.eqm("S",tf.eval3D_vector(0,u,z,O::VectorN),Mat(d.N*k)); c.eqm("T",tf.eval3D_stress(0,u,z,O::VectorN),Mat(d.N*k)); c.eqm("C",as33(tf.eval3D_matrix(0,u,z,O::MatrixA),0),Mat(d.C*k)); c.eqm("E",tf.eval3D_strain(0,u,z),Mat(d.E*k));
    Mat J=f.m->eval3D_detF(0,u,z,O::Generic),s=tf.eval3D_CauchyStress(0,u,z,O::CauchyStressN); for(int i=0;i<3;++i) c.eq(S("s",i),s(i,0)*J(0,0),d.N(i,0)*k);
    Mat p=tf.eval3D_pstress(0,u,z,O::PStressN),e=tf.eval3D_pstrain(0,u,z); for(int i=0;i<2;++i){ c.eq(S("p",i),p(i,0),d.p[i]*k); c.eq(S("e",i),e(i,0),d.e[i]*k); }
    Mat a,b; tf.thickness_into(0,u,a); f.m->thickness_into(0,u,b); c.eqm("t",a,b); tf.density_into(0,u,a); f.m->density_into(0,u,b); c.eqm("rho",a,b);
}
NM(taut){ plain<TL>(c,1); }
NM(slack){ plain<TL>(c,-1); }
NM(tautN){ plain<TN>(c,1); }
NM(slackN){ plain<TN>(c,-1); }
// classification from arbitrary principal stresses and strains: option 0 strain, 1 stress, 2 mixed
void classify(Ctx & c,int opt,int w)
{
    Fix f(c); Data & d=f.m->d[0][0]; d=make(c,"",W[0],1,0); double P[3][4]={{0.5,1,0.1,0.2},{-0.5,1,-0.1,0.2},{-1,-0.5,-0.2,-0.1}};
    d.p[0]=c.in("p0",P[w][0],-4,4); d.p[1]=c.in("p1",P[w][1],-4,4); d.e[0]=c.in("e0",P[w][2],-4,4); d.e[1]=c.in("e1",P[w][3],-4,4); c.assumeGe(d.p[1]-d.p[0]); c.assumeGe(d.e[1]-d.e[0]);
    f.m->options().setInt("TensionField",opt); TL t(f.m.get()); R s=t.eval3D_tensionfield(0,U0(),Z0(),O::TensionField)(0,0),q=f.m->eval3D_tensionfield(0,U0(),Z0(),O::TensionField)(0,0); c.eq("base",s,q);
    R a= opt==0? d.e[0]: d.p[0], b= opt==1? d.p[1]: d.e[1], hi= opt==0? d.e[1]: d.p[1]; R tol(1e-11); R m=math::max(hi,R(0));
    if(s==R(1)) c.le("taut",-a,tol*m); else if(s==R(-1)){ c.le("slack",b,R(0)); c.le("slack0",a,R(0)); } else { c.eq("wrinkled",s,R(0)); c.le("compressed",a,R(0)); c.le("tension",-b,R(0)); }
}
NM(class0t){ classify(c,0,0); } NM(class0w){ classify(c,0,1); } NM(class0s){ classify(c,0,2); }
NM(class1t){ classify(c,1,0); } NM(class1w){ classify(c,1,1); } NM(class1s){ classify(c,1,2); }
NM(class2t){ classify(c,2,0); } NM(class2w){ classify(c,2,1); } NM(class2s){ classify(c,2,2); }
// several points and heights in different states: every column is the result of its point alone
template<class T> void batch(Ctx & c)
{
    Fix f(c); Base & m=*f.m; R s=c.in("s",1,0.5,2); m.d[0][0]=make(c,"",W[0],0,0); m.d[0][1]=make(c,"",W[1],1,0); m.d[1][0]=make(c,"",W[2],-1,0); m.d[1][1]=make(c,"",W[1],0,0);
    for(int i=0;i<2;++i) for(int j=0;j<2;++j){ m.d[i][j].N*=s; m.d[i][j].E*=s; } T t(&m); t.options().setReal("SlackMultiplier",rat(1,8)); Mat u(2,2),z(2,2); u.col(0)=pt(0,0); u.col(1)=pt(0.25,0.5); z<<R(0),rat(1,4),rat(1,2),R(0); // the heights differ per point
    Mat A[6]={t.eval3D_vector(0,u,z,O::VectorN),t.eval3D_matrix(0,u,z,O::MatrixA),t.eval3D_strain(0,u,z),t.eval3D_CauchyStress(0,u,z,O::CauchyStressN),t.eval3D_tensionfield(0,u,z,O::TensionField),t.eval3D_pstress(0,u,z,O::PStressN)};
    for(int k=0;k<2;++k) for(int j=0;j<2;++j)
    {
        int col=j*2+k; Mat v=u.col(k),y=sc(z(j,k)); int st= j==0&&k==0? 0: k==0? 1: j==0? 0: -1; c.eq(S2("st",k,j),A[4](0,col),R(st));
        Mat B[6]={t.eval3D_vector(0,v,y,O::VectorN),t.eval3D_matrix(0,v,y,O::MatrixA),t.eval3D_strain(0,v,y),t.eval3D_CauchyStress(0,v,y,O::CauchyStressN),t.eval3D_tensionfield(0,v,y,O::TensionField),t.eval3D_pstress(0,v,y,O::PStressN)};
        for(int q=0;q<6;++q){ c.eq(S2("rows",k,j)+S("_",q),R((int)A[q].cols()),R(4)); c.eqm(S2("b",k,j)+S("_",q),Mat(A[q].col(col)),B[q]); }
    }
}
NM(batch){ batch<TL>(c); }
NM(angles)
{
    Fix f(c); Base & m=*f.m; R s=c.in("s",1,0.5,2); for(int i=0;i<2;++i) for(int j=0;j<2;++j){ m.d[i][j]=make(c,"",W[i+j],0,0); m.d[i][j].N*=s; m.d[i][j].E*=s; } TL t(&m); Mat u(2,2),z(2,2); u.col(0)=pt(0,0); u.col(1)=pt(0.25,0.5); z<<R(0),rat(1,4),rat(1,2),R(0);
    Mat th=t.eval3D_theta(0,u,z,O::Generic),ga=t.eval3D_gamma(0,u,z,O::Generic); c.eq("n",R((int)th.cols()),R(4)); c.eq("ng",R((int)ga.cols()),R(4)); if(th.cols()!=4||ga.cols()!=4) return;
    for(int k=0;k<2;++k) for(int j=0;j<2;++j){ Mat v=u.col(k),y=sc(z(j,k)); c.eq(S2("th",k,j),th(0,j*2+k),t.eval3D_theta(0,v,y,O::Generic)(0,0)); c.eq(S2("ga",k,j),ga(0,j*2+k),t.eval3D_gamma(0,v,y,O::Generic)(0,0)); }
}
NM(batchN){ batch<TN>(c); }
// explicit iterations: the state comes from the stored configuration, the response from the current one
NM(explicitState)
{
    Fix f(c); gsMultiPatch<R> slack; Loc l; l.a1[0]=c.in("q",0.8,0.6,0.85); l.a2[0]=rat(1,5); l.a2[1]=rat(4,5); slack=mpOf(l,DIM); Loc g; g.a1[0]=rat(13,10); g.a2[0]=rat(3,10); g.a2[1]=rat(6,5); gsMultiPatch<R> taut=mpOf(g,DIM);
    Lin m(f.mp,f.ft,f.p,f.frho),b(f.mp,f.ft,f.p,f.frho); m.setDeformed(&slack); b.setDeformed(&slack); TL t(&m); Mat N=b.eval3D_stress(0,U0(),Z0(),O::VectorN); c.eq("slack",t.eval3D_tensionfield(0,U0(),Z0(),O::TensionField)(0,0),R(-1)); c.eqm("S0",t.eval3D_vector(0,U0(),Z0(),O::VectorN),Mat(N*R(0)));
    t.options().setSwitch("Explicit",true); t.updateDeformed(&taut); c.eq("taut",t.eval3D_tensionfield(0,U0(),Z0(),O::TensionField)(0,0),R(1)); c.eqm("S",t.eval3D_vector(0,U0(),Z0(),O::VectorN),N); c.eqm("C",t.eval3D_matrix(0,U0(),Z0(),O::MatrixA),b.eval3D_matrix(0,U0(),Z0(),O::MatrixA));
    t.setDeformed(&taut); t.updateDeformed(&slack); b.setDeformed(&taut); c.eq("slack2",t.eval3D_tensionfield(0,U0(),Z0(),O::TensionField)(0,0),R(-1)); c.eqm("S2",t.eval3D_vector(0,U0(),Z0(),O::VectorN),Mat(N*R(0)));
    t.options().setSwitch("Explicit",false); c.eqm("S3",t.eval3D_vector(0,U0(),Z0(),O::VectorN),b.eval3D_stress(0,U0(),Z0(),O::VectorN));
}
}
