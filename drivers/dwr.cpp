// Goal functionals, their derivatives and goal-oriented error estimates on one bi-quadratic element (dual space H: bi-quadratic, L: bi-linear).
#include "shell.h"
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsMaterialMatrixComposite.h>
#ifdef VSYM
// the quadrature nodes belong to the library; short rational nodes and weights of the same number of points stand for them
namespace gismo { template<> bool gsGaussRule<R>::lookupReference(index_t n,gsVector<R> & x,gsVector<R> & w)
{
    x.resize(n); w.resize(n); GISMO_ENSURE(n>=1 && n<=3,"number of nodes");
    if(n==1){ x[0]=R(0); w[0]=R(2); } else if(n==2){ x[0]=-rat(4,7); x[1]=rat(4,7); w[0]=w[1]=R(1); } else { x[0]=-rat(7,9); x[1]=R(0); x[2]=rat(7,9); w[0]=w[2]=rat(5,9); w[1]=rat(8,9); }
    return true;
} }
#endif
namespace {
typedef Shell<3,true> Sh; typedef gsThinShellAssemblerDWR<3,R,true> Dwr; typedef gsThinShellAssembler<3,R,true> Asm; typedef GoalFunction G;
#define NM(n) VCASE(dw_##n)
gsMultiBasis<R> linear(){ gsKnotVector<R> k(0,1,0,2); gsTensorBSplineBasis<2,R> b(k,k); return gsMultiBasis<R>(b); }
gsTensorBSpline<2,R> lin(const Mat & K){ gsKnotVector<R> k(0,1,0,2); gsTensorBSplineBasis<2,R> b(k,k); return gsTensorBSpline<2,R>(b,K); }
// value of bi-linear function a on the bi-quadratic control points (degree elevation)
R emb(int a,int m){ int i=m%3,j=m/3,p=a%2,q=a/2; R x= p? R(i)/2: R(2-i)/2, y= q? R(j)/2: R(2-j)/2; return x*y; }
Mat elev(const Mat & K){ Mat r(9,K.cols()); r.setZero(); for(int m=0;m<9;++m) for(int a=0;a<4;++a) for(int k=0;k<K.cols();++k) r(m,k)+=emb(a,m)*K(a,k); return r; }
struct Dw : public Sh
{
    gsMultiBasis<R> bL; gsMultiPatch<R> pr; std::unique_ptr<Dwr> A;
    Dw(Ctx & c,const std::vector<Dof> & v,bool ms=false):Sh(c,v,ms),bL(linear()){ setup(); }
    // a graph over a skew parallelogram, for the integrals of bending quantities
    void plain(Ctx & c,bool sym=true){ static const int Z[9]={0,0,0,0,2,0,0,1,0}; for(int m=0;m<9;++m){ int i=m%3,j=m/3; Ko(m,0)=R(i)/2; Ko(m,1)=R(j)/2+R(i)/4; Ko(m,2)=rat(Z[m],4); for(int k=0;k<3;++k) Ku(m,k)=R(0); } free=dofs(4,2); Ku(4,2)= sym? c.in("u4_2",0.1,-0.2,0.2): rat(1,10); Ku(1,2)=rat(1,16); init(); setup(); }
    void setup(){ bc.setGeoMap(mp); pr.clear(); pr.addPatch(bern(Ku)); A.reset(new Dwr(mp,bL,basis,bc,force,mat.get())); A->optionsL().setInt("ExprAssembler.quB",2); }
    int H(int m,int k){ return A->getMapperH().index(m,0,k); }
    int L(int a,int k){ return A->getMapperL().index(a,0,k); }
};
Mat pts(){ Mat u(2,2); u(0,0)=rat(1,4); u(1,0)=rat(1,2); u(0,1)=rat(2,3); u(1,1)=rat(1,5); return u; }
std::vector<patchSide> sides(){ std::vector<patchSide> s; s.push_back(patchSide(0,boundary::west)); s.push_back(patchSide(0,boundary::north)); return s; }
R goal(Dwr & A,int form,const gsMultiPatch<R> & d){ return form==0? A.computeGoal(d): form==1? A.computeGoal(sides(),d): A.computeGoal(pts(),d); }
void dual(Dwr & A,int form,bool H,const gsMultiPatch<R> & p,const gsMultiPatch<R> & d)
{
    if(H){ if(form==0) A.assembleDualH(p,d); else if(form==1) A.assembleDualH(sides(),p,d); else A.assembleDualH(pts(),p,d); }
    else { if(form==0) A.assembleDualL(p,d); else if(form==1) A.assembleDualL(sides(),p,d); else A.assembleDualL(pts(),p,d); }
}
// goal value of the reference kinematics: in points, or integrated over the patch with the nodes of the library
R refGoal(const Sh & s,G g,int comp,int form)
{
    Mat x; gsVector<R> w; if(form==2){ x=pts(); w.resize(2); w[0]=w[1]=R(1); } else { gsVector<index_t> n(2); n<<3,3; gsGaussRule<R> q(n); gsVector<R> lo(2),up(2); lo<<R(0),R(0); up<<R(1),R(1); q.mapTo(lo,up,x,w); }
    R J(0); for(index_t k=0;k<x.cols();++k)
    {
        Bern B(x(0,k),x(1,k)); Loc a=B.at(s.Ko),b=B.at(s.Ko+s.Ku); Kin o(a,R(0),3),f(b,R(0),3); R em[3],ef[3],q[3]; strains(o,f,em,ef); Mat C=svkMat(s.E,s.nu,o.Ac);
        for(int i=0;i<3;++i)
        {
            R sm(0),sf(0); for(int j=0;j<3;++j){ sm+=C(i,j)*em[j]; sf+=C(i,j)*ef[j]; }
            q[i]= g==G::Displacement? b.x[i]-a.x[i]: g==G::MembraneStrain? em[i]: g==G::MembraneStress? sm: g==G::MembraneForce? s.t*sm: g==G::FlexuralStrain? ef[i]: g==G::FlexuralMoment? s.t*s.t*s.t/12*sf: sf;
        }
        J+=w[k]*measOf(a)*(comp==9? dot3(q,q): q[comp]);
    }
    return J;
}
void check(Ctx & c,G g,int comp,int form)
{
    bool easy=form<2 && (g==G::FlexuralStrain||g==G::FlexuralStress||g==G::FlexuralMoment); std::vector<Dof> v= easy? dofs(4,2): dofs(4,2,3,0); Dw s(c,easy? std::vector<Dof>(): v); if(easy) s.plain(c); s.A->setGoal(g,comp); R J=goal(*s.A,form,s.def); c.out("J",J); if(form!=1) c.eq("value",J,refGoal(s,g,comp,form)); dual(*s.A,form,true,s.pr,s.def); Mat z=s.A->dualH();
    for(size_t j=0;j<v.size();++j) c.eq("d."+v[j].name(),z(s.H(v[j].m,v[j].k),0),c.D("J",v[j].name()));
    dual(*s.A,form,false,s.pr,s.def); Mat y=s.A->dualL();
    for(int a=0;a<4;++a) for(int k=0;k<3;++k){ R w(0); for(int m=0;m<9;++m) w+=emb(a,m)*z(s.H(m,k),0); c.eq(S2("L",a,k),y(s.L(a,k),0),w); }
}
#define GOALS(n,g,k) NM(n##_a){ check(c,G::g,9,0); } NM(n##_c){ check(c,G::g,k,0); } NM(n##_ba){ check(c,G::g,9,1); } NM(n##_bc){ check(c,G::g,(k+1)%3,1); } NM(n##_pa){ check(c,G::g,9,2); } NM(n##_pc){ check(c,G::g,(k+2)%3,2); }
GOALS(disp,Displacement,2)
GOALS(mstrain,MembraneStrain,0)
GOALS(mstress,MembraneStress,2)
GOALS(mforce,MembraneForce,1)
GOALS(fstrain,FlexuralStrain,2)
GOALS(fstress,FlexuralStress,0)
GOALS(fmoment,FlexuralMoment,1)

// an unsymmetric laminate: membrane forces and moments depend on both strains
struct Lam
{
    std::vector<gsConstantFunction<R> > t,G,a,r; std::vector<gsFunctionSet<R>*> pt,pG,pa,pr;
    Lam(Ctx & c,bool sym=true)
    {
        for(int i=0;i<2;++i){ t.push_back(gsConstantFunction<R>(i? rat(1,10): sym? c.in("t0",0.05,0.01,0.5): rat(1,20),3)); gsVector<R> g(9); g<<R(4+i),R(1),rat(i,4), R(1),R(3-i),rat(1,5), rat(i,4),rat(1,5),R(1); G.push_back(gsConstantFunction<R>(g,3)); a.push_back(gsConstantFunction<R>(R(0),3)); r.push_back(gsConstantFunction<R>(R(2+i),3)); }
        for(int i=0;i<2;++i){ pt.push_back(&t[i]); pG.push_back(&G[i]); pa.push_back(&a[i]); pr.push_back(&r[i]); }
    }
    template<class X> void use(X & s){ s.mat.reset(new gsMaterialMatrixComposite<3,R>(s.mp,pt,pG,pa,pr)); s.setup(); }
};
void laminate(Ctx & c,G g,int comp,int form)
{
    Dw s(c,std::vector<Dof>()); s.plain(c); Lam l(c); l.use(s); s.A->setGoal(g,comp); c.out("J",goal(*s.A,form,s.def)); dual(*s.A,form,true,s.pr,s.def); c.eq("d.u4_2",s.A->dualH()(s.H(4,2),0),c.D("J","u4_2"));
}
#define LAMI(n,g,k) NM(lam_##n##_a){ laminate(c,G::g,9,0); } NM(lam_##n##_c){ laminate(c,G::g,k,0); } NM(lam_##n##_ba){ laminate(c,G::g,9,1); } NM(lam_##n##_bc){ laminate(c,G::g,k,1); } NM(lam_##n##_pa){ laminate(c,G::g,9,2); } NM(lam_##n##_pc){ laminate(c,G::g,k,2); }
LAMI(mforce,MembraneForce,0)
LAMI(fmoment,FlexuralMoment,1)

// principal quantities: the undeformed surface is plane
void principal(Ctx & c,G g,int comp,int form)
{
    Dw s(c,std::vector<Dof>()); static const int X[9]={0,2,4,0,3,5,1,2,4},Y[9]={0,1,0,2,3,2,4,4,5}; for(int m=0;m<9;++m){ s.Ko(m,0)=rat(X[m],4); s.Ko(m,1)=rat(Y[m],4); s.Ko(m,2)=R(0); for(int k=0;k<3;++k) s.Ku(m,k)=rat((2*m+k)%5-2,20); }
    s.Ku(4,0)=c.in("u4_0",0.1,-0.2,0.2); s.init(); s.setup(); s.A->setGoal(g,comp); c.out("J",goal(*s.A,form,s.def)); dual(*s.A,form,true,s.pr,s.def); Mat z=s.A->dualH(); c.eq("d.u4_0",z(s.H(4,0),0),c.D("J","u4_0"));
}
// over the patch and its sides: a plate that is stretched and sheared
void plate(Ctx & c,G g,int comp,int form)
{
    Dw s(c,std::vector<Dof>()); R a=c.in("a",0.2,-0.2,0.4); for(int m=0;m<9;++m){ int i=m%3,j=m/3; s.Ko(m,0)=R(i)/2; s.Ko(m,1)=R(j)/2; s.Ko(m,2)=R(0); s.Ku(m,0)=a*R(i)/2+R(j)/8; s.Ku(m,1)=R(i)/16; s.Ku(m,2)=R(0); }
    s.init(); s.setup(); s.A->setGoal(g,comp); c.out("J",goal(*s.A,form,s.def)); dual(*s.A,form,true,s.pr,s.def); Mat z=s.A->dualH(); R w(0); for(int m=0;m<9;++m) w+=z(s.H(m,0),0)*R(m%3)/2; c.eq("d.a",w,c.D("J","a"));
}
#define PRIN(n,g) NM(n##_a){ plate(c,G::g,9,0); } NM(n##_c){ plate(c,G::g,0,0); } NM(n##_d){ plate(c,G::g,1,0); } NM(n##_ba){ plate(c,G::g,9,1); } NM(n##_bc){ plate(c,G::g,1,1); } NM(n##_bd){ plate(c,G::g,0,1); } NM(n##_pa){ principal(c,G::g,9,2); } NM(n##_p0){ principal(c,G::g,0,2); } NM(n##_p1){ principal(c,G::g,1,2); } 
PRIN(stretch,Stretch)
PRIN(pstrain,PStrain)
PRIN(pstress,PStress)

// error estimates: the out-of-balance vector of the shell tested with the difference of the dual solutions
struct Er : public Dw
{
    Mat ZL,ZH,W; gsMultiPatch<R> zL,zH; gsConstantFunction<R> f2,g; Affine frc;
    Er(Ctx & c,bool easy,bool few=false,bool usym=true):Dw(c,easy? std::vector<Dof>(): dofs(4,2)),ZL(4,3),ZH(9,3),frc(3,3)
    {
        if(easy) plain(c,usym);
        for(int m=0;m<9;++m) for(int k=0;k<3;++k) ZH(m,k)=rat((3*m+2*k)%7-3,8); for(int m=0;m<4;++m) for(int k=0;k<3;++k) ZL(m,k)=rat((2*m+3*k)%5-2,8);
        if(few){ ZH(4,2)=c.in("h2",0.4,-2,2); ZL(2,2)=c.in("l2",-0.4,-2,2); } else { ZH(0,0)=c.in("h0",0.3,-2,2); ZH(5,1)=c.in("h1",-0.2,-2,2); ZH(4,2)=c.in("h2",0.4,-2,2); ZL(1,0)=c.in("l0",0.3,-2,2); ZL(3,1)=c.in("l1",0.5,-2,2); ZL(2,2)=c.in("l2",-0.4,-2,2); }
        zH.addPatch(bern(ZH)); zL.addPatch(lin(ZL)); W=ZH-elev(ZL);
        for(int i=0;i<3;++i){ if(few && i<2) frc.c0(i,0)=R(i+1); else frc.c0(i,0)=c.in(S("f",i),0.5+i,-3,3); for(int j=0;j<3;++j) frc.C(i,j)=rat((i+2*j)%3-1,2); }
    }
    void build(bool neumann)
    {
        if(neumann){ gsVector<R> q(3); q<<R(2),rat(-1,2),R(3); g=gsConstantFunction<R>(q,3); bc.clear(); bc.setGeoMap(mp); bc.addCondition(0,boundary::east,condition_type::neumann,&g); } else bc.setGeoMap(mp);
        A.reset(new Dwr(mp,bL,basis,bc,frc,mat.get())); as.reset(new Asm(mp,basis,bc,frc,mat.get()));
    }
    R test(const Mat & r){ R s(0); for(int m=0;m<9;++m) for(int k=0;k<3;++k) s+=r(idx(m,k),0)*W(m,k); return s; }
};
void err(Ctx & c,bool neumann,bool deformed,bool pl,bool loads)
{
    Er e(c,deformed); e.build(neumann); gsPointLoads<R> p; gsVector<R> x(2),v(3); x<<rat(1,4),rat(2,3); v<<c.in("P0",0.7,-3,3),R(2),R(-1); p.addLoad(x,v,0,true); if(pl){ e.A->setPointLoads(p); if(loads) e.as->setPointLoads(p); }
    Mat r; if(deformed){ e.as->assembleVector(e.def); r=e.as->rhs(); } else { e.as->assemble(); r=e.as->rhs(); }
    R want=e.test(r); R got= deformed? e.A->computeError(e.zL,e.zH,e.def,loads): e.A->computeError(e.zL,e.zH,loads); c.eq("error",got,want); c.eq("stored",e.A->error(),want);
}
NM(err){ err(c,false,false,false,false); }
NM(errN){ err(c,true,false,false,false); }
NM(errP){ err(c,true,false,true,true); }
NM(errPn){ err(c,false,false,true,false); }
NM(errD){ err(c,false,true,false,false); }
NM(errDN){ err(c,true,true,false,true); }
NM(errDP){ err(c,true,true,true,true); }
NM(errDPn){ err(c,false,true,true,false); }
// the element contributions on two elements add up to the total, and each is the estimate of its element
NM(elems)
{
    Er e(c,true,true); e.build(false); gsKnotVector<R> k1(0,1,1,3),k2(0,1,0,3); gsTensorBSplineBasis<2,R> b(k1,k2); gsMultiBasis<R> b2(b); Dwr A(e.mp,e.bL,b2,e.bc,e.frc,e.mat.get());
    for(int d=0;d<2;++d)
    {
        std::vector<R> v= d? A.computeErrorElements(e.zL,e.zH,e.def): A.computeErrorElements(e.zL,e.zH); c.eq(S("n",d),R((int)v.size()),R(2)); R s(0); for(size_t i=0;i<v.size();++i) s+=v[i]; c.eq(S("sum",d),s,A.error());
        R t= d? A.computeError(e.zL,e.zH,e.def): A.computeError(e.zL,e.zH); c.eq(S("total",d),s,t); if(v.size()!=2) continue;
        // first element: the patch restricted to its first half
        for(int h=0;h<2;++h)
        {
            Mat T(3,3); T.setZero(); if(h==0){ T(0,0)=R(1); T(1,0)=T(1,1)=rat(1,2); T(2,0)=T(2,2)=rat(1,4); T(2,1)=rat(1,2); } else { T(2,2)=R(1); T(1,1)=T(1,2)=rat(1,2); T(0,0)=T(0,2)=rat(1,4); T(0,1)=rat(1,2); }
            auto cut=[&](const Mat & K){ Mat r(9,3); r.setZero(); for(int j=0;j<3;++j) for(int i=0;i<3;++i) for(int q=0;q<3;++q) for(int k=0;k<3;++k) r(i+3*j,k)+=T(i,q)*K(q+3*j,k); return r; };
            gsMultiPatch<R> mp,df,z; mp.addPatch(bern(cut(e.Ko))); df.addPatch(bern(cut(e.Ko+e.Ku))); gsBoundaryConditions<R> bc; bc.setGeoMap(mp); gsMaterialMatrixLinear<3,R> mt(mp,e.ft,e.fE,e.fnu,e.frho); Asm B(mp,e.basis,bc,e.frc,&mt); Mat W=cut(e.W),r; if(d) B.assembleVector(df); else B.assemble(); r=B.rhs(); R w(0); for(int m=0;m<9;++m) for(int k=0;k<3;++k) w+=r(B.getMapper().index(m,0,k),0)*W(m,k); c.eq(S2("el",d,h),v[h],w);
        }
    }
}
// eigenvalue problems: bilinear forms of the mass and stiffness matrices
R form(Asm & A,const gsSparseMatrix<R> & K,const Mat & x,const Mat & y){ R s(0); for(int m=0;m<9;++m) for(int k=0;k<3;++k) for(int n=0;n<9;++n) for(int l=0;l<3;++l) s+=x(m,k)*K.coeff(A.getMapper().index(m,0,k),A.getMapper().index(n,0,l))*y(n,l); return s; }
struct Eg : public Er
{
    Mat U; gsMultiPatch<R> u; R lp,ld,lh; gsSparseMatrix<R> K,M,N;
    std::unique_ptr<Lam> lam;
    Eg(Ctx & c,bool easy,bool l=false):Er(c,easy,easy,!l),U(9,3){ if(l){ lam.reset(new Lam(c,false)); lam->use(*this); } for(int m=0;m<9;++m) for(int k=0;k<3;++k) U(m,k)=rat((5*m+k)%4-1,8); U(2,0)= easy? rat(1,5): c.in("v0",0.2,-2,2); U(4,2)=c.in("v1",0.6,-2,2); u.addPatch(bern(U)); lp=c.in("lp",2,-5,5); ld=c.in("ld",2.5,-5,5); lh=c.in("lh",2.2,-5,5); build(false); as->assembleMass(); M=as->massMatrix(); as->assemble(); K=as->matrix(); as->assembleMatrix(def); N=as->matrix(); }
};
NM(lmodal){ Eg e(c,true,true); e.A->setGoal(G::Modal); R z=form(*e.as,e.K,e.U,e.W)-e.lp*form(*e.as,e.M,e.U,e.W)+(e.lh-e.ld)*form(*e.as,e.M,e.U,e.U)-(e.lh-e.ld); c.eq("error",e.A->computeErrorEig(e.lp,e.ld,e.lh,e.zL,e.zH,e.u),z); }
NM(lbuckling){ Eg e(c,true,true); e.A->setGoal(G::Buckling); R a=form(*e.as,e.K,e.U,e.W),b=form(*e.as,e.N,e.U,e.W),p=form(*e.as,e.K,e.U,e.U),q=form(*e.as,e.N,e.U,e.U); c.eq("error",e.A->computeErrorEig(e.lp,e.ld,e.lh,e.zL,e.zH,e.u,e.def),a-e.lp*(b-a)+(e.lh-e.ld)*(q-p)-(e.lh-e.ld)); }
NM(lbnorm){ Eg e(c,true,true); e.A->setGoal(G::Buckling); c.eq("norm",e.A->matrixNorm(e.u,e.zH,e.def),form(*e.as,e.N,e.U,e.ZH)-form(*e.as,e.K,e.U,e.ZH)); }
NM(modal){ Eg e(c,false); e.A->setGoal(G::Modal); R z=form(*e.as,e.K,e.U,e.W)-e.lp*form(*e.as,e.M,e.U,e.W)+(e.lh-e.ld)*form(*e.as,e.M,e.U,e.U)-(e.lh-e.ld); c.eq("error",e.A->computeErrorEig(e.lp,e.ld,e.lh,e.zL,e.zH,e.u),z); }
NM(mnorm){ Eg e(c,false); e.A->setGoal(G::Modal); c.eq("norm",e.A->matrixNorm(e.u,e.zH),form(*e.as,e.M,e.U,e.ZH)); }
NM(buckling){ Eg e(c,true); e.A->setGoal(G::Buckling); R a=form(*e.as,e.K,e.U,e.W),b=form(*e.as,e.N,e.U,e.W),p=form(*e.as,e.K,e.U,e.U),q=form(*e.as,e.N,e.U,e.U); c.eq("error",e.A->computeErrorEig(e.lp,e.ld,e.lh,e.zL,e.zH,e.u,e.def),a-e.lp*(b-a)+(e.lh-e.ld)*(q-p)-(e.lh-e.ld)); }
NM(bnorm){ Eg e(c,true); e.A->setGoal(G::Buckling); c.eq("norm",e.A->matrixNorm(e.u,e.zH,e.def),form(*e.as,e.N,e.U,e.ZH)-form(*e.as,e.K,e.U,e.ZH)); }

// membrane theory: no bending part
void errM(Ctx & c,bool neumann,bool deformed,bool pl)
{
    typedef gsThinShellAssemblerDWR<3,R,false> DwrM; typedef gsThinShellAssembler<3,R,false> AsmM; Er e(c,deformed); e.build(neumann); DwrM A(e.mp,e.bL,e.basis,e.bc,e.frc,e.mat.get()); AsmM B(e.mp,e.basis,e.bc,e.frc,e.mat.get());
    gsPointLoads<R> p; gsVector<R> x(2),v(3); x<<rat(1,4),rat(2,3); v<<c.in("P0",0.7,-3,3),R(2),R(-1); p.addLoad(x,v,0,true); if(pl){ A.setPointLoads(p); B.setPointLoads(p); }
    if(deformed) B.assembleVector(e.def); else B.assemble(); Mat r=B.rhs(); R want(0); for(int m=0;m<9;++m) for(int k=0;k<3;++k) want+=r(B.getMapper().index(m,0,k),0)*e.W(m,k);
    c.eq("error",deformed? A.computeError(e.zL,e.zH,e.def,true): A.computeError(e.zL,e.zH,true),want);
}
NM(merr){ errM(c,true,false,false); }
NM(merrP){ errM(c,false,false,true); }
NM(merrD){ errM(c,true,true,false); }
NM(merrDP){ errM(c,false,true,true); }
// two separate patches of two and one elements: the estimate of every element, with loads in points of both patches
NM(two)
{
    Er e(c,true,true); Mat Kb=e.Ko; for(int m=0;m<9;++m){ Kb(m,0)+=R(5); Kb(m,1)+=rat(m%2,3); } gsMultiPatch<R> mp,df,zH,zL; mp.addPatch(bern(e.Ko)); mp.addPatch(bern(Kb)); df.addPatch(bern(e.Ko+e.Ku)); df.addPatch(bern(Kb+e.Ku)); Mat Hb=e.ZH,Lb=e.ZL; Hb(3,1)+=R(1); Lb(2,0)-=rat(1,2); zH.addPatch(bern(e.ZH)); zH.addPatch(bern(Hb)); zL.addPatch(lin(e.ZL)); zL.addPatch(lin(Lb));
    gsKnotVector<R> k1(0,1,1,3),k2(0,1,0,3); gsTensorBSplineBasis<2,R> b1(k1,k2),b2(k2,k2); std::vector<gsBasis<R>*> bs; bs.push_back(b1.clone().release()); bs.push_back(b2.clone().release()); gsMultiBasis<R> b(bs,gsBoxTopology(2,2)); std::vector<gsBasis<R>*> ls; ls.push_back(e.bL.basis(0).clone().release()); ls.push_back(e.bL.basis(0).clone().release()); gsMultiBasis<R> l(ls,gsBoxTopology(2,2));
    gsBoundaryConditions<R> bc; bc.setGeoMap(mp); gsMaterialMatrixLinear<3,R> mt(mp,e.ft,e.fE,e.fnu,e.frho); Dwr A(mp,l,b,bc,e.frc,&mt);
    std::vector<R> v0=A.computeErrorElements(zL,zH); R e0=A.error(),t0=A.computeError(zL,zH); gsPointLoads<R> p; Mat X(2,3),P(3,3); X<<rat(1,4),rat(2,3),rat(2,3), rat(2,3),rat(1,4),rat(1,2); P<<c.in("P0",0.7,-3,3),R(1),R(3), R(2),c.in("P1",-0.4,-3,3),R(-1), R(-1),R(1),c.in("P2",0.9,-3,3); int at[3]={0,0,1},el[3]={0,1,2}; for(int i=0;i<3;++i) p.addLoad(gsVector<R>(X.col(i)),gsVector<R>(P.col(i)),at[i],true);
    A.setPointLoads(p); std::vector<R> v=A.computeErrorElements(zL,zH,true); c.eq("n",R((int)v.size()),R(3)); c.eq("n0",R((int)v0.size()),R(3)); if(v.size()!=3||v0.size()!=3) return; R sum(0),all(0); R add[3]={R(0),R(0),R(0)};
    for(int i=0;i<3;++i){ Mat h=zH.patch(at[i]).eval(X.col(i)),w=zL.patch(at[i]).eval(X.col(i)); for(int k=0;k<3;++k) add[el[i]]+=(h(k,0)-w(k,0))*P(k,i); }
    for(int i=0;i<3;++i){ c.eq(S("e",i),v[i],v0[i]+add[i]); sum+=v[i]; all+=add[i]; } c.eq("sum",A.error(),e0+all); c.eq("add",sum,A.error()); c.eq("total",A.computeError(zL,zH,true),t0+all); c.eq("same",e0,t0);
}
// the systems of both spaces are those of the shell on that basis
NM(systems)
{
    Dw s(c,std::vector<Dof>(),true); s.force=gsConstantFunction<R>((gsVector<R>(3)<<R(1),R(-2),c.in("f",0.5,-3,3)).finished(),2); s.setup(); Asm L(s.mp,s.bL,s.bc,s.force,s.mat.get()),H(s.mp,s.basis,s.bc,s.force,s.mat.get()); L.options().setInt("ExprAssembler.quB",2); Dwr & A=*s.A;
    auto same=[&](const char * n,const gsSparseMatrix<R> & x,const gsSparseMatrix<R> & y){ c.eqm(n,Mat(x),Mat(y)); };
    L.assembleMass(); H.assembleMass(); A.assembleMassL(); A.assembleMassH(); same("massL",A.massL(),L.massMatrix()); same("massH",A.massH(),H.massMatrix()); A.assembleMassL(true); L.assembleMass(true); c.eqm("lumped",Mat(A.massL()),Mat(L.massMatrix()));
    L.assemble(); H.assemble(); A.assembleMatrixL(); A.assembleMatrixH(); same("matrixL",A.matrixL(),L.matrix()); same("matrixH",A.matrixH(),H.matrix()); A.assemblePrimalL(); A.assemblePrimalH(); c.eqm("primalL",A.primalL(),L.rhs()); c.eqm("primalH",A.primalH(),H.rhs());
    L.assembleMatrix(s.def); A.assembleMatrixL(s.def); same("tangentL",A.matrixL(),L.matrix()); H.assembleMatrix(s.def); A.assembleMatrixH(s.def); same("tangentH",A.matrixH(),H.matrix());
    L.assembleVector(s.def); A.assemblePrimalL(s.def); c.eqm("residualL",A.primalL(),L.rhs()); H.assembleVector(s.def); A.assemblePrimalH(s.def); c.eqm("residualH",A.primalH(),H.rhs());
}
}
