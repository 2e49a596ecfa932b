// External loads of the shell assembler. -DDIM=2|3 -DBEND=0|1
#include "shell.h"
namespace {
typedef Shell<DIM,BEND> Sh;
#if DIM==3 && BEND
#define NM(n) VCASE(ld3b_##n)
#elif DIM==3
#define NM(n) VCASE(ld3m_##n)
#else
#define NM(n) VCASE(ld2m_##n)
#endif
void vec(Ctx & c,const std::string & n,const Mat & r,const Mat & e){ c.eqm(n,r,e); }
Mat zeroRhs(const Sh & s){ Mat e(s.as->getMapper().freeSize(),1); e.setZero(); return e; }
// base: internal forces without any load
Mat internal(Sh & s){ typename Sh::Asm & A=s.make(); A.assemble(); A.assembleVector(s.def); return A.rhs(); }

// body force in the parametric / physical domain
void body(Ctx & c,int dom,bool affineF)
{
    Sh s(c,dofs(4,DIM-1,7,0)); Mat base=internal(s);
    Affine f=affine(c,"f",dom,DIM,affineF);
    typename Sh::Asm A(s.mp,s.basis,s.bc,f,s.mat.get()); A.options().setReal("ExprAssembler.quA",R(0)); A.options().setInt("ExprAssembler.quB",1);
    R q[2]={rat(1,2),rat(1,2)}; Loc l=s.lo(); Mat v= f.at(dom==2? q: l.x); Bern b(q[0],q[1]); Mat e=zeroRhs(s);
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) e(s.idx(m,k),0)+=b.b[m]*v(k,0)*measOf(l);
    A.assemble(); vec(c,"linear",A.rhs(),e);
    A.assembleVector(s.def); vec(c,"nonlinear",A.rhs()-base,e);
}
#if DIM==3
NM(bodyPhys){ body(c,3,true); }
NM(bodyPar){ body(c,2,true); }
#else
NM(body){ body(c,2,false); }
#endif
// Neumann load on one side
void neumann(Ctx & c,int side,bool par)
{
    Sh s(c,dofs(4,DIM-1,5,0)); Mat base=internal(s);
    Affine f=affine(c,"g",par?2:DIM,DIM,true);
    s.bc.addCondition(0,boundary::side(side),condition_type::neumann,&f,0,par);
    typename Sh::Asm & A=s.make(); SidePt p(side); Bern b(p.x,p.y); Loc l=b.at(s.Ko); R q[2]={p.x,p.y};
    Mat v=f.at(par? q: l.x); R w=len3(p.tang(l)); Mat e=zeroRhs(s);
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) e(s.idx(m,k),0)+=b.b[m]*v(k,0)*w;
    A.assemble(); vec(c,"linear",A.rhs(),e);
    A.assembleVector(s.def); vec(c,"nonlinear",A.rhs()-base,e);
}
NM(neuWest){ neumann(c,1,false); }
NM(neuEast){ neumann(c,2,false); }
NM(neuSouth){ neumann(c,3,false); }
NM(neuNorth){ neumann(c,4,false); }
// point load at a parametric point
NM(point)
{
    Sh s(c,dofs(4,DIM-1,3,0)); Mat base=internal(s);
    gsVector<R> pt(2); pt[0]=c.in("px",0.3,0,1); pt[1]=c.in("py",0.6,0,1);
    gsVector<R> v(DIM); for(int k=0;k<DIM;++k) v[k]=c.in(S("P",k),1.5-k*0.7,-3,3);
    gsVector<R> p2(2); p2[0]=R(1); p2[1]=rat(1,4); gsVector<R> v2(DIM); v2.setZero(); v2[0]=c.in("Q",2.5,-3,3);
    gsPointLoads<R> pl; pl.addLoad(pt,v,0,true); pl.addLoad(p2,v2,0,true);
    typename Sh::Asm & A=s.make(); A.setPointLoads(pl);
    Bern b(pt[0],pt[1]),b2(p2[0],p2[1]); Mat e=zeroRhs(s);
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) e(s.idx(m,k),0)+=b.b[m]*v[k]+b2.b[m]*v2[k];
    A.assemble(); vec(c,"linear",A.rhs(),e);
    A.assembleVector(s.def); vec(c,"nonlinear",A.rhs()-base,e);
    A.assembleVector(s.def); vec(c,"again",A.rhs()-base,e);
}
// point loads on two patches, in parametric or physical coordinates, partly on constrained functions
NM(pointTwo)
{
    Mat K[2],U=dispNet(DIM); gsMultiPatch<R> mp,def; for(int p=0;p<2;++p){ K[p]=net(DIM); for(int m=0;m<9;++m){ K[p](m,0)+=R(2*p); if(p) K[p](m,1)=K[p](m,1)*rat(5,4)-K[p](m,0)/8; } mp.addPatch(bern(K[p])); def.addPatch(bern(K[p]+U)); }
    gsMultiBasis<R> basis(mp); gsConstantFunction<R> ft(rat(1,10),DIM),fE(R(3),DIM),fnu(rat(3,10),DIM); gsMaterialMatrixLinear<DIM,R> mat(mp,ft,fE,fnu); Mat z(DIM,1); z.setZero(); gsConstantFunction<R> F(gsVector<R>(z.col(0)),2);
    gsBoundaryConditions<R> bc; bc.addCondition(1,boundary::west,condition_type::dirichlet,0,0,false,0); bc.addCondition(0,boundary::south,condition_type::dirichlet,0,0,false,1); bc.setGeoMap(mp);
    gsThinShellAssembler<DIM,R,BEND> A(mp,basis,bc,F,&mat); A.options().setReal("ExprAssembler.quA",R(0)); A.options().setInt("ExprAssembler.quB",1);
    A.assembleVector(def); Mat base=A.rhs(); gsDofMapper map=A.getMapper(); Mat e(map.freeSize(),1); e.setZero();
    gsPointLoads<R> pl;
    for(int q=0;q<4;++q)
    {
        int p= q==0? 0: q==1? 1: 3-q; gsVector<R> pt(2),v(DIM); if(q<2){ pt[0]=c.in(S("px",q),0.3+0.2*q,0,1); pt[1]=c.in(S("py",q),0.6-0.2*q,0,1); } else pt<<rat(1,2),rat(1,2);
        for(int k=0;k<DIM;++k) v[k]=c.in(S2("P",q,k),1.5-k*0.7+q*0.3,-3,3); 
        Bern b(pt[0],pt[1]); for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) if(map.is_free(m,p,k)) e(map.index(m,p,k),0)+=b.b[m]*v[k];
        if(q<2) pl.addLoad(pt,v,p,true); else { Mat x=mp.patch(p).eval(pt); gsVector<R> y=x.col(0); pl.addLoad(y,v,p,false); }
    }
    A.setPointLoads(pl); A.assemble(); vec(c,"linear",A.rhs(),e); A.assembleVector(def); vec(c,"nonlinear",A.rhs()-base,e);
}
#if DIM==3
// pressure follows the deformed normal, foundation resists the displacement
void pressure(Ctx & c,const std::vector<Dof> & d)
{
    Sh s(c,d); Mat base=internal(s); s.as->assembleMatrix(s.def); gsSparseMatrix<R> K0=s.as->matrix();
    Affine p=affine(c,"p",3,1,true); typename Sh::Asm & A=s.make(); A.setPressure(p);
    Loc l=s.lo(),f=s.ld(); R pv=p.at(l.x)(0,0),no[3],nd[3]; unitNormal(l,no); unitNormal(f,nd); Bern b(rat(1,2),rat(1,2));
    Mat e=zeroRhs(s),g=e; for(int m=0;m<9;++m) for(int k=0;k<3;++k){ e(s.idx(m,k),0)=pv*b.b[m]*no[k]*measOf(l); g(s.idx(m,k),0)=pv*b.b[m]*nd[k]*measOf(l); }
    A.assemble(); vec(c,"linear",A.rhs(),e);
    A.assembleVector(s.def); Mat r=A.rhs()-base; vec(c,"nonlinear",r,g);
    for(int i=0;i<r.rows();++i) c.out(S("r",i),r(i,0));
    A.assembleMatrix(s.def); gsSparseMatrix<R> K=A.matrix();
    for(size_t j=0;j<d.size();++j){ int J=s.idx(d[j].m,d[j].k); for(int i=0;i<r.rows();++i) c.eq(S2("K",i,J),K.coeff(i,J)-K0.coeff(i,J),-c.D(S("r",i),d[j].name())); }
}
NM(pressure){ pressure(c,dofs(1,0,4,2)); }
NM(pressure2){ pressure(c,dofs(3,1,2,2)); }
NM(pressureParts)
{
    Sh s(c,dofs(4,2,5,0)); typename Sh::Asm & A=s.make(); R pv=c.in("p",0.4,-3,3); Loc l=s.lo(),f=s.ld(); R no[3],nd[3]; unitNormal(l,no); unitNormal(f,nd); Bern b(rat(1,2),rat(1,2));
    Affine fp(3,1); fp.c0(0,0)=pv;
    Mat e=zeroRhs(s),g=e; for(int m=0;m<9;++m) for(int k=0;k<3;++k){ e(s.idx(m,k),0)=pv*b.b[m]*no[k]*measOf(l); g(s.idx(m,k),0)=pv*b.b[m]*nd[k]*measOf(l); }
    A.assemble(); Mat r=A.rhs(); A.assemblePressureVector(pv); vec(c,"const",A.rhs()-r,e); r=A.rhs(); A.assemblePressureVector(fp); vec(c,"fun",A.rhs()-r,e);
    r=A.rhs(); A.assemblePressureVector(pv,s.def); vec(c,"constDef",A.rhs()-r,g); r=A.rhs(); A.assemblePressureVector(fp,s.def); vec(c,"funDef",A.rhs()-r,g);
    for(int i=0;i<g.rows();++i) c.out(S("g",i),g(i,0));
    gsSparseMatrix<R> K=A.matrix(); A.assemblePressureMatrix(pv,s.def); int J=s.idx(4,2);
    for(int i=0;i<g.rows();++i) c.eq(S("Kc",i),A.matrix().coeff(i,J)-K.coeff(i,J),-c.D(S("g",i),"u4_2"));
    K=A.matrix(); A.assemblePressureMatrix(fp,s.def);
    for(int i=0;i<g.rows();++i) c.eq(S("Kf",i),A.matrix().coeff(i,J)-K.coeff(i,J),-c.D(S("g",i),"u4_2"));
    K=A.matrix(); A.assemblePressureMatrix(pv); A.assemblePressureMatrix(fp); for(int i=0;i<g.rows();++i) c.eq(S("Kl",i),A.matrix().coeff(i,J),K.coeff(i,J));
}
void found(Ctx & c,const std::vector<Dof> & d)
{
    Sh s(c,d); Mat base=internal(s); s.as->assembleMatrix(s.def); gsSparseMatrix<R> K0=s.as->matrix();
    s.as->assemble(); gsSparseMatrix<R> L0=s.as->matrix();
    Affine k=affine(c,"k",3,3,true); typename Sh::Asm & A=s.make(); A.setFoundation(k);
    Loc l=s.lo(),f=s.ld(); Mat kv=k.at(l.x); Bern b(rat(1,2),rat(1,2)); R me=measOf(l);
    Mat g=zeroRhs(s),z=g; for(int m=0;m<9;++m) for(int q=0;q<3;++q) g(s.idx(m,q),0)=-kv(q,0)*b.b[m]*(f.x[q]-l.x[q])*me;
    A.assemble(); vec(c,"linear",A.rhs(),z); gsSparseMatrix<R> L=A.matrix();
    A.assembleVector(s.def); vec(c,"nonlinear",A.rhs()-base,g);
    Mat r=A.rhs(); A.assembleFoundationVector(k,s.def); vec(c,"part",A.rhs()-r,g); r=A.rhs(); A.assembleFoundationVector(s.def); vec(c,"part2",A.rhs()-r,g);
    A.assembleMatrix(s.def); gsSparseMatrix<R> K=A.matrix();
    A.assembleFoundation(); gsSparseMatrix<R> F=A.matrix();
    for(int m=0;m<9;++m) for(int q=0;q<3;++q) for(int n=0;n<9;++n) for(int p=0;p<3;++p)
    {
        int i=s.idx(m,q),j=s.idx(n,p); R e= p==q? kv(q,0)*b.b[m]*b.b[n]*me: R(0);
        c.eq(S2("K",i,j),K.coeff(i,j)-K0.coeff(i,j),e); c.eq(S2("L",i,j),L.coeff(i,j)-L0.coeff(i,j),e); c.eq(S2("F",i,j),F.coeff(i,j),e);
    }
}
NM(foundation){ found(c,dofs(4,2,5,0)); }
#endif
}
