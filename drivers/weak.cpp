// Weak boundary and interface conditions of the shell assembler. -DDIM=2|3 -DBEND=0|1
#include "shell.h"
namespace {
typedef Shell<DIM,BEND> Sh;
#if DIM==3 && BEND
#define NM(n) VCASE(wk3b_##n)
#elif DIM==3
#define NM(n) VCASE(wk3m_##n)
#else
#define NM(n) VCASE(wk2m_##n)
#endif
// control net of the flat patch x0 + xi a + eta b
Mat flatNet(const double * x0,const double * a,const double * b)
{ Mat K(9,DIM); for(int j=0;j<3;++j) for(int i=0;i<3;++i) for(int k=0;k<DIM;++k) K(i+3*j,k)=R(x0[k])+R(a[k])*rat(i,2)+R(b[k])*rat(j,2); return K; }
struct Model
{
    std::vector<Mat> Ko,Ku; gsMultiPatch<R> mp,def; gsMultiBasis<R> basis; gsBoundaryConditions<R> bc; gsConstantFunction<R> force,ft,fE,fnu,frho;
    std::unique_ptr<gsMaterialMatrixBase<R> > mat; std::unique_ptr<typename Sh::Asm> as; R E,nu,t,pd,pr,pi; std::vector<std::string> vars; std::vector<int> vi;
    std::vector<std::pair<int,Dof> > vd;
    // ortho: rectangular patches, else parallelograms
    Model(Ctx & c,int np,const std::vector<std::pair<int,Dof> > & v,bool ms,bool ortho=false):vd(v)
    {
        static const double X0[2][3]={{0,0,0},{1.25,0.25,0.5}},A[2][3]={{1.25,0.25,0.5},{0.75,0,-0.5}},B[2][3]={{0.25,1,0.25},{0.25,1,0.25}};
        static const double X3[2][3]={{0,0,0},{1,0,0.75}},A3[2][3]={{1,0,0.75},{0.75,0,-0.5}},B3[2][3]={{0,1.5,0},{0,1.5,0}};
        static const double X2[2][3]={{0,0,0},{1,0.5,0}},A2[2][3]={{1,0.5,0},{0.5,0.25,0}},B2[2][3]={{-0.75,1.5,0},{-0.75,1.5,0}};
        const double (*x0)[3]= !ortho? X0: DIM==3? X3: X2,(*a)[3]= !ortho? A: DIM==3? A3: A2,(*b)[3]= !ortho? B: DIM==3? B3: B2;
        for(int p=0;p<np;++p){ Ko.push_back(flatNet(x0[p],a[p],b[p])); Mat u=dispNet(DIM); if(p==1) u=u*R(-2); Ku.push_back(u); }
        for(size_t i=0;i<v.size();++i){ std::ostringstream s; s<<"u"<<v[i].first<<"_"<<v[i].second.m<<"_"<<v[i].second.k; vars.push_back(s.str()); Ku[v[i].first](v[i].second.m,v[i].second.k)=c.in(s.str(),0.03+0.02*(int)i,-0.2,0.2); }
        E= ms? c.in("E",3,0.5,10): R(3); nu= ms? c.in("nu",0.3,0,0.45): rat(3,10); t= ms? c.in("t",0.1,0.01,0.5): rat(1,10);
        pd=c.in("pd",2,0.1,10); pr=c.in("pr",3,0.1,10); pi=c.in("pi",1.5,0.1,10);
        for(int p=0;p<np;++p){ mp.addPatch(bern(Ko[p])); def.addPatch(bern(Ko[p]+Ku[p])); }
        if(np==2){ mp.addInterface(0,boundary::east,1,boundary::west); mp.addAutoBoundaries(); def.addInterface(0,boundary::east,1,boundary::west); def.addAutoBoundaries(); }
        basis=gsMultiBasis<R>(mp);
        ft=gsConstantFunction<R>(t,DIM); fE=gsConstantFunction<R>(E,DIM); fnu=gsConstantFunction<R>(nu,DIM); frho=gsConstantFunction<R>(R(1),DIM);
        mat.reset(new gsMaterialMatrixLinear<DIM,R>(mp,ft,fE,fnu,frho));
        gsVector<R> f(DIM); f.setZero(); force=gsConstantFunction<R>(f,2);
    }
    typename Sh::Asm & make()
    {
        bc.setGeoMap(mp); as.reset(new typename Sh::Asm(mp,basis,bc,force,mat.get()));
        as->options().setReal("ExprAssembler.quA",R(0)); as->options().setInt("ExprAssembler.quB",1);
        as->options().setReal("WeakDirichlet",pd); as->options().setReal("WeakClamped",pr); as->options().setReal("IfcPenalty",pi);
        return *as;
    }
    int idx(int p,int m,int k) const { return as->getMapper().index(m,p,k); }
    // penalty factors of an isotropic material on a rectangular element: stiffness divided by the length of the side
    R ad(const R & pen,const R & h) const { return pen*E*t/(1-nu*nu)/h; }
    R ar(const R & pen,const R & h) const { return pen*E*t*t*t/12/(1-nu*nu)/h; }
};
struct Sys { Mat r; gsSparseMatrix<R> K; Mat rl; gsSparseMatrix<R> L; };
Sys sys(Model & M)
{
    Sys s; typename Sh::Asm & A=*M.as; A.assemble(); s.rl=A.rhs(); s.L=A.matrix();
    A.assembleVector(M.def); s.r=A.rhs(); A.assembleMatrix(M.def); s.K=A.matrix(); return s;
}
typedef std::vector<std::pair<int,Dof> > VD;
VD vds(int p0,int m0,int k0,int p1=-1,int m1=0,int k1=0){ VD v; Dof a={m0,k0},b={m1,k1}; v.push_back(std::make_pair(p0,a)); if(p1>=0) v.push_back(std::make_pair(p1,b)); return v; }

void report(Ctx & c,Model & M,const Sys & a,const Sys & b,const std::string & W)
{
    Mat r=a.r-b.r; for(int i=0;i<r.rows();++i) c.out(S("r",i),r(i,0));
    for(size_t j=0;j<M.vars.size();++j)
    {
        int J=M.idx(M.vd[j].first,M.vd[j].second.m,M.vd[j].second.k);
        c.eq("r."+M.vars[j],r(J,0),-c.D(W,M.vars[j]));
        for(int i=0;i<r.rows();++i) c.eq(S2("K",i,J),a.K.coeff(i,J)-b.K.coeff(i,J),-c.D(S("r",i),M.vars[j]));
    }
}
// variation of the unit normal and of the conormal of a side for a variation of one displacement component
void dNormal(const Loc & l,const Bern & q,int m,int k,R * dn)
{
    Kin K(l,R(0),DIM); R n[3]; unitNormal(l,n); const R * a[2]={l.a1,l.a2}; R da[2]={q.d1[m],q.d2[m]};
    for(int i=0;i<3;++i){ dn[i]=R(0); for(int p=0;p<2;++p) for(int r=0;r<2;++r) dn[i]-=n[k]*da[p]*K.Ac[p][r]*a[r][i]; }
}
void dConormal(const Loc & l,const Bern & q,const SidePt & s,int m,int k,R * dc)
{
    R n[3],c[3],dn[3]; unitNormal(l,n); s.conormal(l,c); dNormal(l,q,m,k,dn); const R * t=s.tang(l); R dt= s.s<=2? q.d2[m]: q.d1[m];
    for(int i=0;i<3;++i) dc[i]=-(c[k]*dt)/dot3(t,t)*t[i]-dot3(c,dn)*n[i];
}
// weak displacement condition u=g on a side
void dirichlet_(Ctx & c,int side,const VD & v,bool ms,bool ortho=false)
{
    Model B(c,1,v,ms,ortho); B.make(); Sys b=sys(B);
    Model M(c,1,v,ms,ortho); Affine g=affine(c,"g",DIM,DIM,true); M.bc.addCondition(0,boundary::side(side),condition_type::weak_dirichlet,&g); M.make(); Sys a=sys(M);
    SidePt p(side); Bern q(p.x,p.y); Loc l=q.at(M.Ko[0]),f=q.at(M.Ko[0]+M.Ku[0]); R w=len3(p.tang(l)); int m0= side==1? 3: side==2? 5: side==3? 1: 7,i0=M.idx(0,m0,0);
    R al= ortho? M.ad(M.pd,w): -(a.L.coeff(i0,i0)-b.L.coeff(i0,i0))/(q.b[m0]*q.b[m0]*w); c.lt("positive",R(0),al); Mat gv=g.at(l.x);
    R W(0); for(int k=0;k<DIM;++k) W-=al*(f.x[k]-l.x[k]-gv(k,0))*(f.x[k]-l.x[k]-gv(k,0))*w/2; c.out("W",W);
    report(c,M,a,b,"W");
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k)
    {
        int i=M.idx(0,m,k); c.eq(S2("rhs",m,k),a.r(i,0)-b.r(i,0),al*q.b[m]*(f.x[k]-l.x[k]-gv(k,0))*w);
        c.eq(S2("lin",m,k),a.rl(i,0)-b.rl(i,0),-al*q.b[m]*gv(k,0)*w);
        for(int n=0;n<9;++n){ int j=M.idx(0,n,k); c.eq(S2(S("L",k)+"_",m,n),a.L.coeff(i,j)-b.L.coeff(i,j),-al*q.b[m]*q.b[n]*w); c.eq(S2(S("K",k)+"_",m,n),a.K.coeff(i,j)-b.K.coeff(i,j),-al*q.b[m]*q.b[n]*w); }
    }
}
NM(dirWest){ dirichlet_(c,1,vds(0,4,DIM-1,0,3,0),false); }
NM(dirEast){ dirichlet_(c,2,vds(0,4,DIM-1,0,5,0),true); }
NM(dirOrtho){ dirichlet_(c,3,vds(0,1,DIM-1,0,2,0),true,true); }
NM(dirNorth){ dirichlet_(c,4,vds(0,7,DIM-1,0,8,0),false); }
#if DIM==3
// weak clamping: the surface normal keeps its angle with the conormal of the side
void clamped_(Ctx & c,int side,const VD & v,bool ms,bool ortho=false)
{
    Model B(c,1,v,ms,ortho); B.make(); Sys b=sys(B);
    Model M(c,1,v,ms,ortho); Affine g(DIM,DIM); M.bc.addCondition(0,boundary::side(side),condition_type::weak_clamped,&g); M.make(); Sys a=sys(M);
    SidePt p(side); Bern q(p.x,p.y); Loc l=q.at(M.Ko[0]),f=q.at(M.Ko[0]+M.Ku[0]); R w=len3(p.tang(l)); int i0=M.idx(0,4,2); R d0[3],cn0[3]; dNormal(l,q,4,2,d0); p.conormal(l,cn0); R v0=dot3(d0,cn0);
    R al= ortho? M.ar(M.pr,w): (a.L.coeff(i0,i0)-b.L.coeff(i0,i0))/(v0*v0*w); c.lt("positive",R(0),al);
    R no[3],nf[3],cn[3]; unitNormal(l,no); unitNormal(f,nf); p.conormal(l,cn); R dn=dot3(nf,cn)-dot3(no,cn);
    c.out("W",al*dn*dn*w/2); report(c,M,a,b,"W");
    for(int i=0;i<a.rl.rows();++i) c.eq(S("lin",i),a.rl(i,0)-b.rl(i,0),R(0));
}
NM(clWest){ clamped_(c,1,vds(0,4,2,0,1,0),false); }
NM(clEast){ clamped_(c,2,vds(0,4,2,0,2,1),false); }
NM(clSouth){ clamped_(c,3,vds(0,1,2,0,4,2),true); }
NM(clOrtho){ clamped_(c,2,vds(0,4,2,0,5,1),true,true); }
NM(clNorth){ clamped_(c,4,vds(0,4,2,0,8,0),false); }
// linear system = tangent of the undeformed state
NM(clLin)
{
    VD v=vds(0,4,2); Model B(c,1,v,true); B.make(); B.as->assemble(); gsSparseMatrix<R> L0=B.as->matrix(); B.as->assembleMatrix(B.mp); gsSparseMatrix<R> K0=B.as->matrix();
    Model M(c,1,v,true); Affine g(DIM,DIM); M.bc.addCondition(0,boundary::east,condition_type::weak_clamped,&g); M.bc.addCondition(0,boundary::north,condition_type::weak_clamped,&g); M.make();
    M.as->assemble(); gsSparseMatrix<R> L=M.as->matrix(); M.as->assembleMatrix(M.mp); gsSparseMatrix<R> K=M.as->matrix();
    for(int i=0;i<L.rows();++i) for(int j=0;j<L.cols();++j) c.eq(S2("L",i,j),L.coeff(i,j)-L0.coeff(i,j),K.coeff(i,j)-K0.coeff(i,j));
}
#endif
// interface penalties
R ifcEnergy(Ctx & c,Model & M,int which,const Sys & a,const Sys & b,bool ortho)
{
    SidePt pl(2),pr(1); Bern ql(pl.x,pl.y),qr(pr.x,pr.y);
    Loc lo=ql.at(M.Ko[0]),ld=ql.at(M.Ko[0]+M.Ku[0]),ro=qr.at(M.Ko[1]),rd=qr.at(M.Ko[1]+M.Ku[1]);
    R w=len3(pl.tang(lo)),W(0),al;
    if(ortho) al= which==0? M.ad(M.pi,w): M.ar(M.pi,w);
    else if(which==0){ int i0=M.idx(0,5,0); al=(a.L.coeff(i0,i0)-b.L.coeff(i0,i0))/(ql.b[5]*ql.b[5]*w); }
    else
    {
        int i0=M.idx(0,4,2); R dn[3],dc[3],n2[3],c2[3]; dNormal(lo,ql,4,2,dn); dConormal(lo,ql,pl,4,2,dc); unitNormal(ro,n2); pr.conormal(ro,c2);
        R v1=dot3(dn,n2),v2=dot3(dc,n2),v3=dot3(dn,c2); al=(a.L.coeff(i0,i0)-b.L.coeff(i0,i0))/((2*v1*v1+v2*v2+v3*v3)*w);
    }
    c.lt("positive",R(0),al);
    if(which==0){ for(int k=0;k<DIM;++k){ R du=(ld.x[k]-lo.x[k])-(rd.x[k]-ro.x[k]); W+=du*du; } return al*W*w/2; }
    R e[3],f[3],ao[3],bo[3],na[3],nb[3],nao[3],nbo[3]; unitNormal(ld,e); unitNormal(rd,f); unitNormal(lo,ao); unitNormal(ro,bo);
    pl.conormal(ld,na); pr.conormal(rd,nb); pl.conormal(lo,nao); pr.conormal(ro,nbo);
    R d1=dot3(e,f)-dot3(ao,bo),d2=dot3(na,f)-dot3(nao,bo),d3=dot3(nb,e)-dot3(nbo,ao);
    return al*(2*d1*d1+d2*d2+d3*d3)*w/2;
}
void ifc(Ctx & c,int which,const VD & v,bool ms,bool ortho=false)
{
    Model B(c,2,v,ms,ortho); B.make(); Sys b=sys(B);
    Model M(c,2,v,ms,ortho); M.make(); if(which==0) M.as->addWeakC0(M.mp.topology().interfaces()); else M.as->addWeakC1(M.mp.topology().interfaces()); Sys a=sys(M);
    c.out("W",ifcEnergy(c,M,which,a,b,ortho)); report(c,M,a,b,"W");
    for(int i=0;i<a.rl.rows();++i) c.eq(S("lin",i),a.rl(i,0)-b.rl(i,0),R(0));
}
NM(ifc0a){ ifc(c,0,vds(0,5,DIM-1,1,3,0),false); }
NM(ifc0o){ ifc(c,0,vds(0,5,0,1,0,DIM-1),true,true); }
NM(ifc0b){ ifc(c,0,vds(0,2,0,1,6,1),true); }
#if DIM==3
NM(ifc1a){ ifc(c,1,vds(0,4,2),false); }
NM(ifc1b){ ifc(c,1,vds(1,4,2),false); }
NM(ifc1c){ ifc(c,1,vds(0,2,0),false); }
NM(ifc1d){ ifc(c,1,vds(1,3,1),true); }
NM(ifc1o){ ifc(c,1,vds(1,4,2,0,5,0),true,true); }
NM(ifc1e){ ifc(c,1,vds(0,4,2,1,4,2),false); }
#endif
// linear system = tangent of the undeformed state, for every interface type
NM(ifcLin)
{
    VD v=vds(0,5,0); 
    for(int w=0;w<(DIM==3?2:1);++w)
    {
        Model B(c,2,v,true); B.make(); B.as->assemble(); gsSparseMatrix<R> L0=B.as->matrix(); B.as->assembleMatrix(B.mp); gsSparseMatrix<R> K0=B.as->matrix();
        Model M(c,2,v,true); M.make(); if(w==0) M.as->addWeakC0(M.mp.topology().interfaces()); else M.as->addWeakC1(M.mp.topology().interfaces());
        M.as->assemble(); gsSparseMatrix<R> L=M.as->matrix(); M.as->assembleMatrix(M.mp); gsSparseMatrix<R> K=M.as->matrix();
        for(int i=0;i<L.rows();++i) for(int j=0;j<L.cols();++j) c.eq(S2(w?"C1L":"C0L",i,j),L.coeff(i,j)-L0.coeff(i,j),K.coeff(i,j)-K0.coeff(i,j));
    }
}
}
