// Degrees of freedom, boundary data, mass, scalars and call history of the shell assembler. -DDIM=2|3 -DBEND=0|1
#include "shell.h"
namespace {
typedef Shell<DIM,BEND> Sh; typedef Sh::Asm Asm;
#if DIM==3 && BEND
#define NM(n) VCASE(df3b_##n)
#elif DIM==3
#define NM(n) VCASE(df3m_##n)
#else
#define NM(n) VCASE(df2m_##n)
#endif
typedef gsSparseMatrix<R> SpM;
Mat dense(const SpM & K){ Mat m(K.rows(),K.cols()); for(int i=0;i<K.rows();++i) for(int j=0;j<K.cols();++j) m(i,j)=K.coeff(i,j); return m; }
void pts(Asm & A){ A.options().setReal("ExprAssembler.quA",R(0)); A.options().setInt("ExprAssembler.quB",1); }
// prescribed values: component 0 on the west side is g0 + g1 x, all components on the east side vanish, last component on the south side is h
// a rectangle with rational side lengths (prescribed values are projected onto the side functions)
void flat(Sh & s)
{
    for(int j=0;j<3;++j) for(int i=0;i<3;++i){ int m=i+3*j; if(DIM==3){ s.Ko(m,0)=rat(i,2); s.Ko(m,1)=rat(3*j,4); s.Ko(m,2)=rat(3*i,8); } else { s.Ko(m,0)=rat(i,2)-rat(3*j,8); s.Ko(m,1)=rat(i,4)+rat(3*j,4); } }
    s.init();
}
struct Bc
{
    Affine g,h; Mat val; std::vector<std::vector<bool> > fix; Mat Ko;
    Bc(Ctx & c,const Mat & K):g(DIM,1),h(DIM,1),val(9,DIM),fix(9,std::vector<bool>(DIM,false)),Ko(K)
    {
        g.c0(0,0)=c.in("g0",0.7,-1,1); g.C(0,0)=rat(1,2); g.C(0,1)=R(-1); h.c0(0,0)=c.in("h",-0.4,-1,1); val.setZero();
        for(int j=0;j<3;++j){ set(3*j,0,g); for(int k=0;k<DIM;++k){ fix[3*j+2][k]=true; val(3*j+2,k)=R(0); } }
    }
    void set(int m,int k,const Affine & f){ fix[m][k]=true; R s=f.c0(0,0); for(int q=0;q<DIM;++q) s+=f.C(0,q)*Ko(m,q); val(m,k)=s; }
    void add(gsBoundaryConditions<R> & bc)
    {
        bc.addCondition(0,boundary::west,condition_type::dirichlet,&g,0,false,0);
        for(int k=0;k<DIM;++k) bc.addCondition(0,boundary::east,condition_type::dirichlet,0,0,false,k);
    }
};
Mat nodal(Ctx & c,int n){ Mat v(n,1); for(int i=0;i<n;++i) v(i,0)=c.in(S("v",i),0.05*i-0.1,-1,1); return v; }
// solution vector -> displacement -> solution vector
NM(round)
{
    Sh s(c,dofs(4,DIM-1)); flat(s); Bc b(c,s.Ko); b.add(s.bc); Asm & A=s.make(); int n=A.numDofs(); gsDofMapper mp=A.getMapper();
    int nf=0; for(int m=0;m<9;++m) for(int k=0;k<DIM;++k){ c.eq(S2("free",m,k),R((int)mp.is_free(m,0,k)),R(b.fix[m][k]?0:1)); nf+=!b.fix[m][k]; } c.eq("ndofs",R(n),R(nf));
    std::set<int> seen; for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) if(mp.is_free(m,0,k)){ int i=mp.index(m,0,k); c.eq(S2("distinct",m,k),R((int)(i>=0&&i<n&&seen.insert(i).second)),R(1)); }
    Mat v=nodal(c,n);
    for(int rep=0;rep<2;++rep)
    {
        gsMultiPatch<R> u= rep? gsMultiPatch<R>(): A.constructDisplacement(v); if(rep) A.constructDisplacement(v,u);
        gsMultiPatch<R> x; if(rep) A.constructSolution(v,x); else x=A.constructSolution(v);
        for(int m=0;m<9;++m) for(int k=0;k<DIM;++k)
        {
            R e= b.fix[m][k]? b.val(m,k): v(mp.index(m,0,k),0);
            c.eq(S2(rep?"u2_":"u",m,k),u.patch(0).coefs()(m,k),e); c.eq(S2(rep?"x2_":"x",m,k),x.patch(0).coefs()(m,k),s.Ko(m,k)+e);
        }
        Mat w=A.constructSolutionVector(u); c.eqm(rep?"v2_":"v",w,v);
        A.assembleMatrix(s.def); A.assembleVector(s.def); // homogenises the boundary data inside the assembler
    }
    gsMultiPatch<R> y; A.updateMultiPatch(v,y); gsMultiPatch<R> z=A.constructMultiPatch(v);
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k){ R e= b.fix[m][k]? b.val(m,k): v(mp.index(m,0,k),0); c.eq(S2("y",m,k),y.patch(0).coefs()(m,k),s.Ko(m,k)+e); c.eq(S2("z",m,k),z.patch(0).coefs()(m,k),e); }
}
// strongly prescribed values: the system is the free part of the unconstrained one, with the prescribed part moved to the right-hand side
NM(elim)
{
    Sh f(c,dofs(4,DIM-1,7,0)); flat(f); Affine F=affine(c,"f",2,DIM,DIM==3); Asm A0(f.mp,f.basis,(f.bc.setGeoMap(f.mp),f.bc),F,f.mat.get()); pts(A0);
    A0.assemble(); SpM L0=A0.matrix(); Mat l0=A0.rhs(); A0.assembleMatrix(f.def); SpM K0=A0.matrix(); A0.assembleVector(f.def); Mat r0=A0.rhs(); gsDofMapper m0=A0.getMapper();
    Sh s(c,dofs(4,DIM-1,7,0)); flat(s); Bc b(c,s.Ko); b.add(s.bc); s.bc.setGeoMap(s.mp); Asm A(s.mp,s.basis,s.bc,F,s.mat.get()); pts(A);
    gsDofMapper mp=A.getMapper(); A.assemble(); SpM L=A.matrix(); Mat l=A.rhs(); A.assembleMatrix(s.def); SpM K=A.matrix(); A.assembleVector(s.def); Mat r=A.rhs(); A.assembleVector(s.def,false); Mat rn=A.rhs();
    c.eq("rows",R((int)L.rows()),R((int)l.rows()));
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) if(!b.fix[m][k])
    {
        int i=mp.index(m,0,k),I=m0.index(m,0,k); R e=l0(I,0);
        for(int n=0;n<9;++n) for(int q=0;q<DIM;++q)
        {
            int J=m0.index(n,0,q);
            if(b.fix[n][q]) e-=L0.coeff(I,J)*b.val(n,q); else { int j=mp.index(n,0,q); c.eq(S2("L",i,j),L.coeff(i,j),L0.coeff(I,J)); c.eq(S2("K",i,j),K.coeff(i,j),K0.coeff(I,J)); }
        }
        c.eq(S("l",i),l(i,0),e); c.eq(S("r",i),r(i,0),r0(I,0)); c.eq(S("rn",i),rn(i,0),r0(I,0));
    }
}
// consistent and lumped mass of the density and the thickness
void mass(Ctx & c,bool bcs)
{
    Sh s(c,dofs(4,DIM-1)); s.rho=c.in("rho",2,0.1,5); s.t=c.in("t",0.1,0.01,0.5); flat(s); Bc b(c,s.Ko); if(bcs) b.add(s.bc); Asm & A=s.make(); gsDofMapper mp=A.getMapper();
    Bern q(rat(1,2),rat(1,2)); R me=measOf(s.lo()); 
    for(int lump=0;lump<2;++lump)
    {
        c.eq(S("status",lump),R((int)(A.assembleMass(lump==1)==ThinShellAssemblerStatus::Success)),R(1)); Mat M=dense(A.massMatrix()); c.eq(S("size",lump),R((int)M.rows()),R(A.numDofs()));
        Mat E(M.rows(),M.cols()); E.setZero();
        for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) if(mp.is_free(m,0,k))
        {
            int i=mp.index(m,0,k); if(lump){ E(i,i)=s.rho*s.t*q.b[m]*me; continue; }
            for(int n=0;n<9;++n) if(mp.is_free(n,0,k)) E(i,mp.index(n,0,k))=s.rho*s.t*q.b[m]*q.b[n]*me;
        }
        c.eqm(lump?"lumped":"consistent",M,E);
    }
}
NM(mass){ mass(c,false); }
NM(massBc){ mass(c,true); }
NM(pointMass)
{
    Sh s(c,dofs(4,DIM-1)); Asm & A0=s.make(); A0.assembleMass(); Mat M0=dense(A0.massMatrix());
    Sh f(c,dofs(4,DIM-1)); Asm & A=f.make(); gsVector<R> p(2),v(1); p[0]=c.in("px",0.3,0,1); p[1]=c.in("py",0.6,0,1); v[0]=c.in("pm",1.5,0.1,3);
    gsPointLoads<R> pm; pm.addLoad(p,v,0,true); A.setPointMass(pm); A.assembleMass(); Mat M=dense(A.massMatrix()); Mat E=M0; Bern q(p[0],p[1]);
    for(int m=0;m<9;++m) for(int n=0;n<9;++n) for(int k=0;k<DIM;++k) E(f.idx(m,k),f.idx(n,k))+=v[0]*q.b[m]*q.b[n];
    c.eqm("M",M,E); A.assembleMass(); c.eqm("again",dense(A.massMatrix()),E);
    Mat D(E.rows(),E.cols()); D.setZero(); for(int i=0;i<E.rows();++i) for(int j=0;j<E.cols();++j) D(i,i)+=E(i,j); A.assembleMass(true); c.eqm("lumped",dense(A.massMatrix()),D);
}
// one bilinear patch, evaluated with the default quadrature: values of the four functions at a point
struct Bil { R b[4],d1[4],d2[4],d12[4];
    Bil(const R & x,const R & y){ R v[2][2]={{1-x,x},{1-y,y}}; int s[2]={-1,1}; for(int j=0;j<2;++j) for(int i=0;i<2;++i){ int m=i+2*j; b[m]=v[0][i]*v[1][j]; d1[m]=R(s[i])*v[1][j]; d2[m]=v[0][i]*R(s[j]); d12[m]=R(s[i]*s[j]); } }
    Loc at(const Mat & K) const { Loc l; for(int m=0;m<4;++m) for(int k=0;k<K.cols();++k){ l.x[k]+=b[m]*K(m,k); l.a1[k]+=d1[m]*K(m,k); l.a2[k]+=d2[m]*K(m,k); l.a12[k]+=d12[m]*K(m,k); } return l; } };
struct Quad
{
    Mat Ko,Ku; gsMultiPatch<R> mp,def; gsMultiBasis<R> basis; gsBoundaryConditions<R> bc; gsConstantFunction<R> force,ft,fE,fnu,frho; R E,nu,t; std::unique_ptr<gsMaterialMatrixLinear<DIM,R> > mat; std::unique_ptr<Asm> as; gsMatrix<R> nodes; gsVector<R> w;
    Quad(Ctx & c,bool sym=true):Ko(4,DIM),Ku(4,DIM)
    {
        static const double P[4][3]={{0,0,0},{1.25,0.125,0},{-0.125,1,0},{1,1.125,0}},U[4][3]={{0.02,0,0.05},{0,0.03,-0.02},{0.05,0.01,0},{0.02,-0.03,0.1}};
        for(int m=0;m<4;++m) for(int k=0;k<DIM;++k){ Ko(m,k)=R(P[m][k]); Ku(m,k)=R(U[m][k]); }
        if(sym) Ku(1,DIM-1)=c.in("u",0.1,-0.2,0.2);
        E=c.in("E",3,0.5,10); nu=rat(3,10); t=rat(1,10); gsKnotVector<R> kv(0,1,0,2); gsTensorBSplineBasis<2,R> b(kv,kv);
        mp.addPatch(gsTensorBSpline<2,R>(b,Ko)); def.addPatch(gsTensorBSpline<2,R>(b,Mat(Ko+Ku))); basis=gsMultiBasis<R>(mp);
        ft=gsConstantFunction<R>(t,DIM); fE=gsConstantFunction<R>(E,DIM); fnu=gsConstantFunction<R>(nu,DIM); frho=gsConstantFunction<R>(R(1),DIM);
        mat.reset(new gsMaterialMatrixLinear<DIM,R>(mp,ft,fE,fnu,frho)); gsVector<R> f(DIM); f.setZero(); force=gsConstantFunction<R>(f,2); bc.setGeoMap(mp);
        as.reset(new Asm(mp,basis,bc,force,mat.get()));
        gsVector<index_t> nn(2); nn<<2,2; gsGaussRule<R> q(nn); gsVector<R> lo(2),hi(2); lo.setZero(); hi<<R(1),R(1); q.mapTo(lo,hi,nodes,w);
    }
};
NM(scalars)
{
    Quad q(c); R a(0),ad(0),u2(0),W(0);
    for(int i=0;i<q.w.size();++i)
    {
        Bil b(q.nodes(0,i),q.nodes(1,i)); Loc l=b.at(q.Ko),f=b.at(q.Ko+q.Ku); R m=measOf(l); a+=q.w[i]*m; ad+=q.w[i]*measOf(f);
        for(int k=0;k<DIM;++k) u2+=q.w[i]*(f.x[k]-l.x[k])*(f.x[k]-l.x[k])*m;
        Kin ko(l,R(0),DIM),kf(f,R(0),DIM); R em[3],ef[3]; strains(ko,kf,em,ef); Mat C=svkMat(q.E,q.nu,ko.Ac);
        for(int r=0;r<3;++r) for(int s=0;s<3;++s){ W+=q.w[i]*m*q.t*em[r]*C(r,s)*em[s]/2; if(BEND) W+=q.w[i]*m*q.t*q.t*q.t/12*ef[r]*C(r,s)*ef[s]/2; }
    }
    c.eq("area",q.as->getArea(q.mp),a); c.eq("areaDef",q.as->getArea(q.def),ad);
    R n=q.as->getDisplacementNorm(q.def); c.eq("norm",n*n,u2/a); c.eq("energy",q.as->getElasticEnergy(q.def),W);
}
// boundary force: sum of the internal forces of the functions on the selected sides, each function counted once
void bforce(Ctx & c,const char * sides)
{
    Quad q(c); q.as->assembleVector(q.def); Mat r=q.as->rhs(); gsDofMapper mp=q.as->getMapper(); std::vector<patchSide> ps; bool on[4]={false,false,false,false};
    for(const char * s=sides;*s;++s){ int i=*s-'0'; ps.push_back(patchSide(0,boundary::side(i))); for(int m=0;m<4;++m) if(i==1? m%2==0: i==2? m%2==1: i==3? m<2: m>=2) on[m]=true; }
    Mat F= ps.size()==1? q.as->boundaryForce(q.def,ps[0]): q.as->boundaryForce(q.def,ps);
    for(int k=0;k<DIM;++k){ R e(0); for(int m=0;m<4;++m) if(on[m]) e+=r(mp.index(m,0,k),0); c.eq(S("F",k),F(k,0),e); }
}
NM(bfWest){ bforce(c,"1"); }
NM(bfEast){ bforce(c,"2"); }
NM(bfNorth){ bforce(c,"4"); }
NM(bfTwo){ bforce(c,"23"); }
NM(bfAll){ bforce(c,"1234"); }
// two patches, joined or not; functions shared by both are counted once
void bforceTwo(Ctx & c,bool join,const char * sides)
{
    gsKnotVector<R> kv(0,1,0,2); gsTensorBSplineBasis<2,R> b(kv,kv); gsMultiPatch<R> mp,def; Mat U[2]; R E=c.in("E",3,0.5,10); gsVector<R> f(DIM); f.setZero(); gsConstantFunction<R> force(f,2),ft(rat(1,10),DIM),fE(E,DIM),fnu(rat(3,10),DIM);
    for(int p=0;p<2;++p){ Mat K(4,DIM); K.setZero(); U[p]=Mat(4,DIM); for(int m=0;m<4;++m){ K(m,0)=R(m%2+p)+rat((m/2)*(1-p),8); K(m,1)=R(m/2)*rat(5,4); for(int k=0;k<DIM;++k) U[p](m,k)=rat((3*m+5*k+2*p)%7-3,40); } if(p) for(int m=0;m<4;m+=2) U[1].row(m)=U[0].row(m+1); K(2,0)+=rat(p,8); mp.addPatch(gsTensorBSpline<2,R>(b,K)); }
    U[1](1,DIM-1)=c.in("u",0.1,-0.2,0.2); mp.addInterface(0,boundary::east,1,boundary::west); mp.addAutoBoundaries(); def=mp; for(int p=0;p<2;++p) def.patch(p).coefs()+=U[p];
    gsMultiBasis<R> mb(mp); gsBoundaryConditions<R> bc; bc.addCondition(0,boundary::west,condition_type::dirichlet,0,0,false,0); bc.setGeoMap(mp); gsMaterialMatrixLinear<DIM,R> mat(mp,ft,fE,fnu); Asm A(mp,mb,bc,force,&mat); if(join){ gsOptionList o=A.options(); o.setInt("Continuity",0); A.setOptions(o); }
    Mat r[2]; for(int p=0;p<2;++p){ gsMultiPatch<R> m1,d1; m1.addPatch(mp.patch(p)); d1.addPatch(def.patch(p)); gsMultiBasis<R> b1(m1); gsBoundaryConditions<R> none; none.setGeoMap(m1); gsMaterialMatrixLinear<DIM,R> mm(m1,ft,fE,fnu); Asm B(m1,b1,none,force,&mm); B.assembleVector(d1); r[p]=Mat(4,DIM); for(int m=0;m<4;++m) for(int k=0;k<DIM;++k) r[p](m,k)=B.rhs()(B.getMapper().index(m,0,k),0); }
    bool on[2][4]={{0,0,0,0},{0,0,0,0}}; std::vector<patchSide> ps;
    for(const char * s=sides;*s;s+=2){ int p=s[0]-'0',i=s[1]-'0'; ps.push_back(patchSide(p,boundary::side(i))); for(int m=0;m<4;++m) if(i==1? m%2==0: i==2? m%2==1: i==3? m<2: m>=2) on[p][m]=true; }
    if(join) for(int j=0;j<2;++j){ bool o=on[0][2*j+1]||on[1][2*j]; on[0][2*j+1]=on[1][2*j]=o; }
    Mat F=A.boundaryForce(def,ps); for(int k=0;k<DIM;++k){ R e(0); for(int p=0;p<2;++p) for(int m=0;m<4;++m) if(on[p][m]) e+=r[p](m,k); c.eq(S("F",k),F(k,0),e); }
}
NM(bfJoined){ bforceTwo(c,true,"0212"); }
NM(bfJoined2){ bforceTwo(c,true,"0313"); }
NM(bfApart){ bforceTwo(c,false,"0213"); }
// results do not depend on what was assembled before
struct Res { Mat L,l,K,r,M; };
struct Hist
{
    Sh s; Bc b; Affine F; std::unique_ptr<Asm> as; gsPointLoads<R> pl;
    static Sh & fl(Sh & s){ flat(s); return s; }
    Hist(Ctx & c,bool loads):s(c,dofs(4,DIM-1,7,0)),b(c,fl(s).Ko),F(affine(c,"f",2,DIM,DIM==3))
    {
        b.add(s.bc); s.bc.setGeoMap(s.mp); as.reset(new Asm(s.mp,s.basis,s.bc,F,s.mat.get())); pts(*as);
        gsVector<R> p(2),v(DIM); p<<rat(3,10),rat(7,10); v.setZero(); v[0]=c.in("P",1.5,-3,3); v[DIM-1]=R(1); pl.addLoad(p,v,0,true); if(loads) as->setPointLoads(pl);
    }
};
Mat lin(Hist & h){ h.as->assemble(); return h.as->rhs(); }
Mat linK(Hist & h){ h.as->assemble(); return dense(h.as->matrix()); }
Mat res(Hist & h){ h.as->assembleVector(h.s.def); return h.as->rhs(); }
Mat resN(Hist & h){ h.as->assembleVector(h.s.def,false); return h.as->rhs(); }
Mat tan_(Hist & h){ h.as->assembleMatrix(h.s.def); return dense(h.as->matrix()); }
Mat mas(Hist & h){ h.as->assembleMass(); return dense(h.as->massMatrix()); }
typedef Mat (*Op)(Hist &);
const Op ops[6]={lin,linK,res,resN,tan_,mas}; const char * const opn[6]={"lin","linK","res","resN","tan","mass"};
void history(Ctx & c,bool loads)
{
    for(int b=0;b<6;++b)
    {
        Hist f(c,loads); Mat e=ops[b](f);
        for(int a=0;a<6;++a){ Hist h(c,loads); ops[a](h); c.eqm(std::string(opn[b])+".after."+opn[a],ops[b](h),e); }
        Hist h(c,loads); for(int a=0;a<6;++a) ops[(a*5+b)%6](h); h.as->getArea(h.s.def); h.as->boundaryForce(h.s.def,patchSide(0,boundary::west)); c.eqm(std::string(opn[b])+".after.all",ops[b](h),e);
    }
}
NM(history){ history(c,false); }
NM(historyP){ history(c,true); }
// loads that are removed or replaced, conditions that are replaced
NM(replace)
{
    { Hist f(c,false); Mat e=res(f),el=lin(f); Hist h(c,true); res(h); lin(h); h.as->setPointLoads(gsPointLoads<R>()); c.eqm("unload",res(h),e); c.eqm("unloadLin",lin(h),el); }
    // other conditions: the east side is fixed in its first component only
    Sh s(c,dofs(4,DIM-1,7,0)); flat(s); s.bc.addCondition(0,boundary::east,condition_type::dirichlet,0,0,false,0); s.bc.setGeoMap(s.mp); Affine F=affine(c,"f",2,DIM,DIM==3); Asm A0(s.mp,s.basis,s.bc,F,s.mat.get()); pts(A0);
    A0.assemble(); Mat e=A0.rhs(),E=dense(A0.matrix()); A0.assembleVector(s.def); Mat er=A0.rhs();
    Hist h(c,false); lin(h); res(h); h.as->updateBCs(s.bc); c.eqm("bc.r",res(h),er); c.eqm("bc.l",lin(h),e); c.eqm("bc.L",linK(h),E);
    Hist g(c,false); Mat k=lin(g),K=linK(g),r=res(g); A0.updateBCs(g.s.bc); A0.assembleVector(g.s.def); c.eqm("bc2.r",A0.rhs(),r); A0.assemble(); c.eqm("bc2.l",A0.rhs(),k); c.eqm("bc2.L",dense(A0.matrix()),K);
    // an explicit request for homogeneous conditions holds until the conditions are set again
    Hist z(c,false); z.b.g.c0(0,0)=R(0); z.b.g.C.setZero(); Mat zl=lin(z); Hist y(c,false); y.as->homogenizeDirichlet(); c.eqm("homog",lin(y),zl); y.as->updateBCs(y.s.bc); c.eqm("rehom",lin(y),k);
}

// two patches that share the functions of their common side
struct Two
{
    Mat K[2],U[2]; gsMultiPatch<R> mp,def; gsMultiBasis<R> basis; gsBoundaryConditions<R> bc; gsConstantFunction<R> ft,fE,fnu,frho; Affine F,g; std::unique_ptr<gsMaterialMatrixBase<R> > mat; std::unique_ptr<Asm> as; gsDofMapper map;
    int east(int j){ return 3*j+2; } int west(int j){ return 3*j; }
    Two(Ctx & c,bool viaSet):F(affine(c,"f",2,DIM,DIM==3)),g(affine(c,"g",DIM,DIM,true))
    {
        for(int p=0;p<2;++p){ K[p].resize(9,DIM); for(int j=0;j<3;++j) for(int i=0;i<3;++i){ int m=i+3*j; R x=rat(i+2*p,2),y=rat(3*j,4); K[p](m,0)=x; K[p](m,1)=y; if(DIM==3) K[p](m,2)= x*rat(3,4); } U[p]=dispNet(DIM); }
        for(int j=0;j<3;++j) U[1].row(west(j))=U[0].row(east(j));
        U[1](4,DIM-1)=c.in("u",0.05,-0.2,0.2);
        for(int p=0;p<2;++p) mp.addPatch(bern(K[p])); mp.addInterface(0,boundary::east,1,boundary::west); mp.addAutoBoundaries(); def=mp; for(int p=0;p<2;++p) def.patch(p).coefs()=K[p]+U[p];
        basis=gsMultiBasis<R>(mp); ft=gsConstantFunction<R>(rat(1,10),DIM); fE=gsConstantFunction<R>(R(3),DIM); fnu=gsConstantFunction<R>(rat(3,10),DIM); frho=gsConstantFunction<R>(R(2),DIM); mat.reset(new gsMaterialMatrixLinear<DIM,R>(mp,ft,fE,fnu,frho));
        bc.addCondition(0,boundary::south,condition_type::dirichlet,0,0,false,0); bc.addCondition(1,boundary::north,condition_type::neumann,&g,0,false); bc.setGeoMap(mp);
        as.reset(new Asm(mp,basis,bc,F,mat.get())); pts(*as); if(viaSet){ gsOptionList o=as->options(); o.setInt("Continuity",0); as->setOptions(o); } else { as->options().setInt("Continuity",0); as->assemble(); } map=as->getMapper();
    }
};
// mass of two patches with density and thickness that vary in space and from patch to patch, and masses at points of both
NM(massTwo)
{
    Two t(c,true); Affine r[2],h[2]; gsPiecewiseFunction<R> fr,fh; for(int p=0;p<2;++p){ r[p]=h[p]=Affine(DIM,1); r[p].c0(0,0)=c.in(S("rho",p),2+p,0.1,5); r[p].C(0,1)=rat(1,3); h[p].c0(0,0)=c.in(S("h",p),0.1+0.1*p,0.05,0.5); h[p].C(0,0)=rat(1,50); fr.addPiece(r[p]); fh.addPiece(h[p]); }
    gsMaterialMatrixLinear<DIM,R> m(t.mp,fh,t.fE,t.fnu,fr); Asm A(t.mp,t.basis,t.bc,t.F,&m); pts(A); gsOptionList o=A.options(); o.setInt("Continuity",0); A.setOptions(o); gsDofMapper map=A.getMapper(); int n=A.numDofs();
    Mat E(n,n),L(n,n); E.setZero(); L.setZero(); gsPointLoads<R> pm;
    struct Q { static void add(const gsDofMapper & map,Mat & E,Mat & L,int p,const Bern & b,const R & w){ for(int i=0;i<9;++i) for(int k=0;k<DIM;++k) if(map.is_free(i,p,k)){ int I=map.index(i,p,k); L(I,I)+=w*b.b[i]; for(int j=0;j<9;++j) if(map.is_free(j,p,k)) E(I,map.index(j,p,k))+=w*b.b[i]*b.b[j]; } } };
    for(int p=0;p<2;++p){ Bern b(rat(1,2),rat(1,2)); Loc l=b.at(t.K[p]); Q::add(map,E,L,p,b,r[p].at(l.x)(0,0)*h[p].at(l.x)(0,0)*measOf(l)); }
    for(int q=0;q<4;++q)
    {
        int p= q<2? q: 3-q; gsVector<R> pt(2),v(1); if(q<2){ pt[0]=c.in(S("px",q),0.3+0.2*q,0,1); pt[1]=c.in(S("py",q),0.6-0.2*q,0,1); } else pt<<rat(1,2),rat(1,2); v[0]=c.in(S("pm",q),1.5-q*0.3,0.1,3);
        Q::add(map,E,L,p,Bern(pt[0],pt[1]),v[0]); if(q<2) pm.addLoad(pt,v,p,true); else { Mat x=t.mp.patch(p).eval(pt); gsVector<R> y=x.col(0); pm.addLoad(y,v,p,false); }
    }
    A.setPointMass(pm); A.assembleMass(); c.eqm("M",dense(A.massMatrix()),E); A.assembleMass(true); c.eqm("lumped",dense(A.massMatrix()),L);
}
// all coefficients, free and prescribed
NM(fullVector)
{
    Sh s(c,dofs(4,DIM-1)); flat(s); Bc b(c,s.Ko); b.add(s.bc); Asm & A=s.make(); gsDofMapper mp=A.getMapper(); Mat v=nodal(c,A.numDofs()); Mat f=A.fullSolutionVector(v); c.eq("size",R((int)f.rows()),R(9*DIM));
    for(int m=0;m<9;++m) for(int k=0;k<DIM;++k) c.eq(S2("f",m,k),f(m+9*k,0),b.fix[m][k]? b.val(m,k): v(mp.index(m,0,k),0));
}
void coupled(Ctx & c,bool viaSet)
{
    Two t(c,viaSet); int n=(18-3)*DIM-3; c.eq("ndofs",R(t.as->numDofs()),R(n)); // shared side counted once; first component fixed on the south side of the first patch
    n=t.as->numDofs();
    for(int j=0;j<3;++j) for(int k=0;k<DIM;++k) c.eq(S2("shared",j,k),R((int)t.map.index(t.east(j),0,k)),R((int)t.map.index(t.west(j),1,k)));
    Mat v=nodal(c,n); gsMultiPatch<R> u=t.as->constructDisplacement(v),x=t.as->constructSolution(v);
    for(int p=0;p<2;++p) for(int m=0;m<9;++m) for(int k=0;k<DIM;++k){ R e= t.map.is_free(m,p,k)? v(t.map.index(m,p,k),0): R(0); c.eq(S2(p?"ub":"ua",m,k),u.patch(p).coefs()(m,k),e); c.eq(S2(p?"xb":"xa",m,k),x.patch(p).coefs()(m,k),t.K[p](m,k)+e); }
    c.eqm("v",t.as->constructSolutionVector(u),v);
}
NM(coupledSet){ coupled(c,true); }
NM(coupledOpt){ coupled(c,false); }
// the coupled system is the sum of the contributions of the patches
NM(coupledSys)
{
    Two t(c,true); gsPointLoads<R> pl; gsVector<R> q(2),w(DIM); q<<c.in("px",0.3,0,1),c.in("py",0.6,0,1); for(int k=0;k<DIM;++k) w[k]=c.in(S("P",k),1.5-k*0.7,-3,3); pl.addLoad(q,w,1,true); t.as->setPointLoads(pl);
    Mat er(t.as->numDofs(),1),eM(er.rows(),er.rows()); er.setZero(); eM.setZero(); Mat eK=eM;
    for(int p=0;p<2;++p)
    {
        gsMultiPatch<R> mp,def; mp.addPatch(t.mp.patch(p)); def.addPatch(t.def.patch(p)); gsMultiBasis<R> b(mp); gsBoundaryConditions<R> bc; if(p==1) bc.addCondition(0,boundary::north,condition_type::neumann,&t.g,0,false); bc.setGeoMap(mp); std::unique_ptr<gsMaterialMatrixBase<R> > m(new gsMaterialMatrixLinear<DIM,R>(mp,t.ft,t.fE,t.fnu,t.frho));
        Asm A(mp,b,bc,t.F,m.get()); pts(A); A.assembleVector(def); Mat r=A.rhs(); A.assembleMatrix(def); Mat K=dense(A.matrix()); A.assembleMass(); Mat M=dense(A.massMatrix()); Bern bn(q[0],q[1]);
        for(int i=0;i<9;++i) for(int k=0;k<DIM;++k) if(t.map.is_free(i,p,k))
        {
            int I=t.map.index(i,p,k),a=A.getMapper().index(i,0,k); er(I,0)+=r(a,0); if(p==1) er(I,0)+=bn.b[i]*w[k];
            for(int j=0;j<9;++j) for(int l=0;l<DIM;++l) if(t.map.is_free(j,p,l)){ int J=t.map.index(j,p,l),bq=A.getMapper().index(j,0,l); eK(I,J)+=K(a,bq); eM(I,J)+=M(a,bq); }
        }
    }
    t.as->assembleVector(t.def); c.eqm("r",t.as->rhs(),er); t.as->assembleMatrix(t.def); c.eqm("K",dense(t.as->matrix()),eK); t.as->assembleMass(); c.eqm("M",dense(t.as->massMatrix()),eM);
}
// other geometry, basis or space: the result of a new assembler with the new data, loads are kept
NM(reset)
{
    Sh s(c,dofs(4,DIM-1,7,0)); flat(s); Sh n(c,dofs(4,DIM-1,7,0)); for(int m=0;m<9;++m){ n.Ko(m,0)=2*s.Ko(m,0); n.Ko(m,1)=s.Ko(m,1); if(DIM==3) n.Ko(m,2)=s.Ko(m,2); } n.init();
    Affine F=affine(c,"f",2,DIM,DIM==3),p=affine(c,"p",3,1,false),k=affine(c,"k",3,3,false); gsVector<R> q(2),w(DIM); q<<rat(3,10),rat(7,10); w.setZero(); w[0]=c.in("P",1.5,-3,3); gsPointLoads<R> pl; pl.addLoad(q,w,0,true);
    s.bc.setGeoMap(s.mp); n.bc.setGeoMap(n.mp); Asm A(s.mp,s.basis,s.bc,F,s.mat.get()),B(n.mp,n.basis,n.bc,F,n.mat.get()); pts(A); pts(B);
    Asm * as[2]={&A,&B}; for(int i=0;i<2;++i){ as[i]->setPointLoads(pl); if(DIM==3){ as[i]->setPressure(p); as[i]->setFoundation(k); } }
    A.assemble(); B.assemble(); Mat L=dense(B.matrix()),l=B.rhs(); B.assembleVector(n.def); Mat r=B.rhs();
    A.setGeometry(n.mp); A.assemble(); c.eqm("L",dense(A.matrix()),L); c.eqm("l",A.rhs(),l); A.assembleVector(n.def); c.eqm("r",A.rhs(),r);
    // a basis with fewer functions than the geometry
    gsKnotVector<R> kv(0,1,0,2); gsTensorBSplineBasis<2,R> bl(kv,kv); gsMultiBasis<R> lin(bl); Asm C(n.mp,lin,n.bc,F,n.mat.get()); pts(C); C.setPointLoads(pl); if(DIM==3){ C.setPressure(p); C.setFoundation(k); } C.assemble(); L=dense(C.matrix()); l=C.rhs();
    A.setBasis(lin); c.eq("ndofs",R((int)A.numDofs()),R(4*DIM)); A.assemble(); c.eqm("Lb",dense(A.matrix()),L); c.eqm("lb",A.rhs(),l);
}
}
