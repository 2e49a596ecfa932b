// Internal forces and stiffness of the shell assembler. -DDIM=2|3 -DBEND=0|1
#include "refmodel.h"
namespace {
typedef Shell<DIM,BEND> Sh; typedef Sh::Asm Asm;
#if DIM==3 && BEND
#define NM(n) VCASE(sh3b_##n)
#elif DIM==3
#define NM(n) VCASE(sh3m_##n)
#else
#define NM(n) VCASE(sh2m_##n)
#endif
void onePt(Asm & A){ A.options().setReal("ExprAssembler.quA",R(0)); A.options().setInt("ExprAssembler.quB",1); }
Mat dense(const gsSparseMatrix<R> & K){ Mat m(K.rows(),K.cols()); for(int i=0;i<K.rows();++i) for(int j=0;j<K.cols();++j) m(i,j)=K.coeff(i,j); return m; }

// out-of-balance vector = - gradient of the energy, matrix = - derivative of the vector
void tangent(Ctx & c,const std::vector<Dof> & v,bool ms)
{
    Sh s(c,v,ms); Asm & A=s.make(); c.out("W",s.energy());
    A.assembleVector(s.def); Mat r=A.rhs();
    for(int i=0;i<r.rows();++i) c.out(S("r",i),r(i,0));
    A.assembleMatrix(s.def); gsSparseMatrix<R> K=A.matrix();
    for(size_t j=0;j<v.size();++j)
    {
        int J=s.idx(v[j].m,v[j].k);
        c.eq("r."+v[j].name(),r(J,0),-c.D("W",v[j].name()));
        for(int i=0;i<r.rows();++i) c.eq(S2("K",i,J),K.coeff(i,J),-c.D(S("r",i),v[j].name()));
    }
}
NM(tan0){ tangent(c,dofs(4,DIM-1),false); }
NM(tan1){ tangent(c,dofs(0,0,4,DIM-1),false); }
NM(tan2){ tangent(c,dofs(0,0,4,DIM-1,7,1),false); }
NM(tan3){ tangent(c,dofs(3,0,4,DIM-1),true); }

// every entry against the reference model
void cmp(Ctx & c,const std::string & n,Asm & A,const std::vector<const Ref*> & pts,const std::vector<int> & patch,const Mat * r,const Mat * K)
{
    const gsDofMapper & mp=A.getMapper(); Mat er(mp.freeSize(),1),eK(mp.freeSize(),mp.freeSize()); er.setZero(); eK.setZero();
    for(size_t q=0;q<pts.size();++q)
    {
        const Ref & f=*pts[q];
        for(int i=0;i<f.n*DIM;++i)
        {
            int I=mp.index(i/DIM,patch[q],i%DIM); er(I,0)-=f.force(i);
            if(K) for(int j=0;j<f.n*DIM;++j) eK(I,mp.index(j/DIM,patch[q],j%DIM))+=f.stiff(i,j);
        }
    }
    if(r) c.eqm(n+".r",*r,er);
    if(K){ c.eqm(n+".K",*K,eK); for(int i=0;i<K->rows();++i) for(int j=0;j<i;++j) c.eq(S2(n+".sym",i,j),(*K)(i,j),(*K)(j,i)); }
}
Mat vecOf(Asm & A,const gsMultiPatch<R> & d){ A.assembleVector(d); return A.rhs(); }
Mat matOf(Asm & A,const gsMultiPatch<R> & d){ A.assembleMatrix(d); return dense(A.matrix()); }
NM(full)
{
    Sh s(c,dofs(4,DIM-1)); Asm & A=s.make(); Mat r=vecOf(A,s.def),K=matOf(A,s.def);
    Ref f(DIM,BEND); f.setBern(Bern(rat(1,2),rat(1,2))); f.geometry(s.Ko,s.Ko+s.Ku,R(1)); f.linear(s.E,s.nu,s.t); cmp(c,"a",A,{&f},{0},&r,&K);
}
// the linear problem is the tangent of the undeformed shell
NM(zero)
{
    Sh s(c,dofs(4,DIM-1),true); Asm & A=s.make(); A.assemble(); Mat K=dense(A.matrix()),r=A.rhs();
    Ref f(DIM,BEND); f.setBern(Bern(rat(1,2),rat(1,2))); f.geometry(s.Ko,s.Ko,R(1)); f.linear(s.E,s.nu,s.t); cmp(c,"a",A,{&f},{0},&r,&K);
    Mat K0=matOf(A,s.mp),r0=vecOf(A,s.mp); c.eqm("K0",K0,K); Mat z=r; z.setZero(); c.eqm("r0",r0,z);
}
// the call variants assemble the same
NM(calls)
{
    Sh s(c,dofs(4,DIM-1,7,0)); Asm & A=s.make(); Mat r=vecOf(A,s.def),K=matOf(A,s.def); gsMultiPatch<R> u; u.addPatch(bern(s.Ku)); Mat v=A.constructSolutionVector(u);
    { Sh t(c,dofs(4,DIM-1,7,0)); Asm & B=t.make(); B.assembleVector(v); c.eqm("vec",B.rhs(),r); B.assembleMatrix(v); c.eqm("mat",dense(B.matrix()),K); }
    { Sh t(c,dofs(4,DIM-1,7,0)); Asm & B=t.make(); B.assemble(t.def); c.eqm("both.r",B.rhs(),r); c.eqm("both.K",dense(B.matrix()),K); B.assemble(t.def,false); c.eqm("only.r",B.rhs(),r); }
    { Sh t(c,dofs(4,DIM-1,7,0)); Asm & B=t.make(); B.assemble(v); c.eqm("bothv.r",B.rhs(),r); c.eqm("bothv.K",dense(B.matrix()),K); B.assemble(v,false); c.eqm("onlyv.r",B.rhs(),r); }
}
// several elements, material data that vary in space
struct Many
{
    Mat Ko,Ku; gsMultiPatch<R> mp,def; gsMultiBasis<R> basis; Affine fE,ft; gsConstantFunction<R> fnu,frho,force; gsBoundaryConditions<R> bc; std::unique_ptr<gsMaterialMatrixBase<R> > mat; std::unique_ptr<Asm> as; std::vector<std::unique_ptr<Ref> > ref;
    Many(Ctx & c,int e1,int e2,bool vary):fE(DIM,1),ft(DIM,1)
    {
        gsKnotVector<R> k1(0,1,e1-1,3),k2(0,1,e2-1,3); gsTensorBSplineBasis<2,R> b(k1,k2); int n1=k1.size()-3,n2=k2.size()-3; Ko.resize(n1*n2,DIM); Ku=Ko;
        for(int j=0;j<n2;++j) for(int i=0;i<n1;++i){ int m=i+n1*j; double P[3]={i*0.5+0.1*((i*j)%3),j*0.4+0.05*((i+2*j)%3)-0.1*(i%2),0.1*((2*i+j)%4)},U[3]={0.02*((i+j)%3),0.03*((2*i+j)%3)-0.02,0.05*((i+3*j)%4)-0.03};
            for(int k=0;k<DIM;++k){ Ko(m,k)=R(P[k]); Ku(m,k)=R(U[k]); } }
        Ku(n1+1,DIM-1)=c.in("u",0.06,-0.2,0.2);
        mp.addPatch(gsTensorBSpline<2,R>(b,Ko)); def.addPatch(gsTensorBSpline<2,R>(b,Mat(Ko+Ku))); basis=gsMultiBasis<R>(mp);
        fE.c0(0,0)=c.in("E",3,0.5,10); ft.c0(0,0)=rat(1,10); R nu=rat(3,10);
        if(vary){ fE.C(0,0)=rat(1,2); fE.C(0,1)=rat(1,4); ft.C(0,0)=rat(1,50); ft.C(0,1)=rat(-1,40); }
        fnu=gsConstantFunction<R>(nu,DIM); frho=gsConstantFunction<R>(R(1),DIM); gsVector<R> z(DIM); z.setZero(); force=gsConstantFunction<R>(z,2); bc.setGeoMap(mp);
        mat.reset(new gsMaterialMatrixLinear<DIM,R>(mp,ft,fE,fnu,frho)); as.reset(new Asm(mp,basis,bc,force,mat.get())); onePt(*as);
        for(int j=0;j<e2;++j) for(int i=0;i<e1;++i)
        {
            Mat u(2,1); u(0,0)=R(2*i+1)/R(2*e1); u(1,0)=R(2*j+1)/R(2*e2); ref.emplace_back(new Ref(DIM,BEND)); Ref & f=*ref.back(); f.setBasis(b,u); f.geometry(Ko,Ko+Ku,R(1)/R(e1*e2)); f.linear(fE.at(f.o.x)(0,0),nu,ft.at(f.o.x)(0,0));
        }
    }
};
void many(Ctx & c,int e1,int e2,bool vary)
{
    Many m(c,e1,e2,vary); Mat r=vecOf(*m.as,m.def),K=matOf(*m.as,m.def); std::vector<const Ref*> p; std::vector<int> q; for(size_t i=0;i<m.ref.size();++i){ p.push_back(m.ref[i].get()); q.push_back(0); }
    cmp(c,"a",*m.as,p,q,&r,&K);
}
NM(vary){ many(c,1,1,true); }
NM(elems){ many(c,2,1,false); }
NM(elems2){ many(c,1,2,true); }
// two patches with their own materials
NM(patches)
{
    Sh a(c,dofs(4,DIM-1)); R E[2]={c.in("Ea",3,0.5,10),c.in("Eb",5,0.5,10)},nu[2]={rat(3,10),rat(1,5)},t[2]={c.in("ta",0.1,0.01,0.5),c.in("tb",0.2,0.01,0.5)}; Mat Kb=net(DIM); for(int m=0;m<9;++m){ Kb(m,0)=Kb(m,0)*rat(3,2)+R(2); Kb(m,1)=Kb(m,1)-rat(1,2)*Kb(m,0); }
    gsMultiPatch<R> mp,def; mp.addPatch(bern(a.Ko)); mp.addPatch(bern(Kb)); def.addPatch(bern(a.Ko+a.Ku)); def.addPatch(bern(Kb+a.Ku)); gsMultiBasis<R> bs(mp); gsBoundaryConditions<R> bc; bc.setGeoMap(mp);
    std::vector<std::unique_ptr<gsConstantFunction<R> > > fs; gsMaterialMatrixContainer<R> mc(2); std::unique_ptr<gsMaterialMatrixBase<R> > ms[2]; gsConstantFunction<R> rho(R(1),DIM);
    for(int p=0;p<2;++p){ fs.emplace_back(new gsConstantFunction<R>(t[p],DIM)); fs.emplace_back(new gsConstantFunction<R>(E[p],DIM)); fs.emplace_back(new gsConstantFunction<R>(nu[p],DIM)); ms[p].reset(new gsMaterialMatrixLinear<DIM,R>(mp,*fs[3*p],*fs[3*p+1],*fs[3*p+2],rho)); mc.set(p,ms[p].get()); }
    gsVector<R> z(DIM); z.setZero(); gsConstantFunction<R> force(z,2); Asm A(mp,bs,bc,force,mc); onePt(A); Asm B(mp,bs,bc,force,ms[0].get()); onePt(B);
    Mat r=vecOf(A,def),K=matOf(A,def),rB=vecOf(B,def),KB=matOf(B,def); A.assemble(); Mat LA=dense(A.matrix());
    for(int one=0;one<2;++one){ Ref f(DIM,BEND),g(DIM,BEND); Bern q(rat(1,2),rat(1,2)); f.setBern(q); g.setBern(q); f.geometry(a.Ko,a.Ko+a.Ku,R(1)); g.geometry(Kb,Kb+a.Ku,R(1)); f.linear(E[0],nu[0],t[0]); int w= one?0:1; g.linear(E[w],nu[w],t[w]); cmp(c,one?"single":"own",one?B:A,{&f,&g},{0,1},one?&rB:&r,one?&KB:&K); }
    Ref f(DIM,BEND),g(DIM,BEND); Bern q(rat(1,2),rat(1,2)); f.setBern(q); g.setBern(q); f.geometry(a.Ko,a.Ko,R(1)); g.geometry(Kb,Kb,R(1)); f.linear(E[0],nu[0],t[0]); g.linear(E[1],nu[1],t[1]); cmp(c,"lin",A,{&f,&g},{0,1},0,&LA);
}
// a displacement that is a rigid motion gives no internal force
NM(rigid)
{
    Sh s(c,dofs(4,DIM-1)); R h=c.in("h",0.3,-2,2),cs=(1-h*h)/(1+h*h),sn=2*h/(1+h*h); R tx=c.in("tx",0.4,-2,2),ty=c.in("ty",-0.3,-2,2); Mat Kd=s.Ko; int i= 0,j= DIM==3? 2: 1;
    for(int m=0;m<9;++m){ R x=s.Ko(m,i),y=s.Ko(m,j); Kd(m,i)=cs*x-sn*y+tx; Kd(m,j)=sn*x+cs*y+ty; }
    gsMultiPatch<R> d; d.addPatch(bern(Kd)); Asm & A=s.make(); Mat r=vecOf(A,d),z=r; z.setZero(); c.eqm("r",r,z);
}
#if DIM==3 && BEND
// matrix with the stresses extrapolated from a previous configuration
NM(mip)
{
    Sh s(c,dofs(4,2,3,0)); Asm & A=s.make(); Mat Kp=s.Ko; for(int m=0;m<9;++m) for(int k=0;k<3;++k) Kp(m,k)+=rat((m+2*k)%5-2,40); gsMultiPatch<R> prev; prev.addPatch(bern(Kp)); gsMultiPatch<R> du; du.addPatch(bern(Mat(s.Ko+s.Ku-Kp))); Mat up=A.constructSolutionVector(du);
    A.assembleMatrix(s.def,prev,up); Mat K=dense(A.matrix());
    Ref f(3,true),p(3,true); Bern q(rat(1,2),rat(1,2)); f.setBern(q); p.setBern(q); f.geometry(s.Ko,s.Ko+s.Ku,R(1)); f.linear(s.E,s.nu,s.t); p.geometry(s.Ko,Kp,R(1)); p.linear(s.E,s.nu,s.t);
    R e[3]={R(0),R(0),R(0)},k[3]={R(0),R(0),R(0)}; for(int m=0;m<9;++m) for(int d=0;d<3;++d) for(int a=0;a<3;++a){ R w=s.Ko(m,d)+s.Ku(m,d)-Kp(m,d); e[a]+=p.em[3*m+d][a]*w; k[a]+=p.ef[3*m+d][a]*w; }
    for(int a=0;a<3;++a){ f.N[a]=p.N[a]; f.M[a]=p.M[a]; for(int b=0;b<3;++b){ f.N[a]+=p.A(a,b)*e[b]; f.M[a]+=p.D(a,b)*k[b]; } }
    cmp(c,"a",A,{&f},{0},0,&K);
    gsMultiPatch<R> u0; u0.addPatch(bern(s.Ku)); Mat sv=A.constructSolutionVector(u0); A.assembleMatrix(sv,Mat(sv-up)); c.eqm("vec",dense(A.matrix()),K);
}
#endif
}
