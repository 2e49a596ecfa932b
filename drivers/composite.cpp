// Laminates: stiffness, stress resultants, density and thickness of gsMaterialMatrixComposite, and the shell made of it.  -DDIM=2|3
#include "refmodel.h"
#include <gsKLShell/src/gsMaterialMatrixComposite.h>
#include <gsKLShell/src/gsMaterialMatrixIntegrate.h>
namespace {
typedef gsMaterialMatrixComposite<DIM,R> MC;
typedef gsThinShellAssembler<DIM,R,DIM==3> Asm;
typedef MaterialOutput O;
#define CAT_(d,n) cp##d##_##n
#define CAT(d,n) CAT_(d,n)
#define VC_(n) VCASE(n)
#define NM(n) VC_(CAT(DIM,n))

// fibre-frame stiffness (symmetric 3x3 in Voigt notation with engineering shear) as a 9-vector
Mat sym9(const R * g){ Mat m(9,1); int ix[3][3]={{0,1,2},{1,3,4},{2,4,5}}; for(int j=0;j<3;++j) for(int i=0;i<3;++i) m(i+3*j,0)=g[ix[i][j]]; return m; }
struct Lay
{
    std::vector<Affine> t,G,a,r; std::vector<gsFunctionSet<R>*> pt,pG,pa,pr; int n;
    explicit Lay(int n_):t(n_,Affine(DIM,1)),G(n_,Affine(DIM,9)),a(n_,Affine(DIM,1)),r(n_,Affine(DIM,1)),n(n_)
    { for(int i=0;i<n;++i){ pt.push_back(&t[i]); pG.push_back(&G[i]); pa.push_back(&a[i]); pr.push_back(&r[i]); t[i].c0(0,0)=rat(1+i,20); r[i].c0(0,0)=R(2+i);
        R g[6]={R(4+i),R(1),rat(i,4),R(3-i),rat(1,5),R(1)}; G[i].c0=sym9(g); } }
    void symbolic(Ctx & c,int i,int what) // 1 thickness 2 stiffness 4 angle 8 density
    {
        if(what&1) t[i].c0(0,0)=c.in(S("t",i),0.05+0.05*i,0.01,0.5);
        if(what&2){ R g[6]; static const double v[6]={4,1,0.25,3,-0.2,1.5}; for(int k=0;k<6;++k) g[k]=c.in(S2("G",i,k),v[k]+0.5*i,-10,10); G[i].c0=sym9(g); }
        if(what&4) a[i].c0(0,0)=c.in(S("phi",i),0.4-0.9*i,-3,3);
        if(what&8) r[i].c0(0,0)=c.in(S("rho",i),2+i,0.1,5);
    }
    void vary(){ for(int i=0;i<n;++i){ t[i].C(0,0)=rat(1,50+i); t[i].C(0,1)=rat(1,90-i); r[i].C(0,1)=rat(1+i,7); a[i].C(0,0)=R(0); for(int k=0;k<9;++k) G[i].C(k,1)=G[i].c0(k,0)*rat(1,5+i); } }
    MC * make(const gsFunctionSet<R> & mp,bool rho=true) const { return rho? new MC(mp,pt,pG,pa,pr): new MC(mp,pt,pG,pa); }
    // derivative of the strain in the fibre frame of layer i with respect to the covariant strain components (E11,E22,2 E12)
    Mat P(int i,const Kin & k,const Loc & l) const
    {
        R e1[3],e2[3],f[2][3],q=len3(l.a1),n[3],ph=a[i].at(l.x)(0,0),cs=cos(ph),sn=sin(ph); unitNormal(l,n); for(int m=0;m<3;++m) e1[m]=l.a1[m]/q; cross3(n,e1,e2);
        for(int m=0;m<3;++m){ f[0][m]=cs*e1[m]+sn*e2[m]; f[1][m]=cs*e2[m]-sn*e1[m]; }
        Mat p(3,3); for(int b=0;b<3;++b) { R E[2][2]={{R(b==0),b==2? rat(1,2):R(0)},{b==2? rat(1,2):R(0),R(b==1)}};
            for(int v=0;v<3;++v){ int x= v==1, y= v>0; R s(0); for(int m=0;m<2;++m) for(int o=0;o<2;++o) s+=E[m][o]*dot3(f[x],k.gc[m])*dot3(f[y],k.gc[o]); p(v,b)= v==2? 2*s: s; } }
        return p;
    }
    // A, B, D: moments of the stiffness over the height; the first layer lies on the side of the normal
    void ABD(const Loc & l,Mat & A,Mat & B,Mat & D) const
    {
        Kin k(l,R(0),DIM); A=Mat(3,3); A.setZero(); B=D=A; R h(0); for(int i=0;i<n;++i) h+=t[i].at(l.x)(0,0); R up=h/2;
        for(int i=0;i<n;++i)
        {
            R lo=up-t[i].at(l.x)(0,0); Mat p=P(i,k,l),g=G[i].at(l.x),Q(3,3); for(int x=0;x<3;++x) for(int y=0;y<3;++y){ R s(0); for(int v=0;v<3;++v) for(int w=0;w<3;++w) s+=p(v,x)*g(v+3*w,0)*p(w,y); Q(x,y)=s; }
            A+=Q*(up-lo); B+=Q*((up*up-lo*lo)/2); D+=Q*((up*up*up-lo*lo*lo)/3); up=lo;
        }
    }
};
Mat z0(int n=1){ Mat z(1,n); z.setZero(); return z; }
Mat at33(const MC & m,const Mat & u,O o,int p=0){ return as33(m.eval3D_matrix(p,u,z0(u.cols()),o),0); }

void matrix(Ctx & c,int what,bool skew)
{
    Lay L(2); L.symbolic(c,0,what&7); L.symbolic(c,1,(what>>4)&7); L.vary(); Loc lo=planar(c,"o",1.2,0.25,0.9); if(!skew) lo.a2[0]=R(0); lo.x[0]=rat(1,3); lo.x[1]=rat(1,4);
    gsMultiPatch<R> mp=mpOf(lo,DIM); std::unique_ptr<MC> m(L.make(mp)); m->setDeformed(&mp); Mat A,B,D; L.ABD(lo,A,B,D);
    c.eqm("A",at33(*m,pt(0,0),O::MatrixA),A); c.eqm("B",at33(*m,pt(0,0),O::MatrixB),B); c.eqm("C",at33(*m,pt(0,0),O::MatrixC),B); c.eqm("D",at33(*m,pt(0,0),O::MatrixD),D);
}
NM(matThick){ matrix(c,0x15,true); }
NM(matStiff){ matrix(c,0x2,true); }
NM(matAngle){ matrix(c,0x44,true); }
NM(matAll){ matrix(c,0x57,true); }

// resultants follow from both the membrane strain and the change of curvature
void vec(Ctx & c,int which)
{
    Lay L(2); L.symbolic(c,which&1,1|4); L.vary(); Loc lo=planar(c,"o",1.2,0.25,0.9),ld=planar(c,"d",1.4,-0.3,1.1); if(DIM==3){ curved(c,ld,"d",0.3,-0.2,0.5); lo.a11[2]=rat(1,5); lo.a12[2]=rat(-1,4); } 
    gsMultiPatch<R> mp=mpOf(lo,DIM),md=mpOf(ld,DIM); std::unique_ptr<MC> m(L.make(mp)); m->setDeformed(&md); Mat A,B,D; L.ABD(lo,A,B,D);
    Kin o(lo,R(0),DIM),f(ld,R(0),DIM); R e[3],k[3]; strains(o,f,e,k); Mat N(3,1),M(3,1); for(int i=0;i<3;++i){ N(i,0)=M(i,0)=R(0); for(int j=0;j<3;++j){ N(i,0)+=A(i,j)*e[j]+B(i,j)*k[j]; M(i,0)+=B(i,j)*e[j]+D(i,j)*k[j]; } }
    if(which<2) c.eqm("N",m->eval3D_vector(0,pt(0,0),z0(),O::VectorN),N); else c.eqm("M",m->eval3D_vector(0,pt(0,0),z0(),O::VectorM),M);
}
NM(vecN0){ vec(c,0); }
NM(vecN1){ vec(c,1); }
NM(vecM0){ vec(c,2); }
NM(vecM1){ vec(c,3); }

// layers of one isotropic material, however divided and oriented, are that material
NM(iso)
{
    R E=c.in("E",3,0.5,10),nu=c.in("nu",0.3,0,0.49),q=E/(1-nu*nu); Lay L(3); R t(0); for(int i=0;i<3;++i){ L.symbolic(c,i,1|(i==1?4:0)); R g[6]={q,nu*q,R(0),q,R(0),E/(2*(1+nu))}; L.G[i].c0=sym9(g); t+=L.t[i].c0(0,0); }
    Loc lo=planar(c,"o",1.2,0.25,0.9); gsMultiPatch<R> mp=mpOf(lo,DIM); std::unique_ptr<MC> m(L.make(mp,false)); m->setDeformed(&mp);
    gsConstantFunction<R> ft(t,DIM),fE(E,DIM),fn(nu,DIM); gsMaterialMatrixLinear<DIM,R> lin(mp,ft,fE,fn); lin.setDeformed(&mp); Mat C=as33(lin.eval3D_matrix(0,pt(0,0),z0(),O::MatrixA),0),Z=C; Z.setZero();
    c.eqm("A",at33(*m,pt(0,0),O::MatrixA),C*t); c.eqm("B",at33(*m,pt(0,0),O::MatrixB),Z); c.eqm("D",at33(*m,pt(0,0),O::MatrixD),C*(t*t*t/12));
}
// several points, two patches
struct Pc : public gsPiecewiseFunction<R> { Pc(const Affine & a,const Affine & b){ addPiece(a); addPiece(b); } };
struct TwoP
{
    Lay L[2]; std::vector<std::unique_ptr<Pc> > own; std::vector<gsFunctionSet<R>*> p[4]; gsMultiPatch<R> mp,def,one[2],oneDef[2]; std::unique_ptr<MC> m,s[2];
    TwoP(Ctx & c,bool rho=true):L{Lay(2),Lay(2)}
    {
        L[0].symbolic(c,0,1|8); L[0].symbolic(c,1,4); L[0].a[0].c0(0,0)+=rat(1,2); for(int i=0;i<2;++i){ L[1].a[i].c0(0,0)=L[0].a[1-i].c0(0,0); L[1].t[i].c0=L[0].t[i].c0*rat(3,2); L[1].G[i].c0=L[0].G[1-i].c0*rat(4,3); L[1].r[i].c0=L[0].r[i].c0*rat(5,3); } L[0].vary(); L[1].vary();
        for(int i=0;i<2;++i){ own.emplace_back(new Pc(L[0].t[i],L[1].t[i])); p[0].push_back(own.back().get()); own.emplace_back(new Pc(L[0].G[i],L[1].G[i])); p[1].push_back(own.back().get()); own.emplace_back(new Pc(L[0].a[i],L[1].a[i])); p[2].push_back(own.back().get()); own.emplace_back(new Pc(L[0].r[i],L[1].r[i])); p[3].push_back(own.back().get()); }
        Mat a=net(DIM),b=net(DIM),u=dispNet(DIM),w=dispNet(DIM); for(int m=0;m<9;++m){ b(m,0)=b(m,0)*rat(5,4)+R(2); b(m,1)=b(m,1)-b(m,0)/8; w(m,1)=w(m,0)*rat(1,2)-w(m,1); } u(4,DIM-1)=c.in("u4",0.07,-0.2,0.2);
        Mat K[2]={a,b},U[2]={u,w}; for(int q=0;q<2;++q){ mp.addPatch(bern(K[q])); def.addPatch(bern(K[q]+U[q])); one[q].addPatch(bern(K[q])); oneDef[q].addPatch(bern(K[q]+U[q])); s[q].reset(L[q].make(one[q],rho)); s[q]->setDeformed(&oneDef[q]); }
        m.reset(rho? new MC(mp,p[0],p[1],p[2],p[3]): new MC(mp,p[0],p[1],p[2])); m->setDeformed(&def);
    }
    Loc loc(int q,const Mat & u) const { return Bern(u(0,0),u(1,0)).at(mp.patch(q).coefs()); }
};
Mat points(){ Mat u(2,3); u<<rat(1,4),rat(1,2),R(1),rat(1,2),rat(3,4),rat(1,8); return u; }
NM(points)
{
    TwoP T(c); Mat u=points(); O om[4]={O::MatrixA,O::MatrixB,O::MatrixC,O::MatrixD},ov[2]={O::VectorN,O::VectorM};
    for(int p=0;p<2;++p)
    {
        for(int o=0;o<4;++o){ Mat V=T.m->eval3D_matrix(p,u,z0(3),om[o]); for(int k=0;k<3;++k) c.eqm(S2("mat",p,o)+S("_",k),col(V,k),T.s[p]->eval3D_matrix(0,u.col(k),z0(),om[o])); }
        for(int o=0;o<2;++o){ Mat V=T.m->eval3D_vector(p,u,z0(3),ov[o]); for(int k=0;k<3;++k) c.eqm(S2("vec",p,o)+S("_",k),col(V,k),T.s[p]->eval3D_vector(0,u.col(k),z0(),ov[o])); }
    }
}
void dens(Ctx & c,bool rho)
{
    TwoP T(c,rho); Mat u=points(),d,t;
    for(int p=0;p<2;++p)
    {
        if(rho){ T.m->density_into(p,u,d); c.eq(S("drows",p),R((int)d.rows()),R(1)); } T.m->thickness_into(p,u,t); c.eq(S("trows",p),R((int)t.rows()),R(2)); c.eq(S("tcols",p),R((int)t.cols()),R(3));
        for(int k=0;k<3;++k){ Loc l=T.loc(p,u.col(k)); R s(0); for(int i=0;i<2;++i){ R ti=T.L[p].t[i].at(l.x)(0,0); c.eq(S2("t",p,k)+S("_",i),t(i,k),ti); s+=ti*T.L[p].r[i].at(l.x)(0,0); } if(rho) c.eq(S2("m",p,k),d(0,k),s); }
    }
}
NM(mass){ dens(c,true); }
NM(noRho){ dens(c,false); }
// the integrated quantities are those of the laminate
NM(integ)
{
    TwoP T(c); Mat u=points(),V; MC & m=*T.m;
#define ONE(o,call) { gsMaterialMatrixIntegrate<R,O::o> I(&m,&T.mp,&T.def); for(int p=0;p<2;++p){ I.piece(p).eval_into(u,V); for(int k=0;k<3;++k) c.eqm(S2(#o,p,k),col(V,k),T.s[p]->call(0,u.col(k),z0(),O::o)); } }
    ONE(MatrixA,eval3D_matrix) ONE(MatrixB,eval3D_matrix) ONE(MatrixC,eval3D_matrix) ONE(MatrixD,eval3D_matrix) ONE(VectorN,eval3D_vector) ONE(VectorM,eval3D_vector)
}
// a shell of an unsymmetric laminate: matrix and out-of-balance vector of the reference model
void setRef(Ref & f,const Lay & L){ Mat A,B,D; L.ABD(f.o,A,B,D); f.resultants(A,B,D); }
NM(asm)
{
    Mat Ko=net(DIM),Ku=dispNet(DIM); Ku(4,DIM-1)=c.in("u",0.07,-0.2,0.2); Lay L(2); L.symbolic(c,0,1); L.a[0].c0(0,0)=R(0);
    gsMultiPatch<R> mp,def; mp.addPatch(bern(Ko)); def.addPatch(bern(Ko+Ku)); gsMultiBasis<R> bs(mp); gsBoundaryConditions<R> bc; bc.setGeoMap(mp); gsVector<R> z(DIM); z.setZero(); gsConstantFunction<R> force(z,2);
    std::unique_ptr<MC> m(L.make(mp)); Asm A(mp,bs,bc,force,m.get()); A.options().setReal("ExprAssembler.quA",R(0)); A.options().setInt("ExprAssembler.quB",1);
    A.assembleVector(def); Mat r=A.rhs(); A.assembleMatrix(def); const gsSparseMatrix<R> & K=A.matrix();
    Ref f(DIM,DIM==3); f.setBern(Bern(rat(1,2),rat(1,2))); f.geometry(Ko,Ko+Ku,R(1)); setRef(f,L); const gsDofMapper & mm=A.getMapper();
    for(int i=0;i<f.n*DIM;++i){ int I=mm.index(i/DIM,0,i%DIM); c.eq(S("r",i),r(I,0),-f.force(i)); for(int j=0;j<f.n*DIM;++j) c.eq(S2("K",i,j),K.coeff(I,mm.index(j/DIM,0,j%DIM)),f.stiff(i,j)); }
}
}
