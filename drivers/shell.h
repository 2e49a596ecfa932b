// Shell assembler on one bi-quadratic patch, one integration point per element: geometry, displacement, reference energy.
#pragma once
#include "common.h"
#include <gsKLShell/src/gsMaterialMatrixLinear.h>
#include <gsKLShell/src/gsThinShellAssembler.h>

// bi-quadratic Bernstein values/derivatives at (1/2,1/2): index i = i0+3*i1
struct Bern
{
    R b[9],d1[9],d2[9],d11[9],d12[9],d22[9];
    Bern(const R & x,const R & y)
    {
        R v[2][3],e[2][3],f[2][3]; R s[2]={x,y};
        for(int k=0;k<2;++k)
        { R q=1-s[k]; v[k][0]=q*q; v[k][1]=2*s[k]*q; v[k][2]=s[k]*s[k]; e[k][0]=-2*q; e[k][1]=2-4*s[k]; e[k][2]=2*s[k]; f[k][0]=R(2); f[k][1]=R(-4); f[k][2]=R(2); }
        for(int j=0;j<3;++j) for(int i=0;i<3;++i)
        { int m=i+3*j; b[m]=v[0][i]*v[1][j]; d1[m]=e[0][i]*v[1][j]; d2[m]=v[0][i]*e[1][j]; d11[m]=f[0][i]*v[1][j]; d12[m]=e[0][i]*e[1][j]; d22[m]=v[0][i]*f[1][j]; }
    }
    Loc at(const Mat & K) const
    {
        Loc l; for(int m=0;m<9;++m) for(int k=0;k<K.cols();++k)
        { l.x[k]+=b[m]*K(m,k); l.a1[k]+=d1[m]*K(m,k); l.a2[k]+=d2[m]*K(m,k); l.a11[k]+=d11[m]*K(m,k); l.a12[k]+=d12[m]*K(m,k); l.a22[k]+=d22[m]*K(m,k); }
        return l;
    }
};
inline gsTensorBSpline<2,R> bern(const Mat & K){ gsKnotVector<R> kv(0,1,0,3); gsTensorBSplineBasis<2,R> b(kv,kv); return gsTensorBSpline<2,R>(b,K); }
// a gently curved, irregular control net
inline Mat net(int d)
{
    static const double P[9][3]={{0,0,0},{0.5,0.1,0.125},{1.1,-0.1,0},{0.1,0.6,0.25},{0.6,0.5,0.5},{1,0.55,0.125},{-0.1,1,0},{0.45,1.1,0.2},{1.2,0.9,0.1}};
    Mat K(9,d); for(int m=0;m<9;++m) for(int k=0;k<d;++k) K(m,k)=R(P[m][k]); return K;
}
inline Mat dispNet(int d)
{
    static const double P[9][3]={{0.02,0,0.05},{0,0.03,-0.02},{-0.01,0,0.04},{0.05,0.01,0},{0.02,-0.03,0.1},{0,0.02,0.01},{0.03,0,0},{-0.02,0.01,0.06},{0.04,-0.05,0}};
    Mat K(9,d); for(int m=0;m<9;++m) for(int k=0;k<d;++k) K(m,k)=R(P[m][k]); return K;
}
struct Dof { int m,k; std::string name() const { std::ostringstream s; s<<"u"<<m<<"_"<<k; return s.str(); } };

// strains of a deformed local surface: membrane (E11,E22,2E12), bending (K11,K22,2K12)
inline void strains(const Kin & o,const Kin & f,R * em,R * ef)
{
    for(int a=0;a<3;++a){ int i= a==1, j= a>0; R s= a==2? R(2):R(1); em[a]=s*(f.A[i][j]-o.A[i][j])/2; ef[a]=s*(o.B[i][j]-f.B[i][j]); }
}
// plane-stress isotropic matrix (Voigt) of the metric
inline Mat svkMat(const R & E,const R & nu,const R Ac[2][2])
{
    static const int VI[3]={0,1,0},VJ[3]={0,1,1}; Mat X(3,3);
    for(int a=0;a<3;++a) for(int b=0;b<3;++b)
    { int i=VI[a],j=VJ[a],k=VI[b],l=VJ[b]; X(a,b)=E*nu/(1-nu*nu)*Ac[i][j]*Ac[k][l]+E/(2*(1+nu))*(Ac[i][k]*Ac[j][l]+Ac[i][l]*Ac[j][k]); }
    return X;
}
inline R measOf(const Loc & l){ R c[3]; cross3(l.a1,l.a2,c); return sqrt(dot3(c,c)); }

template<int d,bool bend> struct Shell
{
    typedef gsThinShellAssembler<d,R,bend> Asm;
    Mat Ko,Ku; std::vector<Dof> free; R E,nu,t,rho;
    gsMultiPatch<R> mp,def; gsMultiBasis<R> basis; gsBoundaryConditions<R> bc;
    gsConstantFunction<R> force,ft,fE,fnu,frho; std::unique_ptr<gsMaterialMatrixBase<R> > mat; std::unique_ptr<Asm> as;
    // vars: displacement components that are symbolic
    Shell(Ctx & c,const std::vector<Dof> & vars,bool matSym=false): Ko(net(d)),Ku(dispNet(d)),free(vars)
    {
        for(size_t i=0;i<vars.size();++i){ const Dof & v=vars[i]; std::ostringstream s; 
            double w= v.k==2? 0.05: 0.03; Ku(v.m,v.k)=c.in(v.name(),w+0.01*(int)i,-0.2,0.2); }
        E= matSym? c.in("E",3,0.5,10): R(3); nu= matSym? c.in("nu",0.3,0,0.49): rat(3,10); t= matSym? c.in("t",0.1,0.01,0.5): rat(1,10); rho=R(2);
        init();
    }
    void init()
    {
        mp.clear(); mp.addPatch(bern(Ko)); def.clear(); def.addPatch(bern(Ko+Ku));
        basis=gsMultiBasis<R>(mp);
        ft=gsConstantFunction<R>(t,d); fE=gsConstantFunction<R>(E,d); fnu=gsConstantFunction<R>(nu,d); frho=gsConstantFunction<R>(rho,d);
        mat.reset(new gsMaterialMatrixLinear<d,R>(mp,ft,fE,fnu,frho));
        Mat f(d,1); f.setZero(); force=gsConstantFunction<R>(gsVector<R>(f.col(0)),2);
    }
    Asm & make()
    {
        bc.setGeoMap(mp);
        as.reset(new Asm(mp,basis,bc,force,mat.get()));
        onePoint(); return *as;
    }
    void onePoint(){ as->options().setReal("ExprAssembler.quA",R(0)); as->options().setInt("ExprAssembler.quB",1); }
    Loc lo() const { return Bern(rat(1,2),rat(1,2)).at(Ko); }
    Loc ld() const { return Bern(rat(1,2),rat(1,2)).at(Ko+Ku); }
    int idx(int m,int k) const { return as->getMapper().index(m,0,k); }
    // elastic energy of the reference model at the integration point (weight 1)
    R energy() const
    {
        Loc a=lo(),b=ld(); Kin o(a,R(0),d),f(b,R(0),d); R em[3],ef[3]; strains(o,f,em,ef); Mat C=svkMat(E,nu,o.Ac);
        R W(0); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ W+=t*em[i]*C(i,j)*em[j]/2; if(bend) W+=t*t*t/12*ef[i]*C(i,j)*ef[j]/2; }
        return W*measOf(a);
    }
};
inline std::vector<Dof> dofs(int m0,int k0,int m1=-1,int k1=0,int m2=-1,int k2=0)
{ std::vector<Dof> v; Dof a={m0,k0},b={m1,k1},e={m2,k2}; v.push_back(a); if(m1>=0) v.push_back(b); if(m2>=0) v.push_back(e); return v; }

// f(x) = c + C x, with symbolic coefficients
class Affine : public gsFunction<R>
{
public:
    Mat c0,C; Affine():c0(1,1),C(1,2){ c0.setZero(); C.setZero(); }
    Affine(int in,int out):c0(out,1),C(out,in){ c0.setZero(); C.setZero(); }
    GISMO_CLONE_FUNCTION(Affine)
    const Affine & piece(const index_t) const { return *this; }
    short_t domainDim() const { return C.cols(); }
    short_t targetDim() const { return C.rows(); }
    void eval_into(const gsMatrix<R> & u,gsMatrix<R> & r) const { r.resize(C.rows(),u.cols()); for(index_t k=0;k<u.cols();++k) for(index_t i=0;i<C.rows();++i){ R s=c0(i,0); for(index_t j=0;j<C.cols();++j) s+=C(i,j)*u(j,k); r(i,k)=s; } }
    Mat at(const R * x) const { Mat r(C.rows(),1); for(int i=0;i<C.rows();++i){ r(i,0)=c0(i,0); for(int j=0;j<C.cols();++j) r(i,0)+=C(i,j)*x[j]; } return r; }
};
// affine function whose constant part is symbolic, with fixed slopes
inline Affine affine(Ctx & c,const std::string & n,int in,int out,bool slope=true)
{
    Affine f(in,out);
    for(int i=0;i<out;++i){ f.c0(i,0)=c.in(S(n,i),0.7+0.2*i,-3,3); for(int j=0;j<in;++j) f.C(i,j)= slope? R((1+i+2*j)%4)/R(4)-rat(1,8): R(0); }
    if(slope) f.C(out-1,0)=c.in(n+"s",0.3,-1,1);
    return f;
}
inline void unitNormal(const Loc & l,R * n){ cross3(l.a1,l.a2,n); R s=sqrt(dot3(n,n)); for(int i=0;i<3;++i) n[i]=n[i]/s; }
inline R len3(const R * a){ return sqrt(dot3(a,a)); }
// parameter point, fixed direction and length measure of a side 1..4 (west east south north) at its middle
struct SidePt
{
    R x,y; int s;
    SidePt(int side):x(rat(1,2)),y(rat(1,2)),s(side){ if(side==1) x=R(0); if(side==2) x=R(1); if(side==3) y=R(0); if(side==4) y=R(1); }
    const R * tang(const Loc & l) const { return s<=2? l.a2: l.a1; }
    // outward conormal of the surface (unit, tangent to the surface, normal to the side)
    void conormal(const Loc & l,R * v) const
    {
        R n[3]; unitNormal(l,n); const R * t=tang(l); R c[3]; cross3(t,n,c); R q=len3(c);
        bool flip= s==1||s==4; // t x n points outward for east and south
        for(int i=0;i<3;++i) v[i]= flip? -c[i]/q: c[i]/q;
    }
};
