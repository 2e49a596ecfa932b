// Helpers shared by the drivers: geometries with prescribed local derivatives and reference kinematics.
#pragma once
#include <gismo.h>
#include <gsKLShell/src/gsMaterialMatrixXml.h>
#include "check.h"
using namespace gismo;
using vchk::Ctx;
typedef vchk::R R;
typedef gsMatrix<R> Mat;
inline R num(double d){ return R(d); }
inline R rat(int a,int b){ return R(a)/R(b); }

inline std::string S(const std::string & a,int i){ std::ostringstream s; s<<a<<i; return s.str(); }
inline std::string S2(const std::string & a,int i,int j){ std::ostringstream s; s<<a<<i<<"_"<<j; return s.str(); }

// local second-order description of a surface
struct Loc
{
    R x[3],a1[3],a2[3],a11[3],a12[3],a22[3];
    Loc(){ for(int i=0;i<3;++i) x[i]=a1[i]=a2[i]=a11[i]=a12[i]=a22[i]=R(0); }
};
inline R dot3(const R * a,const R * b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline void cross3(const R * a,const R * b,R * c){ c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }

// bi-quadratic Bezier patch whose derivatives at parameter (0,0) are those of l
inline gsTensorBSpline<2,R> patchOf(const Loc & l,int d)
{
    gsKnotVector<R> kv(0,1,0,3); gsTensorBSplineBasis<2,R> b(kv,kv);
    Mat K(9,d); K.setZero();
    for(int i=0;i<d;++i)
    {
        R p00=l.x[i],p10=p00+l.a1[i]/2,p01=p00+l.a2[i]/2;
        R p20=l.a11[i]/2+2*p10-p00,p02=l.a22[i]/2+2*p01-p00,p11=l.a12[i]/4+p10+p01-p00;
        K(0,i)=p00;K(1,i)=p10;K(2,i)=p20;K(3,i)=p01;K(4,i)=p11;K(6,i)=p02;
        K(5,i)=p20+p01-p00; K(7,i)=p10+p02-p00; K(8,i)=p20+p02-p00;
    }
    return gsTensorBSpline<2,R>(b,K);
}
// bilinear patch x0 + u a1 + v a2 (+ uv a12)
inline gsTensorBSpline<2,R> bilinear(const Loc & l,int d)
{
    gsKnotVector<R> kv(0,1,0,2); gsTensorBSplineBasis<2,R> b(kv,kv);
    Mat K(4,d); for(int i=0;i<d;++i){ K(0,i)=l.x[i]; K(1,i)=l.x[i]+l.a1[i]; K(2,i)=l.x[i]+l.a2[i]; K(3,i)=l.x[i]+l.a1[i]+l.a2[i]+l.a12[i]; }
    return gsTensorBSpline<2,R>(b,K);
}

// reference kinematics at height h above the mid-surface: metric, basis, second fundamental form
struct Kin
{
    R A[2][2],Ac[2][2],B[2][2],G[2][2],Gc[2][2],n[3],g[2][3],gc[2][3],dn[2][3];
    Kin(const Loc & l,const R & h,int d)
    {
        const R * a[2]={l.a1,l.a2}; const R * aa[2][2]={{l.a11,l.a12},{l.a12,l.a22}};
        R c[3]; cross3(l.a1,l.a2,c); R len=sqrt(dot3(c,c)); for(int i=0;i<3;++i) n[i]=c[i]/len;
        if(d==2){ n[0]=n[1]=R(0); n[2]=R(1); }
        for(int i=0;i<2;++i) for(int j=0;j<2;++j){ A[i][j]=dot3(a[i],a[j]); B[i][j]= d==2? R(0): dot3(aa[i][j],n); }
        inv(A,Ac);
        for(int i=0;i<2;++i) for(int k=0;k<3;++k){ dn[i][k]=R(0); for(int p=0;p<2;++p) for(int q=0;q<2;++q) dn[i][k]-=B[i][p]*Ac[p][q]*a[q][k]; g[i][k]=a[i][k]+h*dn[i][k]; }
        for(int i=0;i<2;++i) for(int j=0;j<2;++j) G[i][j]=dot3(g[i],g[j]);
        inv(G,Gc);
        for(int i=0;i<2;++i) for(int k=0;k<3;++k) gc[i][k]=Gc[i][0]*g[0][k]+Gc[i][1]*g[1][k];
    }
    static void inv(R a[2][2],R b[2][2]){ R d=a[0][0]*a[1][1]-a[0][1]*a[1][0]; b[0][0]=a[1][1]/d;b[1][1]=a[0][0]/d;b[0][1]=-a[0][1]/d;b[1][0]=-a[1][0]/d; }
};

// undeformed / deformed local geometry with tangents in the xy-plane (general up to a rigid rotation)
inline Loc planar(Ctx & c,const std::string & s,double p,double q,double r)
{ Loc l; l.a1[0]=c.in("p"+s,p,0.5,2); l.a2[0]=c.in("q"+s,q,-1,1); l.a2[1]=c.in("r"+s,r,0.5,2); return l; }
inline void curved(Ctx & c,Loc & l,const std::string & s,double k11,double k12,double k22)
{ l.a11[2]=c.in("k11"+s,k11,-1,1); l.a12[2]=c.in("k12"+s,k12,-1,1); l.a22[2]=c.in("k22"+s,k22,-1,1); }
inline gsMultiPatch<R> mpOf(const Loc & l,int d){ gsMultiPatch<R> m; m.addPatch(patchOf(l,d)); return m; }
inline Mat pt(double a,double b){ Mat u(2,1); u<<R(a),R(b); return u; }
inline Mat sc(const R & z){ Mat m(1,1); m(0,0)=z; return m; }
inline Mat col(const Mat & m,int k){ return m.col(k); }
inline Mat as33(const Mat & m,int k){ Mat r(3,3); for(int j=0;j<3;++j) for(int i=0;i<3;++i) r(i,j)=m(i+3*j,k); return r; }
// arguments of absolute values compared with a bound on the current path (convergence tests), latest first
inline std::vector<R> pathAbsArgs()
{
    std::vector<R> v;
#ifdef VSYM
    const std::vector<vsym::Cond> & p=vsym::A().path;
    for(size_t i=p.size();i-->0;)
    {
        std::vector<int> st(1,p[i].a);
        for(size_t k=0;k<st.size()&&k<32;++k)
        {
            const vsym::Node & n=vsym::A().n[st[k]];
            if(n.op==vsym::ABS) v.push_back(R(vsym::Sym::raw(),n.a));
            else if(n.op==vsym::ADD||n.op==vsym::SUB){ st.push_back(n.a); st.push_back(n.b); }
            else if(n.op==vsym::NEG) st.push_back(n.a);
        }
    }
#endif
    return v;
}
