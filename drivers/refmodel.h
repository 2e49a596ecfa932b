// Reference shell model at one integration point: variations of the strains, internal force and stiffness.
#pragma once
#include "shell.h"
#include <gsKLShell/src/gsMaterialMatrixIntegrate.h>
struct Ref
{
    const int d; const bool bend; int n; std::vector<R> b,d1,d2,d11,d12,d22; Loc o,f; R wm; R N[3],M[3]; Mat A,B,C,D;
    R c[3],L,nn[3];
    std::vector<std::vector<R> > em,ef; std::vector<std::vector<R> > dc,dn; // per dof m*d+k
    Ref(int d_,bool bend_):d(d_),bend(bend_),n(0),A(3,3),B(3,3),C(3,3),D(3,3){ A.setZero();B.setZero();C.setZero();D.setZero(); for(int a=0;a<3;++a) N[a]=M[a]=R(0); }
    void setBern(const Bern & q){ n=9; b.assign(q.b,q.b+9); d1.assign(q.d1,q.d1+9); d2.assign(q.d2,q.d2+9); d11.assign(q.d11,q.d11+9); d12.assign(q.d12,q.d12+9); d22.assign(q.d22,q.d22+9); }
    // values of a whole basis at a point (second derivatives in the order 11,22,12)
    void setBasis(const gsBasis<R> & bs,const Mat & u)
    {
        n=bs.size(); gsMatrix<index_t> act=bs.active(u); Mat v=bs.eval(u),g=bs.deriv(u),h=bs.deriv2(u); std::vector<R> z(n,R(0)); b=d1=d2=d11=d12=d22=z;
        for(int i=0;i<act.rows();++i){ int m=act(i,0); b[m]=v(i,0); d1[m]=g(2*i,0); d2[m]=g(2*i+1,0); d11[m]=h(3*i,0); d22[m]=h(3*i+1,0); d12[m]=h(3*i+2,0); }
    }
    Loc at(const Mat & K) const { Loc l; for(int m=0;m<n;++m) for(int k=0;k<d;++k){ l.x[k]+=b[m]*K(m,k); l.a1[k]+=d1[m]*K(m,k); l.a2[k]+=d2[m]*K(m,k); l.a11[k]+=d11[m]*K(m,k); l.a12[k]+=d12[m]*K(m,k); l.a22[k]+=d22[m]*K(m,k); } return l; }
    void geometry(const Mat & Ko,const Mat & Kd,const R & w){ o=at(Ko); f=at(Kd); wm=w*measOf(o); variations(); }
    void linear(const R & E,const R & nu,const R & t)
    {
        Kin ko(o,R(0),d),kf(f,R(0),d); R e[3],k[3]; strains(ko,kf,e,k); Mat X=svkMat(E,nu,ko.Ac);
        for(int a=0;a<3;++a){ N[a]=M[a]=R(0); for(int q=0;q<3;++q){ N[a]+=t*X(a,q)*e[q]; if(bend) M[a]+=t*t*t/12*X(a,q)*k[q]; A(a,q)=t*X(a,q); D(a,q)= bend? t*t*t/12*X(a,q): R(0); } }
    }
    // resultants of given membrane, coupling and bending stiffness
    void resultants(const Mat & a_,const Mat & b_,const Mat & d_)
    {
        Kin ko(o,R(0),d),kf(f,R(0),d); R e[3],k[3]; strains(ko,kf,e,k); A=a_; if(bend){ B=C=b_; D=d_; }
        for(int a=0;a<3;++a){ N[a]=M[a]=R(0); for(int q=0;q<3;++q){ N[a]+=A(a,q)*e[q]; if(bend){ N[a]+=B(a,q)*k[q]; M[a]+=B(a,q)*e[q]+D(a,q)*k[q]; } } }
    }
    static R sgn(int a){ return a==2? R(2): R(1); }
    void variations()
    {
        cross3(f.a1,f.a2,c); L=sqrt(dot3(c,c)); for(int i=0;i<3;++i) nn[i]=c[i]/L;
        em.assign(n*d,std::vector<R>(3)); ef=em; dc=em; dn=em; const R * h[3]={f.a11,f.a22,f.a12};
        for(int m=0;m<n;++m) for(int k=0;k<d;++k)
        {
            int i=m*d+k; em[i][0]=f.a1[k]*d1[m]; em[i][1]=f.a2[k]*d2[m]; em[i][2]=f.a1[k]*d2[m]+f.a2[k]*d1[m];
            if(!bend) continue;
            R e[3]={R(0),R(0),R(0)}; e[k]=R(1); R p[3],q[3]; cross3(e,f.a2,p); cross3(f.a1,e,q); for(int r=0;r<3;++r) dc[i][r]=d1[m]*p[r]+d2[m]*q[r];
            R s=dot3(nn,&dc[i][0]); for(int r=0;r<3;++r) dn[i][r]=(dc[i][r]-nn[r]*s)/L;
            R hh[3]={d11[m],d22[m],d12[m]}; for(int a=0;a<3;++a) ef[i][a]=-sgn(a)*(hh[a]*nn[k]+dot3(h[a],&dn[i][0]));
        }
    }
    R force(int i) const { R s(0); for(int a=0;a<3;++a) s+=N[a]*em[i][a]+(bend? M[a]*ef[i][a]: R(0)); return s*wm; }
    R stiff(int i,int j) const
    {
        int m=i/d,k=i%d,p=j/d,l=j%d; R s(0);
        for(int a=0;a<3;++a) for(int q=0;q<3;++q){ s+=em[i][a]*A(a,q)*em[j][q]; if(bend) s+=ef[i][a]*B(a,q)*em[j][q]+em[i][a]*C(a,q)*ef[j][q]+ef[i][a]*D(a,q)*ef[j][q]; }
        if(k==l){ s+=N[0]*d1[m]*d1[p]+N[1]*d2[m]*d2[p]+N[2]*(d1[m]*d2[p]+d2[m]*d1[p]); }
        if(bend)
        {
            R e[3]={R(0),R(0),R(0)},g[3]={R(0),R(0),R(0)}; e[k]=R(1); g[l]=R(1); R x[3]; cross3(e,g,x); R c2[3]; for(int r=0;r<3;++r) c2[r]=x[r]*(d1[m]*d2[p]-d2[m]*d1[p]);
            R ni=dot3(nn,&dc[i][0]),nj=dot3(nn,&dc[j][0]),n2=dot3(nn,c2),y=dot3(&dn[j][0],&dc[i][0]); R w[3];
            for(int r=0;r<3;++r) w[r]=(c2[r]-dn[j][r]*ni-nn[r]*y-nn[r]*n2-dn[i][r]*nj)/L;
            R hm[3]={d11[m],d22[m],d12[m]},hp[3]={d11[p],d22[p],d12[p]}; const R * h[3]={f.a11,f.a22,f.a12};
            for(int a=0;a<3;++a) s-=M[a]*sgn(a)*(hm[a]*dn[j][k]+hp[a]*dn[i][l]+dot3(h[a],w));
        }
        return s*wm;
    }
};
template<MaterialOutput out> Mat integrated(gsMaterialMatrixBase<R> * m,const gsFunctionSet<R> & o,const gsFunctionSet<R> & f,const Mat & u,int patch=0)
{ gsMaterialMatrixContainer<R> mc(o.nPieces()); for(int p=0;p<o.nPieces();++p) mc.set(p,m); gsMaterialMatrixIntegrate<R,out> I(mc,&o,&f); Mat r; I.piece(patch).eval_into(u,r); return r; }
