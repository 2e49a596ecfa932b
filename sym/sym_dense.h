// Contracts of three Eigen routines for the symbolic scalar (Eigen is outside /repo; with exact real
// arithmetic the result is fixed by the contract, and the closed forms avoid pivoting branches and
// iterations):  inverse() and determinant() of small dynamic matrices by cofactors, and the
// symmetric eigenproblem of 2x2 matrices and of 3x3 matrices with a null row, in closed form.
#pragma once
namespace gsEigen { namespace internal {
template<class S> struct vs_isSym { static const bool v=false; };
template<> struct vs_isSym<vsym::Sym> { static const bool v=true; };

template<class M> typename M::Scalar vs_minor(const M & m,int r0,int r1,int c0,int c1){ return m.coeff(r0,c0)*m.coeff(r1,c1)-m.coeff(r0,c1)*m.coeff(r1,c0); }
template<class M> typename M::Scalar vs_det(const M & m)
{
    int n=m.rows(); if(n==1) return m.coeff(0,0); if(n==2) return vs_minor(m,0,1,0,1);
    return m.coeff(0,0)*vs_minor(m,1,2,1,2)-m.coeff(0,1)*vs_minor(m,1,2,0,2)+m.coeff(0,2)*vs_minor(m,1,2,0,1);
}
template<typename MatrixType, typename ResultType>
struct compute_inverse<MatrixType,ResultType,-1>
{
    template<class M,class Rs> static void go(const M & m,Rs & r,typename std::enable_if<vs_isSym<typename M::Scalar>::v>::type* =0)
    {
        typedef typename M::Scalar Sc; int n=m.rows(); if(n>3){ r=m.partialPivLu().inverse(); return; }
        Matrix<Sc,-1,-1> a=m; Matrix<Sc,-1,-1> b(n,n); Sc d=vs_det(a);
        if(n==1) b(0,0)=Sc(1)/d;
        else if(n==2){ b(0,0)=a(1,1)/d; b(1,1)=a(0,0)/d; b(0,1)=-a(0,1)/d; b(1,0)=-a(1,0)/d; }
        else for(int i=0;i<3;++i) for(int j=0;j<3;++j){ int r0=(j+1)%3,r1=(j+2)%3,c0=(i+1)%3,c1=(i+2)%3; b(i,j)=vs_minor(a,r0,r1,c0,c1)/d; }
        r=b;
    }
    template<class M,class Rs> static void go(const M & m,Rs & r,typename std::enable_if<!vs_isSym<typename M::Scalar>::v>::type* =0){ r=m.partialPivLu().inverse(); }
    static void run(const MatrixType & m,ResultType & r){ go(m,r); }
};
template<typename Derived> struct determinant_impl<Derived,-1>
{
    template<class M> static typename M::Scalar go(const M & m,typename std::enable_if<vs_isSym<typename M::Scalar>::v>::type* =0)
    { if(m.rows()==0) return typename M::Scalar(1); if(m.rows()>3) return m.partialPivLu().determinant(); return vs_det(m); }
    template<class M> static typename M::Scalar go(const M & m,typename std::enable_if<!vs_isSym<typename M::Scalar>::v>::type* =0)
    { return m.partialPivLu().determinant(); }
    static typename traits<Derived>::Scalar run(const Derived & m){ return go(m); }
};
}
template<> class SelfAdjointEigenSolver<Matrix<vsym::Sym,-1,-1> >
{
public:
    typedef vsym::Sym Sc; typedef Matrix<Sc,-1,-1> M; typedef Matrix<Sc,-1,1> V; typedef M MatrixType; typedef V RealVectorType;
    M vec; V val;
    SelfAdjointEigenSolver(){}
    template<class D> explicit SelfAdjointEigenSolver(const EigenBase<D> & m,int o=ComputeEigenvectors){ compute(m,o); }
    const M & eigenvectors() const { return vec; }
    const V & eigenvalues() const { return val; }
    ComputationInfo info() const { return Success; }
    template<class D> SelfAdjointEigenSolver & computeDirect(const EigenBase<D> & m,int o=ComputeEigenvectors){ return compute(m,o); }
    static bool zero(const Sc & x){ return x.id==0; }
    template<class D> SelfAdjointEigenSolver & compute(const EigenBase<D> & m_,int=ComputeEigenvectors)
    {
        M m=m_.derived(); int n=m.rows();
        // the solver reads the lower triangle only
        for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) m(i,j)=m(j,i);
        vec=M::Zero(n,n); val=V::Zero(n);
        if(n==1){ val(0)=m(0,0); vec(0,0)=Sc(1); return *this; }
        int nul=-1; if(n==3){ for(int k=2;k>=0&&nul<0;--k) if(zero(m(k,0))&&zero(m(k,1))&&zero(m(k,2))) nul=k; if(nul<0) for(int k=2;k>=0&&nul<0;--k) if(zero(m(k,(k+1)%3))&&zero(m(k,(k+2)%3))) nul=k; }
        if(n>3||(n==3&&nul<0)) throw vsym::unsupported("eigenproblem of a full 3x3 matrix");
        int ix[2]={0,1}; if(n==3){ ix[0]=(nul+1)%3; ix[1]=(nul+2)%3; if(ix[0]>ix[1]) std::swap(ix[0],ix[1]); }
        Sc a=m(ix[0],ix[0]),c=m(ix[1],ix[1]),b=m(ix[0],ix[1]);
        Sc l[3]; Sc w[2][2];
        if(zero(b))
        {
            if(a<=c){ l[0]=a;l[1]=c; w[0][0]=Sc(1);w[0][1]=Sc(0);w[1][0]=Sc(0);w[1][1]=Sc(1); }
            else { l[0]=c;l[1]=a; w[0][0]=Sc(0);w[0][1]=Sc(1);w[1][0]=Sc(1);w[1][1]=Sc(0); }
        }
        else
        {
            Sc h=(a-c)/Sc(2),disc=h*h+b*b;
            if(disc<=Sc(0)){ l[0]=a;l[1]=c; w[0][0]=Sc(1);w[0][1]=Sc(0);w[1][0]=Sc(0);w[1][1]=Sc(1); }
            else
            {
                Sc s=vsym::sqrt(disc),mid=(a+c)/Sc(2); l[0]=mid-s; l[1]=mid+s;
                // eigenvector of l[1]
                Sc x,y; if(h>=Sc(0)){ x=s+h; y=b; } else { x=b; y=s-h; }
                Sc nn=vsym::sqrt(x*x+y*y); w[1][0]=x/nn; w[1][1]=y/nn; w[0][0]=-w[1][1]; w[0][1]=w[1][0];
            }
        }
        if(n==2){ for(int k=0;k<2;++k){ val(k)=l[k]; for(int i=0;i<2;++i) vec(i,k)=w[k][i]; } return *this; }
        // insert the isolated eigenpair
        Sc z=m(nul,nul); int pos=0; if(!(z<=l[0])) pos= z<=l[1]? 1: 2;
        int k2=0; for(int k=0;k<3;++k)
        { if(k==pos){ val(k)=z; vec(nul,k)=Sc(1); } else { val(k)=l[k2]; for(int i=0;i<2;++i) vec(ix[i],k)=w[k2][i]; ++k2; } }
        return *this;
    }
};
}
