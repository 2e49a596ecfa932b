// Contract of Eigen's conjugate gradient solver for the symbolic scalar: the exact solution, by elimination.
#pragma once
namespace gsEigen {
template<> template<typename Rhs,typename Dest>
void ConjugateGradient<SparseMatrix<vsym::Sym,0,int>,Lower|Upper,DiagonalPreconditioner<vsym::Sym> >::_solve_vector_with_guess_impl(const Rhs & b,Dest & x) const
{
    typedef vsym::Sym Sc; const int n=b.rows(); Matrix<Sc,-1,-1> A(n,n+1);
    for(int i=0;i<n;++i){ for(int j=0;j<n;++j) A(i,j)=Sc(0); A(i,n)=b(i); }
    for(int k=0;k<n;++k) for(typename ActualMatrixType::InnerIterator it(matrix(),k);it;++it) A(it.row(),it.col())=it.value();
    for(int k=0;k<n;++k)
    {
        if(A(k,k).id==0) continue;
        for(int i=k+1;i<n;++i) if(A(i,k).id!=0){ Sc f=A(i,k)/A(k,k); A(i,k)=Sc(0); for(int j=k+1;j<=n;++j) if(A(k,j).id!=0) A(i,j)-=f*A(k,j); }
    }
    for(int k=n-1;k>=0;--k)
    {
        if(A(k,k).id==0){ x(k)=Sc(0); continue; }
        Sc s=A(k,n); for(int j=k+1;j<n;++j) if(A(k,j).id!=0) s-=A(k,j)*x(j); x(k)=s/A(k,k);
    }
    m_iterations=n; m_error=Sc(0); m_info=Success;
}
}
