#pragma once
#include "sym.h"
namespace gsEigen {
template<> struct NumTraits<vsym::Sym> : GenericNumTraits<vsym::Sym>
{
    enum { IsInteger=0, IsSigned=1, IsComplex=0, RequireInitialization=1, ReadCost=1, AddCost=3, MulCost=3 };
    typedef vsym::Sym Real; typedef vsym::Sym NonInteger; typedef vsym::Sym Nested; typedef vsym::Sym Literal;
    static inline Real Pi(){ return Real(static_cast<double>(EIGEN_PI)); }
    static inline Real epsilon(){ return Real(std::numeric_limits<double>::epsilon()); }
    static inline Real epsilon(const Real&){ return epsilon(); }
    static inline Real dummy_precision(){ return Real(1e-12); }
    static inline Real highest(){ return Real(std::numeric_limits<double>::max()); }
    static inline Real lowest(){ return Real(-std::numeric_limits<double>::max()); }
    static inline int digits10(){ return 15; }
};
namespace internal {
template<> inline vsym::Sym random<vsym::Sym>(){ return vsym::Sym((double)std::rand()/RAND_MAX); }
template<> inline vsym::Sym random<vsym::Sym>(const vsym::Sym & a,const vsym::Sym & b){ return a+(b-a)*random<vsym::Sym>(); }
template<> inline double cast<vsym::Sym,double>(const vsym::Sym & x){ return static_cast<double>(x); }
template<> inline int cast<vsym::Sym,int>(const vsym::Sym & x){ return static_cast<int>(x); }
template<> inline long cast<vsym::Sym,long>(const vsym::Sym & x){ return static_cast<long>(x); }
template<> inline unsigned cast<vsym::Sym,unsigned>(const vsym::Sym & x){ return static_cast<unsigned>(x); }
}
}
