// Driver interface shared by the symbolic build (VSYM) and the replay build (plain double).
#pragma once
#include <chrono>
#include <functional>
#include <fstream>
#include <memory>
#include <cmath>
#include <gmpxx.h>
#ifdef VSYM
#include "sym.h"
#else
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#endif

namespace vchk {
#ifdef VSYM
typedef vsym::Sym R;
#else
typedef double R;
#endif
using std::string;

inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline string esc(const string & s){ string r; for(char c: s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }

struct Input { string name; mpq_class val,lo,hi; R sym; };
struct Obl { string name; R l,r; int kind; /*0 eq, 1 l<=r, 2 l<r*/ std::vector<int> prem; bool tol; };

class Ctx
{
public:
    std::map<string,mpq_class> given;            // values chosen by the explorer
    std::vector<Input> inputs;
    std::map<string,R> outs;
    std::vector<Obl> obls;
    bool collect;                                // replay: only collect outputs (finite differences)
    std::function<void(Ctx&)> body;
    std::map<string,std::pair<std::map<string,R>,std::map<string,R> > > fd; // var -> outputs at x+h, x-h
    std::map<string,double> fdh;
#ifdef VSYM
    std::vector<vsym::Sym> cutv; std::map<string,vsym::Sym> cutByName;
    std::vector<std::pair<int,int> > assumptions; // (op,node): node op 0
#endif
    std::map<string,R> cutDeps;
    Ctx(): collect(false) {}

    // a symbolic input with its default (witness) value and the bounds of the claim
    R in(const string & name,const mpq_class & def,const mpq_class & lo,const mpq_class & hi)
    {
        for(size_t i=0;i<inputs.size();++i) if(inputs[i].name==name) return inputs[i].sym;
        Input x; x.name=name; x.lo=lo;x.hi=hi; x.val= given.count(name)? given[name]: def;
#ifdef VSYM
        x.sym=vsym::Sym(vsym::Sym::raw(),vsym::A().mkVar(name,vsym::Arena::toF(x.val)));
#else
        x.sym=x.val.get_d();
#endif
        inputs.push_back(x); return x.sym;
    }
    R in(const string & name,const char * def,const char * lo,const char * hi)
    { mpq_class a(def),b(lo),c(hi); a.canonicalize();b.canonicalize();c.canonicalize(); return in(name,a,b,c); }
    R in(const string & name,double def,double lo,double hi)
    { return in(name,q(def),q(lo),q(hi)); }
    static mpq_class q(double d)
    { // decimal literal -> rational
        std::ostringstream s; s.precision(12); s<<d; string t=s.str(); size_t e=t.find('e'); if(e!=string::npos) return mpq_class(d);
        size_t p=t.find('.'); if(p==string::npos) return mpq_class(t); string den="1"+string(t.size()-p-1,'0'); t.erase(p,1); mpq_class r(t+"/"+den,10); r.canonicalize(); return r; }
    void out(const string & n,const R & v){ outs[n]=v; }
    template<class M> void outm(const string & n,const M & m){ for(int i=0;i<m.rows();++i) for(int j=0;j<m.cols();++j){ std::ostringstream s; s<<n<<"("<<i<<","<<j<<")"; outs[s.str()]=m(i,j);} }
    static string ix(const string & n,int i,int j){ std::ostringstream s; s<<n<<"("<<i<<","<<j<<")"; return s.str(); }

    // derivative of a registered output with respect to an input
    R D(const string & o,const string & var)
    {
#ifdef VSYM
        return Dn(outs.at(o),var);
#else
        if(collect) return 0;
        if(!fd.count(var))
        {
            double x0=0; for(size_t i=0;i<inputs.size();++i) if(inputs[i].name==var) x0=inputs[i].val.get_d();
            double h=1e-5*std::max(1.0,std::fabs(x0));
            for(int s=0;s<2;++s)
            {
                Ctx c; c.collect=true; c.given=given; for(size_t i=0;i<inputs.size();++i) c.given[inputs[i].name]=inputs[i].val;
                c.given[var]=mpq_class(x0+(s==0?h:-h)); c.body=body; body(c);
                (s==0? fd[var].first: fd[var].second)=c.outs;
            }
            fdh[var]=h;
        }
        return (fd[var].first.at(o)-fd[var].second.at(o))/(2*fdh[var]);
#endif
    }
#ifdef VSYM
    std::map<string,std::shared_ptr<vsym::Diff> > diffs; 
    R Dn(const R & v,const string & var)
    {
        if(!diffs.count(var)){ R x; bool ok=false; for(size_t i=0;i<inputs.size();++i) if(inputs[i].name==var){ x=inputs[i].sym; ok=true; } if(cutByName.count(var)){ x=cutByName[var]; ok=true; } if(!ok) throw std::runtime_error("D: unknown variable "+var); diffs[var].reset(new vsym::Diff(x,cutSet())); }
        return diffs[var]->d(v.id);
    }
    std::set<int> cutSet() const { std::set<int> s; for(size_t i=0;i<cutv.size();++i) s.insert(cutv[i].id); return s; }
#endif
    void eq(const string & n,const R & a,const R & b){ add(n,a,b,0); }
    void le(const string & n,const R & a,const R & b){ add(n,a,b,1); }
    void lt(const string & n,const R & a,const R & b){ add(n,a,b,2); }
    template<class M1,class M2> void eqm(const string & n,const M1 & a,const M2 & b)
    {
        if(a.rows()!=b.rows()||a.cols()!=b.cols()){ std::ostringstream s; s<<n<<".shape got "<<a.rows()<<"x"<<a.cols()<<" expected "<<b.rows()<<"x"<<b.cols(); eq(s.str(),R(0),R(1)); return; }
        for(int i=0;i<a.rows();++i) for(int j=0;j<a.cols();++j) eq(ix(n,i,j),a(i,j),b(i,j));
    }
    void add(const string & n,const R & a,const R & b,int k){ if(collect) return; Obl o; o.name=n;o.l=a;o.r=b;o.kind=k;o.tol=false; obls.push_back(o); }
    // premise of all obligations: a >= 0 / a > 0
    void assumeGe(const R & a)
    {
#ifdef VSYM
        if(a.isConst()){ if(a.cval()<0) throw std::runtime_error("assumption violated by constant"); return; }
        assumptions.push_back(std::make_pair(1,(-a).id));
#endif
    }
    void assumeGt(const R & a)
    {
#ifdef VSYM
        if(a.isConst()){ if(a.cval()<=0) throw std::runtime_error("assumption violated by constant"); return; }
        assumptions.push_back(std::make_pair(0,(-a).id));
#endif
    }
    // generalise: from here on the term v counts as a free variable (its construction is forgotten)
    void cut(const string & name,const R & v)
    {
#ifdef VSYM
        if(v.isConst()) return; cutv.push_back(v); cutByName[name]=v; diffs.clear();
#endif
    }
};

typedef void (*CaseFn)(Ctx&);
struct Reg { static std::map<string,CaseFn> & m(){ static std::map<string,CaseFn> x; return x; } Reg(const char * n,CaseFn f){ m()[n]=f; } };
#define VCASE(name) static void vcase_##name(vchk::Ctx & c); static vchk::Reg vreg_##name(#name,vcase_##name); static void vcase_##name(vchk::Ctx & c)
#define VCASEF(name,...) static vchk::Reg vreg_##name(#name,[](vchk::Ctx & c){ __VA_ARGS__; });

} // namespace vchk
