// Symbolic scalar type.  Instantiating the templates of /repo with this type executes the
// real source code symbolically: every arithmetic operation builds a node of a hash-consed
// term graph, every comparison of non-constant terms appends an entry to the path condition.
// Each node carries a 113-bit "shadow" value, the value at a concrete witness of the path, so
// that every explored path is feasible by construction; the flipped branches are handed to
// the solver by the (python) explorer.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <complex>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
extern "C" {   // libquadmath
__float128 fabsq(__float128); __float128 sqrtq(__float128); __float128 cbrtq(__float128); __float128 powq(__float128,__float128);
__float128 logq(__float128); __float128 expq(__float128); __float128 sinq(__float128); __float128 cosq(__float128);
__float128 atan2q(__float128,__float128); __float128 floorq(__float128);
}

namespace vsym {

typedef __float128 F;

enum Op { CONST=0, VAR, ADD, SUB, MUL, DIV, NEG, ROOT, ABS, MAXO, MINO, LOG, EXP, SIN, COS, ATAN2 };
static const char * const opName[] = {"const","var","add","sub","mul","div","neg","root","abs","max","min","log","exp","sin","cos","atan2"};

struct Node { int op; int a; int b; F sh; };
struct Cond { int op; int a; bool taken; int kind; std::string tag;};  // op: 0 a<0, 1 a<=0, 2 a==0 ; kind 0 branch, 1 assumption

struct unsupported : std::runtime_error { unsupported(const std::string & s): std::runtime_error("symbolic: unsupported "+s){} };

struct Arena
{
    std::vector<Node> n;
    std::vector<mpq_class> consts;
    std::vector<std::string> names;
    std::map<std::string,int> constIdx;
    std::unordered_map<uint64_t,std::vector<int> > cons;
    std::vector<Cond> path;
    std::set<std::pair<int,int> > seenCond;
    std::vector<std::string> notes;
    long branches;
    Arena(): branches(0) { mkConst(mpq_class(0)); mkConst(mpq_class(1)); }

    static F toF(const mpq_class & q)
    {
        // numerator/denominator to quad precision
        mpf_class f(q,160);
        long e; double d=0; F r=0; F s=1;
        mpf_class x=f;
        for(int i=0;i<3;i++){ d=x.get_d(); r+= (F)d; x-=d; (void)e;(void)s; }
        return r;
    }
    int mkConst(const mpq_class & q)
    {
        std::string k=q.get_str(62);
        std::map<std::string,int>::iterator it=constIdx.find(k);
        if (it!=constIdx.end()) return it->second;
        Node x; x.op=CONST; x.a=(int)consts.size(); x.b=0; x.sh=toF(q);
        consts.push_back(q);
        n.push_back(x);
        constIdx[k]=(int)n.size()-1;
        return (int)n.size()-1;
    }
    int mk(int op,int a,int b,F sh)
    {
        uint64_t h=((uint64_t)op<<58) ^ ((uint64_t)(unsigned)a*0x9E3779B97F4A7C15ull) ^ ((uint64_t)(unsigned)b*0xC2B2AE3D27D4EB4Full);
        std::vector<int> & v=cons[h];
        for(size_t i=0;i<v.size();++i){ const Node & m=n[v[i]]; if (m.op==op&&m.a==a&&m.b==b) return v[i]; }
        Node x; x.op=op;x.a=a;x.b=b;x.sh=sh;
        n.push_back(x); v.push_back((int)n.size()-1);
        return (int)n.size()-1;
    }
    int mkVar(const std::string & nm, F sh)
    {
        for (size_t i=0;i<names.size();++i) if (names[i]==nm) return mk(VAR,(int)i,0,sh);
        names.push_back(nm);
        return mk(VAR,(int)names.size()-1,0,sh);
    }
    bool isC(int i) const { return n[i].op==CONST; }
    const mpq_class & cv(int i) const { return consts[n[i].a]; }
};
inline Arena & A() { static Arena * a=new Arena; return *a; }

// simplest rational within 2^-50 relative of d with denominator at most 4096, else the exact value
inline mpq_class rationalise(double d)
{
    if (d==0) return mpq_class(0);
    if (!std::isfinite(d)) throw unsupported("non-finite literal");
    double ad=std::fabs(d);
    mpq_class ex(ad);
    if (ex.get_den()<=4096 || ad>1e9 || ad<1e-9) return mpq_class(d);
    mpz_class p0=0,q0=1,p1=1,q1=0; mpq_class x=ex;
    mpq_class tol=ex/mpq_class(mpz_class(1)<<50);
    for(int i=0;i<20;i++)
    {
        mpz_class fl=x.get_num()/x.get_den();
        mpz_class p2=fl*p1+p0,q2=fl*q1+q0;
        if (q2>4096) break;
        mpq_class r(p2,q2); r.canonicalize();
        mpq_class er=r-ex; if (er<0) er=-er;
        if (er<=tol) return d<0? mpq_class(-r):r;
        p0=p1;q0=q1;p1=p2;q1=q2;
        mpq_class fr=x-fl; if (fr==0) break; x=1/fr;
    }
    return mpq_class(d);
}

class Sym
{
public:
    int id;
    struct raw{};
    Sym(): id(0) {}
    Sym(raw,int i): id(i) {}
    Sym(int v): id(v==0?0: v==1?1: A().mkConst(mpq_class(v))) {}
    Sym(unsigned v): id(A().mkConst(mpq_class(v))) {}
    Sym(long v): id(A().mkConst(mpq_class(v))) {}
    Sym(unsigned long v): id(A().mkConst(mpq_class(v))) {}
    Sym(long long v): id(A().mkConst(mpq_class((long)v))) {}
    Sym(unsigned long long v): id(A().mkConst(mpq_class((unsigned long)v))) {}
    Sym(bool v): id(v?1:0) {}
    Sym(double v): id(A().mkConst(rationalise(v))) {}
    Sym(float v): id(A().mkConst(rationalise((double)v))) {}
    Sym(long double v): id(A().mkConst(rationalise((double)v))) {}
    Sym(const mpq_class & q): id(A().mkConst(q)) {}

    bool isConst() const { return A().isC(id); }
    const mpq_class & cval() const { return A().cv(id); }
    F sh() const { return A().n[id].sh; }

    // conversions of non-constant terms are concretisations; they are recorded
    double concretise(const char * what) const
    {
        if (!isConst()) A().notes.push_back(std::string("concretised:")+what);
        return (double)sh();
    }
    explicit operator double() const { return concretise("double"); }
    explicit operator float() const { return (float)concretise("float"); }
#ifdef VSYM_IMPLICIT_INT
    template<class I, class = typename std::enable_if<std::is_same<I,int>::value>::type>
    operator I() const { return (int)concretise("int"); }
#else
    explicit operator int() const { return (int)concretise("int"); }
#endif
    explicit operator unsigned() const { return (unsigned)concretise("unsigned"); }
    explicit operator long() const { return (long)concretise("long"); }
    explicit operator unsigned long() const { return (unsigned long)concretise("ulong"); }
    explicit operator bool() const;

    Sym & operator+=(const Sym & o);
    Sym & operator-=(const Sym & o);
    Sym & operator*=(const Sym & o);
    Sym & operator/=(const Sym & o);
    Sym operator-() const;
    Sym operator+() const { return *this; }
    Sym & operator++() { return *this+=Sym(1); }
    Sym & operator--() { return *this-=Sym(1); }
};

inline Sym mk(int op,int a,int b,F sh){ return Sym(Sym::raw(),A().mk(op,a,b,sh)); }

inline Sym operator+(const Sym & x,const Sym & y)
{
    Arena & g=A();
    if (x.id==0) return y; if (y.id==0) return x;
    bool cx=g.isC(x.id), cy=g.isC(y.id);
    if (cx&&cy) return Sym(mpq_class(g.cv(x.id)+g.cv(y.id)));
    int a=x.id,b=y.id; if (a>b) std::swap(a,b);
    return mk(ADD,a,b,x.sh()+y.sh());
}
inline Sym operator*(const Sym & x,const Sym & y)
{
    Arena & g=A();
    if (x.id==0||y.id==0) return Sym();
    if (x.id==1) return y; if (y.id==1) return x;
    bool cx=g.isC(x.id), cy=g.isC(y.id);
    if (cx&&cy) return Sym(mpq_class(g.cv(x.id)*g.cv(y.id)));
    if (x.id==y.id && g.n[x.id].op==ROOT && g.n[x.id].b==2) return Sym(Sym::raw(),g.n[x.id].a);
    int a=x.id,b=y.id; if (a>b) std::swap(a,b);
    return mk(MUL,a,b,x.sh()*y.sh());
}
inline Sym Sym::operator-() const
{
    Arena & g=A();
    if (id==0) return *this;
    if (g.isC(id)) return Sym(mpq_class(-g.cv(id)));
    if (g.n[id].op==NEG) return Sym(raw(),g.n[id].a);
    return mk(NEG,id,0,-sh());
}
inline Sym operator-(const Sym & x,const Sym & y)
{
    Arena & g=A();
    if (y.id==0) return x; if (x.id==0) return -y;
    if (x.id==y.id) return Sym();
    bool cx=g.isC(x.id), cy=g.isC(y.id);
    if (cx&&cy) return Sym(mpq_class(g.cv(x.id)-g.cv(y.id)));
    return mk(SUB,x.id,y.id,x.sh()-y.sh());
}
inline Sym operator/(const Sym & x,const Sym & y)
{
    Arena & g=A();
    if (y.id==0) throw unsupported("division by literal zero");
    if (x.id==0) return x;
    if (y.id==1) return x;
    if (g.isC(y.id)) { if (g.isC(x.id)) return Sym(mpq_class(g.cv(x.id)/g.cv(y.id))); return x*Sym(mpq_class(1/g.cv(y.id))); }
    if (x.id==y.id) return Sym(1);
    return mk(DIV,x.id,y.id,x.sh()/y.sh());
}
inline Sym & Sym::operator+=(const Sym & o){ return *this=*this+o; }
inline Sym & Sym::operator-=(const Sym & o){ return *this=*this-o; }
inline Sym & Sym::operator*=(const Sym & o){ return *this=*this*o; }
inline Sym & Sym::operator/=(const Sym & o){ return *this=*this/o; }

#define VSYM_ARITH_T(U) \
inline Sym operator+(const Sym&a,U b){return a+Sym(b);} inline Sym operator+(U a,const Sym&b){return Sym(a)+b;} \
inline Sym operator-(const Sym&a,U b){return a-Sym(b);} inline Sym operator-(U a,const Sym&b){return Sym(a)-b;} \
inline Sym operator*(const Sym&a,U b){return a*Sym(b);} inline Sym operator*(U a,const Sym&b){return Sym(a)*b;} \
inline Sym operator/(const Sym&a,U b){return a/Sym(b);} inline Sym operator/(U a,const Sym&b){return Sym(a)/b;}
VSYM_ARITH_T(int) VSYM_ARITH_T(unsigned) VSYM_ARITH_T(long) VSYM_ARITH_T(unsigned long) VSYM_ARITH_T(double) VSYM_ARITH_T(float) VSYM_ARITH_T(long double)

// --- comparisons -------------------------------------------------------------------------
// relative zero threshold of the shadow (see header): |sh| below this counts as exact zero
inline bool shZero(const Sym & a,const Sym & b,F d)
{
    F m=fabsq(a.sh())+fabsq(b.sh()); F e=fabsq(d);
    return e<=m*(F)1e-27 || e<(F)1e-300;
}
inline bool decide(int op,const Sym & a,const Sym & b) // op 0: a<b 1: a<=b 2: a==b
{
    Arena & g=A();
    if (a.id==b.id) return op!=0;
    if (g.isC(a.id)&&g.isC(b.id))
    {
        int c=cmp(g.cv(a.id),g.cv(b.id));
        return op==0? c<0 : op==1? c<=0 : c==0;
    }
    Sym d=a-b;
    F v=d.sh(); bool z=shZero(a,b,v);
    bool r= op==0? (!z&&v<0) : op==1? (z||v<0) : z;
    std::pair<int,int> key(d.id,op);
    if (g.seenCond.insert(key).second)
    {
        Cond c; c.op=op;c.a=d.id;c.taken=r;c.kind=0;
        g.path.push_back(c); ++g.branches;
    }
    return r;
}
inline bool operator<(const Sym & a,const Sym & b){ return decide(0,a,b); }
inline bool operator>(const Sym & a,const Sym & b){ return decide(0,b,a); }
inline bool operator<=(const Sym & a,const Sym & b){ return decide(1,a,b); }
inline bool operator>=(const Sym & a,const Sym & b){ return decide(1,b,a); }
inline bool operator==(const Sym & a,const Sym & b){ return decide(2,a,b); }
inline bool operator!=(const Sym & a,const Sym & b){ return !decide(2,a,b); }
inline Sym::operator bool() const { return *this!=Sym(); }
#define VSYM_CMP_T(U) \
inline bool operator<(const Sym&a,U b){return a<Sym(b);} inline bool operator<(U a,const Sym&b){return Sym(a)<b;} \
inline bool operator>(const Sym&a,U b){return a>Sym(b);} inline bool operator>(U a,const Sym&b){return Sym(a)>b;} \
inline bool operator<=(const Sym&a,U b){return a<=Sym(b);} inline bool operator<=(U a,const Sym&b){return Sym(a)<=b;} \
inline bool operator>=(const Sym&a,U b){return a>=Sym(b);} inline bool operator>=(U a,const Sym&b){return Sym(a)>=b;} \
inline bool operator==(const Sym&a,U b){return a==Sym(b);} inline bool operator==(U a,const Sym&b){return Sym(a)==b;} \
inline bool operator!=(const Sym&a,U b){return a!=Sym(b);} inline bool operator!=(U a,const Sym&b){return Sym(a)!=b;}
VSYM_CMP_T(int) VSYM_CMP_T(unsigned) VSYM_CMP_T(long) VSYM_CMP_T(unsigned long) VSYM_CMP_T(double) VSYM_CMP_T(float)

// --- functions ---------------------------------------------------------------------------
inline Sym abs(const Sym & x)
{
    if (x.isConst()) return x.cval()<0? -x : x;
    int o=A().n[x.id].op;
    if (o==ABS||o==ROOT) return x;
    if (o==NEG) return abs(-x);
    return mk(ABS,x.id,0,fabsq(x.sh()));
}
inline Sym fabs(const Sym & x){ return abs(x); }
inline Sym abs2(const Sym & x){ return x*x; }
inline Sym max(const Sym & a,const Sym & b)
{ if (a.id==b.id) return a; if (a.isConst()&&b.isConst()) return a.cval()<b.cval()?b:a; return mk(MAXO,a.id,b.id,a.sh()<b.sh()?b.sh():a.sh()); }
inline Sym min(const Sym & a,const Sym & b)
{ if (a.id==b.id) return a; if (a.isConst()&&b.isConst()) return b.cval()<a.cval()?b:a; return mk(MINO,a.id,b.id,b.sh()<a.sh()?b.sh():a.sh()); }
inline Sym fmax(const Sym & a,const Sym & b){return max(a,b);}
inline Sym fmin(const Sym & a,const Sym & b){return min(a,b);}

inline Sym root(const Sym & x,int k)
{
    if (k==1) return x;
    if (x.isConst())
    {
        const mpq_class & q=x.cval();
        if (q<0) throw unsupported("root of negative constant");
        mpz_class rn,rd;
        if (mpz_root(rn.get_mpz_t(),q.get_num().get_mpz_t(),k) && mpz_root(rd.get_mpz_t(),q.get_den().get_mpz_t(),k))
            { mpq_class r(rn,rd); r.canonicalize(); return Sym(r); }
    }
    else if (x.sh()<-(F)1e-25) throw unsupported("root of negative value on the witness path");
    F v=x.sh()<0?0:x.sh();
    F s = k==2? sqrtq(v) : k==3? cbrtq(v) : powq(v,(F)1/k);
    return mk(ROOT,x.id,k,s);
}
inline Sym sqrt(const Sym & x){ return root(x,2); }
inline Sym cbrt(const Sym & x){ return root(x,3); }
inline Sym ipow(const Sym & x,long e)
{
    if (e<0) return Sym(1)/ipow(x,-e);
    Sym r(1),b(x);
    while(e){ if (e&1) r=r*b; e>>=1; if (e) b=b*b; }
    return r;
}
inline Sym pow(const Sym & x,const Sym & y)
{
    if (!y.isConst()) throw unsupported("symbolic exponent");
    mpq_class q=y.cval();
    if (q.get_den()>64) throw unsupported("exponent that is not a small rational");
    long p=q.get_num().get_si(); int k=(int)q.get_den().get_si();
    return ipow(root(x,k),p);
}
inline Sym pow(const Sym & x,int e){ return ipow(x,e); }
inline Sym pow(const Sym & x,long e){ return ipow(x,e); }
inline Sym pow(const Sym & x,unsigned e){ return ipow(x,e); }
inline Sym pow(const Sym & x,double e){ return pow(x,Sym(e)); }
inline Sym pow(double x,const Sym & e){ return pow(Sym(x),e); }
inline Sym pow(int x,const Sym & e){ return pow(Sym(x),e); }
inline Sym log(const Sym & x){ if (x.id==1) return Sym(); return mk(LOG,x.id,0,logq(x.sh())); }
inline Sym exp(const Sym & x){ if (x.id==0) return Sym(1); return mk(EXP,x.id,0,expq(x.sh())); }
inline Sym sin(const Sym & x){ if (x.id==0) return Sym(); return mk(SIN,x.id,0,sinq(x.sh())); }
inline Sym cos(const Sym & x){ if (x.id==0) return Sym(1); return mk(COS,x.id,0,cosq(x.sh())); }
inline Sym tan(const Sym & x){ return sin(x)/cos(x); }
inline Sym atan2(const Sym & y,const Sym & x){ if (y.id==0 && x.sh()>0) return Sym(); return mk(ATAN2,y.id,x.id,atan2q(y.sh(),x.sh())); }
inline Sym atan(const Sym & x){ return atan2(x,Sym(1)); }
inline Sym acos(const Sym & x){ return atan2(sqrt(Sym(1)-x*x),x); }
inline Sym asin(const Sym & x){ return atan2(x,sqrt(Sym(1)-x*x)); }
inline Sym cosh(const Sym & x){ return (exp(x)+exp(-x))/2; }
inline Sym sinh(const Sym & x){ return (exp(x)-exp(-x))/2; }
inline Sym tanh(const Sym & x){ return sinh(x)/cosh(x); }
inline Sym log10(const Sym & x){ return log(x)/log(Sym(10)); }
inline Sym floor(const Sym & x){ if (x.isConst()){ mpz_class r; mpz_fdiv_q(r.get_mpz_t(),x.cval().get_num().get_mpz_t(),x.cval().get_den().get_mpz_t()); return Sym(mpq_class(r)); } x.concretise("floor"); return Sym((double)floorq(x.sh())); }
inline Sym ceil(const Sym & x){ return -floor(-x); }
inline Sym round(const Sym & x){ return floor(x+Sym(0.5)); }
inline Sym fmod(const Sym & x,const Sym & y){ return x-y*floor(x/y); }
inline bool isnan(const Sym & x){ return false; }
inline bool isinf(const Sym & x){ return false; }
inline bool isfinite(const Sym & x){ return true; }
inline Sym real(const Sym & x){ return x; }
inline Sym imag(const Sym & x){ return Sym(); }
inline Sym conj(const Sym & x){ return x; }
inline Sym frexp(const Sym & x,int * e){ *e=0; return x; }
inline Sym ldexp(const Sym & x,int e){ return x*ipow(Sym(2),e); }
inline Sym nextafter(const Sym & x,const Sym & y){ return x; }
inline Sym hypot(const Sym & x,const Sym & y){ return sqrt(x*x+y*y); }
inline Sym copysign(const Sym & x,const Sym & y){ return y<Sym()? -abs(x): abs(x); }

inline std::ostream & operator<<(std::ostream & os,const Sym & x)
{ return os<<(double)x.sh(); }
inline std::istream & operator>>(std::istream & is,Sym & x)
{ double d; is>>d; x=Sym(d); return is; }

// --- differentiation ---------------------------------------------------------------------
struct Diff
{
    int var; std::unordered_map<int,Sym> memo; std::vector<char> dep;
    std::set<int> cuts;
    explicit Diff(const Sym & v,const std::set<int> & c=std::set<int>()): var(v.id), cuts(c)
    { if (A().n[v.id].op!=VAR && !cuts.count(v.id)) throw unsupported("derivative with respect to a non-variable"); }
    Sym d(int root_)
    {
        // iterative post-order
        std::vector<int> st(1,root_);
        while(!st.empty())
        {
            int i=st.back();
            if (memo.count(i)) { st.pop_back(); continue; }
            if (cuts.count(i)) { memo[i]= i==var? Sym(1):Sym(); st.pop_back(); continue; }
            Node m=A().n[i];
            bool bin= m.op==ADD||m.op==SUB||m.op==MUL||m.op==DIV||m.op==MAXO||m.op==MINO||m.op==ATAN2;
            bool un= m.op==NEG||m.op==ROOT||m.op==ABS||m.op==LOG||m.op==EXP||m.op==SIN||m.op==COS;
            if ((bin||un)&&!memo.count(m.a)) { st.push_back(m.a); continue; }
            if (bin&&!memo.count(m.b)) { st.push_back(m.b); continue; }
            st.pop_back();
            Sym r; Sym a(Sym::raw(),m.a), b(Sym::raw(),bin?m.b:0), self(Sym::raw(),i);
            Sym da,db; if (bin||un) da=memo[m.a]; if (bin) db=memo[m.b];
            switch(m.op)
            {
                case CONST: break;
                case VAR: if (i==var) r=Sym(1); break;
                case ADD: r=da+db; break;
                case SUB: r=da-db; break;
                case MUL: r=da*b+a*db; break;
                case DIV: r= db.id==0? da/b : (da-self*db)/b; break;
                case NEG: r=-da; break;
                case ROOT: if (da.id) r=da/(Sym(m.b)*ipow(self,m.b-1)); break;
                case ABS: if (da.id) r= (a<Sym())? -da: da; break;
                case MAXO: if (da.id||db.id) r= (a<b)? db: da; break;
                case MINO: if (da.id||db.id) r= (b<a)? db: da; break;
                case LOG: if (da.id) r=da/a; break;
                case EXP: r=self*da; break;
                case SIN: if (da.id) r=cos(a)*da; break;
                case COS: if (da.id) r=-(sin(a)*da); break;
                case ATAN2: if (da.id||db.id) r=(b*da-a*db)/(a*a+b*b); break;
            }
            memo[i]=r;
        }
        return memo[root_];
    }
};

} // namespace vsym

namespace std {
template<> class numeric_limits<vsym::Sym>
{
public:
    static const bool is_specialized=true, is_signed=true, is_integer=false, is_exact=true, has_infinity=false, has_quiet_NaN=false;
    static const bool has_signaling_NaN=false, is_bounded=true, is_modulo=false, is_iec559=false;
    static const int radix=2, digits=53, digits10=15, max_digits10=17, min_exponent=-1021, max_exponent=1024, min_exponent10=-307, max_exponent10=308;
    static const float_round_style round_style=round_to_nearest;
    static vsym::Sym epsilon(){ return vsym::Sym(numeric_limits<double>::epsilon()); }
    static vsym::Sym min(){ return vsym::Sym(numeric_limits<double>::min()); }
    static vsym::Sym max(){ return vsym::Sym(numeric_limits<double>::max()); }
    static vsym::Sym (lowest)(){ return vsym::Sym(-numeric_limits<double>::max()); }
    static vsym::Sym infinity(){ return vsym::Sym(numeric_limits<double>::max()); }
    static vsym::Sym quiet_NaN(){ return vsym::Sym(0); }
    static vsym::Sym denorm_min(){ return vsym::Sym(numeric_limits<double>::min()); }
    static vsym::Sym round_error(){ return vsym::Sym(0.5); }
};
using vsym::abs; using vsym::fabs; using vsym::sqrt; using vsym::cbrt; using vsym::pow; using vsym::log; using vsym::exp; using vsym::sin; using vsym::cos; using vsym::tan;
using vsym::atan; using vsym::atan2; using vsym::acos; using vsym::asin; using vsym::sinh; using vsym::cosh; using vsym::tanh; using vsym::log10;
using vsym::floor; using vsym::ceil; using vsym::isnan; using vsym::isinf; using vsym::isfinite; using vsym::frexp; using vsym::ldexp; using vsym::real; using vsym::imag; using vsym::conj;
using vsym::fmax; using vsym::fmin; using vsym::hypot; using vsym::round; using vsym::fmod; using vsym::copysign; using vsym::nextafter;
template<> struct is_arithmetic<vsym::Sym> : public true_type {};
template<> struct is_floating_point<vsym::Sym> : public true_type {};
template<> struct hash<vsym::Sym> { size_t operator()(const vsym::Sym & x) const { return (size_t)x.id; } };
}
