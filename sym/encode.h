// Translation of the term graph built by symbolic execution into SMT-LIB queries over the reals.
// Terms are brought into the form  polynomial / product of polynomial factors  over atoms (input
// variables, roots with their defining equations, sine/cosine pairs, logarithms), because SMT solvers
// decide polynomial (in)equalities far better than nested divisions and radicals.
#pragma once
#include "sym.h"
#include <array>
#include <fstream>
#include <memory>
#include <algorithm>
#include <functional>

namespace vsym {

static const int NA=48; // maximal number of atoms per query group
struct Mono
{
    std::array<uint8_t,NA> e;
    Mono(){ e.fill(0); }
    bool operator==(const Mono & o) const { return e==o.e; }
    bool operator<(const Mono & o) const { return e<o.e; }
    bool one() const { for(int i=0;i<NA;i++) if(e[i]) return false; return true; }
};
struct MonoHash { size_t operator()(const Mono & m) const
{ const uint64_t * p=reinterpret_cast<const uint64_t*>(m.e.data()); uint64_t h=0x9E3779B97F4A7C15ull; for(int i=0;i<NA/8;i++){ h^=p[i]; h*=0xff51afd7ed558ccdull; h^=h>>32; } return (size_t)h; } };

inline Mono mmul(const Mono & a,const Mono & b)
{ Mono r; for(int i=0;i<NA;i++){ unsigned s=(unsigned)a.e[i]+b.e[i]; if(s>255) throw unsupported("polynomial degree above 255"); r.e[i]=(uint8_t)s; } return r; }
inline bool mdiv(const Mono & a,const Mono & b,Mono & r)
{ for(int i=0;i<NA;i++){ if(a.e[i]<b.e[i]) return false; r.e[i]=a.e[i]-b.e[i]; } return true; }

typedef std::unordered_map<Mono,mpq_class,MonoHash> PMap;
struct Poly
{
    PMap t;
    Poly(){}
    explicit Poly(const mpq_class & c){ if(c!=0) t[Mono()]=c; }
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size()==1 && t.begin()->first.one()); }
    mpq_class cst() const { return t.empty()? mpq_class(0): t.begin()->second; }
    void addTo(const Mono & m,const mpq_class & c){ PMap::iterator it=t.find(m); if(it==t.end()) t.emplace(m,c); else { it->second+=c; if(it->second==0) t.erase(it); } }
};
struct sizeLimit : unsupported { sizeLimit(): unsupported("polynomial too large"){} };
extern size_t POLY_LIMIT;
inline Poly padd(const Poly & a,const Poly & b,int sg=1)
{ Poly r=a; for(PMap::const_iterator it=b.t.begin();it!=b.t.end();++it) r.addTo(it->first, sg>0? it->second: mpq_class(-it->second)); return r; }
inline Poly pmul(const Poly & a,const Poly & b)
{ Poly r; const Poly & s=a.t.size()<b.t.size()?a:b; const Poly & l=a.t.size()<b.t.size()?b:a;
  if ((double)s.t.size()*l.t.size()>4e7) throw sizeLimit();
  for(PMap::const_iterator i=s.t.begin();i!=s.t.end();++i) for(PMap::const_iterator j=l.t.begin();j!=l.t.end();++j) r.addTo(mmul(i->first,j->first),mpq_class(i->second*j->second));
  if (r.t.size()>POLY_LIMIT) throw sizeLimit();
  return r; }
inline Poly pscale(const Poly & a,const mpq_class & c){ Poly r; if(c==0) return r; r=a; for(PMap::iterator it=r.t.begin();it!=r.t.end();++it) it->second*=c; return r; }
inline bool peq(const Poly & a,const Poly & b){ return padd(a,b,-1).zero(); }
inline Mono lead(const Poly & a){ PMap::const_iterator it=a.t.begin(); Mono m=it->first; for(++it;it!=a.t.end();++it) if(m<it->first) m=it->first; return m; }
// exact division a/b, false if b does not divide a
// --- arithmetic modulo a prime, used only to reject divisions / square roots quickly --------
static const uint64_t MP=2147483629ull;
inline uint64_t mpowm(uint64_t b,uint64_t e){ uint64_t r=1; b%=MP; while(e){ if(e&1) r=r*b%MP; b=b*b%MP; e>>=1; } return r; }
inline uint64_t qmod(const mpq_class & q)
{ uint64_t n=mpz_fdiv_ui(q.get_num().get_mpz_t(),MP),d=mpz_fdiv_ui(q.get_den().get_mpz_t(),MP); if(d==0) return n; return n*mpowm(d,MP-2)%MP; }
inline uint64_t rndAt(int seed,int i){ uint64_t x=(uint64_t)(seed*131+i+1)*0x9E3779B97F4A7C15ull; x^=x>>29; x*=0xbf58476d1ce4e5b9ull; x^=x>>32; return x%(MP-1)+1; }
struct PowTab
{
    std::vector<std::vector<uint64_t> > t; int seed;
    explicit PowTab(int s): t(NA), seed(s) {}
    uint64_t pw(int i,int e){ std::vector<uint64_t> & v=t[i]; if(v.empty()) v.push_back(1); uint64_t b=rndAt(seed,i); while((int)v.size()<=e) v.push_back(v.back()*b%MP); return v[e]; }
};
inline PowTab & powTab(int s){ static std::vector<PowTab> v; while((int)v.size()<=s) v.push_back(PowTab((int)v.size())); return v[s]; }
inline void specialise(const Poly & p,int var,int seed,std::vector<uint64_t> & c)
{
    c.clear(); PowTab & T=powTab(seed);
    for(PMap::const_iterator it=p.t.begin();it!=p.t.end();++it)
    { uint64_t v=qmod(it->second); for(int i=0;i<NA;++i) if(i!=var&&it->first.e[i]) v=v*T.pw(i,it->first.e[i])%MP; int e= var<0?0:it->first.e[var]; if((int)c.size()<=e) c.resize(e+1,0); c[e]=(c[e]+v)%MP; }
}
// false: b certainly does not divide a
inline bool mayDivide(const Poly & a,const Poly & b)
{
    Mono da,db; int ta=0,tb=0,var=-1;
    for(PMap::const_iterator it=a.t.begin();it!=a.t.end();++it){ int s=0; for(int i=0;i<NA;++i){ da.e[i]=std::max(da.e[i],it->first.e[i]); s+=it->first.e[i]; } ta=std::max(ta,s); }
    for(PMap::const_iterator it=b.t.begin();it!=b.t.end();++it){ int s=0; for(int i=0;i<NA;++i){ db.e[i]=std::max(db.e[i],it->first.e[i]); s+=it->first.e[i]; } tb=std::max(tb,s); }
    if(tb>ta) return false;
    for(int i=0;i<NA;++i){ if(db.e[i]>da.e[i]) return false; if(db.e[i]&&(var<0||db.e[i]>db.e[var])) var=i; }
    if(var<0) return true;
    std::vector<uint64_t> u,v; specialise(a,var,1,u); specialise(b,var,1,v);
    while(!v.empty()&&v.back()==0) v.pop_back(); if(v.empty()) return true;
    uint64_t inv=mpowm(v.back(),MP-2);
    for(int k=(int)u.size()-(int)v.size();k>=0;--k)
    { uint64_t f=u[k+v.size()-1]*inv%MP; if(f) for(size_t j=0;j<v.size();++j) u[k+j]=(u[k+j]+(MP-f)*v[j])%MP; }
    for(size_t j=0;j+1<v.size()&&j<u.size();++j) if(u[j]) return false;
    return true;
}
// false: a is certainly not a constant multiple of a square of a polynomial with rational coefficients (up to its leading coefficient)
inline bool maySquare(const Poly & a)
{
    for(int s=1;s<=12;++s){ std::vector<uint64_t> c; specialise(a,-1,s,c); if(!c.empty()&&c[0]&&mpowm(c[0],(MP-1)/2)!=1) return false; }
    return true;
}
inline bool pdivide(const Poly & a,const Poly & b,Poly & q)
{
    q=Poly(); if(a.zero()) return true; if(b.zero()||!mayDivide(a,b)) return false;
    Mono lb=lead(b); mpq_class cb=b.t.find(lb)->second;
    std::map<Mono,mpq_class> r(a.t.begin(),a.t.end());
    long steps=0;
    while(!r.empty())
    {
        std::map<Mono,mpq_class>::iterator last=--r.end();
        Mono m; if(!mdiv(last->first,lb,m)) return false;
        mpq_class c=last->second/cb;
        q.addTo(m,c);
        if (++steps>20000) return false;
        for(PMap::const_iterator j=b.t.begin();j!=b.t.end();++j)
        { Mono k=mmul(m,j->first); mpq_class d=-c*j->second; std::map<Mono,mpq_class>::iterator it=r.find(k); if(it==r.end()) r.emplace(k,d); else { it->second+=d; if(it->second==0) r.erase(it);} }
    }
    return true;
}
// square root of a polynomial; false if it is not a square
inline bool psqrt(const Poly & a,Poly & s)
{
    s=Poly(); if(a.zero()) return true;
    Mono la=lead(a); mpq_class ca=a.t.find(la)->second; if(ca<0) return false;
    mpz_class rn,rd; if(!mpz_root(rn.get_mpz_t(),ca.get_num().get_mpz_t(),2)||!mpz_root(rd.get_mpz_t(),ca.get_den().get_mpz_t(),2)) return false;
    Mono ls; for(int i=0;i<NA;i++){ if(la.e[i]&1) return false; ls.e[i]=la.e[i]/2; }
    if(!maySquare(a)) return false;
    mpq_class cs(rn,rd); cs.canonicalize();
    s.addTo(ls,cs);
    Poly rem=padd(a,pmul(s,s),-1);
    long steps=0;
    while(!rem.zero())
    {
        Mono lr=lead(rem),m; if(!mdiv(lr,ls,m)) return false;
        if(!(m<ls)) return false;
        mpq_class c=rem.t.find(lr)->second/(2*cs);
        Poly term; term.addTo(m,c);
        Poly two=padd(s,s);
        rem=padd(rem,padd(pmul(two,term),pmul(term,term)),-1);
        s=padd(s,term);
        if(++steps>2000) return false;
    }
    return true;
}

struct AtomInfo { std::string name; int kind; /*0 var 1 root 2 cos 3 sin 4 log 5 cut 6 opaque*/ int k; int factor; F sh; int partner; int node; };

struct Rat { Poly n; std::map<int,int> d; }; // numerator, denominator factors (ids >=0) with exponents

struct Lemma { int factor; int sign; };

class Encoder
{
public:
    std::vector<AtomInfo> atoms;
    std::map<int,int> nodeAtom;              // DAG node -> atom
    std::vector<Poly> factors;               // normalised (leading coefficient 1)
    std::vector<int> rootAtom;               // factor -> root atom (or -1)
    std::vector<int> factorAtom;             // factor that is a single atom -> atom, else -1
    std::map<int,int> lemmaSign;             // factors whose sign is used, with the sign on the witness
    std::set<int> cuts;
    std::unordered_map<int,Rat> memo;
    int K;                                   // common root order
    Encoder(): K(1) {}

    int newAtom(const std::string & nm,int kind,F sh,int node)
    { if((int)atoms.size()>=NA) throw unsupported("too many atoms"); AtomInfo a; a.name=nm;a.kind=kind;a.k=0;a.factor=-1;a.sh=sh;a.partner=-1;a.node=node; atoms.push_back(a); return (int)atoms.size()-1; }
    Poly atomPoly(int a,int e=1){ Poly p; Mono m; m.e[a]=(uint8_t)e; p.t[m]=1; return p; }

    // value of a polynomial at the witness
    F pval(const Poly & p) const
    { F s=0; for(PMap::const_iterator it=p.t.begin();it!=p.t.end();++it){ F v=Arena::toF(it->second); for(size_t i=0;i<atoms.size();++i) for(int e=0;e<it->first.e[i];++e) v*=atoms[i].sh; s+=v; } return s; }

    // reduce powers of root atoms and sin^2
    Poly reduce(const Poly & p0)
    {
        Poly p=p0;
        for(int guard=0;guard<100;++guard)
        {
            bool any=false; Poly r;
            for(PMap::const_iterator it=p.t.begin();it!=p.t.end();++it)
            {
                bool done=false;
                for(size_t i=0;i<atoms.size()&&!done;++i)
                {
                    if(!it->first.e[i]) continue;
                    if(atoms[i].kind==1 && it->first.e[i]>=atoms[i].k)
                    { Mono m=it->first; int q=m.e[i]/atoms[i].k; m.e[i]-=q*atoms[i].k; Poly f; f.t[m]=it->second; for(int j=0;j<q;++j) f=pmul(f,factors[atoms[i].factor]); for(PMap::const_iterator x=f.t.begin();x!=f.t.end();++x) r.addTo(x->first,x->second); any=true; done=true; }
                    else if(atoms[i].kind==3 && it->first.e[i]>=2)
                    { Mono m=it->first; m.e[i]-=2; r.addTo(m,it->second); Mono m2=m; m2.e[atoms[i].partner]+=2; r.addTo(m2,mpq_class(-it->second)); any=true; done=true; }
                }
                if(!done) r.addTo(it->first,it->second);
            }
            p=r; if(!any) return p;
        }
        throw unsupported("reduction did not terminate");
    }
    int findFactor(const Poly & p){ for(size_t i=0;i<factors.size();++i) if(factors[i].t.size()==p.t.size() && peq(factors[i],p)) return (int)i; return -1; }
    int addFactor(const Poly & p,int at=-1){ int f=findFactor(p); if(f>=0) return f; factors.push_back(p); rootAtom.push_back(-1); factorAtom.push_back(at); return (int)factors.size()-1; }
    int atomFactor(int a){ return addFactor(atomPoly(a),a); }

    // constant * product of factors^e
    mpq_class factorise(const Poly & p0,std::map<int,int> & out)
    {
        Poly p=p0; if(p.zero()) throw unsupported("factorisation of zero");
        // monomial content
        Mono g=p.t.begin()->first; for(PMap::const_iterator it=p.t.begin();it!=p.t.end();++it) for(int i=0;i<NA;i++) g.e[i]=std::min(g.e[i],it->first.e[i]);
        if(!g.one())
        { Poly q; for(PMap::const_iterator it=p.t.begin();it!=p.t.end();++it){ Mono m; mdiv(it->first,g,m); q.t[m]=it->second; } p=q; for(int i=0;i<NA;i++) if(g.e[i]) out[atomFactor(i)]+=g.e[i]; }
        mpq_class c=1;
        for(size_t i=0;i<factors.size()&&!p.isConst();++i)
        { if(factorAtom[i]>=0||factors[i].isConst()) continue; Poly q; while(!p.isConst() && pdivide(p,factors[i],q)){ p=q; out[(int)i]++; } }
        if(p.isConst()) return c*p.cst();
        mpq_class lc=p.t.find(lead(p))->second; p=pscale(p,1/lc); c*=lc;
        Poly s; int mult=1;
        while(psqrt(p,s) && !s.isConst()){ p=s; mult*=2; }
        mpq_class l2=p.t.find(lead(p))->second; if(l2!=1){ p=pscale(p,1/l2); for(int i=0;i<mult;i++) c*=l2; }
        out[addFactor(p)]+=mult;
        return c;
    }
    void cancel(Rat & r)
    {
        if(r.n.zero()){ r.d.clear(); return; }
        for(std::map<int,int>::iterator it=r.d.begin();it!=r.d.end();)
        {
            Poly q;
            if(r.n.t.size()<3000) while(it->second>0 && pdivide(r.n,factors[it->first],q)){ r.n=q; --it->second; }
            if(it->second==0) r.d.erase(it++); else ++it;
        }
    }
    Poly fpow(int f,int e){ Poly r=Poly(mpq_class(1)); for(int i=0;i<e;++i) r=reduce(pmul(r,factors[f])); return r; }
    Rat radd(const Rat & a,const Rat & b,int sg)
    {
        Rat r; if(b.n.zero()) return a;
        if(a.n.zero()){ r=b; if(sg<0) r.n=pscale(r.n,-1); return r; }
        Poly na=a.n,nb=b.n; r.d=a.d;
        for(std::map<int,int>::const_iterator it=b.d.begin();it!=b.d.end();++it)
        { int ea= r.d.count(it->first)? r.d[it->first]:0; if(it->second>ea){ na=reduce(pmul(na,fpow(it->first,it->second-ea))); r.d[it->first]=it->second; } }
        for(std::map<int,int>::const_iterator it=r.d.begin();it!=r.d.end();++it)
        { std::map<int,int>::const_iterator j=b.d.find(it->first); int eb= j==b.d.end()?0:j->second; if(it->second>eb) nb=reduce(pmul(nb,fpow(it->first,it->second-eb))); }
        r.n=padd(na,nb,sg);
        cancel(r); return r;
    }
    Rat rmul(const Rat & a,const Rat & b)
    {
        Rat r; if(a.n.zero()||b.n.zero()) return r;
        Rat x=a,y=b;
        // cross-cancel
        Rat t; t.n=x.n; t.d=y.d; cancel(t); x.n=t.n; y.d=t.d;
        t.n=y.n; t.d=x.d; cancel(t); y.n=t.n; x.d=t.d;
        r.n=reduce(pmul(x.n,y.n)); r.d=x.d; for(std::map<int,int>::const_iterator it=y.d.begin();it!=y.d.end();++it) r.d[it->first]+=it->second;
        cancel(r); return r;
    }
    // 1/(product of factors): root atoms are moved to the numerator
    Rat invFactors(const mpq_class & c,const std::map<int,int> & f)
    {
        Rat r; r.n=Poly(mpq_class(1/c));
        for(std::map<int,int>::const_iterator it=f.begin();it!=f.end();++it)
        {
            int at=factorAtom[it->first];
            if(at>=0 && atoms[at].kind==1)
            { // 1/w^e = w^(k*m-e)/base^m
                int e=it->second,k=atoms[at].k,m=(e+k-1)/k; if(k*m-e>0) r.n=pmul(r.n,atomPoly(at,k*m-e));
                const int bf=atoms[at].factor; r.d[bf]+=m; }
            else r.d[it->first]+=it->second;
        }
        r.n=reduce(r.n); return r;
    }
    Rat rinv(const Rat & a)
    {
        std::map<int,int> f; mpq_class c=factorise(a.n,f);
        Rat r=invFactors(c,f);
        Poly nd=Poly(mpq_class(1)); for(std::map<int,int>::const_iterator it=a.d.begin();it!=a.d.end();++it) nd=reduce(pmul(nd,fpow(it->first,it->second)));
        r.n=reduce(pmul(r.n,nd)); cancel(r); return r;
    }
    void needSign(int f){ if(!lemmaSign.count(f)) lemmaSign[f]= pval(factors[f])<0? -1:1; }
    // |f|^(e/k) as Rat; e may be negative
    Rat rootFactor(int f,int e,int k)
    {
        // f may itself be a root atom w with w^kk = base
        int at=factorAtom[f];
        if(at>=0 && atoms[at].kind==1) return rootFactor(atoms[at].factor,e,k*atoms[at].k);
        // exponent e/k reduced
        int a=std::abs(e),g; { int x=a,y=k; while(y){ int t=x%y; x=y; y=t; } g=x; } if(g==0) g=1;
        e/=g; k/=g;
        Rat r; r.n=Poly(mpq_class(1));
        needSign(f);
        const int sg=lemmaSign[f];
        if(k==1)
        {
            Poly p=fpow(f,std::abs(e)); if(sg<0 && (e&1)) p=pscale(p,-1);
            if(e>=0){ r.n=p; return r; }
            r.n=Poly(mpq_class((sg<0&&(e&1))?-1:1)); r.d[f]=-e; return r;
        }
        if(sg<0) throw unsupported("root of a factor that is negative on the witness");
        if(K%k) throw unsupported("root order not covered");
        int ra=rootAtom[f];
        if(ra<0)
        {
            F v=pval(factors[f]); std::ostringstream nm; nm<<"rt_"<<f;
            ra=newAtom(nm.str(),1,powq(v,(F)1/K),-1); atoms[ra].k=K; atoms[ra].factor=f; rootAtom[f]=ra;
        }
        int m=e*(K/k); // w^m
        int q= m>=0? m/K : -((-m+K-1)/K); int rem=m-q*K;
        if(rem) r.n=atomPoly(ra,rem);
        if(q>0) r.n=reduce(pmul(r.n,fpow(f,q))); else if(q<0) r.d[f]=-q;
        return r;
    }
    Rat rroot(const Rat & a,int k)
    {
        if(a.n.zero()) return Rat();
        std::map<int,int> f; mpq_class c=factorise(a.n,f);
        for(std::map<int,int>::const_iterator it=a.d.begin();it!=a.d.end();++it) f[it->first]-=it->second;
        Rat r; r.n=Poly(mpq_class(1));
        // constant part, with the signs of odd factors (their signs become lemmas)
        for(std::map<int,int>::const_iterator it=f.begin();it!=f.end();++it)
        {
            if(it->second==0) continue;
            int ff=it->first;
            if(it->second%2!=0 && pval(factors[ff])<0)
            { // use -f instead: flip the sign into the constant
                c=-c; needSign(ff);
                Poly neg=pscale(factors[ff],-1); int nf=findFactor(neg); if(nf<0){ factors.push_back(neg); rootAtom.push_back(-1); factorAtom.push_back(-1); nf=(int)factors.size()-1; }
                Rat t=rootFactor(nf,it->second,k); r=rmul(r,t);
            }
            else { Rat t=rootFactor(ff,it->second,k); r=rmul(r,t); }
        }
        if(c<0) throw unsupported("root of a negative term");
        if(c!=1)
        {
            mpz_class rn,rd;
            if(mpz_root(rn.get_mpz_t(),c.get_num().get_mpz_t(),k)&&mpz_root(rd.get_mpz_t(),c.get_den().get_mpz_t(),k)){ mpq_class q(rn,rd); q.canonicalize(); r.n=pscale(r.n,q); }
            else
            { // algebraic constant: root atom over prime-like constant factors
                mpz_class parts[2]={c.get_num(),c.get_den()};
                for(int s=0;s<2;++s)
                {
                    mpz_class v=parts[s];
                    std::map<std::string,int> pf; std::vector<mpz_class> ps; std::vector<int> es;
                    for(unsigned long p=2;p<2000 && v>1;++p){ int e=0; while(mpz_divisible_ui_p(v.get_mpz_t(),p)){ v/=p; ++e; } if(e){ ps.push_back(mpz_class(p)); es.push_back(e);} }
                    if(v>1)
                    {
                        int kk=1; for(int t=K;t>1;--t){ mpz_class rr; if(mpz_root(rr.get_mpz_t(),v.get_mpz_t(),t)){ v=rr; kk=t; break; } }
                        ps.push_back(v); es.push_back(kk);
                    }
                    for(size_t i=0;i<ps.size();++i)
                    {
                        Poly cp=Poly(mpq_class(ps[i])); int cf=-1; for(size_t j=0;j<factors.size();++j) if(factors[j].isConst()&&factors[j].cst()==mpq_class(ps[i])) cf=(int)j;
                        if(cf<0){ factors.push_back(cp); rootAtom.push_back(-1); factorAtom.push_back(-1); cf=(int)factors.size()-1; }
                        Rat t=rootFactor(cf, s==0? es[i]:-es[i], k);
                        // constant denominators go into the numerator
                        Rat u; u.n=t.n; for(std::map<int,int>::iterator it=t.d.begin();it!=t.d.end();++it){ if(factors[it->first].isConst()){ mpq_class z=1; for(int q=0;q<it->second;++q) z*=factors[it->first].cst(); u.n=pscale(u.n,1/z);} else u.d[it->first]=it->second; }
                        r=rmul(r,u);
                    }
                }
            }
        }
        return r;
    }

    // collect root orders below the given nodes
    void orders(const std::vector<int> & rootsv)
    {
        std::unordered_map<int,int> ord; // node -> accumulated order of a root tower
        std::vector<char> seen(A().n.size(),0); std::vector<int> st=rootsv; int lcm=K;
        while(!st.empty())
        {
            int i=st.back(); st.pop_back(); if(seen[i]) continue; seen[i]=1; if(cuts.count(i)) continue;
            const Node & m=A().n[i];
            if(m.op==ROOT)
            { // tower order: multiply orders of roots found below through products/quotients
                int t=towerOrder(i,0); int x=lcm,y=t; while(y){ int z=x%y; x=y; y=z; } lcm=lcm/x*t; }
            if(m.op==CONST||m.op==VAR) continue;
            st.push_back(m.a); if(isBin(m.op)) st.push_back(m.b);
        }
        if(lcm>24) throw unsupported("root order above 24");
        K=lcm;
    }
    static bool isBin(int op){ return op==ADD||op==SUB||op==MUL||op==DIV||op==MAXO||op==MINO||op==ATAN2; }
    int towerOrder(int i,int depth)
    {
        const Node & m=A().n[i]; if(depth>40||cuts.count(i)) return 1;
        if(m.op==ROOT) return m.b*towerOrder(m.a,depth+1);
        if(m.op==MUL||m.op==DIV){ int a=towerOrder(m.a,depth+1),b=towerOrder(m.b,depth+1); int x=a,y=b; while(y){int z=x%y;x=y;y=z;} return a/x*b; }
        if(m.op==NEG||m.op==ABS) return towerOrder(m.a,depth+1);
        return 1;
    }

    const Rat & rat(int root_)
    {
        std::vector<int> st(1,root_);
        while(!st.empty())
        {
            int i=st.back(); if(memo.count(i)){ st.pop_back(); continue; }
            const Node m=A().n[i];
            bool leaf= m.op==CONST||m.op==VAR||cuts.count(i);
            if(!leaf)
            {
                if(!memo.count(m.a)){ st.push_back(m.a); continue; }
                if(isBin(m.op)&&!memo.count(m.b)){ st.push_back(m.b); continue; }
            }
            st.pop_back();
            Rat r;
            if(cuts.count(i)) { if(!nodeAtom.count(i)){ std::ostringstream nm; nm<<"cut_"<<i; nodeAtom[i]=newAtom(nm.str(),5,m.sh,i); } r.n=atomPoly(nodeAtom[i]); }
            else switch(m.op)
            {
                case CONST: r.n=Poly(A().consts[m.a]); break;
                case VAR: if(!nodeAtom.count(i)) nodeAtom[i]=newAtom(A().names[m.a],0,m.sh,i); r.n=atomPoly(nodeAtom[i]); break;
                case ADD: r=radd(memo[m.a],memo[m.b],1); break;
                case SUB: r=radd(memo[m.a],memo[m.b],-1); break;
                case MUL: r=rmul(memo[m.a],memo[m.b]); break;
                case NEG: r=memo[m.a]; r.n=pscale(r.n,-1); break;
                case DIV: r=rmul(memo[m.a],rinv(memo[m.b])); break;
                case ROOT: r=rroot(memo[m.a],m.b); break;
                case SIN: case COS:
                {
                    Node key; int a=m.a; int cn=-1; 
                    std::map<int,int>::iterator it=trig.find(a);
                    if(it==trig.end()){ std::ostringstream n1,n2; n1<<"cos_"<<a; n2<<"sin_"<<a; int c=newAtom(n1.str(),2,cosq(A().n[a].sh),-1); int s=newAtom(n2.str(),3,sinq(A().n[a].sh),-1); atoms[s].partner=c; atoms[c].partner=s; trig[a]=c; cn=c; } else cn=it->second;
                    r.n=atomPoly(m.op==COS?cn:atoms[cn].partner); (void)key; break;
                }
                case LOG:
                {
                    const Rat & x=memo[m.a]; std::map<int,int> f; mpq_class c=factorise(x.n,f);
                    for(std::map<int,int>::const_iterator it=x.d.begin();it!=x.d.end();++it) f[it->first]-=it->second;
                    Rat acc; bool pos=c>0; for(std::map<int,int>::const_iterator it=f.begin();it!=f.end();++it) if(it->second && pval(factors[it->first])<=0) pos=false;
                    if(!pos) throw unsupported("logarithm of a term with non-positive factors");
                    for(std::map<int,int>::const_iterator it=f.begin();it!=f.end();++it)
                    { if(!it->second) continue; int ff=it->first; mpq_class e=it->second; int at=factorAtom[ff]; if(at>=0&&atoms[at].kind==1){ e/=atoms[at].k; ff=atoms[at].factor; }
                      if(e.get_den()!=1){}
                      needSign(ff); acc.n=padd(acc.n,pscale(atomPoly(logAtom(ff)),e)); }
                    if(c!=1){ Poly cp(c); int cf=-1; for(size_t j=0;j<factors.size();++j) if(factors[j].isConst()&&factors[j].cst()==c) cf=(int)j; if(cf<0){ factors.push_back(cp); rootAtom.push_back(-1); factorAtom.push_back(-1); cf=(int)factors.size()-1; } acc.n=padd(acc.n,atomPoly(logAtom(cf))); }
                    r=acc; break;
                }
                case ABS: { r=memo[m.a]; if(A().n[m.a].sh<0) r.n=pscale(r.n,-1); absSigns.insert(m.a); break; }
                case MAXO: case MINO: { bool first= (m.op==MAXO)== !(A().n[m.a].sh<A().n[m.b].sh); r=memo[first?m.a:m.b]; minmax.insert(i); break; }
                default:
                    if(!nodeAtom.count(i)){ std::ostringstream nm; nm<<"opaque_"<<i; nodeAtom[i]=newAtom(nm.str(),6,m.sh,i); } r.n=atomPoly(nodeAtom[i]);
            }
            memo[i]=r;
        }
        return memo[root_];
    }
    int logAtom(int f){ std::map<int,int>::iterator it=logs.find(f); if(it!=logs.end()) return it->second; std::ostringstream nm; nm<<"log_"<<f; int a=newAtom(nm.str(),4,logq(pval(factors[f])),-1); logs[f]=a; return a; }
    std::map<int,int> trig,logs; std::set<int> absSigns,minmax;

    static std::string q2s(const mpq_class & q)
    { std::string n=mpz_class(abs(q.get_num())).get_str(); std::string r= q.get_den()==1? n+".0" : "(/ "+n+".0 "+q.get_den().get_str()+".0)"; return q<0? "(- "+r+")": r; }
    std::string p2s(const Poly & p) const
    {
        if(p.zero()) return "0.0";
        std::map<Mono,mpq_class> o(p.t.begin(),p.t.end());
        std::ostringstream s; if(o.size()>1) s<<"(+";
        for(std::map<Mono,mpq_class>::const_iterator it=o.begin();it!=o.end();++it)
        {
            s<<" "; std::vector<std::string> fs; if(it->second!=1||it->first.one()) fs.push_back(q2s(it->second));
            for(size_t i=0;i<atoms.size();++i) for(int e=0;e<it->first.e[i];++e) fs.push_back(atoms[i].name);
            if(fs.size()==1) s<<fs[0]; else { s<<"(*"; for(size_t i=0;i<fs.size();++i) s<<" "<<fs[i]; s<<")"; }
        }
        if(o.size()>1) s<<")"; return s.str();
    }
};

} // namespace vsym
