// Stand-in for the core's gsFunctionExpr (a thin wrapper around the 40k-line ExprTk parser, which is
// part of the G+Smo core, not of gsKLShell).  Same interface; parses + - * / ^ ( ) numbers, x y z, and
// the functions sin cos sqrt exp log; derivatives are exact.
#pragma once
#include <gsCore/gsForwardDeclarations.h>
#include <gsCore/gsFunction.h>
#include <gsIO/gsXml.h>
#include <cctype>

namespace gismo
{
template<typename T>
class gsFunctionExpr : public gsFunction<T>
{
    struct N { char op; T c; int v; int a,b; };
    short_t m_d;
    std::vector<std::string> m_str;
    std::vector<std::vector<N> > m_ast;
    std::vector<int> m_root;

    static int add(std::vector<N> & p,char op,T c=T(0),int v=0,int a=-1,int b=-1){ N n; n.op=op;n.c=c;n.v=v;n.a=a;n.b=b; p.push_back(n); return (int)p.size()-1; }
    static void ws(const char *& s){ while(*s&&isspace(*s)) ++s; }
    static int expr(const char *& s,std::vector<N> & p)
    { int l=term(s,p); ws(s); while(*s=='+'||*s=='-'){ char o=*s++; int r=term(s,p); l=add(p,o,T(0),0,l,r); ws(s);} return l; }
    static int term(const char *& s,std::vector<N> & p)
    { int l=unary(s,p); ws(s); while(*s=='*'||*s=='/'){ char o=*s++; int r=unary(s,p); l=add(p,o,T(0),0,l,r); ws(s);} return l; }
    static int unary(const char *& s,std::vector<N> & p)
    { ws(s); if(*s=='-'){ ++s; int r=unary(s,p); return add(p,'-',T(0),0,add(p,'c'),r);} if(*s=='+'){++s; return unary(s,p);} return power(s,p); }
    static int power(const char *& s,std::vector<N> & p)
    { int l=atom(s,p); ws(s); if(*s=='^'){ ++s; int r=unary(s,p); return add(p,'^',T(0),0,l,r);} return l; }
    static int atom(const char *& s,std::vector<N> & p)
    {
        ws(s);
        if (*s=='('){ ++s; int r=expr(s,p); ws(s); if(*s!=')') throw std::runtime_error("expr: )"); ++s; return r; }
        if (isdigit(*s)||*s=='.'){ char * e; double d=strtod(s,&e); s=e; return add(p,'c',T(d)); }
        std::string id; while(isalnum(*s)||*s=='_') id+=*s++;
        if (id=="x"||id=="y"||id=="z") return add(p,'v',T(0),id[0]-'x');
        if (id=="pi") return add(p,'c',T(3.14159265358979323846));
        ws(s); if (*s!='(') throw std::runtime_error("expr: unsupported token '"+id+"'");
        ++s; int r=expr(s,p); ws(s); if(*s!=')') throw std::runtime_error("expr: )"); ++s;
        char o = id=="sin"?'s': id=="cos"?'k': id=="sqrt"?'q': id=="exp"?'e': id=="log"?'l':0;
        if(!o) throw std::runtime_error("expr: unsupported function "+id);
        return add(p,o,T(0),0,r);
    }
    struct J { T v; T g[3]; T h[3][3]; J(){ v=T(0); for(int i=0;i<3;i++){ g[i]=T(0); for(int j=0;j<3;j++) h[i][j]=T(0);} } };
    static J chain(const J & a,T f,T f1,T f2)
    { J r; r.v=f; for(int i=0;i<3;i++){ r.g[i]=f1*a.g[i]; for(int j=0;j<3;j++) r.h[i][j]=f1*a.h[i][j]+f2*a.g[i]*a.g[j]; } return r; }
    static J mul(const J & a,const J & b)
    { J r; r.v=a.v*b.v; for(int i=0;i<3;i++){ r.g[i]=a.g[i]*b.v+a.v*b.g[i]; for(int j=0;j<3;j++) r.h[i][j]=a.h[i][j]*b.v+a.g[i]*b.g[j]+a.g[j]*b.g[i]+a.v*b.h[i][j]; } return r; }
    J ev(int comp,int i,const gsMatrix<T> & u,index_t k) const
    {
        const N & n=m_ast[comp][i]; J r;
        switch(n.op)
        {
            case 'c': r.v=n.c; return r;
            case 'v': GISMO_ENSURE(n.v<u.rows(),"expr: variable outside the domain"); r.v=u(n.v,k); r.g[n.v]=T(1); return r;
            case '+': case '-': { J a=ev(comp,n.a,u,k),b=ev(comp,n.b,u,k); T s(n.op=='+'?1:-1); r.v=a.v+s*b.v; for(int i2=0;i2<3;i2++){ r.g[i2]=a.g[i2]+s*b.g[i2]; for(int j=0;j<3;j++) r.h[i2][j]=a.h[i2][j]+s*b.h[i2][j]; } return r; }
            case '*': return mul(ev(comp,n.a,u,k),ev(comp,n.b,u,k));
            case '/': { J b=ev(comp,n.b,u,k); T w=T(1)/b.v; return mul(ev(comp,n.a,u,k),chain(b,w,-w*w,T(2)*w*w*w)); }
            case '^': { J a=ev(comp,n.a,u,k); J b=ev(comp,n.b,u,k); double e=(double)b.v; int ei=(int)e; if((double)ei==e && ei>=0){ J q; q.v=T(1); for(int t=0;t<ei;t++) q=mul(q,a); return q; }
                        return chain(a,math::pow(a.v,b.v),b.v*math::pow(a.v,b.v-T(1)),b.v*(b.v-T(1))*math::pow(a.v,b.v-T(2))); }
            case 's': { J a=ev(comp,n.a,u,k); return chain(a,math::sin(a.v),math::cos(a.v),-math::sin(a.v)); }
            case 'k': { J a=ev(comp,n.a,u,k); return chain(a,math::cos(a.v),-math::sin(a.v),-math::cos(a.v)); }
            case 'q': { J a=ev(comp,n.a,u,k); T s=math::sqrt(a.v); return chain(a,s,T(1)/(T(2)*s),T(-1)/(T(4)*s*s*s)); }
            case 'e': { J a=ev(comp,n.a,u,k); T s=math::exp(a.v); return chain(a,s,s,s); }
            case 'l': { J a=ev(comp,n.a,u,k); return chain(a,math::log(a.v),T(1)/a.v,T(-1)/(a.v*a.v)); }
        }
        throw std::runtime_error("expr");
    }
public:
    typedef T Scalar_t;
    typedef memory::shared_ptr< gsFunctionExpr > Ptr;
    typedef memory::unique_ptr<gsFunctionExpr> uPtr;
    gsFunctionExpr(): m_d(0) {}
    gsFunctionExpr(const std::string & a, short_t d): m_d(d) { addComponent(a); }
    gsFunctionExpr(const std::string & a,const std::string & b, short_t d): m_d(d) { addComponent(a); addComponent(b); }
    gsFunctionExpr(const std::string & a,const std::string & b,const std::string & c, short_t d): m_d(d) { addComponent(a); addComponent(b); addComponent(c); }
    gsFunctionExpr(const std::string & a,const std::string & b,const std::string & c,const std::string & e, short_t d): m_d(d) { addComponent(a); addComponent(b); addComponent(c); addComponent(e);}
    gsFunctionExpr(const std::string & a,const std::string & b,const std::string & c,const std::string & e,const std::string & f,const std::string & g,const std::string & h,const std::string & i,const std::string & j, short_t d): m_d(d)
    { addComponent(a); addComponent(b); addComponent(c); addComponent(e); addComponent(f); addComponent(g); addComponent(h); addComponent(i); addComponent(j);}
    gsFunctionExpr(const std::vector<std::string> & v, short_t d): m_d(d) { for(size_t i=0;i<v.size();++i) addComponent(v[i]); }
    static uPtr make(const std::string & a, short_t d){ return uPtr(new gsFunctionExpr(a,d)); }
    static uPtr make(const std::string & a,const std::string & b, short_t d){ return uPtr(new gsFunctionExpr(a,b,d)); }
    static uPtr make(const std::string & a,const std::string & b,const std::string & c, short_t d){ return uPtr(new gsFunctionExpr(a,b,c,d)); }
    GISMO_CLONE_FUNCTION(gsFunctionExpr)
    void addComponent(const std::string & s)
    { m_str.push_back(s); m_ast.push_back(std::vector<N>()); const char * c=s.c_str(); m_root.push_back(expr(c,m_ast.back())); ws(c); if(*c) throw std::runtime_error("expr: trailing '"+std::string(c)+"'"); }
    virtual const gsFunctionExpr & piece(const index_t) const override { return *this; }
    short_t domainDim() const override { return m_d; }
    short_t targetDim() const override { return (short_t)m_str.size(); }
    const std::string & expression(int i=0) const { return m_str[i]; }
    virtual void eval_into(const gsMatrix<T>& u, gsMatrix<T>& result) const override
    { GISMO_ASSERT(u.rows()==m_d,"Inconsistent point dimension (expected: "<<m_d<<", got "<<u.rows()<<")"); result.resize(targetDim(),u.cols()); for(index_t k=0;k<u.cols();++k) for(index_t c=0;c<targetDim();++c) result(c,k)=ev(c,m_root[c],u,k).v; }
    virtual void eval_component_into(const gsMatrix<T>& u,const index_t c,gsMatrix<T>& result) const override
    { result.resize(1,u.cols()); for(index_t k=0;k<u.cols();++k) result(0,k)=ev(c,m_root[c],u,k).v; }
    virtual void deriv_into(const gsMatrix<T>& u,gsMatrix<T>& result) const override
    { result.resize(m_d*targetDim(),u.cols()); for(index_t k=0;k<u.cols();++k) for(index_t c=0;c<targetDim();++c){ J j=ev(c,m_root[c],u,k); for(index_t i=0;i<m_d;++i) result(c*m_d+i,k)=j.g[i]; } }
    virtual void deriv2_into(const gsMatrix<T>& u,gsMatrix<T>& result) const override
    { const index_t st=m_d+m_d*(m_d-1)/2; result.resize(st*targetDim(),u.cols()); for(index_t k=0;k<u.cols();++k) for(index_t c=0;c<targetDim();++c){ J j=ev(c,m_root[c],u,k); index_t m=m_d; for(index_t i=0;i<m_d;++i){ result(c*st+i,k)=j.h[i][i]; for(index_t l=i+1;l<m_d;++l) result(c*st+m++,k)=j.h[i][l]; } } }
    std::ostream &print(std::ostream &os) const override
    { os<<"[ "; for(size_t i=0;i<m_str.size();++i) os<<(i?", ":"")<<m_str[i]; os<<" ]"; return os; }
};

namespace internal
{
template<class T>
class gsXml< gsFunctionExpr<T> >
{
private:
    gsXml() { }
    typedef gsFunctionExpr<T> Object;
public:
    GSXML_COMMON_FUNCTIONS(Object);
    static std::string tag () { return "Function"; }
    static std::string type () { return "FunctionExpr"; }
    GSXML_GET_POINTER(Object);
    static void get_into (gsXmlNode * node, Object & obj)
    {
        getFunctionFromXml(node, obj);
    }
    static gsXmlNode * put (const Object & obj, gsXmlTree & data)
    {
        gsXmlNode * func = makeNode("Function", data);
        func->append_attribute(makeAttribute("dim", obj.domainDim(), data));
        const short_t tdim = obj.targetDim();
        if ( tdim == 1)
            func->value( makeValue(obj.expression(), data) );
        else
            for (short_t c = 0; c!=tdim; ++c)
            {
                gsXmlNode * cnode = makeNode("c", obj.expression(c), data);
                func->append_node(cnode);
            }
        return func;
    }
};
}
}
