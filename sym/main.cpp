// Entry point of the symbolic drivers and of the replay drivers.
#include "check.h"
#ifdef VSYM
#include "encode.h"
#endif
#include <unistd.h>
using namespace vchk;
#ifdef VSYM
namespace vsym { size_t POLY_LIMIT=60000; }
using namespace vsym;

static std::string rawName(int i){ std::ostringstream s; s<<"n"<<i; return s.str(); }
// raw SMT definitions of all nodes below the given ones, in topological order
static std::string rawDefs(const std::vector<int> & rootsv,const std::set<int> & cuts)
{
    std::ostringstream s; Arena & g=A(); std::vector<char> done(g.n.size(),0); std::vector<int> st;
    for(size_t r=0;r<rootsv.size();++r)
    {
        st.push_back(rootsv[r]);
        while(!st.empty())
        {
            int i=st.back(); if(done[i]){ st.pop_back(); continue; }
            const Node & m=g.n[i]; bool leaf= m.op==CONST||m.op==VAR||cuts.count(i);
            if(!leaf){ if(!done[m.a]){ st.push_back(m.a); continue; } if(Encoder::isBin(m.op)&&!done[m.b]){ st.push_back(m.b); continue; } }
            st.pop_back(); done[i]=1; std::string n=rawName(i),a=rawName(m.a),b=rawName(m.b);
            if(cuts.count(i)){ s<<"(declare-const "<<n<<" Real)\n"; continue; }
            switch(m.op)
            {
                case CONST: s<<"(define-fun "<<n<<" () Real "<<Encoder::q2s(g.consts[m.a])<<")\n"; break;
                case VAR: s<<"(define-fun "<<n<<" () Real |"<<g.names[m.a]<<"|)\n"; break;
                case ADD: s<<"(define-fun "<<n<<" () Real (+ "<<a<<" "<<b<<"))\n"; break;
                case SUB: s<<"(define-fun "<<n<<" () Real (- "<<a<<" "<<b<<"))\n"; break;
                case MUL: s<<"(define-fun "<<n<<" () Real (* "<<a<<" "<<b<<"))\n"; break;
                case NEG: s<<"(define-fun "<<n<<" () Real (- "<<a<<"))\n"; break;
                case DIV: s<<"(define-fun "<<n<<" () Real (/ "<<a<<" "<<b<<"))\n(assert (not (= "<<b<<" 0.0)))\n"; break;
                case ROOT: s<<"(declare-const "<<n<<" Real)\n(assert (>= "<<n<<" 0.0))\n(assert (= "<<a<<" (*"; for(int k=0;k<m.b;++k) s<<" "<<n; s<<")))\n"; break;
                case ABS: s<<"(define-fun "<<n<<" () Real (ite (< "<<a<<" 0.0) (- "<<a<<") "<<a<<"))\n"; break;
                case MAXO: s<<"(define-fun "<<n<<" () Real (ite (< "<<a<<" "<<b<<") "<<b<<" "<<a<<"))\n"; break;
                case MINO: s<<"(define-fun "<<n<<" () Real (ite (< "<<b<<" "<<a<<") "<<b<<" "<<a<<"))\n"; break;
                case SIN: s<<"(declare-const "<<n<<" Real)\n(assert (and (<= (- 1.0) "<<n<<") (<= "<<n<<" 1.0)))\n"; break;
                case COS: s<<"(declare-const "<<n<<" Real)\n(assert (and (<= (- 1.0) "<<n<<") (<= "<<n<<" 1.0)))\n"; break;
                default: s<<"(declare-const "<<n<<" Real)\n";
            }
        }
    }
    // sine/cosine pairs
    std::map<int,int> sn,cs; for(size_t i=0;i<g.n.size();++i) if(done[i]){ if(g.n[i].op==SIN) sn[g.n[i].a]=i; if(g.n[i].op==COS) cs[g.n[i].a]=i; }
    for(std::map<int,int>::iterator it=sn.begin();it!=sn.end();++it) if(cs.count(it->first)) s<<"(assert (= 1.0 (+ (* "<<rawName(it->second)<<" "<<rawName(it->second)<<") (* "<<rawName(cs[it->first])<<" "<<rawName(cs[it->first])<<"))))\n";
    return s.str();
}
static std::string condS(int op,int node,bool taken){ std::string t= std::string("(")+(op==0?"<":op==1?"<=":"=")+" "+rawName(node)+" 0.0)"; return taken? t: "(not "+t+")"; }
static std::string aname(const Encoder & E,int i){ return E.atoms[i].kind==0? "|"+E.atoms[i].name+"|" : E.atoms[i].name; }
#endif

static void readInputs(const char * fn,std::map<std::string,mpq_class> & g)
{ std::ifstream f(fn); std::string k,v; while(f>>k>>v){ mpq_class q(v); q.canonicalize(); g[k]=q; } }

int main(int argc,char ** argv)
{
    if(argc<2||std::string(argv[1])=="--list"){ for(std::map<string,CaseFn>::iterator it=Reg::m().begin();it!=Reg::m().end();++it) std::cout<<it->first<<"\n"; return 0; }
    std::string name=argv[1]; const char * outf=argc>2?argv[2]:"/dev/stdout"; 
    if(!Reg::m().count(name)){ std::cerr<<"no case "<<name<<"\n"; return 3; }
    Ctx c; if(argc>3) readInputs(argv[3],c.given);
    c.body=Reg::m()[name];
    std::string status="ok",msg; double t0=now();
#ifdef VSYM
    try { c.body(c); }
    catch(const unsupported & e){ status="unsupported"; msg=e.what(); }
    catch(const std::exception & e){ status="exception"; msg=e.what(); }
    double t1=now();
    std::ofstream o(outf); o.precision(17);
    o<<"{\"case\":\""<<name<<"\",\"status\":\""<<status<<"\",\"msg\":\""<<esc(msg)<<"\",\"exec_s\":"<<t1-t0<<",\"nodes\":"<<A().n.size()<<",\"branches\":"<<A().branches<<",\n\"inputs\":[";
    for(size_t i=0;i<c.inputs.size();++i) o<<(i?",":"")<<"{\"name\":\""<<c.inputs[i].name<<"\",\"val\":\""<<c.inputs[i].val.get_str()<<"\",\"lo\":\""<<c.inputs[i].lo.get_str()<<"\",\"hi\":\""<<c.inputs[i].hi.get_str()<<"\"}";
    o<<"],\n\"notes\":["; { std::set<std::string> ns(A().notes.begin(),A().notes.end()); bool f=true; for(std::set<std::string>::iterator it=ns.begin();it!=ns.end();++it){ o<<(f?"":",")<<"\""<<esc(*it)<<"\""; f=false; } }
    std::set<int> cuts=c.cutSet();
    std::vector<int> rootsv; for(size_t i=0;i<A().path.size();++i) rootsv.push_back(A().path[i].a); size_t np=rootsv.size();
    std::vector<Cond> path=A().path; 
    for(size_t i=0;i<c.assumptions.size();++i) rootsv.push_back(c.assumptions[i].second);
    o<<"],\n\"pathdefs\":\""<<esc(rawDefs(rootsv,std::set<int>()))<<"\",\n\"path\":[";
    for(size_t i=0;i<np;++i) o<<(i?",":"")<<"\""<<condS(path[i].op,path[i].a,path[i].taken)<<"\"";
    o<<"],\n\"assume\":[";
    for(size_t i=0;i<c.assumptions.size();++i) o<<(i?",":"")<<"\""<<condS(c.assumptions[i].first,c.assumptions[i].second,true)<<"\"";
    o<<"],\n\"groups\":[";
    // obligations, encoded in groups that share an encoder
    size_t i=0; bool firstG=true;
    while(i<c.obls.size())
    {
        std::unique_ptr<Encoder> E(new Encoder); E->cuts=cuts;
        std::ostringstream os; bool first=true; size_t j=i; size_t chunk=c.obls.size();
        std::string failMsg;
        size_t start=i;
        // root orders of everything in this case
        try { std::vector<int> ids; for(size_t k=i;k<c.obls.size();++k){ ids.push_back(c.obls[k].l.id); ids.push_back(c.obls[k].r.id); } for(size_t k=0;k<c.assumptions.size();++k) ids.push_back(c.assumptions[k].second); E->orders(ids); } catch(const unsupported & e){ failMsg=e.what(); }
        std::set<int> dens;
        (void)chunk;
        for(;j<c.obls.size();++j)
        {
            Obl & ob=c.obls[j];
            std::ostringstream line; line.precision(17);
            double wl=(double)ob.l.sh(),wr=(double)ob.r.sh(); double wd=(double)(ob.l.sh()-ob.r.sh());
            line<<"{\"name\":\""<<esc(ob.name)<<"\",\"kind\":"<<ob.kind<<",\"wl\":"<<(std::isfinite(wl)?wl:0)<<",\"wr\":"<<(std::isfinite(wr)?wr:0)<<",\"wd\":"<<(std::isfinite(wd)?wd:1e300);
            try
            {
                if(!failMsg.empty()) throw unsupported(failMsg);
                if(ob.kind==0 && ob.l.id==ob.r.id && false) {}
                Rat l=E->rat(ob.l.id),r=E->rat(ob.r.id);
                // common denominator
                Poly nl=l.n,nr=r.n; std::map<int,int> d=l.d;
                for(std::map<int,int>::iterator it=r.d.begin();it!=r.d.end();++it){ int e=d.count(it->first)?d[it->first]:0; if(it->second>e){ nl=E->reduce(pmul(nl,E->fpow(it->first,it->second-e))); d[it->first]=it->second; } }
                for(std::map<int,int>::iterator it=d.begin();it!=d.end();++it){ int e=r.d.count(it->first)?r.d[it->first]:0; if(it->second>e) nr=E->reduce(pmul(nr,E->fpow(it->first,it->second-e))); }
                nl=E->reduce(nl); nr=E->reduce(nr);
                if(ob.kind!=0)
                { Poly m(mpq_class(1)); for(std::map<int,int>::iterator it=d.begin();it!=d.end();++it) if(it->second&1) m=pmul(m,E->factors[it->first]); nl=E->reduce(pmul(nl,m)); nr=E->reduce(pmul(nr,m)); }
                for(std::map<int,int>::iterator it=d.begin();it!=d.end();++it) dens.insert(it->first);
                // fidelity of the encoding at the witness
                F vl=E->pval(nl),vr=E->pval(nr),dv=1; for(std::map<int,int>::iterator it=d.begin();it!=d.end();++it) for(int k=0;k<it->second;++k) dv*=E->pval(E->factors[it->first]);
                bool fid=true; if(ob.kind==0){ F a=vl/dv,b=ob.l.sh(); F sc=fabsq(a)+fabsq(b); F a2=vr/dv,b2=ob.r.sh(); F sc2=fabsq(a2)+fabsq(b2); fid= fabsq(a-b)<=sc*(F)1e-15+(F)1e-18 && fabsq(a2-b2)<=sc2*(F)1e-15+(F)1e-18; }
                if(!fid) throw unsupported("encoding differs from the witness value");
                line<<",\"form\":\"poly\",\"terms\":"<<nl.t.size()+nr.t.size()<<",\"l\":\""<<E->p2s(nl)<<"\",\"r\":\""<<E->p2s(nr)<<"\"}";
                if((int)E->atoms.size()>NA-4 && j>start) { os<<(first?"":",\n")<<line.str(); first=false; ++j; break; }
            }
            catch(const unsupported & e)
            {
                if(std::string(e.what()).find("too many atoms")!=std::string::npos && j>start) break;
                std::vector<int> rr; rr.push_back(ob.l.id); rr.push_back(ob.r.id);
                line<<",\"form\":\"raw\",\"why\":\""<<esc(e.what())<<"\",\"defs\":\""<<esc(rawDefs(rr,cuts))<<"\",\"l\":\""<<rawName(ob.l.id)<<"\",\"r\":\""<<rawName(ob.r.id)<<"\"}";
            }
            os<<(first?"":",\n")<<line.str(); first=false;
        }
        // assumptions in polynomial form
        std::ostringstream as; bool fa=true;
        for(size_t k=0;k<c.assumptions.size();++k)
        { try { Rat a=E->rat(c.assumptions[k].second); Poly n=a.n; for(std::map<int,int>::iterator it=a.d.begin();it!=a.d.end();++it){ if(it->second&1) n=E->reduce(pmul(n,E->factors[it->first])); dens.insert(it->first);} as<<(fa?"":",")<<"\"("<<(c.assumptions[k].first==0?"<":c.assumptions[k].first==1?"<=":"=")<<" "<<E->p2s(n)<<" 0.0)\""; fa=false; } catch(const unsupported & e){} }
        o<<(firstG?"":",\n")<<"{\"K\":"<<E->K<<",\"atoms\":["; firstG=false;
        for(size_t a=0;a<E->atoms.size();++a)
        {
            AtomInfo & at=E->atoms[a]; o<<(a?",":"")<<"{\"name\":\""<<at.name<<"\",\"kind\":"<<at.kind<<",\"val\":"<<(double)at.sh;
            if(at.kind==1) o<<",\"k\":"<<at.k<<",\"base\":\""<<E->p2s(E->factors[at.factor])<<"\"";
            if(at.kind==3) o<<",\"cos\":\""<<E->atoms[at.partner].name<<"\"";
            if(at.kind==0||at.kind==5) o<<",\"node\":"<<at.node;
            if(at.kind==5){ for(std::map<std::string,Sym>::iterator q=c.cutByName.begin();q!=c.cutByName.end();++q) if(q->second.id==at.node) o<<",\"cut\":\""<<q->first<<"\""; }
            o<<"}";
        }
        o<<"],\"dens\":["; { bool f=true; for(std::set<int>::iterator it=dens.begin();it!=dens.end();++it) if(!E->factors[*it].isConst()){ o<<(f?"":",")<<"\""<<E->p2s(E->factors[*it])<<"\""; f=false; } }
        o<<"],\"lemmas\":["; { bool f=true; for(std::map<int,int>::iterator it=E->lemmaSign.begin();it!=E->lemmaSign.end();++it) if(!E->factors[it->first].isConst()){ o<<(f?"":",")<<"{\"p\":\""<<E->p2s(E->factors[it->first])<<"\",\"s\":"<<it->second<<"}"; f=false; }
          for(std::set<int>::iterator it=E->absSigns.begin();it!=E->absSigns.end();++it){ try{ Rat r=E->rat(*it); Poly n=r.n; for(std::map<int,int>::iterator d=r.d.begin();d!=r.d.end();++d) if(d->second&1) n=E->reduce(pmul(n,E->factors[d->first])); o<<(f?"":",")<<"{\"p\":\""<<E->p2s(n)<<"\",\"s\":"<<(A().n[*it].sh<0?-1:1)<<",\"abs\":1}"; f=false; }catch(const unsupported&){} }
          for(std::set<int>::iterator it=E->minmax.begin();it!=E->minmax.end();++it){ try{ Rat r=E->radd(E->rat(A().n[*it].a),E->rat(A().n[*it].b),-1); Poly n=r.n; for(std::map<int,int>::iterator d=r.d.begin();d!=r.d.end();++d) if(d->second&1) n=E->reduce(pmul(n,E->factors[d->first])); o<<(f?"":",")<<"{\"p\":\""<<E->p2s(n)<<"\",\"s\":"<<(A().n[A().n[*it].a].sh<A().n[A().n[*it].b].sh?-1:1)<<",\"abs\":1}"; f=false; }catch(const unsupported&){} } }
        o<<"],\"assume\":["<<as.str()<<"],\"obls\":[\n"<<os.str()<<"]}";
        i=j;
    }
    o<<"],\n\"outs\":{"; { bool f=true; for(std::map<string,R>::iterator it=c.outs.begin();it!=c.outs.end();++it){ double v=(double)it->second.sh(); if(!std::isfinite(v)) v=0; o<<(f?"":",")<<"\""<<esc(it->first)<<"\":"<<v; f=false; } }
    o<<"},\"encode_s\":"<<now()-t1<<"}\n";
    o.close();
    std::cout.flush(); std::cerr.flush();
    _exit(0);
#else
    try { c.body(c); }
    catch(const std::exception & e){ status="exception"; msg=e.what(); }
    std::ofstream o(outf); o.precision(17);
    o<<"{\"case\":\""<<name<<"\",\"status\":\""<<status<<"\",\"msg\":\""<<esc(msg)<<"\",\"obls\":[";
    for(size_t i=0;i<c.obls.size();++i){ double l=c.obls[i].l,r=c.obls[i].r; bool nf=!std::isfinite(l)||!std::isfinite(r); o<<(i?",\n":"")<<"{\"name\":\""<<esc(c.obls[i].name)<<"\",\"kind\":"<<c.obls[i].kind<<",\"nan\":"<<nf<<",\"l\":"<<(std::isfinite(l)?l:0)<<",\"r\":"<<(std::isfinite(r)?r:0)<<"}"; }
    o<<"],\"outs\":{"; { bool f=true; for(std::map<string,R>::iterator it=c.outs.begin();it!=c.outs.end();++it){ double v=it->second; if(!std::isfinite(v)) v=1e300; o<<(f?"":",")<<"\""<<esc(it->first)<<"\":"<<v; f=false; } }
    o<<"}}\n"; o.close(); std::cout.flush();
    _exit(0);
#endif
}
