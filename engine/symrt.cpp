// Runtime of the symbolic executor: shadow memory, expression DAG, event trace.
#include <malloc.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <vector>
#include <string>
#include <unordered_map>
#include <exception>
#include <cmath>
#include <sys/stat.h>
typedef uint32_t u32; typedef uint64_t u64;
extern "C" {
u32 __sym_argv[32]; void *__sym_callee; u32 __sym_ret[8];
extern const char __sym_sites[] __attribute__((weak));
}
enum Kind { K_INPUT=1,K_BIN,K_UN,K_CAST,K_CMP,K_SEL,K_M1,K_M2,K_BITCAST,K_CONCAT,K_EXTRACT };
struct Node { u32 kind,op,ty,site,a,b,c,flags; u64 av,bv,cv,r; };   // ty: result type (operand type for CMP)
enum Ev { E_BRANCH=1,E_CONC,E_UNSUP,E_INPUT,E_REACH,E_IDEAL };
struct Event { u32 kind,node,site,pad; u64 val; };
static std::vector<Node> N __attribute__((init_priority(101))); static std::vector<Event> EV __attribute__((init_priority(101))); static std::vector<std::string> STR __attribute__((init_priority(101)));
struct KeyH{ size_t operator()(const Node&n)const{ u64 h=1469598103934665603ull; auto f=[&](u64 x){ h^=x; h*=1099511628211ull; h^=h>>29;}; f(n.kind|(u64)n.op<<8|(u64)n.ty<<20|(u64)n.flags<<40); f((u64)n.a<<32|n.b); f(n.c); f(n.av); f(n.bv); f(n.cv); return h; } };
struct KeyE{ bool operator()(const Node&x,const Node&y)const{ return x.kind==y.kind&&x.op==y.op&&x.ty==y.ty&&x.flags==y.flags&&x.a==y.a&&x.b==y.b&&x.c==y.c&&x.av==y.av&&x.bv==y.bv&&x.cv==y.cv; } };
static std::unordered_map<Node,u32,KeyH,KeyE> CONS __attribute__((init_priority(101)));
static std::unordered_map<std::string,u64> INPUT __attribute__((init_priority(101))); static std::unordered_map<std::string,int> INCNT __attribute__((init_priority(101)));
static std::unordered_map<u32,int> FORCE __attribute__((init_priority(101)));
static u64 steps=0, steplimit=200000000ull; static u32 ideal=0; static bool finished=false; static size_t maxnodes=4000000;
static std::string tracePath __attribute__((init_priority(101))); static int status=6; static std::string msg __attribute__((init_priority(101)));

static u32 tysize(u32 ty){ if(ty==200) return 8; return ty<=8?1:ty<=16?2:ty<=32?4:8; }
static void finish(int st,const char*m);
static u32 mk(Node n){
  n.flags|=ideal;
  auto it=CONS.find(n); if(it!=CONS.end()) return it->second;
  if(N.size()>=maxnodes) finish(7,"node limit");
  N.push_back(n); u32 id=N.size(); CONS.emplace(n,id); return id;
}
static Node& nd(u32 id){ return N[id-1]; }
// operand of type ty: insert bitcast when the node's type differs
static u32 nty(u32 id){ Node&n=nd(id); return n.kind==K_CMP?1:n.ty; }
static u32 op(u32 id,u32 ty,u64 v){ if(!id) return 0; u32 t=nty(id); if(t==ty) return id; Node n{}; n.kind=K_BITCAST; n.op=t; n.ty=ty; n.a=id; n.av=nd(id).r; n.r=v; return mk(n); }

// ---- shadow memory
static u32 **L1[1<<18];
static inline u32* page(u64 a,bool create){
  u64 i=(a>>30)&0x3ffff,j=(a>>12)&0x3ffff;
  if(!L1[i]){ if(!create) return nullptr; L1[i]=(u32**)calloc(1<<18,sizeof(u32*)); }
  u32*p=L1[i][j]; if(!p&&create) p=L1[i][j]=(u32*)calloc(4096,sizeof(u32));
  return p;
}
static inline u32 get(u64 a){ u32*p=page(a,false); return p?p[a&4095]:0; }
static inline void put(u64 a,u32 s){ page(a,true)[a&4095]=s; }
static u64 maskv(u64 v,u32 sz){ return sz>=8?v:v&((1ull<<(8*sz))-1); }
// keep bytes [off,off+len) of the value q, whose first byte lies at base
static void keep(u64 base,u32 q,u32 off,u32 len){
  while(len){
    u32 w=len>=4?4:len>=2?2:1; u64 v=maskv(nd(q).r>>(8*off),w); u32 s=0;
    if(nd(q).kind==K_CONCAT&&w==4&&(off==0||off==4)) s=off?nd(q).b:nd(q).a;
    else if(nd(q).kind==K_CONCAT&&((off<4&&off+w<=4&&!nd(q).a)||(off>=4&&!nd(q).b))) s=0;
    else { Node e{}; e.kind=K_EXTRACT; e.op=off; e.ty=8*w; e.a=q; e.av=nd(q).r; e.r=v; s=mk(e); }
    if(s) put(base+off,s);
    off+=w; len-=w;
  }
}
static void clr(u64 a,u64 n){
  u64 e=a+n; u64 kb=0; u32 kq=0;
  // entries starting before a that reach into it: the bytes not overwritten stay symbolic
  for(u64 k=1;k<8;k++){ u32*p=page(a-k,false); if(!p) continue; u32 s=p[(a-k)&4095]; u32 sz=s?tysize(nty(s)):0;
    if(s&&sz>k){ p[(a-k)&4095]=0; keep(a-k,s,0,k); if(sz>k+n) keep(a-k,s,k+n,sz-k-n); } }
  for(u64 x=e-(n<7?n:7);x<e;x++){ u32 s=get(x); if(s&&x+tysize(nty(s))>e){ kb=x; kq=s; } }
  for(u64 x=a;x<e;){ u32*p=page(x,false); u64 pe=(x|4095)+1; if(pe>e) pe=e; if(p) memset(p+(x&4095),0,(pe-x)*4); x=pe; }
  if(kq) keep(kb,kq,e-kb,kb+tysize(nty(kq))-e);
}
static bool anyShadow(u64 a,u64 n){ for(u64 k=0;k<n;k++) if(get(a+k)) return true; for(u64 k=1;k<8;k++){ u32 s=get(a-k); if(s&&tysize(nty(s))>k) return true; } return false; }
extern "C" {
void __sym_conc(u32 s,u64 val,u32 site);
void __sym_store(void*p,u64 n,u32 s,u64 v){
  u64 a=(u64)p; if(!L1[(a>>30)&0x3ffff]&&!s) return;
  clr(a,n); if(s) put(a,s);
}
static u64 rd(u64 a,u32 n){ u64 v=0; memcpy(&v,(void*)a,n); return v; }
static bool live(u64 a,u32 s){ u32 sz=tysize(nty(s)); return maskv(rd(a,sz),sz)==maskv(nd(s).r,sz); }
u32 __sym_load(void*p,u64 n,u32 ty,u64 v){
  u64 a=(u64)p; if(!L1[(a>>30)&0x3ffff]) return 0;
  u32 s=get(a);
  if(s&&tysize(nty(s))==n){ if(!live(a,s)){ put(a,0); return 0; } return s; }
  if(!s&&!anyShadow(a,n)) return 0;
  if(s&&tysize(nty(s))>n){ // low part of a larger value
    if(!live(a,s)) return 0;
    if(nd(s).kind==K_CONCAT&&n==4) return nd(s).a;
    Node e{}; e.kind=K_EXTRACT; e.op=0; e.ty=8*n; e.a=s; e.av=nd(s).r; e.r=v; return mk(e);
  }
  for(u64 k=1;k<8;k++){ u32 q=get(a-k); if(q&&tysize(nty(q))>=k+n){ if(!live(a-k,q)) return 0; if(nd(q).kind==K_CONCAT&&n==4&&k==4) return nd(q).b; Node e{}; e.kind=K_EXTRACT; e.op=k; e.ty=8*n; e.a=q; e.av=nd(q).r; e.r=v; return mk(e);} }
  if(n==8){ u32 lo=get(a),hi=get(a+4);
    if(lo&&(tysize(nty(lo))!=4||!live(a,lo))) lo=0; if(hi&&(tysize(nty(hi))!=4||!live(a+4,hi))) hi=0;
    bool other=false; for(int k=1;k<8;k++) if(k!=4&&get(a+k)) other=true;
    if(!other){ if(!lo&&!hi) return 0; Node c{}; c.kind=K_CONCAT; c.ty=64; c.a=lo; c.b=hi; c.av=rd(a,4); c.bv=rd(a+4,4); c.r=v; return mk(c); } }
  // anything else: pin the parts
  for(u64 k=0;k<n;k++){ u32 q=get(a+k); if(q&&live(a+k,q)) __sym_conc(q,nd(q).r,0); }
  return 0;
}
void __sym_memset(void*p,u64 n){ clr((u64)p,n); }
void __sym_free(void*p){ if(p) clr((u64)p,malloc_usable_size(p)); }
void __sym_memcpy(void*d,void*s,u64 n){
  u64 D=(u64)d,S=(u64)s; if(D==S||!n) return;
  static std::vector<std::pair<u64,u32>> tmp; tmp.clear();
  u64 a=S,e=S+n; while(a<e){ u32*p=page(a,false); u64 pe=(a|4095)+1; if(pe>e) pe=e; if(p) for(u64 x=a;x<pe;x++) if(u32 q=p[x&4095]) tmp.push_back({x-S,q}); a=pe; }
  clr(D,n); for(auto&t:tmp) put(D+t.first,t.second);
}
void __sym_realloc(void*o,void*nw,u64 n){ // contents already moved by libc; copy shadow then invalidate by value
  if(o&&nw&&o!=nw) { for(u64 k=0;k<n;k++){ u32 q=get((u64)o+k); put((u64)nw+k,q); } }
}
void __sym_chk(void*p,u64 n){ u64 a=(u64)p; for(u64 k=0;k<n;k++){ u32 q=get(a+k); if(q&&live(a+k,q)) __sym_conc(q,nd(q).r,0); } }
void __sym_ios(void*p){ if(!p) return; long*vt=*(long**)p; if(!vt) return; char*ios=(char*)p+vt[-3]; __sym_chk(ios+8,24); } // precision, width, flags of a stream
u32 __sym_bin(u32 o,u32 ty,u64 a,u32 sa,u64 b,u32 sb,u64 r,u32 site){
  if(!sa&&!sb) return 0;
  sa=op(sa,ty,a); sb=op(sb,ty,b);
  Node n{}; n.kind=K_BIN; n.op=o; n.ty=ty; n.a=sa; n.b=sb; n.av=a; n.bv=b; n.r=r; n.site=site; return mk(n);
}
u32 __sym_un(u32 o,u64 a,u32 sa,u64 r,u32 site){ if(!sa) return 0; sa=op(sa,200,a); Node n{}; n.kind=K_UN; n.op=o; n.ty=200; n.a=sa; n.av=a; n.r=r; n.site=site; return mk(n); }
u32 __sym_cast(u32 o,u32 f,u32 t,u64 a,u32 sa,u64 r,u32 site){
  if(!sa) return 0; sa=op(sa,f,a);
  if(o==49/*BitCast*/){ return op(sa,t,r); }
  Node n{}; n.kind=K_CAST; n.op=o; n.ty=t; n.c=0; n.cv=f; n.a=sa; n.av=a; n.r=r; n.site=site; return mk(n);
}
u64 __sym_cmp(u32 pred,u32 ty,u64 a,u32 sa,u64 b,u32 sb,u64 r,u32 site){
  if(!sa&&!sb) return r<<32;
  sa=op(sa,ty,a); sb=op(sb,ty,b);
  if(sa&&sa==sb&&ty!=200){ return r<<32; }
  Node n{}; n.kind=K_CMP; n.op=pred; n.ty=ty; n.a=sa; n.b=sb; n.av=a; n.bv=b; n.r=r; n.site=site;
  u32 id=mk(n);
  if(ty==200&&!FORCE.empty()){ auto it=FORCE.find(id); if(it!=FORCE.end()){ nd(id).r=it->second; } }
  return (u64)id|(u64)(nd(id).r&1)<<32;
}
u32 __sym_select(u32 c,u32 sc,u64 a,u32 sa,u64 b,u32 sb,u32 ty,u64 r,u32 site){
  if(!sc) return c?sa:sb;
  if(!sa&&!sb&&a==b) return 0;
  sa=op(sa,ty,a); sb=op(sb,ty,b);
  if(sa&&sa==sb) return sa;
  Node n{}; n.kind=K_SEL; n.op=0; n.ty=ty; n.a=sa; n.b=sb; n.c=sc; n.av=a; n.bv=b; n.cv=c; n.r=r; n.site=site; return mk(n);
}
u32 __sym_math1(u32 k,u64 a,u32 sa,u64 r,u32 site){ if(!sa) return 0; sa=op(sa,200,a); Node n{}; n.kind=K_M1; n.op=k; n.ty=200; n.a=sa; n.av=a; n.r=r; n.site=site; return mk(n); }
u32 __sym_math2(u32 k,u64 a,u32 sa,u64 b,u32 sb,u64 r,u32 site){ if(!sa&&!sb) return 0; sa=op(sa,200,a); sb=op(sb,200,b); Node n{}; n.kind=K_M2; n.op=k; n.ty=200; n.a=sa; n.b=sb; n.av=a; n.bv=b; n.r=r; n.site=site; return mk(n); }
void __sym_branch(u32 s,bool taken,u32 site){ if(!s) return; EV.push_back({E_BRANCH,s,site,0,taken}); }
void __sym_conc(u32 s,u64 val,u32 site){ if(!s) return; if(site==~0u){ EV.push_back({E_UNSUP,s,0,0,val}); return; } EV.push_back({E_CONC,s,site,0,val}); }
// memcmp/bcmp word by word; without eqonly the first differing word is pinned as well
void __sym_memcmp(void*p,void*q,u64 n,u32 eqonly,u32 site){
  u64 a=(u64)p,b=(u64)q,i=0;
  while(i<n){
    if(!anyShadow(a+i,1)&&!anyShadow(b+i,1)){ if(*(char*)(a+i)!=*(char*)(b+i)) return; i++; continue; }
    u32 w=1; for(u64 x:{a+i,b+i}){ u32 s=get(x); if(s&&tysize(nty(s))>w) w=tysize(nty(s)); }
    while(w>n-i) w/=2;
    u64 av=rd(a+i,w),bv=rd(b+i,w); u32 sa=__sym_load((void*)(a+i),w,8*w,av),sb=__sym_load((void*)(b+i),w,8*w,bv);
    if(!sa&&!sb){ if(av!=bv) return; i+=w; continue; }
    u64 r=__sym_cmp(32,8*w,av,sa,bv,sb,av==bv,site); __sym_branch((u32)r,av==bv,site);
    if(av!=bv){ if(!eqonly){ __sym_conc(sa,av,site); __sym_conc(sb,bv,site); } return; }
    i+=w;
  }
}
void __sym_step(){ if(++steps>steplimit) finish(5,"step limit"); }
}
static void wr(FILE*f,const void*p,size_t n){ fwrite(p,1,n,f); }
static void finish(int st,const char*m){
  if(finished) _exit(3); finished=true;
  if(!tracePath.empty()){
    FILE*f=fopen(tracePath.c_str(),"wb"); if(f){
      u32 h[8]={0x53594d32,(u32)st,(u32)N.size(),(u32)EV.size(),(u32)STR.size(),(u32)strlen(m),(u32)(steps>0xffffffffull?0xffffffffu:steps),0};
      wr(f,h,sizeof h); wr(f,m,strlen(m)); for(auto&s:STR){ u32 l=s.size(); wr(f,&l,4); wr(f,s.data(),l); }
      wr(f,N.data(),N.size()*sizeof(Node)); wr(f,EV.data(),EV.size()*sizeof(Event)); fclose(f); } }
  _exit(st==0?0:10+st);
}
// used by the builds with AddressSanitizer only
static volatile bool memerr=false;
extern "C" __attribute__((used,visibility("default"))) const char*__asan_default_options(){ return "abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:symbolize=0:quarantine_size_mb=64"; }
extern "C" __attribute__((used,visibility("default"))) void __asan_on_error(){ memerr=true; }
static void sig(int s){ char b[64]; snprintf(b,64,memerr?"memory error":"signal %d",s); finish(4,b); }
static void term(){ const char*m="uncaught exception"; try{ auto e=std::current_exception(); if(e) std::rethrow_exception(e); } catch(std::exception&e){ static std::string t; t=std::string("uncaught exception: ")+e.what(); m=t.c_str(); } catch(...){} finish(3,m); }
static void atex(){ if(!finished) finish(6,"exit without sym_done"); }
__attribute__((constructor(102))) static void init(){
  const char*i=getenv("SYM_INPUT"); const char*t=getenv("SYM_TRACE"); if(t) tracePath=t;
  if(const char*l=getenv("SYM_STEPS")) steplimit=strtoull(l,0,10);
  if(i){ FILE*f=fopen(i,"r"); if(f){ char k[256]; char v[256]; while(fscanf(f,"%255s %255s",k,v)==2){ if(!strcmp(k,"!force")){ char w[64]; if(fscanf(f,"%63s",w)==1) FORCE[strtoul(v,0,10)]=atoi(w); } else INPUT[k]=strtoull(v,0,0); } fclose(f);} }
  N.reserve(1<<16);
  static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=sig; sa.sa_flags=SA_ONSTACK;
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM}) sigaction(s,&sa,0);
  std::set_terminate(term); atexit(atex);
}
static std::string uniq(const char*n){ int c=INCNT[n]++; if(!c) return n; return std::string(n)+"#"+std::to_string(c); }
static u32 input(const std::string&nm,u32 ty,u64 v,int64_t lo,int64_t hi,u32 opk){
  STR.push_back(nm); Node n{}; n.kind=K_INPUT; n.op=opk; n.ty=ty; n.c=STR.size(); n.av=(u64)lo; n.bv=(u64)hi; n.r=v; u32 id=mk(n); EV.push_back({E_INPUT,id,0,0,v}); return id; }
extern "C" {
int64_t sym_int(const char*name,int64_t lo,int64_t hi){
  std::string nm=uniq(name); auto it=INPUT.find(nm); int64_t v=it==INPUT.end()?lo:(int64_t)it->second; if(v<lo) v=lo; if(v>hi) v=hi;
  if(lo==hi){ __sym_ret[0]=0; return v; }
  __sym_ret[0]=input(nm,64,(u64)v,lo,hi,1); return v; }
double sym_f64(const char*name){ std::string nm=uniq(name); auto it=INPUT.find(nm); u64 v=it==INPUT.end()?0:it->second; __sym_ret[0]=input(nm,200,v,0,0,2); double d; memcpy(&d,&v,8); return d; }
u32 sym_u32(const char*name){ std::string nm=uniq(name); auto it=INPUT.find(nm); u32 v=it==INPUT.end()?0:(u32)it->second; __sym_ret[0]=input(nm,32,v,0,0,2); return v; }
u64 sym_u64(const char*name){ std::string nm=uniq(name); auto it=INPUT.find(nm); u64 v=it==INPUT.end()?0:it->second; __sym_ret[0]=input(nm,64,v,0,0,2); return v; }
void sym_violation(const char*m){ finish(1,m); abort(); }
void sym_reject(){ finish(2,"assume"); abort(); }
void sym_done(){ finish(0,""); abort(); }
void sym_reach(const char*t){ STR.push_back(t); EV.push_back({E_REACH,0,0,0,STR.size()}); }
void sym_ideal(int on){ ideal=on?1:0; }
void sym_note(const char*,double){}
}
