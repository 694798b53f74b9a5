// Native replay runtime: the harness compiled against the unmodified code, inputs from a file.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <unordered_map>
#include <exception>
typedef uint32_t u32; typedef uint64_t u64;
static std::unordered_map<std::string,u64> INPUT __attribute__((init_priority(101))); static std::unordered_map<std::string,int> INCNT __attribute__((init_priority(101))); static bool loaded=false;
static void load(){ if(loaded) return; loaded=true; const char*i=getenv("SYM_INPUT"); if(!i) return; FILE*f=fopen(i,"r"); if(!f) return; char k[256],v[256]; while(fscanf(f,"%255s %255s",k,v)==2){ if(!strcmp(k,"!force")){ char w[64]; if(fscanf(f,"%63s",w)!=1) break; } else INPUT[k]=strtoull(v,0,0);} fclose(f); }
static bool fin=false;
static void finish(int st,const char*m){ if(fin) _exit(3); fin=true; if(st) printf("REPLAY status=%d %s\n",st,m); else printf("REPLAY ok\n"); fflush(stdout); _exit(st==0?0:10+st); }
// used by the builds with AddressSanitizer only
static volatile bool memerr=false;
extern "C" __attribute__((used,visibility("default"))) const char*__asan_default_options(){ return "abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:symbolize=0:quarantine_size_mb=64"; }
extern "C" __attribute__((used,visibility("default"))) void __asan_on_error(){ memerr=true; }
static void sig(int s){ char b[64]; snprintf(b,64,memerr?"memory error":"signal %d",s); finish(s==SIGALRM?5:4,b); }
static void term(){ static std::string t="uncaught exception"; try{ auto e=std::current_exception(); if(e) std::rethrow_exception(e);} catch(std::exception&e){ t=std::string("uncaught exception: ")+e.what(); } catch(...){} finish(3,t.c_str()); }
__attribute__((constructor(102))) static void init(){ 
  static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=sig; sa.sa_flags=SA_ONSTACK;
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM}) sigaction(s,&sa,0);
  std::set_terminate(term); alarm(20); atexit([]{ if(!fin) finish(6,"exit without sym_done"); }); }
static std::string uniq(const char*n){ int c=INCNT[n]++; if(!c) return n; return std::string(n)+"#"+std::to_string(c); }
extern "C" {
int64_t sym_int(const char*name,int64_t lo,int64_t hi){ load(); auto it=INPUT.find(uniq(name)); int64_t v=it==INPUT.end()?lo:(int64_t)it->second; if(v<lo)v=lo; if(v>hi)v=hi; if(getenv("SYM_SHOW")) printf("input %s = %lld\n",name,(long long)v); return v; }
double sym_f64(const char*name){ load(); auto it=INPUT.find(uniq(name)); u64 v=it==INPUT.end()?0:it->second; double d; memcpy(&d,&v,8); if(getenv("SYM_SHOW")) printf("input %s = %.17g\n",name,d); return d; }
u32 sym_u32(const char*name){ load(); auto it=INPUT.find(uniq(name)); return it==INPUT.end()?0:(u32)it->second; }
u64 sym_u64(const char*name){ load(); auto it=INPUT.find(uniq(name)); return it==INPUT.end()?0:it->second; }
void sym_violation(const char*m){ finish(1,m); abort(); }
void sym_reject(){ finish(2,"assume"); abort(); }
void sym_done(){ finish(0,""); abort(); }
void sym_reach(const char*){}
void sym_ideal(int){}
void sym_note(const char*k,double v){ if(getenv("SYM_SHOW")) printf("note %s = %.17g\n",k,v); }
}
