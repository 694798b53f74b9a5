// Numbers in files stay symbolic: writing a double or an int into a stream writes a token that stands for the value,
// and the parsers turn a token back into the value.  The formatting of numbers itself is the standard library's.
#pragma once
#include "common.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
struct Tok { bool dbl; double d; long i; int prec; bool fixed; };
static std::vector<Tok>&toks(){ static std::vector<Tok>*t=new std::vector<Tok>; return *t; }
static int tok_on=0;
static std::string tok_str(size_t k){ char b[32]; snprintf(b,32,"#%d#",(int)k); return b; }
static std::string tok_d(double v,int prec=-1,bool fixed=false){ Tok t; t.dbl=true; t.d=v; t.i=0; t.prec=prec; t.fixed=fixed; toks().push_back(t); return tok_str(toks().size()-1); }
static std::string tok_i(long v){ Tok t; t.dbl=false; t.d=0; t.i=v; t.prec=-1; t.fixed=false; toks().push_back(t); return tok_str(toks().size()-1); }
static bool tok_of(const char*s,const char**end,Tok&t){ while(*s==' '||*s=='\t'||*s=='\r') s++; if(*s!='#') return false; char*e; long k=strtol(s+1,&e,10); if(*e!='#'||k<0||k>=(long)toks().size()) return false; t=toks()[k]; if(end) *end=e+1; return true; }
static std::ostream& put(std::ostream*o,const char*b){ o->write(b,(std::streamsize)strlen(b)); return *o; }
__attribute__((used)) std::ostream& tok_insd(std::ostream*o,double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
std::ostream& tok_insd(std::ostream*o,double v){ bool fx=(o->flags()&std::ios_base::floatfield)==std::ios_base::fixed; int p=(int)o->precision(); if(tok_on==1) return put(o,tok_d(v,p,fx).c_str()); char b[400]; if(fx) snprintf(b,400,"%.*f",p,v); else snprintf(b,400,"%.*g",p,v); return put(o,b); }
__attribute__((used)) std::ostream& tok_insi(std::ostream*o,int v) __asm__("_ZNSolsEi");
std::ostream& tok_insi(std::ostream*o,int v){ if(tok_on==1) return put(o,tok_i(v).c_str()); char b[32]; snprintf(b,32,"%d",v); return put(o,b); }
static double tok_strtod(const char*s,const char**e){ Tok t; const char*q; if(tok_of(s,&q,t)){ if(e) *e=q; return t.dbl?t.d:(double)t.i; } return (double)strtof64(s,(char**)e); }
static long tok_strtol(const char*s,const char**e){ Tok t; const char*q; if(tok_of(s,&q,t)){ if(e) *e=q; return t.dbl?(long)t.d:t.i; } q=s; while(*q==' '||*q=='\t'||*q=='\n'||*q=='\r') q++; bool n=*q=='-'; if(n||*q=='+') q++; if(*q<'0'||*q>'9'){ if(e) *e=s; return 0; } long v=0; while(*q>='0'&&*q<='9') v=v*10+(*q++-'0'); if(e) *e=q; return n?-v:v; }
extern "C" {
__attribute__((used)) double tok_f1(const char*s,const char**e) __asm__("strtod"); double tok_f1(const char*s,const char**e){ return tok_strtod(s,e); }
__attribute__((used)) double tok_f2(const char*s) __asm__("atof"); double tok_f2(const char*s){ return tok_strtod(s,0); }
__attribute__((used)) long tok_f3(const char*s,const char**e,int) __asm__("strtol"); long tok_f3(const char*s,const char**e,int){ return tok_strtol(s,e); }
__attribute__((used)) long tok_f4(const char*s,const char**e,int) __asm__("__isoc23_strtol"); long tok_f4(const char*s,const char**e,int){ return tok_strtol(s,e); }
__attribute__((used)) int tok_f5(const char*s) __asm__("atoi"); int tok_f5(const char*s){ return (int)tok_strtol(s,0); }
}
// a scratch folder that takes the place of the home folder
struct Home { std::string dir,old; bool had; std::vector<std::string> files;
  Home(){ char d[]="/tmp/verif-io-XXXXXX"; if(!mkdtemp(d)) sym_reject(); dir=d; const char*h=getenv("HOME"); had=h!=0; old=h?h:""; setenv("HOME",d,1); }
  std::string path(const std::string&n){ return dir+"/"+n; }
  void write(const std::string&n,const std::string&text){ FILE*f=fopen(path(n).c_str(),"w"); if(!f) sym_reject(); fwrite(text.data(),1,text.size(),f); fclose(f); files.push_back(n); }
  std::vector<std::string> lines(const std::string&n,bool&ok){ std::vector<std::string> r; FILE*f=fopen(path(n).c_str(),"r"); ok=f!=0; if(!f) return r; std::string l; int c; while((c=fgetc(f))!=EOF){ if(c=='\n'){ r.push_back(l); l.clear(); } else l+=(char)c; } if(!l.empty()) r.push_back(l); fclose(f); files.push_back(n); return r; }
  void close(){ for(auto&n:files) unlink(path(n).c_str()); rmdir(dir.c_str()); if(had) setenv("HOME",old.c_str(),1); else unsetenv("HOME"); } };
static std::vector<std::string> words(const std::string&l){ std::vector<std::string> r; std::string w; for(char c:l){ if(c==' '||c=='\t'||c=='\r'){ if(!w.empty()) r.push_back(w); w.clear(); } else w+=c; } if(!w.empty()) r.push_back(w); return r; }
// the word stands for this coordinate, written with prec decimals
static bool is_coord(const std::string&w,double v,int prec){ Tok t; const char*e; if(tok_of(w.c_str(),&e,t)){ if(*e) return false; return t.dbl&&t.fixed&&t.prec==prec&&t.d==v; }
  size_t d=w.find('.'); size_t n=d==std::string::npos?0:w.size()-d-1; if((int)n!=prec||w.find_first_not_of("-0123456789.")!=std::string::npos) return false; double x=(double)strtof64(w.c_str(),0),e2=0.5000001*std::pow(10.0,-prec)+1e-15*(v<0?-v:v); return x-v<=e2&&v-x<=e2; }
// the word stands for this integer
static bool is_int(const std::string&w,long v){ Tok t; const char*e; if(tok_of(w.c_str(),&e,t)){ if(*e) return false; return !t.dbl&&t.i==v; } char*q; if(w.empty()||w.find_first_not_of("-0123456789")!=std::string::npos) return false; long x=strtol(w.c_str(),&q,10); return !*q&&x==v; }
static bool get_int(const std::string&w,long&v){ Tok t; const char*e; if(tok_of(w.c_str(),&e,t)){ if(*e||t.dbl) return false; v=t.i; return true; } char*q; if(w.empty()||w.find_first_not_of("-0123456789")!=std::string::npos) return false; v=strtol(w.c_str(),&q,10); return !*q; }
