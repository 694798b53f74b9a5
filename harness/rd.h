// Reading back a file the library wrote, word by word; needs fileio.h
#pragma once
#include "fileio.h"
#include <delynoi/config/DelynoiConfig.h>
static char mb[200];
static const char*M(const char*w,const char*t){ snprintf(mb,200,"%s: %s",w,t); return mb; }
static void fail(Home&h,const char*m){ h.close(); sym_violation(m); }
static int prec_of(int p){ if(p==99) p=each((int)sym_int("prec",0,17),0,17); if(p!=6) DelynoiConfig::instance()->setPrecision(p); return p; }
// an older file of that name, longer than what is written
static void old_file(Home&h,const char*n){ std::string t; for(int i=0;i<400;i++) t+="5 7 11 13\n"; h.write(n,t); }
struct Rd { Home&h; std::vector<std::string> l; size_t k; const char*w; Rd(Home&h,const std::string&f,const char*w):h(h),k(0),w(w){ bool ok; l=h.lines(f,ok); if(!ok) fail(h,M(w,"no file written")); }
  std::vector<std::string> next(size_t n,const char*m){ if(k>=l.size()) fail(h,M(w,m)); std::vector<std::string> r=words(l[k++]); if(r.size()!=n) fail(h,M(w,m)); return r; }
  void count(long n,const char*m){ std::vector<std::string> r=next(1,m); if(!is_int(r[0],n)) fail(h,M(w,m)); }
  void point(const Point&p,int prec,const char*m){ std::vector<std::string> r=next(2,m); if(!is_coord(r[0],p.getX(),prec)||!is_coord(r[1],p.getY(),prec)) fail(h,M(w,m)); }
  void end(){ if(k!=l.size()) fail(h,M(w,"more lines than the contents")); } };
