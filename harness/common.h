// Shared by all harnesses: oracle arithmetic and small helpers.
#pragma once
#include "sym.h"
#include <vector>
#include <map>
#include <set>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <string>
#include <stdexcept>
#include <delynoi/models/basic/Point.h>
typedef std::vector<Point> Pts;
struct Ideal { Ideal(){ sym_ideal(1);} ~Ideal(){ sym_ideal(0);} };
static inline double orc_area2(const Pts&p){ double a=0; size_t n=p.size(); for(size_t i=0;i<n;i++) a+=p[i].getX()*p[(i+1)%n].getY()-p[(i+1)%n].getX()*p[i].getY(); return a; }
static inline double orc_o(const Point&a,const Point&b,const Point&c){ return (b.getX()-a.getX())*(c.getY()-a.getY())-(b.getY()-a.getY())*(c.getX()-a.getX()); }
static inline double orc_d2(const Point&a,const Point&b){ double x=a.getX()-b.getX(),y=a.getY()-b.getY(); return x*x+y*y; }
static inline bool same(const Point&a,const Point&b){ return a.getX()==b.getX()&&a.getY()==b.getY(); }
// point on closed segment (exact)
static inline bool orc_on(const Point&a,const Point&b,const Point&q){
  if(orc_o(a,b,q)!=0) return false;
  double x0=a.getX(),x1=b.getX(),y0=a.getY(),y1=b.getY(),x=q.getX(),y=q.getY();
  if(x0>x1) std::swap(x0,x1);
  if(y0>y1) std::swap(y0,y1);
  return x>=x0&&x<=x1&&y>=y0&&y<=y1; }
static inline bool orc_onb(const Pts&p,const Point&q){ size_t n=p.size(); for(size_t i=0;i<n;i++) if(orc_on(p[i],p[(i+1)%n],q)) return true; return false; }
// strictly inside (winding number, no division); q not on the boundary
static inline bool orc_in(const Pts&p,const Point&q){ int w=0; size_t n=p.size(); for(size_t i=0;i<n;i++){ const Point&a=p[i],&b=p[(i+1)%n];
    if(a.getY()<=q.getY()){ if(b.getY()>q.getY()&&orc_o(a,b,q)>0) w++; } else if(b.getY()<=q.getY()&&orc_o(a,b,q)<0) w--; } return w!=0; }
static inline bool near_(double a,double b,double e){ double d=a-b; return d<e&&d>-e; }
static inline int arg_i(int argc,char**argv,int k,int d){ return argc>k?atoi(argv[k]):d; }
static inline std::string arg_s(int argc,char**argv,int k,const char*d){ return argc>k?argv[k]:d; }
// one path per value: the result is concrete
static inline int each(int v,int lo,int hi){ volatile int k=lo; while(k<=hi){ if(v==k) return k; k=k+1; } sym_reject(); }
