// Concrete polygon templates (counter-clockwise, integer coordinates).
#pragma once
#include "common.h"
static const char* const TMPL[]={
 /*0 triangle*/ "0 0 8 0 3 7",
 /*1 square*/ "0 0 8 0 8 8 0 8",
 /*2 L*/ "0 0 8 0 8 4 4 4 4 8 0 8",
 /*3 comb*/ "0 0 10 0 10 6 8 6 8 2 6 2 6 6 4 6 4 2 2 2 2 6 0 6",
 /*4 star*/ "5 0 6 4 10 5 6 6 5 10 4 6 0 5 4 4",
 /*5 collinear vertices*/ "0 0 4 0 8 0 8 5 8 8 3 8 0 8 0 2",
 /*6 slanted hexagon*/ "2 0 7 1 9 5 6 9 1 7 0 3",
 /*7 notch with collinear levels*/ "0 0 9 0 9 3 6 3 6 6 9 6 9 9 0 9 0 6 3 6 3 3 0 3",
 /*8 arrow*/ "0 0 8 4 0 8 3 4",
 /*9 negative coordinates*/ "-5 -4 4 -6 6 3 -1 1 -6 5",
 /*10 thin*/ "0 0 10 1 20 0 20 1 10 2 0 1",
 /*11 zigzag*/ "0 0 3 3 6 0 9 3 12 0 12 5 9 7 6 5 3 7 0 5",
 /*12 quad*/ "1 0 9 2 7 8 0 6",
 /*13 octagon*/ "3 0 6 0 9 3 9 6 6 9 3 9 0 6 0 3",
 /*14 spiral*/ "0 0 10 0 10 10 2 10 2 4 6 4 6 6 4 6 4 8 8 8 8 2 0 2",
 /*15 comb with 8 teeth, 34 corners*/ "0 0 32 0 32 6 30 6 30 2 28 2 28 6 26 6 26 2 24 2 24 6 22 6 22 2 20 2 20 6 18 6 18 2 16 2 16 6 14 6 14 2 12 2 12 6 10 6 10 2 8 2 8 6 6 6 6 2 4 2 4 6 2 6 2 2 0 2",
 /*16 convex with 24 corners*/ "8 0 9 0 12 1 14 2 15 3 16 5 17 8 17 9 16 12 15 14 14 15 12 16 9 17 8 17 5 16 3 15 2 14 1 12 0 9 0 8 1 5 2 3 3 2 5 1",
 /*17 half disc with a deep cut*/ "0 0 20 0 23 1 25 2 28 4 29 5 31 8 32 10 33 13 33 15 32 18 31 20 29 23 28 24 25 26 5 5 0 26",
};
static const int NT=sizeof(TMPL)/sizeof(TMPL[0]);
static inline Pts tmpl(int t,double u=1,double ox=0,double oy=0){ Pts p; const char*s=TMPL[t]; char*e; while(true){ while(*s==' ') s++; if(!*s) break; double x=strtol(s,&e,10); s=e; double y=strtol(s,&e,10); s=e; p.push_back(Point(x*u+ox,y*u+oy)); } return p; }
static inline Pts rot(const Pts&p,int k){ Pts r; for(size_t i=0;i<p.size();i++) r.push_back(p[(i+k)%p.size()]); return r; }
static inline Pts rev(const Pts&p){ return Pts(p.rbegin(),p.rend()); }
static inline void box(const Pts&p,double&x0,double&x1,double&y0,double&y1){ x0=x1=p[0].getX(); y0=y1=p[0].getY(); for(auto&q:p){ if(q.getX()<x0)x0=q.getX(); if(q.getX()>x1)x1=q.getX(); if(q.getY()<y0)y0=q.getY(); if(q.getY()>y1)y1=q.getY(); } }
// two sides that are neither adjacent nor parallel share a point; a repeated corner makes no side
static inline bool orc_meets(const Pts&o){ Ideal I; int n=(int)o.size(),m; std::vector<int> k; auto sg=[](double v){ return v>0?1:v<0?-1:0; };
  for(int i=0;i<n;i++){ const Point&a=o[i],&b=o[(i+1)%n]; if(!(a.getX()==b.getX()&&a.getY()==b.getY())) k.push_back(i); } m=(int)k.size();
  for(int i=0;i<m;i++) for(int j=i+2;j<m;j++){ if(i==0&&j==m-1) continue; const Point&a=o[k[i]],&b=o[(k[i]+1)%n],&c=o[k[j]],&d=o[(k[j]+1)%n];
    double cr=(b.getX()-a.getX())*(d.getY()-c.getY())-(b.getY()-a.getY())*(d.getX()-c.getX()); if(cr==0) continue;
    int s1=sg(orc_o(a,b,c)),s2=sg(orc_o(a,b,d)); if(s1*s2>0) continue; int s3=sg(orc_o(c,d,a)),s4=sg(orc_o(c,d,b)); if(s3*s4>0) continue; return true; } return false; }
// template t, 100+t reversed, 200+t with its first corner repeated
static inline Pts tmplx(int t,double u=1){ Pts p=tmpl(t%100,u); if(t/100==1) p=rev(p); if(t/100==2) p.insert(p.begin()+1,p[0]); return p; }
