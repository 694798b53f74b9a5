// Scenario parsing and oracles for generated meshes.
#pragma once
#include "tmpl.h"
#include <delynoi/models/Region.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
// "s1.7.1.7" symbolic point, "f3.4" fixed point, "x1.7.4" symbolic x, "y3.1.7" symbolic y, "d1.7" symbolic point on the diagonal, "gX.Y.DX.DY.NX.NY" fixed uneven grid of NX*NY points; joined by '/'
static int g_np=0;
// the library sees coordinates p*g_s+(g_ox,g_oy); oracles work on the original ones
static double g_s=1,g_ox=0,g_oy=0;
static inline Pts to_lib(const Pts&p){ if(g_s==1&&g_ox==0&&g_oy==0) return p; Pts r; for(auto&q:p) r.push_back(Point(q.getX()*g_s+g_ox,q.getY()*g_s+g_oy)); return r; }
static inline Pts from_lib(const Pts&p){ if(g_s==1&&g_ox==0&&g_oy==0) return p; Pts r; double k=1/g_s; for(auto&q:p) r.push_back(Point((q.getX()-g_ox)*k,(q.getY()-g_oy)*k)); return r; }
static inline double nextnum(const char*&s){ char*e; double v=(double)strtol(s,&e,10); s=*e=='.'?e+1:e; return v; }
static inline double sy(const char*p,double lo,double hi){ char b[16]; snprintf(b,16,"%s%d",p,g_np); return (double)sym_int(b,(int64_t)lo,(int64_t)hi); }
static inline Pts points_of(const std::string&spec,double u=1){ Pts r; const char*s=spec.c_str();
  while(*s){ char c=*s++; double a,b,d,e;
    if(c=='s'){ a=nextnum(s); b=nextnum(s); d=nextnum(s); e=nextnum(s); double x=sy("x",a,b),y=sy("y",d,e); r.push_back(Point(x*u,y*u)); g_np++; }
    else if(c=='f'){ a=nextnum(s); b=nextnum(s); r.push_back(Point(a*u,b*u)); }
    else if(c=='x'){ a=nextnum(s); b=nextnum(s); d=nextnum(s); double x=sy("x",a,b); r.push_back(Point(x*u,d*u)); g_np++; }
    else if(c=='y'){ a=nextnum(s); b=nextnum(s); d=nextnum(s); double y=sy("y",b,d); r.push_back(Point(a*u,y*u)); g_np++; }
    else if(c=='d'){ a=nextnum(s); b=nextnum(s); double t=sy("t",a,b); r.push_back(Point(t*u,t*u)); g_np++; }
    else if(c=='g'){ double x=nextnum(s),y=nextnum(s),dx=nextnum(s),dy=nextnum(s),nx=nextnum(s),ny=nextnum(s); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) r.push_back(Point((x+i*dx+(i*7+j*5)%3-1)*u,(y+j*dy+(i*5+j*3+i*j)%3-1)*u)); }
    while(*s=='/') s++; }
  return r; }
// holes: "rX0.X1.Y0.Y1.W.H" rectangle with symbolic lower left corner, "RX.Y.W.H" fixed, "tX.Y" fixed triangle, "wX.Y.W0.W1.H0.H1" symbolic size, "cX0.X1.Y0.Y1.R" circle with symbolic centre, "CX.Y.R" fixed circle; joined by '/'
struct HoleIn { Pts pts; Hole hole; };
static inline Pts rect(double x,double y,double w,double h){ Pts p; p.push_back(Point(x,y)); p.push_back(Point(x+w,y)); p.push_back(Point(x+w,y+h)); p.push_back(Point(x,y+h)); return p; }
static inline std::vector<HoleIn> holes_of(const std::string&spec){ std::vector<HoleIn> r; const char*s=spec.c_str();
  while(*s&&*s!='-'){ char c=*s++; HoleIn h;
    if(c=='c'||c=='C'){ double x,y,R; if(c=='c'){ double a=nextnum(s),b=nextnum(s),d=nextnum(s),e=nextnum(s); R=nextnum(s); x=sy("cx",a,b); y=sy("cy",d,e); g_np++; } else { x=nextnum(s); y=nextnum(s); R=nextnum(s); }
      CircularHole ch(Point(x*g_s+g_ox,y*g_s+g_oy),R*g_s); h.pts=from_lib(ch.getPoints()); h.hole=ch; }
    else { if(c=='r'){ double a=nextnum(s),b=nextnum(s),d=nextnum(s),e=nextnum(s),w=nextnum(s),hh=nextnum(s); double x=sy("hx",a,b),y=sy("hy",d,e); g_np++; h.pts=rect(x,y,w,hh); }
      else if(c=='R'){ double x=nextnum(s),y=nextnum(s),w=nextnum(s),hh=nextnum(s); h.pts=rect(x,y,w,hh); }
      else if(c=='w'){ double x=nextnum(s),y=nextnum(s),a=nextnum(s),b=nextnum(s),d=nextnum(s),e=nextnum(s); double w=sy("hw",a,b),hh=sy("hh",d,e); g_np++; h.pts=rect(x,y,w,hh); }
      else if(c=='t'){ double x=nextnum(s),y=nextnum(s); h.pts.push_back(Point(x,y)); h.pts.push_back(Point(x+3,y+1)); h.pts.push_back(Point(x+1,y+3)); }
      else if(c=='P'||c=='p'){ double x=0,y=0; if(c=='p'){ double a=nextnum(s),b=nextnum(s),d=nextnum(s),e=nextnum(s); x=sy("hx",a,b); y=sy("hy",d,e); g_np++; } while(*s&&*s!='/'&&*s!='!'){ double a=nextnum(s),b=nextnum(s); h.pts.push_back(Point(a+x,b+y)); } } // fixed corners; 'p': all moved by the same symbolic vector
      else if(c=='D'){ double x=nextnum(s),y=nextnum(s),w=nextnum(s); h.pts.push_back(Point(x,y-w)); h.pts.push_back(Point(x+w,y)); h.pts.push_back(Point(x,y+w)); h.pts.push_back(Point(x-w,y)); }
      if(*s=='!'){ s++; h.pts=rev(h.pts); } // clockwise
      Pts q=to_lib(h.pts); PolygonalHole ph(q); h.hole=ph; }
    r.push_back(h); while(*s=='/') s++; }
  return r; }
typedef std::pair<int,int> Dir;
template<class T> static std::vector<std::vector<int>> cells(Mesh<T>&m){ std::vector<std::vector<int>> r; for(auto&c:m.getPolygons()) r.push_back(c.getPoints()); return r; }
// on the closed segment up to 1e-6
static inline bool orc_ont(const Point&a,const Point&b,const Point&q){ double o=orc_o(a,b,q); if(!(o<1e-5&&o>-1e-5)) return false;
  double x0=a.getX(),x1=b.getX(),y0=a.getY(),y1=b.getY(),x=q.getX(),y=q.getY(); if(x0>x1) std::swap(x0,x1); if(y0>y1) std::swap(y0,y1); return (x>=x0-1e-6)&(x<=x1+1e-6)&(y>=y0-1e-6)&(y<=y1+1e-6); }
static inline bool orc_onbt(const Pts&p,const Point&q){ size_t n=p.size(); for(size_t i=0;i<n;i++) if(orc_ont(p[i],p[(i+1)%n],q)) return true; return false; }
// p and q lie on a straight stretch of the outline (possibly over several collinear sides)
static inline bool orc_along(const Pts&o,const Point&p,const Point&q){ size_t n=o.size();
  for(size_t i=0;i<n;i++){ if(!orc_ont(o[i],o[(i+1)%n],p)) continue;
    for(size_t k=0;k<n;k++){ const Point&u=o[(i+k)%n],&v=o[(i+k+1)%n]; if(orc_ont(u,v,q)) return true; if(!orc_ont(p,q,v)) break; }
    for(size_t k=0;k<n;k++){ const Point&u=o[(i+n-k)%n],&v=o[(i+n-k+1)%n]; if(orc_ont(u,v,q)) return true; if(!orc_ont(p,q,u)) break; } }
  return false; }
// the polygons (index lists over pts) are positively oriented, do not overlap and cover outline minus holes
static inline void check_tiling(const Pts&pts,const std::vector<std::vector<int>>&cs,const Pts&outline,const std::vector<HoleIn>&holes,const char*what){
  Ideal I; static char m[200]; std::map<Dir,int> dir;
  #define MSG(t) (snprintf(m,200,"%s: %s",what,t),m)
  for(auto&c:cs){ int n=(int)c.size(); sym_assert(n>=3,MSG("polygon with fewer than three corners")); std::set<int> s(c.begin(),c.end()); sym_assert((int)s.size()==n,MSG("repeated corner"));
    for(int i:c) sym_assert(i>=0&&i<(int)pts.size(),MSG("corner index out of range"));
    bool apart=true; for(int i=0;i<n;i++){ const Point&p=pts[c[i]],&q=pts[c[(i+1)%n]]; apart=apart&!(near_(p.getX(),q.getX(),1e-8)&near_(p.getY(),q.getY(),1e-8)); } sym_assert(apart,MSG("consecutive corners of a polygon coincide"));
    double a=0; for(int i=0;i<n;i++){ const Point&p=pts[c[i]],&q=pts[c[(i+1)%n]]; if(i>=1&&i+1<n) a+=orc_o(pts[c[0]],p,q); sym_assert(dir[Dir(c[i],c[(i+1)%n])]++==0,MSG("two polygons on the same side of an edge")); }
    sym_assert(a>0,MSG("polygon without positive area")); }
  double A=0,W=orc_area2(outline); for(auto&h:holes){ double x=orc_area2(h.pts); W-=x<0?-x:x; }
  for(auto&d:dir){ Dir r(d.first.second,d.first.first); if(dir.count(r)) continue;
    const Point&p=pts[d.first.first],&q=pts[d.first.second]; A+=p.getX()*q.getY()-q.getX()*p.getY();
    bool on=orc_along(outline,p,q); for(auto&h:holes) if(!on) on=orc_along(h.pts,p,q);
    sym_assert(on,MSG("unmatched side off the boundary")); }
  sym_assert(near_(A,W,1e-6),MSG("areas do not add up to the area of the region"));
}
static inline double orc_incircle(const Point&a,const Point&b,const Point&c,const Point&d){ // >0: d inside the circle through a,b,c (counter-clockwise)
  double ax=a.getX()-d.getX(),ay=a.getY()-d.getY(),bx=b.getX()-d.getX(),by=b.getY()-d.getY(),cx=c.getX()-d.getX(),cy=c.getY()-d.getY();
  return (ax*ax+ay*ay)*(bx*cy-cx*by)-(bx*bx+by*by)*(ax*cy-cx*ay)+(cx*cx+cy*cy)*(ax*by-bx*ay); }
static inline int find_pt(const Pts&pts,const Point&p){ for(size_t i=0;i<pts.size();i++) if(same(pts[i],p)) return (int)i; return -1; }
