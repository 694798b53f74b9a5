// Holes cut the region or are recorded (C07), clipping wrapper (C22).
// args: mode (hole|wrap|class), template, region unit, holes, probe ("s..", in quarters), offset, hole unit
#include "meshio.h"
#include <delynoi/models/hole/clipper/ClipperWrapper.h>
#include <delynoi/config/DelynoiConfig.h>
static int sg(double v){ return v>0?1:v<0?-1:0; }
static bool touch(const Point&a,const Point&b,const Point&c,const Point&d){ // closed segments share a point
  if(orc_on(a,b,c)||orc_on(a,b,d)||orc_on(c,d,a)||orc_on(c,d,b)) return true; return sg(orc_o(a,b,c))*sg(orc_o(a,b,d))<0&&sg(orc_o(c,d,a))*sg(orc_o(c,d,b))<0; }
static bool meet(const Pts&p,const Pts&q){ for(size_t i=0;i<p.size();i++) for(size_t j=0;j<q.size();j++) if(touch(p[i],p[(i+1)%p.size()],q[j],q[(j+1)%q.size()])) return true; return false; }
// proper crossing, or sides running along each other over some length
static bool cross(const Pts&p,const Pts&q){ for(size_t i=0;i<p.size();i++) for(size_t j=0;j<q.size();j++){ const Point&a=p[i],&b=p[(i+1)%p.size()],&c=q[j],&d=q[(j+1)%q.size()];
    if(sg(orc_o(a,b,c))*sg(orc_o(a,b,d))<0&&sg(orc_o(c,d,a))*sg(orc_o(c,d,b))<0) return true;
    int k=orc_on(a,b,c)+orc_on(a,b,d)+orc_on(c,d,a)*(!same(a,c)&&!same(a,d))+orc_on(c,d,b)*(!same(b,c)&&!same(b,d)); if(k>=2) return true; } return false; }
// contacts of the outline with a convex hole (1: what is left stays in one piece)
static int contacts(const Pts&p,const Pts&h){ int c=0; size_t n=p.size(); for(size_t i=0;i<n;i++){ const Point&a=p[i],&b=p[(i+1)%n]; bool in=orc_onb(h,a)||orc_in(h,a); bool t=in; for(size_t j=0;j<h.size()&&!t;j++) t=touch(a,b,h[j],h[(j+1)%h.size()]); c+=t; c-=in; } return c; }
static int wind(const Pts&p,const Point&q){ int w=0; size_t n=p.size(); for(size_t i=0;i<n;i++){ const Point&a=p[i],&b=p[(i+1)%n];
    if(a.getY()<=q.getY()){ if(b.getY()>q.getY()&&orc_o(a,b,q)>0) w++; } else if(b.getY()<=q.getY()&&orc_o(a,b,q)<0) w--; } return w; }
static double offx=0,offy=0;
static bool in0(Region&R,const HoleIn&g){ for(Hole h:R.getHoles()){ Pts x=h.getPoints(); if(x.size()==g.pts.size()&&x[0].getX()==g.pts[0].getX()+offx&&x[0].getY()==g.pts[0].getY()+offy) return true; } return false; }
static Pts moved(const Pts&p){ Pts r; for(auto&q:p) r.push_back(Point(q.getX()+offx,q.getY()+offy)); return r; }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"hole"); int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); std::vector<HoleIn> hs=holes_of(arg_s(argc,argv,4,"r-2.9.-2.9.3.3")); std::string pr=arg_s(argc,argv,5,"f4.4"); offx=arg_i(argc,argv,6,0); offy=-offx/2; int scale=arg_i(argc,argv,7,1);
  Pts p=tmpl(t%100,u); if(t>=100) p=rev(p); Pts probe=points_of(pr,0.25);
  if(m=="wrap"){
    Pts a=moved(p),b=moved(hs[0].pts); ClipperLib::Paths s=ClipperWrapper::polyIntersection(a,b,scale); Ideal I; const Pts&h=hs[0].pts;
    for(auto&q:probe){ if(orc_onb(p,q)||orc_onb(h,q)) sym_reject(); bool e=orc_in(p,q)&&!orc_in(h,q); int w=0; bool on=false;
      for(auto&path:s){ Pts z; for(auto&v:path) z.push_back(Point((double)v.X-scale*offx,(double)v.Y-scale*offy)); Point qs(q.getX()*scale,q.getY()*scale); w+=wind(z,qs); }
      (void)on; sym_assert(w==(e?1:0),"wrapper does not return the set difference"); sym_reach(e?"in":"out"); }
    bool mt=meet(p,h); if(!mt&&!orc_in(p,h[0])&&!orc_in(h,p[0])){ sym_reach("apart"); sym_assert(s.size()==1&&s[0].size()==p.size(),"parent outline not returned although the child does not overlap"); for(auto&q:p){ bool f=false; for(auto&v:s[0]) if((double)v.X==scale*(q.getX()+offx)&&(double)v.Y==scale*(q.getY()+offy)) f=true; sym_assert(f,"corner of the parent missing"); } }
    if(!mt&&orc_in(h,p[0])&&!orc_in(p,h[0])){ sym_reach("cover"); sym_assert(s.empty(),"something returned although the child covers the parent"); }
    if(!mt&&orc_in(p,h[0])){ sym_reach("inside"); sym_assert(s.size()==2,"outline and hole expected"); }
    sym_done(); }
  Pts rp=moved(p); Region R(rp); int rec=0; std::vector<int> kind;
  for(auto&h:hs){ Pts hp=moved(h.pts); Pts hp2(hp); PolygonalHole ph(hp2); Pts before; { Pts all=R.getRegionPoints(); before.assign(all.begin(),all.begin()+R.numberOfSides()); } Pts cur; for(auto&q:before) cur.push_back(Point(q.getX()-offx,q.getY()-offy));
    bool mt,in,loose=false; { Ideal I; mt=meet(cur,h.pts); if(mt&&!cross(cur,h.pts)) loose=true; if(mt&&!loose&&contacts(cur,h.pts)!=1) sym_reject(); for(auto&g:hs){ if(&g==&h) break; if(meet(g.pts,h.pts)&&in0(R,g)) sym_reject(); } in=orc_in(cur,h.pts[0]); }
    std::vector<Hole> old=R.getHoles();
    try { R.addHole(ph); } catch(std::invalid_argument&e){ if(loose) sym_reject(); sym_violation(mt?"hole over the boundary rejected":in?"hole inside the region rejected":"hole outside the region rejected"); }
    std::vector<Hole> now=R.getHoles(); Pts all=R.getRegionPoints(); int n=R.numberOfSides();
    if(!mt&&in){ sym_reach("inside"); sym_assert(now.size()==old.size()+1,"hole inside the region not listed"); Pts lp=now.back().getPoints(); sym_assert(lp.size()==hp.size(),"listed hole has other corners"); for(size_t i=0;i<hp.size();i++) sym_assert(same(lp[i],hp[i]),"listed hole has other corners"); sym_assert(n==(int)before.size(),"hole inside the region changes the outline"); for(int i=0;i<n;i++) sym_assert(same(all[i],before[i]),"hole inside the region changes the outline"); }
    else if(loose) sym_reach("touch");
    else { sym_assert(now.size()==old.size(),"hole over the boundary or outside is listed"); sym_reach(mt?"cut":"outside"); }
    for(size_t i=0;i<old.size();i++){ Pts x=old[i].getPoints(),y=now[i].getPoints(); sym_assert(x.size()==y.size(),"earlier hole changed"); for(size_t k=0;k<x.size();k++) sym_assert(same(x[k],y[k]),"earlier hole changed"); sym_assert(same(old[i].getCenter(),now[i].getCenter()),"earlier hole changed"); } }
  Pts all=R.getRegionPoints(); int n=R.numberOfSides(); Pts out; for(int i=0;i<n;i++) out.push_back(Point(all[i].getX()-offx,all[i].getY()-offy));
  for(auto&q:probe){ bool e,g; { Ideal I; if(orc_onb(p,q)) sym_reject(); for(auto&h:hs) if(orc_onb(h.pts,q)) sym_reject(); e=orc_in(p,q); for(auto&h:hs) if(orc_in(h.pts,q)) e=false; g=orc_in(out,q); }
    Point z(q.getX()+offx,q.getY()+offy); bool c=R.containsPoint(z); sym_assert(c==g,"region and its outline disagree"); for(Hole h:R.getHoles()) if(h.containsPoint(z)) g=false; sym_assert(g==e,"region is not the difference of the region and the holes"); sym_reach(e?"in":"out"); }
  { double A=R.getArea(all); Ideal I; double B=orc_area2(out); sym_assert(near_(2*A,B,1e-4),"area after adding holes"); }
  sym_done();
}
