// Polygon triangulators (C16).  args: ear|center|delaunay|delown (the list holds only the polygon's corners), template (100+: reversed), symbolic corners "c.c", window, offset, unit, start corner
#include "tmpl.h"
#include <map>
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
typedef std::pair<int,int> Dir;
static int sg(double v){ return v>0?1:v<0?-1:0; }
static bool simple(const Pts&o){ int n=(int)o.size(); for(int i=0;i<n;i++){ if(orc_o(o[i],o[(i+1)%n],o[(i+2)%n])==0) return false; }
  for(int i=0;i<n;i++) for(int j=i+2;j<n;j++){ if(i==0&&j==n-1) continue; const Point&a=o[i],&b=o[(i+1)%n],&c=o[j],&d=o[(j+1)%n];
    int s1=sg(orc_o(a,b,c)),s2=sg(orc_o(a,b,d)); if(s1*s2>0) continue; int s3=sg(orc_o(c,d,a)),s4=sg(orc_o(c,d,b)); if(s3*s4>0) continue;
    if(s1==0&&s2==0&&s3==0&&s4==0){ if(!orc_on(a,b,c)&&!orc_on(a,b,d)&&!orc_on(c,d,a)&&!orc_on(c,d,b)) continue; } return false; } return true; }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"ear"); int t=arg_i(argc,argv,2,0); std::string cs=arg_s(argc,argv,3,"0"); int w=arg_i(argc,argv,4,3); double off=arg_i(argc,argv,5,0),u=std::strtod(arg_s(argc,argv,6,"1").c_str(),0); int st=arg_i(argc,argv,7,0);
  Pts p=tmpl(t%100); int n=(int)p.size(); const char*s=cs.c_str(); int k=0;
  while(*s&&*s!='-'){ char*e; int c=(int)strtol(s,&e,10)%n; s=*e?e+1:e; char a[8],b[8]; snprintf(a,8,"x%d",k); snprintf(b,8,"y%d",k); k++; double x=(double)sym_int(a,(int)p[c].getX()-w,(int)p[c].getX()+w),y=(double)sym_int(b,(int)p[c].getY()-w,(int)p[c].getY()+w); p[c]=Point(x,y); }
  if(t>=100) p=rev(p); p=rot(p,st); double A; { Ideal I; if(!simple(p)) sym_reject(); A=orc_area2(p); }
  for(auto&q:p) q=Point((q.getX()+off)*u,(q.getY()-off)*u);
  bool own=m=="delown"; if(own) m="delaunay"; Pts list; std::vector<int> idx;
  if(own){ for(int i=0;i<n;i++){ list.push_back(p[(i+n-1)%n]); idx.push_back((i+1)%n); } } // the polygon's own corners, the polygon starting at another one
  else { list.push_back(Point((4+off)*u,(4-off)*u)); for(int i=0;i<n;i++) list.push_back(p[n-1-i]); list.push_back(Point(99,-3)); for(int i=0;i<n;i++) idx.push_back(n-i); }
  Pts before(list); Polygon P(idx,list); bool cv=true; if(m=="center"){ Ideal I; for(int i=0;i<n;i++) if(orc_o(p[i],p[(i+1)%n],p[(i+2)%n])*A<0) cv=false; }
  std::vector<Triangle> ts;
  if(m=="ear"){ EarTriangulationGenerator g; ts=g.triangulate(P,list); } else if(m=="delaunay"){ DelaunayTriangulationGenerator g; ts=g.triangulate(P,list); }
  else { CenterTriangulationGenerator g; bool thrown=false; try { ts=g.triangulate(P,list); } catch(std::invalid_argument&){ thrown=true; } sym_assert(thrown==!cv,cv?"convex polygon rejected":"non-convex polygon accepted"); if(!cv){ sym_reach("rejected"); sym_assert(list.size()==before.size(),"points added for a rejected polygon"); sym_done(); } }
  // points: unchanged, the center triangulation adds the average at the end
  sym_assert(list.size()==before.size()+(m=="center"?1:0),"number of points"); for(size_t i=0;i<before.size();i++) sym_assert(same(list[i],before[i]),"point changed");
  std::vector<int> pi=P.getPoints(); sym_assert(pi==idx,"polygon changed");
  if(m=="center"){ double x=0,y=0; for(auto&q:p){ x+=q.getX(); y+=q.getY(); } x/=n; y/=n; double e=1e-9*(1+(off<0?-off:off)); sym_assert(near_(list.back().getX(),x,e)&&near_(list.back().getY(),y,e),"not around the average of the corners"); }
  int want=m=="center"?n:n-2; sym_assert((int)ts.size()==want,"number of triangles");
  { EarTriangulationGenerator e; for(auto&tr:ts){ std::vector<Triangle> o=static_cast<TriangulationGenerator&>(e).triangulate(tr,list); sym_assert(o.size()==1&&o[0].getPoints()==tr.getPoints(),"a triangle is triangulated otherwise than by itself"); } }
  Ideal I; std::map<Dir,int> dir; std::set<int> ok(idx.begin(),idx.end()); if(m=="center") ok.insert((int)list.size()-1);
  for(auto&tr:ts){ std::vector<int> c=tr.getPoints(); sym_assert(c.size()==3,"triangle without three corners"); for(int i:c) sym_assert(ok.count(i),"triangle on a point that is no corner"); double o=orc_o(list[c[0]],list[c[1]],list[c[2]]); sym_assert(o!=0,"flat triangle"); if(m=="ear") sym_assert(o>0,"triangle not positively oriented");
    if(o<0) std::swap(c[1],c[2]); if(m=="center") sym_assert(std::find(c.begin(),c.end(),(int)list.size()-1)!=c.end(),"triangle without the center"); for(int i=0;i<3;i++) dir[Dir(c[i],c[(i+1)%3])]++; }
  // positively oriented triangles whose sides cancel except for the polygon's tile it exactly
  std::vector<int> q(idx); if(A<0) std::reverse(q.begin(),q.end()); std::map<Dir,int> want_; for(int i=0;i<n;i++) want_[Dir(q[i],q[(i+1)%n])]=1;
  for(auto&d:want_){ sym_assert(dir[d.first]==1,"side of the polygon is no side of a triangle"); sym_assert(!dir.count(Dir(d.first.second,d.first.first)),"triangle outside a side of the polygon"); }
  for(auto&d:dir) if(!want_.count(d.first)){ sym_assert(d.second==1,"triangles overlap"); sym_assert(dir.count(Dir(d.first.second,d.first.first))&&dir[Dir(d.first.second,d.first.first)]==1,"triangles leave a gap"); }
  sym_reach(m.c_str()); sym_reach(A<0?"cw":"ccw"); sym_done();
}
