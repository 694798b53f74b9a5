// Listings of the maps and the input file for Triangle (C32).  args: maps T u seeds holes prec | hand T u seeds holes prec n more | poly T u seeds holes prec
#include "fileio.h"
#include "meshio.h"
#include "rd.h"
#include <delynoi/models/neighbourhood/NeighboursBySegment.h>
static std::vector<int> ints(Home&h,const std::vector<std::string>&w,size_t from,const char*m){ std::vector<int> r; for(size_t i=from;i<w.size();i++){ long v; if(!get_int(w[i],v)) fail(h,m); r.push_back((int)v); } return r; }
// the numbers a word of a coordinate stands for
static double coord(Home&h,const std::string&w,const char*m){ Tok t; const char*e; if(tok_of(w.c_str(),&e,t)&&!*e&&t.dbl) return t.d; fail(h,m); return 0; }
static void segs(SegmentMap*s,const std::map<Dir,std::pair<int,int>>&want,const char*w){
  Home h; old_file(h,"edges.txt"); tok_on=1; s->printInFile("edges.txt"); tok_on=0; Rd r(h,"edges.txt",w); std::set<Dir> got;
  for(size_t k=0;k<want.size();k++){ auto a=r.next(4,"an edge has two ends and two neighbours"); std::vector<int> v=ints(h,a,0,"edge line"); Dir d(std::min(v[0],v[1]),std::max(v[0],v[1])); auto it=want.find(d);
    if(it==want.end()||!got.insert(d).second) fail(h,"edge listed twice or not in the map"); if(v[2]!=it->second.first||v[3]!=it->second.second) fail(h,"neighbours of a listed edge"); }
  r.end(); h.close(); sym_reach("edges"); }
static void pmap(PointMap*p,int prec,const char*w){
  std::vector<std::pair<Point,std::vector<int>>> want; for(auto&e:p->getMap()) want.push_back(std::make_pair(e.first,e.second.getNeighbours())); std::vector<char> seen(want.size(),0);
  Home h; old_file(h,"points.txt"); tok_on=1; p->printInFile("points.txt"); tok_on=0; Rd r(h,"points.txt",w);
  for(size_t k=0;k<want.size();k++){ if(r.k>=r.l.size()) fail(h,"a point of the map is missing"); std::vector<std::string> a=words(r.l[r.k++]); if(a.size()<2) fail(h,"point line"); std::vector<int> v=ints(h,a,2,"neighbours of a listed point"); std::sort(v.begin(),v.end());
    bool ok=false; for(size_t i=0;i<want.size()&&!ok;i++) if(!seen[i]&&is_coord(a[0],want[i].first.getX(),prec)&&is_coord(a[1],want[i].first.getY(),prec)){ std::vector<int> z=want[i].second; std::sort(z.begin(),z.end()); if(z!=v) fail(h,"neighbours of a listed point"); seen[i]=1; ok=true; }
    if(!ok) fail(h,"point listed twice or not in the map"); }
  r.end(); h.close(); sym_reach("points"); }
template<class T> static void both(Mesh<T>&m,int prec,const char*w){
  auto cs=cells(m); std::map<Dir,std::pair<int,int>> e; SegmentMap*s=m.getSegments();
  for(auto&c:cs) for(size_t i=0;i<c.size();i++){ int a=c[i],b=c[(i+1)%c.size()]; NeighboursBySegment n=s->get(IndexSegment(a,b)); e[Dir(std::min(a,b),std::max(a,b))]=std::make_pair(n.getFirst(),n.getSecond()); }
  segs(s,e,w); pmap(m.getPointMap(),prec,w); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"maps"); int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); Pts out=tmplx(t,u); Region R(out); Pts seeds=points_of(arg_s(argc,argv,4,"s0.8.0.8")); std::vector<HoleIn> hl=holes_of(arg_s(argc,argv,5,"-"));
  for(auto&h:hl) try { R.addHole(h.hole); } catch(std::invalid_argument&){ sym_reject(); } int prec=prec_of(arg_i(argc,argv,6,6));
  if(m=="hand"){ // maps filled by hand: any index, any polygon, points with any number of polygons
    SegmentMap S; std::map<Dir,std::pair<int,int>> e; int n=arg_i(argc,argv,7,2); for(int k=0;k<n;k++){ int a=(int)sym_int(("a"+std::to_string(k)).c_str(),0,2),b=a+1+(int)sym_int(("b"+std::to_string(k)).c_str(),0,1); int p=(int)sym_int(("p"+std::to_string(k)).c_str(),0,1)*1000000+k*7; if(k%2) S.insert(IndexSegment(b,a),p); else S.insert(IndexSegment(a,b),p);
      Dir d(a,b); if(!e.count(d)) e[d]=std::make_pair(p,-1); else e[d].second=p; }
    int more=arg_i(argc,argv,8,0); for(int k=0;k<more;k++){ S.insert(IndexSegment(10+k,11+(k*7)%5+k),k); e[Dir(10+k,11+(k*7)%5+k)]=std::make_pair(k,-1); if(k%3==0){ S.insert(IndexSegment(11+(k*7)%5+k,10+k),k+100); e[Dir(10+k,11+(k*7)%5+k)].second=k+100; } }
    segs(&S,e,"edge map"); PointMap P; double st=std::ldexp(1.0,-10); Point z((double)sym_int("x",-3000,3000)*st,(double)sym_int("y",-3000,3000)*st); for(int k=0;k<n+2;k++){ P.insert(k%3==2?Point(z.getX()+k,z.getY()):z,(int)sym_int(("q"+std::to_string(k)).c_str(),0,1)*2000000+k*5); }
    for(int k=0;k<more;k++) P.insert(k%5==4?Point(20+k,z.getY()):z,500+k*11);
    pmap(&P,prec,"point map"); sym_reach("hand"); sym_done(); }
  { Ideal I; for(auto&s:seeds){ if(!orc_onb(out,s)&&!orc_in(out,s)) sym_reject(); for(auto&h:hl) if(orc_onb(h.pts,s)||orc_in(h.pts,s)) sym_reject(); } }
  if(m=="maps"){ TriangleVoronoiGenerator g(seeds,R); Mesh<Polygon> v=g.getMesh(); both(v,prec,"Voronoi mesh"); auto d=g.getTriangulation(); both(d,prec,"Delaunay mesh"); sym_done(); }
  if(m=="poly"){ UniqueList<Point> L; L.push_list(seeds); Pts rp=R.getRegionPoints(); std::vector<int> at=L.push_list(rp); Pts all=L.getList(); TriangleDelaunayGenerator g(seeds,R);
    Home h; old_file(h,"toTriangle.poly"); tok_on=1; g.writeTriangleInputFile(L,R,at); tok_on=0; Rd r(h,"toTriangle.poly","input file"); auto a=r.next(4,"head of the points"); std::vector<int> v=ints(h,a,0,"head of the points"); if(v[0]!=(int)all.size()||v[1]!=2||v[2]||v[3]) fail(h,"head of the points");
    for(size_t i=0;i<all.size();i++){ auto w=r.next(3,"point"); if(!is_int(w[0],(long)i)||!is_coord(w[1],all[i].getX(),prec)||!is_coord(w[2],all[i].getY(),prec)) fail(h,"point of the input file"); }
    // the sides of the outline and of the holes, in terms of the list
    std::vector<Hole>&H=R.getHoles(); std::set<Dir> want,got; int o=0; size_t lines=0; for(size_t k=0;k<=H.size();k++){ int c=k?(int)H[k-1].getPoints().size():R.numberOfSides(); for(int i=0;i<c;i++){ int x=at[o+i],y=at[o+(i+1)%c]; want.insert(Dir(std::min(x,y),std::max(x,y))); lines++; } o+=c; }
    a=r.next(2,"head of the segments"); v=ints(h,a,0,"head of the segments"); if(v[0]<(int)want.size()||v[0]>(int)lines||v[1]) fail(h,"head of the segments");
    int ns=v[0]; for(int i=0;i<ns;i++){ auto w=r.next(3,"segment"); std::vector<int> s=ints(h,w,0,"segment"); Dir d(std::min(s[1],s[2]),std::max(s[1],s[2])); if(s[0]!=i||!want.count(d)) fail(h,"segment of the input file"); got.insert(d); } if(got.size()!=want.size()) fail(h,"a side is missing in the input file");
    r.count((long)H.size(),"number of holes"); for(size_t i=0;i<H.size();i++){ auto w=r.next(3,"hole"); if(!is_int(w[0],(long)i)) fail(h,"index of a hole"); double x=coord(h,w[1],"place of a hole"),y=coord(h,w[2],"place of a hole"); Ideal I; Pts hp=H[i].getPoints(); if(!orc_in(hp,Point(x,y))||orc_onb(hp,Point(x,y))) fail(h,"place of a hole is not inside it"); }
    r.end(); h.close(); sym_reach("poly"); sym_done(); }
  sym_done();
}
