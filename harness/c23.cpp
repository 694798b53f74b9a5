// Inputs are not altered, results are reproducible, copies are independent (C23).
// args: template, unit, seeds, holes, mode (v: Voronoi, c: constrained, f: conforming; any sequence, k: copy checks), start corner
#include "meshio.h"
struct Snap { Pts out,seeds,kept; std::vector<Pts> holes; Pts centers; std::vector<int> idx,hs; int n; };
static Snap snap(Region&R,const Pts&seeds){ Snap s; s.out=R.getRegionPoints(); s.n=R.numberOfSides(); s.seeds=seeds; s.kept=R.getSeedPoints(); for(Hole h:R.getHoles()){ s.holes.push_back(h.getPoints()); s.centers.push_back(h.getCenter()); std::vector<IndexSegment> g; h.getSegments(g,0); for(auto&x:g){ s.hs.push_back(x.getFirst()); s.hs.push_back(x.getSecond()); } } s.idx=((Polygon&)R).getPoints(); return s; }
static bool eq(const Pts&a,const Pts&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!same(a[i],b[i])) return false; return true; }
static void unchanged(const Snap&a,const Snap&b,const char*w){ static char m[160];
  #define M1(t) (snprintf(m,160,"%s: %s",w,t),m)
  sym_assert(a.n==b.n&&a.idx==b.idx,M1("corners of the region changed")); sym_assert(eq(a.out,b.out),M1("points of the region changed")); sym_assert(eq(a.seeds,b.seeds),M1("given seed list changed")); sym_assert(eq(a.kept,b.kept),M1("stored seeds changed")); sym_assert(a.holes.size()==b.holes.size()&&a.hs==b.hs,M1("holes changed")); for(size_t i=0;i<a.holes.size();i++) sym_assert(eq(a.holes[i],b.holes[i]),M1("hole changed")); sym_assert(eq(a.centers,b.centers),M1("hole centre changed")); }
struct MS { Pts pts; std::vector<std::vector<int>> cs; std::vector<int> edges; int np; };
template<class T> static MS mesh_of(Mesh<T>&m){ MS r; r.pts=m.getPoints().getList(); r.cs=cells(m); for(auto&e:m.getSegments()->getMap()) { r.edges.push_back(e.first.getFirst()); r.edges.push_back(e.first.getSecond()); } std::vector<std::pair<int,int>> v; for(size_t i=0;i<r.edges.size();i+=2) v.push_back(std::make_pair(std::min(r.edges[i],r.edges[i+1]),std::max(r.edges[i],r.edges[i+1]))); std::sort(v.begin(),v.end()); r.edges.clear(); for(auto&e:v){ NeighboursBySegment n=m.getNeighbours(IndexSegment(e.first,e.second)); r.edges.push_back(e.first); r.edges.push_back(e.second); r.edges.push_back(n.getFirst()); r.edges.push_back(n.getSecond()); } r.np=m.getPointMap()->size(); return r; }
static void equal(const MS&a,const MS&b,const char*w){ static char m[160];
  #define M2(t) (snprintf(m,160,"%s: %s",w,t),m)
  sym_assert(a.cs==b.cs,M2("other polygons")); sym_assert(eq(a.pts,b.pts),M2("other points")); sym_assert(a.edges==b.edges,M2("other edges or neighbours")); sym_assert(a.np==b.np,M2("other point map")); }
static std::vector<MS> make(char c,Pts&seeds,Region&R){ std::vector<MS> r;
  if(c=='v'){ TriangleVoronoiGenerator g(seeds,R); r.push_back(mesh_of(g.getMesh())); r.push_back(mesh_of(g.getTriangulation())); r.push_back(mesh_of(g.getMesh())); equal(r[0],r[2],"mesh asked for twice"); Mesh<Polygon> k(g.getMesh()); MS q=mesh_of(k); equal(q,r[0],"copy of a mesh"); Mesh<Polygon> k2; k2=k; MS q2=mesh_of(k2); equal(q2,r[0],"assigned mesh"); }
  else { TriangleDelaunayGenerator g(seeds,R); for(int i=0;i<2;i++){ Mesh<Triangle> m=c=='c'?g.getConstrainedDelaunayTriangulation():g.getConformingDelaunayTriangulation(); r.push_back(mesh_of(m)); Mesh<Triangle> k(m); MS q=mesh_of(k); equal(q,r.back(),"copy of a triangulation"); } equal(r[0],r[1],"triangulation asked for twice"); }
  return r; }
int main(int argc,char**argv){
  int t=arg_i(argc,argv,1,1); double u=arg_i(argc,argv,2,1); std::string ss=arg_s(argc,argv,3,""),hs=arg_s(argc,argv,4,"-"),md=arg_s(argc,argv,5,"v"); int st=arg_i(argc,argv,6,0);
  Pts out=rot(tmpl(t%100,u),st); if(t>=100) out=rev(out); Pts out0(out); Region R(out); sym_assert(eq(out,out0),"given outline changed"); std::vector<HoleIn> hl=holes_of(hs); Pts seeds=points_of(ss); for(auto&h:hl) R.addHole(h.hole); R.addSeedPoints(seeds); seeds=R.getSeedPoints();
  if(t>=100){ Pts rp=R.getRegionPoints(); R.fixCCW(rp); }
  Snap s0=snap(R,seeds);
  if(md[0]=='k'){ // copies
    Region C(R),D; D=R; Snap c0=snap(C,seeds),d0=snap(D,seeds); unchanged(s0,c0,"copied region"); unchanged(s0,d0,"assigned region"); double A=R.getArea(s0.out);
    char op=md.size()>1?md[1]:'h';
    for(int k=0;k<2;k++){ Region&X=k?D:C; if(op=='h'){ Pts h=rect(-1,-1,2.5,2.5); PolygonalHole ph(h); X.addHole(ph); } else if(op=='s'){ Pts e; e.push_back(Point(1.5,1.5)); X.addSeedPoints(e); } else if(op=='c'){ X.cleanSeedPoints(); X.cleanInternalHoles(); } else if(op=='m'){ Pts z=rect(20,20,3,4); X.mutate(z); } else { std::vector<Hole>&v=X.getHoles(); if(!v.empty()) v.erase(v.begin()); X.cleanSeedPoints(); } }
    Snap r1=snap(R,seeds); unchanged(s0,r1,"region whose copy was modified"); sym_assert(R.getArea(s0.out)==A,"area of a region whose copy was modified"); Snap c1=snap(C,seeds),d1=snap(D,seeds); unchanged(c1,d1,"two copies modified alike");
    Pts e; R.addSeedPoints(e); Snap c2=snap(C,seeds); unchanged(c1,c2,"copy of a modified region");
    // polygons and lists
    Pts z=rect(0,0,4,3); z.push_back(Point(-1,1)); int a=(int)sym_int("a",0,4); Polygon P(z),Q(P); double ar=P.getArea(z); Pts w=rect(5,5,2,2); Q.mutate(w); sym_assert(P.numberOfSides()==5&&P.getPoints()[a]==a&&P.getArea(z)==ar,"polygon whose copy was modified"); sym_assert(Q.numberOfSides()==4&&Q.getArea(w)==4,"modified copy of a polygon"); { Pts cw=rev(z); std::vector<int> ci; for(int i=0;i<5;i++) ci.push_back(i); Polygon S(ci,cw); S.fixCCW(cw); Polygon T(S),V; V=S; sym_assert(T.getPoints()==S.getPoints()&&V.getPoints()==S.getPoints()&&T.getArea(cw)==ar&&V.isClockwise(cw)==false,"copy of a reoriented polygon"); T.fixCCW(cw); sym_assert(T.getPoints()==S.getPoints(),"reorienting a copy again"); }
    UniqueList<Point> L; L.push_list(z); UniqueList<Point> M(L),N; N=L; M.push_back(w[0]); N.pop_front(); sym_assert(L.size()==5&&M.size()==6&&N.size()==4&&same(L[a],z[a])&&!L.contains(w[0])&&L.contains(z[0]),"list whose copy was modified"); M.clear(); sym_assert(L.push_back(z[a])==a&&L.size()==5,"list whose copy was cleared"); sym_reach("copies"); sym_done(); }
  std::map<char,std::vector<MS>> first; Region C(R); Pts seeds2(seeds);
  for(char c:md){ std::vector<MS> m=make(c,seeds,R); Snap s1=snap(R,seeds); unchanged(s0,s1,"after generating"); if(!first.count(c)) first[c]=m; for(size_t i=0;i<m.size();i++) equal(m[i],first[c][i],"generated again"); }
  for(char c:md){ std::vector<MS> m=make(c,seeds2,C); for(size_t i=0;i<m.size();i++) equal(m[i],first[c][i],"generated from a copy of the region"); Snap s1=snap(C,seeds2); unchanged(s0,s1,"copy after generating"); }
  sym_reach("again"); sym_done();
}
