// Generated meshes (C01..C06).  args: mode, template, unit, seeds, holes or -, [starting corner], [restricted segments a.b/c.d as seed indices], [scale as a power of two, offsets]
#include "meshio.h"
template<class M> static void edge_map(M&m,const char*what){
  static char b[200]; auto cs=cells(m); std::map<Dir,std::set<int>> e; std::map<Dir,int> cnt;
  for(size_t k=0;k<cs.size();k++){ auto&c=cs[k]; int n=(int)c.size(); for(int i=0;i<n;i++){ int u=c[i],v=c[(i+1)%n]; e[Dir(std::min(u,v),std::max(u,v))].insert((int)k); } }
  auto&mp=m.getSegments()->getMap();
  #define M2(t) (snprintf(b,200,"%s: %s",what,t),b)
  sym_assert(mp.size()==e.size()&&m.getSegments()->size()==(int)e.size(),M2("number of edges")); 
  for(auto&x:mp){ int u=x.first.getFirst(),v=x.first.getSecond(); auto it=e.find(Dir(std::min(u,v),std::max(u,v))); sym_assert(it!=e.end(),M2("edge in the map is no side of a polygon"));
    int n1=x.second.getFirst(),n2=x.second.getSecond(); sym_assert(it->second.size()<=2,M2("edge of more than two polygons")); std::set<int> got; if(n1!=-1) got.insert(n1); if(n2!=-1) got.insert(n2);
    sym_assert(got==it->second,M2("neighbours of an edge")); if(it->second.size()==1){ sym_reach("boundary"); sym_assert((n1==-1)!=(n2==-1),M2("boundary edge with two neighbours")); } else { sym_reach("interior"); sym_assert(n1!=n2,M2("equal neighbours")); }
    NeighboursBySegment w=m.getNeighbours(IndexSegment(v,u)); sym_assert(w.getFirst()==n1&&w.getSecond()==n2,M2("lookup of the reversed edge")); }
}
template<class M> static void point_map(M&m,const char*what){
  static char b[200]; auto cs=cells(m); Pts pts=m.getPoints().getList(); std::map<int,std::set<int>> w; for(size_t k=0;k<cs.size();k++) for(int i:cs[k]) w[i].insert((int)k);
  #define M3(t) (snprintf(b,200,"%s: %s",what,t),b)
  auto*pm=m.getPointMap(); int n0=pm->size(); sym_assert(n0==(int)w.size(),M3("number of points in the map"));
  for(auto&x:w){ auto v=pm->get(pts[x.first]).getNeighbours(); std::set<int> got(v.begin(),v.end()); sym_assert(got==x.second,M3("polygons at a point")); }
  sym_assert(pm->size()==n0,M3("a mesh point was missing in the map"));
  for(auto&e:pm->getMap()) sym_assert(find_pt(pts,e.first)>=0,M3("entry for a point that is not in the mesh"));
  sym_reach("pmap");
}
// the points on the outline or on the outline of a hole are flagged (those the cells use)
template<class M> static void flags(M&m,const Pts&out,const std::vector<HoleIn>&hl,const char*what){
  static char b[200]; Pts raw=m.getPoints().getList(),pts=from_lib(raw); std::set<int> used; for(auto&c:cells(m)) used.insert(c.begin(),c.end());
  for(int i:used){ bool on; { Ideal I; on=orc_onbt(out,pts[i]); for(auto&h:hl) if(!on) on=orc_onbt(h.pts,pts[i]); } bool f=raw[i].isInBoundary(); Point q=m.getPoint(i); sym_assert(q.isInBoundary()==f,"flag of a point obtained by its index");
    sym_assert(f||!on,(snprintf(b,200,"%s: point on the boundary is not flagged",what),b)); sym_assert(!f||on,(snprintf(b,200,"%s: point off the boundary is flagged",what),b)); sym_reach(on?"flagged":"unflagged"); }
}
int main(int argc,char**argv){
  std::string mode=arg_s(argc,argv,1,"tile"); int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); std::string ss=arg_s(argc,argv,4,""),hs=arg_s(argc,argv,5,"-"),rs=arg_s(argc,argv,7,""); int st=arg_i(argc,argv,6,0); g_s=ldexp(1.0,arg_i(argc,argv,8,0)); g_ox=arg_i(argc,argv,9,0); g_oy=arg_i(argc,argv,10,0);
  Pts out=rot(tmplx(t,u),st),lout=to_lib(out); if(t/100==1) out=rev(out); Region R(lout); Pts seeds=points_of(ss); std::vector<HoleIn> hl=holes_of(hs);
  for(auto&h:hl) R.addHole(h.hole);
  { Ideal I; for(auto&s:seeds){ if(!orc_onb(out,s)&&!orc_in(out,s)) sym_reject(); for(auto&h:hl) if(!orc_onbt(h.pts,s)&&orc_in(h.pts,s)) sym_reject(); } }
  if(!hl.empty()){ sym_assert(R.getHoles().size()==hl.size(),"contained hole not recorded"); sym_assert(R.getRegionPoints().size()>=out.size(),"outline changed by a contained hole"); }
  if(mode=="tile"||mode=="near"||mode=="edges"||mode=="pmap"||mode=="vhole"||mode=="flags"){
    Pts lseeds=to_lib(seeds); TriangleVoronoiGenerator g(lseeds,R); Mesh<Polygon>&m=g.getMesh(),&d=g.getTriangulation(); Pts pts=from_lib(m.getPoints().getList()),dp=from_lib(d.getPoints().getList()); auto cs=cells(m),ds=cells(d);
    if(mode=="tile"||mode=="vhole"){ check_tiling(pts,cs,out,hl,"Voronoi"); if(mode=="vhole") check_tiling(dp,ds,out,hl,"Delaunay of the Voronoi generator"); sym_reach("tile");
      if(mode=="vhole"){ Ideal I; for(auto&h:hl) for(auto&p:pts) sym_assert(orc_onbt(h.pts,p)||!orc_in(h.pts,p),"mesh point inside a hole"); } }
    if(mode=="flags"){ flags(m,out,hl,"Voronoi"); flags(d,out,hl,"Delaunay"); }
    if(mode=="edges"){ edge_map(m,"Voronoi"); edge_map(d,"Delaunay"); }
    if(mode=="pmap"){ point_map(m,"Voronoi"); point_map(d,"Delaunay"); }
    if(mode=="near"){
      sym_assert(cs.size()==dp.size(),"not one cell per Delaunay vertex"); sym_reach("near");
      Ideal I; std::vector<int> own(cs.size(),-1); std::vector<int> hit(dp.size(),0); bool convex=true; for(size_t i=0;i<out.size();i++) if(orc_o(out[i],out[(i+1)%out.size()],out[(i+2)%out.size()])<0) convex=false;
      for(auto&s:seeds) sym_assert(find_pt(dp,s)>=0,"seed is no Delaunay vertex"); for(auto&s:out) sym_assert(find_pt(dp,s)>=0,"region corner is no Delaunay vertex");
      // the cell of a vertex: cells come in the order in which the vertices appear in the triangles
      std::vector<int> ord; std::set<int> seen; for(auto&c:ds) for(int i:c) if(seen.insert(i).second) ord.push_back(i);
      for(size_t k=0;k<cs.size();k++){ Pts c; for(int i:cs[k]) c.push_back(pts[i]); 
        int mine=-1; std::vector<int> cand; if(k<ord.size()) cand.push_back(ord[k]); for(size_t v=0;v<dp.size();v++) if(cand.empty()||(int)v!=cand[0]) cand.push_back((int)v);
        for(int v:cand){ if(hit[v]) continue; if(orc_onbt(c,dp[v])||orc_in(c,dp[v])){ mine=v; break; } }
        sym_assert(mine>=0,"cell without its vertex"); hit[mine]=1; own[k]=mine; 
        if(convex){ bool ok=true; const Point&o=dp[mine]; for(auto&q:c) for(size_t v=0;v<dp.size();v++) if((int)v!=mine){ double e=2*q.getX()*(o.getX()-dp[v].getX())+2*q.getY()*(o.getY()-dp[v].getY())+(dp[v].getX()*dp[v].getX()+dp[v].getY()*dp[v].getY())-(o.getX()*o.getX()+o.getY()*o.getY()); ok=ok&(e>-1e-6); }
          sym_assert(ok,"corner of a cell nearer to another vertex"); }
        else { for(size_t v=0;v<dp.size();v++) if((int)v!=mine) sym_assert(orc_onbt(c,dp[v])||!orc_in(c,dp[v]),"cell contains the vertex of another cell"); } }
    }
  } else {
    bool conf=mode=="conf"||mode=="fflags"; Pts lseeds=to_lib(seeds); std::vector<PointSegment> restr; std::vector<Dir> rd; { const char*s=rs.c_str(); while(*s){ int a=(int)nextnum(s),b=(int)nextnum(s); rd.push_back(Dir(a,b)); restr.push_back(PointSegment(lseeds[a],lseeds[b])); while(*s=='/') s++; } }
    if(!restr.empty()){ Ideal I; for(auto&d:rd){ sym_assume(!same(seeds[d.first],seeds[d.second])); }
      for(size_t i=0;i<rd.size();i++) for(size_t j=0;j<i;j++){ const Point&a=seeds[rd[i].first],&b=seeds[rd[i].second],&c=seeds[rd[j].first],&d=seeds[rd[j].second]; // only segments that do not cross
        double o1=orc_o(a,b,c),o2=orc_o(a,b,d),o3=orc_o(c,d,a),o4=orc_o(c,d,b); if(((o1>0)!=(o2>0))&&((o3>0)!=(o4>0))&&o1!=0&&o2!=0&&o3!=0&&o4!=0) sym_reject(); } }
    if(!restr.empty()&&!hl.empty()){ Ideal I; for(auto&d:rd){ const Point&a=seeds[d.first],&b=seeds[d.second]; for(auto&h:hl) for(size_t i=0;i<h.pts.size();i++){ const Point&c=h.pts[i],&e=h.pts[(i+1)%h.pts.size()]; // only segments that miss the holes
        double o1=orc_o(a,b,c),o2=orc_o(a,b,e),o3=orc_o(c,e,a),o4=orc_o(c,e,b); if(((o1>=0)&(o2<=0)|(o1<=0)&(o2>=0))&((o3>=0)&(o4<=0)|(o3<=0)&(o4>=0))) sym_reject(); } } }
    TriangleDelaunayGenerator g(lseeds,R);
    Mesh<Triangle> m=conf?g.getConformingDelaunayTriangulation():restr.empty()?g.getConstrainedDelaunayTriangulation():g.getConstrainedDelaunayTriangulation(restr);
    Pts pts=from_lib(m.getPoints().getList()); auto cs=cells(m);
    if(mode=="dedges"){ edge_map(m,"triangulation"); sym_done(); } if(mode=="dpmap"){ point_map(m,"triangulation"); sym_done(); } if(mode=="cflags"||mode=="fflags"){ flags(m,out,hl,"triangulation"); sym_done(); }
    for(auto&c:cs) sym_assert(c.size()==3,"triangle without three corners");
    check_tiling(pts,cs,out,hl,"triangulation");
    Ideal I; std::set<int> used; std::set<Dir> ed; std::map<Dir,int> opp; for(auto&c:cs) for(int i=0;i<3;i++){ used.insert(c[i]); opp[Dir(c[i],c[(i+1)%3])]=c[(i+2)%3]; ed.insert(Dir(c[i],c[(i+1)%3])); ed.insert(Dir(c[(i+1)%3],c[i])); }
    Pts given=seeds; given.insert(given.end(),out.begin(),out.end()); for(auto&h:hl) given.insert(given.end(),h.pts.begin(),h.pts.end());
    Pts uniq; for(auto&p:given){ if(find_pt(uniq,p)<0) uniq.push_back(p); int i=find_pt(pts,p); sym_assert(i>=0&&used.count(i),"given point is no corner of a triangle"); }
    if(!conf&&hl.empty()) sym_assert(used.size()==uniq.size()&&pts.size()==uniq.size(),"vertices added to the constrained triangulation");
    for(auto&h:hl) for(auto&p:pts) sym_assert(orc_onbt(h.pts,p)||!orc_in(h.pts,p),"mesh point inside a hole");
    std::set<Dir> fixed; for(auto&d:rd){ const Point&a=seeds[d.first],&b=seeds[d.second]; std::vector<int> on; for(size_t i=0;i<pts.size();i++) if(orc_on(a,b,pts[i])) on.push_back((int)i);
      auto pr=[&](int i){ return (pts[i].getX()-a.getX())*(b.getX()-a.getX())+(pts[i].getY()-a.getY())*(b.getY()-a.getY()); };
      for(size_t i=1;i<on.size();i++) for(size_t j=i;j>0&&pr(on[j])<pr(on[j-1]);j--) std::swap(on[j],on[j-1]);
      for(size_t i=0;i+1<on.size();i++){ sym_assert(ed.count(Dir(on[i],on[i+1])),"restricted segment is not in the triangulation"); fixed.insert(Dir(on[i],on[i+1])); fixed.insert(Dir(on[i+1],on[i])); } sym_reach("restricted"); }
    bool ok=true; 
    if(conf){ sym_reach("conf"); for(auto&c:cs) for(int v:used) if(v!=c[0]&&v!=c[1]&&v!=c[2]) ok=ok&(orc_incircle(pts[c[0]],pts[c[1]],pts[c[2]],pts[v])<=1e-6); sym_assert(ok,"mesh point inside the circumcircle of a triangle"); }
    else { sym_reach("cdt"); for(auto&o:opp){ Dir r(o.first.second,o.first.first); if(o.first.first>o.first.second||!opp.count(r)||fixed.count(r)) continue; ok=ok&(orc_incircle(pts[o.first.first],pts[o.first.second],pts[o.second],pts[opp[r]])<=1e-6); } sym_assert(ok,"edge is not locally Delaunay"); }
  }
  sym_done();
}
