// Files (C19).  args: str | region T u holes seeds prec | mesh T u seeds holes prec kind | read K start [style] | soup K start sep at
#include "fileio.h"
#include "meshio.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/neighbourhood/NeighboursBySegment.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include "rd.h"
template<class T> static void mesh_file(Mesh<T>&m,int prec,const char*w){
  Home h; old_file(h,"mesh.txt"); Pts pts=m.getPoints().getList(); auto cs=cells(m); tok_on=1; m.printInFile("mesh.txt"); tok_on=0; Rd r(h,"mesh.txt",w);
  r.count((long)pts.size(),"number of points"); for(auto&p:pts) r.point(p,prec,"point"); std::set<Dir> want; for(auto&c:cs) for(size_t i=0;i<c.size();i++) want.insert(Dir(std::min(c[i],c[(i+1)%c.size()]),std::max(c[i],c[(i+1)%c.size()])));
  r.count((long)want.size(),"number of edges"); std::set<Dir> got; for(size_t i=0;i<want.size();i++){ auto a=r.next(2,"edge"); long u,v; if(!get_int(a[0],u)||!get_int(a[1],v)) fail(h,M(w,"edge is no index pair")); Dir d((int)std::min(u,v),(int)std::max(u,v)); if(!want.count(d)||!got.insert(d).second) fail(h,M(w,"edge listed twice or no side of a polygon")); }
  r.count((long)cs.size(),"number of polygons"); for(auto&c:cs){ auto a=r.next(c.size()+1,"polygon"); if(!is_int(a[0],(long)c.size())) fail(h,M(w,"number of corners of a polygon")); for(size_t i=0;i<c.size();i++) if(!is_int(a[i+1],c[i])) fail(h,M(w,"corner of a polygon")); }
  r.end(); h.close(); sym_reach("mesh"); }
// the point map of a mesh that was read lists every point of a polygon with exactly its polygons
static void around(Mesh<Polygon>&q,const std::vector<std::vector<int>>&cs){ std::map<int,std::multiset<int>> w; for(size_t k=0;k<cs.size();k++) for(int i:cs[k]) w[i].insert((int)k); sym_assert(q.getPointMap()->size()==(int)w.size(),"number of points in the point map read");
  for(auto&e:w){ std::vector<int> n=q.getPointMap()->get(q.getPoint(e.first)).getNeighbours(); sym_assert(std::multiset<int>(n.begin(),n.end())==e.second,"polygons of a point read"); } }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"mesh");
  if(m=="str"){ // texts of the parts, any index and any coordinate
    int a=(int)sym_int("a",-2147483647,2147483647),b=(int)sym_int("b",-2147483647,2147483647); double x=(double)sym_int("x",-(1LL<<40),1LL<<40)*std::ldexp(1.0,-20),y=(double)sym_int("y",-(1LL<<40),1LL<<40)*std::ldexp(1.0,-20); int p=prec_of(arg_i(argc,argv,2,99)); std::vector<std::string> w;
    #define W(e) (tok_on=1,w=words(e),tok_on=0)
    W(Point(x,y).getString()); sym_assert(w.size()==2&&is_coord(w[0],x,p)&&is_coord(w[1],y,p),"text of a point"); W(IndexSegment(a,b).getString()); sym_assert(w.size()==2&&is_int(w[0],a)&&is_int(w[1],b),"text of an index segment"); W(EdgeData(a,b).getString()); sym_assert(w.size()==2&&is_int(w[0],a)&&is_int(w[1],b),"text of edge data"); W(NeighboursBySegment(a,b).getString()); sym_assert(w.size()==2&&is_int(w[0],a)&&is_int(w[1],b),"text of neighbours"); W(PointSegment(Point(x,y),Point(y,1)).getString()); sym_assert(w.size()==4&&is_coord(w[0],x,p)&&is_coord(w[1],y,p)&&is_coord(w[2],y,p)&&is_coord(w[3],1,p),"text of a point segment");
    std::vector<int> v; Pts z; for(int i=0;i<4;i++) z.push_back(Point(i,i*i)); Polygon q(z); W(q.getString()); sym_assert(w.size()==5&&is_int(w[0],4)&&is_int(w[1],0)&&is_int(w[4],3),"text of a polygon"); v.push_back(a); v.push_back(b); v.push_back(7); Polygon big(v,z); W(big.getString()); sym_assert(w.size()==4&&is_int(w[0],3)&&is_int(w[1],a)&&is_int(w[2],b)&&is_int(w[3],7),"text of a polygon with large indices"); 
    std::string s; tok_on=1; s=utilities::toStringWithPrecision(x,3); tok_on=0; sym_assert(is_coord(s,x,3),"number with precision"); sym_reach("str"); sym_done(); }
  if(m=="region"){ int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); std::vector<HoleIn> hl=holes_of(arg_s(argc,argv,4,"-")); Pts seeds=points_of(arg_s(argc,argv,5,"f4.4")); int prec=prec_of(arg_i(argc,argv,6,6)); Pts out=tmplx(t,u); Region R(out); std::vector<Pts> rec; for(auto&h:hl) R.addHole(h.hole); R.addSeedPoints(seeds);
    Pts all=R.getRegionPoints(),kept=R.getSeedPoints(); int n=R.numberOfSides(); size_t tot=n; for(Hole g:R.getHoles()) tot+=g.getPoints().size(); sym_assert(all.size()==tot,"region points"); Home h; old_file(h,"region.txt"); tok_on=1; R.printInFile("region.txt"); tok_on=0; Rd r(h,"region.txt","region");
    r.count((long)(all.size()+kept.size()),"number of points"); for(int i=0;i<n;i++) r.point(all[i],prec,"outline point"); for(Hole g:R.getHoles()) for(auto&p:g.getPoints()) r.point(p,prec,"hole point"); for(auto&p:kept) r.point(p,prec,"seed point");
    std::set<Dir> want,got; int o=0; for(size_t k=0;k<=R.getHoles().size();k++){ int c=k?(int)R.getHoles()[k-1].getPoints().size():n; for(int i=0;i<c;i++){ int x=o+i,y=o+(i+1)%c; want.insert(Dir(std::min(x,y),std::max(x,y))); } o+=c; }
    r.count((long)want.size(),"number of segments"); for(size_t i=0;i<want.size();i++){ auto a=r.next(2,"segment"); long x,y; if(!get_int(a[0],x)||!get_int(a[1],y)) fail(h,"segment is no index pair"); Dir d((int)std::min(x,y),(int)std::max(x,y)); if(!want.count(d)||!got.insert(d).second) fail(h,"segment listed twice or no side of the region"); }
    r.count(0,"closing count"); r.end(); h.close(); sym_reach("region"); sym_done(); }
  if(m=="mesh"){ int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); Pts out=tmplx(t,u); Region R(out); Pts seeds=points_of(arg_s(argc,argv,4,"s0.8.0.8")); std::vector<HoleIn> hl=holes_of(arg_s(argc,argv,5,"-")); for(auto&h:hl) R.addHole(h.hole); { Ideal I; for(auto&s:seeds){ if(!orc_onb(out,s)&&!orc_in(out,s)) sym_reject(); for(auto&h:hl) if(orc_onb(h.pts,s)||orc_in(h.pts,s)) sym_reject(); } } int prec=prec_of(arg_i(argc,argv,6,6)); std::string k=arg_s(argc,argv,7,"v");
    if(k=="v"){ TriangleVoronoiGenerator g(seeds,R); mesh_file(g.getMesh(),prec,"Voronoi mesh"); mesh_file(g.getTriangulation(),prec,"Delaunay mesh"); } else { TriangleDelaunayGenerator g(seeds,R); Mesh<Triangle> q=g.getConstrainedDelaunayTriangulation(); mesh_file(q,prec,"triangulation"); } sym_done(); }
  if(m=="read"){ // a K x K grid with one symbolic point, polygons of several sizes, any start index
    int K=arg_i(argc,argv,2,2),st=(int)sym_int("start",0,arg_i(argc,argv,3,2)); std::string sep=arg_s(argc,argv,4,"s")=="t"?"\t":arg_s(argc,argv,4,"s")=="w"?"   ":" "; double u=std::ldexp(1.0,-10); Home h; std::string txt; char b[64];
    Pts pts; int wi=arg_i(argc,argv,5,300),at=arg_i(argc,argv,6,4); bool ring=at<0; if(ring) at=-at; for(int j=0;j<=K;j++) for(int i=0;i<=K;i++){ double x=i,y=j; if(j*(K+1)+i==at){ x+=(double)sym_int("x",-wi,wi)*u; y+=(double)sym_int("y",-wi,wi)*u; } pts.push_back(Point(x*100-7,y*100+3)); }
    std::vector<std::vector<int>> cs; for(int j=0;j<K;j++) for(int i=0;i<K;i++){ int a=j*(K+1)+i; std::vector<int> c; c.push_back(a); c.push_back(a+1); c.push_back(a+K+2); if((i+j)%2){ c.push_back(a+K+1); cs.push_back(c); } else { cs.push_back(c); std::vector<int> d; d.push_back(a); d.push_back(a+K+2); d.push_back(a+K+1); cs.push_back(d); } }
    if(ring){ std::vector<int> c; for(int j=0;j<=K;j++) for(int i=0;i<=K;i++) c.push_back(j*(K+1)+(j%2?K-i:i)); cs.clear(); cs.push_back(c); } // one polygon with every point as a corner
    snprintf(b,64,"%d\n",(int)pts.size()); txt+=b; for(auto&p:pts) txt+=tok_d(p.getX())+sep+tok_d(p.getY())+"\n"; snprintf(b,64,"%d\n",(int)cs.size()); txt+=b; for(auto&c:cs){ snprintf(b,64,"%d",(int)c.size()); txt+=b; for(int i:c) txt+=sep+tok_i(i+st); txt+="\n"; }
    h.write("in.txt",txt); Mesh<Polygon> q; bool threw=false; try { q.createFromFile("in.txt",st); } catch(std::exception&e){ threw=true; } bool miss=false; try { Mesh<Polygon> z; z.createFromFile("none.txt",0); } catch(std::exception&e){ miss=true; } h.close(); sym_assert(!threw,"mesh file rejected"); sym_assert(miss,"missing mesh file accepted");
    Pts got=q.getPoints().getList(); sym_assert(got.size()==pts.size(),"number of points read"); for(size_t i=0;i<pts.size();i++) sym_assert(same(got[i],pts[i]),"point read"); auto gc=cells(q); sym_assert(gc==cs,"polygons read");
    std::map<Dir,std::set<int>> e; for(size_t k=0;k<cs.size();k++) for(size_t i=0;i<cs[k].size();i++){ int x=cs[k][i],y=cs[k][(i+1)%cs[k].size()]; e[Dir(std::min(x,y),std::max(x,y))].insert((int)k); }
    sym_assert(q.getSegments()->size()==(int)e.size(),"number of edges read"); for(auto&x:e){ sym_assert(q.getSegments()->containsSegment(IndexSegment(x.first.second,x.first.first)),"edge missing"); NeighboursBySegment n=q.getNeighbours(IndexSegment(x.first.second,x.first.first)); std::set<int> g; if(n.getFirst()!=-1) g.insert(n.getFirst()); if(n.getSecond()!=-1) g.insert(n.getSecond()); sym_assert(g==x.second,"polygons of an edge read"); }
    around(q,gc);
    for(size_t k=0;k<cs.size();k++){ double A=0; { Ideal I; Pts z; for(int i:cs[k]) z.push_back(pts[i]); A=orc_area2(z); } sym_assert(near_(2*q.getPolygon((int)k).getArea(got),A,1e-6),"area of a polygon read"); }
    sym_reach("read"); sym_done(); }
  if(m=="soup"){ // every cell of a K x K grid lists its own corners; one of them is a little off: corners within the tolerance are one point
    int K=arg_i(argc,argv,2,2),st=(int)sym_int("start",0,arg_i(argc,argv,3,2)); std::string sep=arg_s(argc,argv,4,"s")=="t"?"\t":" "; int at=arg_i(argc,argv,5,4),wi=arg_i(argc,argv,6,14); double u=std::ldexp(1.0,-20),tol=1e-5; Home h; std::string txt; char b[64]; Pts pts,U; std::vector<int> id; std::vector<std::vector<int>> file,cs;
    for(int j=0;j<K;j++) for(int i=0;i<K;i++){ const int dx[]={0,1,1,0},dy[]={0,0,1,1}; bool tri=(i+j)%3==1; std::vector<int> f,c; for(int k=0;k<(tri?3:4);k++){ double x=(i+dx[k])*64-7,y=(j+dy[k])*64+3; if((int)pts.size()==at){ x+=(double)sym_int("x",-wi,wi)*u; y+=(double)sym_int("y",-wi,wi)*u; }
        Point p(x,y); size_t q=0; while(q<U.size()&&!(std::fabs(U[q].getX()-x)<tol&&std::fabs(U[q].getY()-y)<tol)) q++; if(q==U.size()) U.push_back(p); f.push_back((int)pts.size()); c.push_back((int)q); pts.push_back(p); } file.push_back(f); cs.push_back(c); }
    snprintf(b,64,"%d\n",(int)pts.size()); txt+=b; for(auto&p:pts) txt+=tok_d(p.getX())+sep+tok_d(p.getY())+"\n"; snprintf(b,64,"%d\n",(int)file.size()); txt+=b; for(auto&c:file){ snprintf(b,64,"%d",(int)c.size()); txt+=b; for(int i:c) txt+=sep+tok_i(i+st); txt+="\n"; }
    h.write("in.txt",txt); Mesh<Polygon> q; q.createFromFile("in.txt",st); h.close(); Pts got=q.getPoints().getList(); auto gc=cells(q); sym_assert(gc.size()==cs.size(),"number of polygons read");
    for(size_t k=0;k<cs.size();k++){ sym_assert(gc[k].size()==cs[k].size(),"corners of a polygon read"); for(size_t i=0;i<cs[k].size();i++){ sym_assert(gc[k][i]>=0&&gc[k][i]<(int)got.size(),"corner of a polygon is no point of the mesh"); const Point&a=got[gc[k][i]],&z=pts[file[k][i]]; sym_assert(std::fabs(a.getX()-z.getX())<tol&&std::fabs(a.getY()-z.getY())<tol,"polygon with other corners than in the file"); } }
    sym_assert(got.size()==U.size(),"points that coincide are one"); std::map<Dir,std::set<int>> e; for(size_t k=0;k<cs.size();k++) for(size_t i=0;i<cs[k].size();i++){ int x=gc[k][i],y=gc[k][(i+1)%gc[k].size()]; e[Dir(std::min(x,y),std::max(x,y))].insert((int)k); int ox=cs[k][i],oy=cs[k][(i+1)%cs[k].size()]; sym_assert(same(got[x],U[ox])&&same(got[y],U[oy]),"point read"); }
    sym_assert(q.getSegments()->size()==(int)e.size(),"number of edges read"); for(auto&x:e){ NeighboursBySegment n=q.getNeighbours(IndexSegment(x.first.first,x.first.second)); std::set<int> g; if(n.getFirst()!=-1) g.insert(n.getFirst()); if(n.getSecond()!=-1) g.insert(n.getSecond()); sym_assert(g==x.second,"polygons of an edge read"); }
    around(q,gc);
    sym_reach(U.size()==(size_t)(K+1)*(K+1)?"joined":"apart"); sym_done(); }
  sym_done();
}
