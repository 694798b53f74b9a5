// Invalid input is rejected and changes nothing (C28).
// args: outline T corners window [offset] [unit] | replace T corners window | hole T u holes seeds | file T | tri n lo hi | gen | center T corners window
#include "fileio.h"
#include "meshio.h"
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/config/DelynoiConfig.h>
static Pts corners(int argc,char**argv,int k0){ int t=arg_i(argc,argv,k0,0); std::string cs=arg_s(argc,argv,k0+1,"0"); int w=arg_i(argc,argv,k0+2,3); Pts p=tmplx(t); int n=(int)p.size(),k=0; const char*s=cs.c_str();
  while(*s&&*s!='-'){ char*e; int c=(int)strtol(s,&e,10)%n; s=*e?e+1:e; char a[8],b[8]; snprintf(a,8,"x%d",k); snprintf(b,8,"y%d",k); k++; double x=(double)sym_int(a,(int)p[c].getX()-w,(int)p[c].getX()+w),y=(double)sym_int(b,(int)p[c].getY()-w,(int)p[c].getY()+w); p[c]=Point(x,y); } return p; }
static bool eq(const Pts&a,const Pts&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!same(a[i],b[i])) return false; return true; }
// what can be seen of a region
struct Seen { Pts all,seeds; int n; std::vector<int> idx; std::vector<Pts> holes; double area; Point c; bool in1,in2; double x0,y1;
  Seen(Region&R){ all=R.getRegionPoints(); seeds=R.getSeedPoints(); n=R.numberOfSides(); idx=R.getPoints(); for(Hole h:R.getHoles()) holes.push_back(h.getPoints()); area=R.getArea(all); c=R.getCentroid(all); in1=R.containsPoint(Point(1.5,1.25)); in2=R.containsPoint(Point(6.5,5.25)); BoundingBox b=R.getBox(); x0=b.xMin(); y1=b.yMax(); }
  bool same_as(const Seen&o) const { if(!eq(all,o.all)||!eq(seeds,o.seeds)||n!=o.n||idx!=o.idx||holes.size()!=o.holes.size()||area!=o.area||!same(c,o.c)||in1!=o.in1||in2!=o.in2||x0!=o.x0||y1!=o.y1) return false; for(size_t i=0;i<holes.size();i++) if(!eq(holes[i],o.holes[i])) return false; return true; } };
#define THROWS(e) [&]{ try { e; } catch(std::invalid_argument&){ return true; } return false; }()
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"outline");
  if(m=="outline"){ Pts p=corners(argc,argv,2); double off=arg_i(argc,argv,5,0),u=std::strtod(arg_s(argc,argv,6,"1").c_str(),0); bool bad=orc_meets(p); for(auto&q:p) q=Point((q.getX()+off)*u,(q.getY()-off)*u); Pts b(p); sym_reach(bad?"crossing":"simple");
    sym_assert(THROWS(Polygon P(p))==bad,bad?"self-intersecting polygon accepted":"simple polygon rejected"); sym_assert(THROWS(PolygonalHole P(p))==bad,bad?"self-intersecting hole accepted":"simple hole rejected"); sym_assert(THROWS(Region R(p))==bad,bad?"self-intersecting region accepted":"simple region rejected");
    { Polygon Q; sym_assert(THROWS(Q.mutate(p))==bad,bad?"polygon replaced by self-intersecting points":"polygon not replaced by simple points"); }
    Pts f=tmpl(1); while(f.size()<p.size()) f.push_back(Point(0,8-(double)f.size()*0.5)); f.resize(p.size()); Polygon T; bool made=!THROWS(T=Polygon(f)); if(made){ sym_assert(THROWS(Region R(T,p))==bad,bad?"region of a polygon with self-intersecting points accepted":"region of a polygon with simple points rejected"); }
    sym_assert(eq(p,b),"the given points changed"); sym_done(); }
  if(m=="replace"){ // a rejected replacement leaves the polygon or region as it was
    Pts p=corners(argc,argv,2); bool bad=orc_meets(p); Pts q=tmpl(arg_i(argc,argv,5,2)); std::vector<HoleIn> hl=holes_of(arg_s(argc,argv,6,"R1.1.1.1")); Region R(q); for(auto&h:hl) R.addHole(h.hole); Pts sd; sd.push_back(Point(1.5,0.5)); sd.push_back(Point(0.5,3.5)); R.addSeedPoints(sd); Seen a(R); bool t=THROWS(R.mutate(p)); sym_assert(t==bad,bad?"region replaced by self-intersecting points":"region not replaced by simple points");
    if(bad){ sym_reach("kept"); Seen z(R); sym_assert(z.same_as(a),"region changed although its replacement was rejected"); } else { sym_reach("replaced"); sym_assert(R.numberOfSides()==(int)p.size(),"corners after a replacement"); Pts all=R.getRegionPoints(); for(size_t i=0;i<p.size();i++) sym_assert(same(all[i],p[i]),"corners after a replacement"); }
    Polygon P(q); double A=P.getArea(q); std::vector<int> idx=P.getPoints(); t=THROWS(P.mutate(p)); sym_assert(t==bad,"polygon and region disagree on a replacement"); if(bad) sym_assert(P.getPoints()==idx&&P.getArea(q)==A&&P.numberOfSides()==(int)q.size(),"polygon changed although its replacement was rejected"); else { sym_assert(P.numberOfSides()==(int)p.size(),"corners after a replacement"); Ideal I; double B=orc_area2(p); double G=P.getArea(p); sym_assert(near_(2*G,B<0?-B:B,1e-6)||near_(2*G,B,1e-6),"area after a replacement"); } sym_done(); }
  if(m=="hole"){ // whatever a hole is: if it is rejected, the region stays as it was
    int t=arg_i(argc,argv,2,1); double u=arg_i(argc,argv,3,1); std::vector<HoleIn> hs=holes_of(arg_s(argc,argv,4,"r-2.9.-2.9.3.3")); Pts sd=points_of(arg_s(argc,argv,5,"f1.1/f7.5")); Pts p=tmpl(t%100,u); if(t>=100) p=rev(p); Region R(p); R.addSeedPoints(sd);
    for(auto&h:hs){ Seen a(R); if(THROWS(R.addHole(h.hole))){ sym_reach("rejected"); Seen b(R); sym_assert(b.same_as(a),"region changed although the hole was rejected"); } else { sym_reach("taken"); Seen b(R); bool listed=b.holes.size()==a.holes.size()+1; sym_assert(b.holes.size()==a.holes.size()||listed,"number of holes"); if(listed) sym_assert(b.n==a.n,"listed hole changes the outline"); for(size_t i=0;i<a.holes.size();i++) sym_assert(eq(a.holes[i],b.holes[i]),"earlier hole changed"); } } sym_done(); }
  if(m=="file"){ // files that are not there, other files that are
    int t=arg_i(argc,argv,2,1),k=each((int)sym_int("k",0,2),0,2); Home h; Pts p=tmpl(t); Region R(p); Pts sd; sd.push_back(Point(1.5,0.5)); R.addSeedPoints(sd); Seen a(R); const char*nm[]={"none.txt","sub/none.txt","seeds.tx"}; h.write("seeds.txt","1\n1 1\n"); bool thrown=false; try { R.addSeedsFromFile(nm[k]); } catch(std::exception&){ thrown=true; } Seen b(R); bool okf=true; int got=0; try { R.addSeedsFromFile("seeds.txt"); got=(int)R.getSeedPoints().size(); } catch(std::exception&){ okf=false; }
    Mesh<Polygon> M; bool mt=false; try { M.createFromFile(nm[k],0); } catch(std::exception&){ mt=true; } bool ot=false; try { utilities::openFile(nm[k]); } catch(std::exception&){ ot=true; } h.close();
    sym_reach("missing"); sym_assert(thrown&&ot&&mt,"missing file accepted"); sym_assert(b.same_as(a),"region changed by a missing file"); sym_assert(okf&&got==(int)a.seeds.size()+(R.containsPoint(Point(1,1))?1:0),"existing file rejected"); sym_assert(M.getPoints().size()==0&&M.getPolygons().empty()&&M.getSegments()->size()==0,"mesh changed by a missing file"); sym_done(); }
  if(m=="tri"){ int n=arg_i(argc,argv,2,3),lo=arg_i(argc,argv,3,-2),hi=arg_i(argc,argv,4,3); std::vector<int> v; for(int i=0;i<n;i++){ char b[8]; snprintf(b,8,"v%d",i); v.push_back((int)sym_int(b,lo,hi)); } std::vector<int> w(v); bool ok=n==3; if(ok) ok=(v[0]!=v[1])&(v[1]!=v[2])&(v[0]!=v[2]); bool t=THROWS(delynoi_utilities::checkTriangleIntegrity(v)); sym_reach(ok?"triangle":"no triangle"); sym_assert(t==!ok,ok?"valid triangle rejected":"invalid triangle accepted"); sym_assert(v==w,"indices changed"); sym_done(); }
  if(m=="gen"){ int k=each((int)sym_int("k",0,2),0,2); functions::independent_variable iv=k==0?functions::independent_variable::x:k==1?functions::independent_variable::y:functions::independent_variable::both; Functor*f=functions::constant(); bool t=THROWS(PointGenerator g(f,iv)); bool t2=THROWS(PointGenerator g(f,f)); sym_reach(k==2?"both":"one"); sym_assert(t==(k==2),k==2?"one function for two free variables accepted":"one function for one variable rejected"); sym_assert(!t2,"two functions rejected"); sym_done(); }
  if(m=="center"){ Pts p=corners(argc,argv,2); { Ideal I; if(orc_meets(p)) sym_reject(); } int n=(int)p.size(); bool a=false,b=false; { Ideal I; for(int i=0;i<n;i++){ double v=orc_o(p[i],p[(i+1)%n],p[(i+2)%n]); if(v>0) a=true; if(v<0) b=true; } } Pts list(p); list.push_back(Point(50,50)); std::vector<int> idx; for(int i=0;i<n;i++) idx.push_back(i); Polygon P(idx,list); CenterTriangulationGenerator g; size_t got=0; bool t=THROWS(got=g.triangulate(P,list).size()); bool bad=a&&b; sym_reach(bad?"reflex":"convex"); sym_assert(t==bad,bad?"non-convex polygon accepted":"convex polygon rejected"); if(bad) sym_assert(list.size()==p.size()+1&&P.getPoints()==idx,"points changed for a rejected polygon"); else sym_assert(list.size()==p.size()+2&&(int)got==n,"convex polygon not triangulated"); sym_done(); }
  sym_done();
}
