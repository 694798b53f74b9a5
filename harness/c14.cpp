// Undirected edge keys (C14), all 32-bit indices.  args: mode
#include "common.h"
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/models/neighbourhood/NeighboursBySegment.h>
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <delynoi/voronoi/structures/mapdata.h>
#include <delynoi/models/polygon/Polygon.h>
static int i32(const char*n){ return (int)sym_u32(n); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"eq"); 
  if(m=="poly"){ // the same corners in any order
    int n=arg_i(argc,argv,2,4); Pts p; static const double X[]={0,4,6,5,1,-1},Y[]={0,-1,2,5,6,3}; for(int i=0;i<n;i++) p.push_back(Point(X[i],Y[i]));
    std::vector<int> a,b; for(int i=0;i<n;i++) a.push_back(i); int r=(int)sym_int("rot",0,n-1); int d=(int)sym_int("dir",0,1);
    for(int i=0;i<n;i++) b.push_back((d?r+i:r+n-i)%n);
    Polygon P(a,p),Q(b,p),R(P),S; S=Q; sym_assert(P==Q&&Q==P&&R==Q&&S==P,"polygons with the same corners differ"); sym_assert(!(P<Q)&&!(Q<P),"equal polygons are ordered"); Q.fixCCW(p); sym_assert(P==Q,"orientation changes equality"); sym_reach("poly"); sym_done(); }
  if(m=="polyhash"){ // any indices: polygons over a large point list with symbolic corner indices behave like sets of corners
    std::vector<int> v,w; int n=arg_i(argc,argv,2,3); const char*nm[]={"i","j","k","l"}; for(int i=0;i<n;i++) v.push_back((int)sym_int(nm[i],0,3)); for(int i=n-1;i>=0;i--) w.push_back(v[i]);
    Pts p; p.push_back(Point(0,0)); p.push_back(Point(1,0)); p.push_back(Point(1,1)); p.push_back(Point(0,1)); Polygon P(v,p),Q(w,p); sym_assert(P==Q,"reversed polygon differs"); sym_reach("poly"); sym_done(); }
  if(m=="reorient"){ Pts p; p.push_back(Point(0,0)); p.push_back(Point(4,1)); double x=(double)sym_int("x",-6,6),y=(double)sym_int("y",-6,6); int k=(int)sym_int("k",0,1); IndexSegment s(k,1-k); s.orderCCW(p,Point(x,y)); IndexSegment r(0,1),q(s); SegmentHasher H; sym_assert(s==r&&H(s)==H(r)&&H(q)==H(r),"reoriented segment hashes differently"); sym_reach("eq");  sym_done(); }
  int a=i32("a"),b=i32("b"),c=i32("c"),d=i32("d"); bool eq=(a==c&&b==d)||(a==d&&b==c);
  if(m=="seg"){ IndexSegment s(a,b),t(c,d); SegmentHasher H; sym_assert((s==t)==eq,"segment equality"); IndexSegment u(s),v,w; v=t; w=u; sym_assert(u==s&&v==t&&w==s,"copied or assigned segment differs");
    if(eq){ sym_reach("eq"); sym_assert(H(s)==H(t),"equal segments with different hashes"); sym_assert(H(u)==H(v)&&H(w)==H(t),"copied segment hashes differently"); } else sym_reach("ne");
    IndexSegment r(b,a); sym_assert(r==s&&H(r)==H(s),"reversed segment"); 
    sym_assert(s.getFirst()==a&&s.getSecond()==b,"segment indices"); sym_assert(s.isVertex(c)==(a==c||b==c),"segment vertex test"); }
  else if(m=="key"){ Key s(a,b),t(c,d); KeyHasher H; sym_assert((s==t)==eq,"key equality"); Key u(s),w(0,0); w=t; sym_assert(u==s&&w==t,"copied key differs"); sym_assert(s.first==a&&s.second==b,"key indices"); if(eq){ sym_reach("eq"); sym_assert(H(s)==H(t)&&H(u)==H(w),"equal keys with different hashes"); } else sym_reach("ne"); Key r(b,a); sym_assert(r==s&&H(r)==H(s),"reversed key"); }
  else if(m=="edge"){ EdgeData s(a,b),t(c,d); sym_assert((s==t)==eq,"edge equality"); if(eq) sym_reach("eq"); else sym_reach("ne"); sym_assert(s.t1==-1&&s.t2==-1,"triangles of a new edge"); int x=i32("x"),y=i32("y"); sym_assume(x>=0&&y>=0); s.setTriangle(x); sym_assert(s.t1==x&&s.t2==-1,"first triangle of an edge"); s.setTriangle(y); sym_assert(s.t1==x&&s.t2==y,"second triangle of an edge"); sym_assert((s==t)==eq,"triangles change edge equality"); }
  else if(m=="nb"){ NeighboursBySegment s(a,b),t(c,d); NeighboursHasher H; sym_assert((s==t)==eq,"neighbour pair equality"); if(eq){ sym_reach("eq"); sym_assert(H(s)==H(t),"equal neighbour pairs with different hashes"); } else sym_reach("ne");
    NeighboursBySegment u(Pair<int>(a,b)); sym_assert(u==s&&u.getFirst()==a&&u.getSecond()==b,"neighbour pair from a pair"); NeighboursBySegment one(a); sym_assert(one.getFirst()==a&&one.getSecond()==-1,"neighbour pair of one polygon"); one.setNeighbour(b); sym_assert(one.getFirst()==a&&one.getSecond()==b,"second neighbour"); one.setFirst(c); one.setSecond(d); sym_assert(one==t,"set neighbours"); }
  else if(m=="offset"){ int o=i32("o"); sym_assume(a>=-(1<<30)&&a<(1<<30)&&b>=-(1<<30)&&b<(1<<30)&&o>=-(1<<30)&&o<(1<<30)); IndexSegment s(a,b),t=s.add(o),r=IndexSegment(b,a).add(o); SegmentHasher H; IndexSegment w(a+o,b+o);
    sym_assert(t.getFirst()==a+o&&t.getSecond()==b+o,"offset segment indices"); sym_assert(t==w&&r==w&&H(t)==H(w)&&H(r)==H(w),"offset segment hashes differently"); sym_reach("eq"); sym_assert(s.getFirst()==a&&s.getSecond()==b,"offset changed the original"); }
  else if(m=="order"){ IndexSegment s(a,b),t(c,d); int n=(s<t)+(t<s)+(a==c&&b==d); sym_assert(n==1,"segment order is not total"); sym_reach("ne"); bool l=a<c||(a==c&&b<d); sym_assert((s<t)==l,"segment order is not lexicographic"); int e=i32("e"),f=i32("f"); IndexSegment u(e,f); if(s<t&&t<u){ sym_reach("eq"); sym_assert(s<u,"segment order is not transitive"); } }
  sym_done();
}
