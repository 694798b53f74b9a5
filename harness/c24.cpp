// Segment and point maps against a model (C24).  args: seg|segbits|pt, steps, indices, operations, symbolic polygon indices 0..k-1 (0: all different)
#include "common.h"
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <delynoi/models/neighbourhood/PointMap.h>
struct E { int a,b,n1,n2; };
static bool grid=true; static int N=3;
static int idx(const std::string&n){ return grid?(int)sym_int(n.c_str(),0,N):(int)sym_u32(n.c_str()); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"seg"); int steps=arg_i(argc,argv,2,3); N=arg_i(argc,argv,3,3); std::string sc=arg_s(argc,argv,4,""); grid=m!="segbits"; int np=arg_i(argc,argv,5,0),pre=arg_i(argc,argv,6,0); // pre: edges or points that are in the map before the symbolic operations
  if(m!="pt"){
    SegmentMap M; std::vector<E> w;
    auto find=[&](int a,int b){ for(size_t i=0;i<w.size();i++) if((w[i].a==a&&w[i].b==b)||(w[i].a==b&&w[i].b==a)) return (int)i; return -1; };
    for(int i=0;i<pre;i++){ int a=i%3==2?i+1:i,b=i%3==2?i:i+1+i%2; M.insert(IndexSegment(a,b),1000+i); int j=find(a,b); if(j<0) w.push_back(E{a,b,1000+i,-1}); else w[j].n2=1000+i; if(i%4==1){ M.insert(IndexSegment(b,a),2000+i); w[find(a,b)].n2=2000+i; } }
    for(int k=0;k<steps;k++){ std::string s=std::to_string(k); int a=idx("a"+s),b=idx("b"+s); char op=k<(int)sc.size()?sc[k]:'i';
      if(op=='?') op="ip"[sym_int(("op"+s).c_str(),0,1)];
      if(op=='c'){ bool h=M.containsSegment(IndexSegment(a,b)); sym_assert(h==(find(a,b)>=0),"membership of an edge in between"); if(h){ int i=find(a,b); sym_assert(M.get(IndexSegment(b,a)).getFirst()==w[i].n1&&M.get(IndexSegment(a,b)).getSecond()==w[i].n2,"neighbours in between"); } continue; }
      if(op=='i'){ int p=np?(int)sym_int(("p"+s).c_str(),0,np-1):grid?100+k:(int)(sym_u32(("p"+s).c_str())&0x7fffffff); M.insert(IndexSegment(a,b),p); int i=find(a,b); if(i<0) w.push_back(E{a,b,p,-1}); else { w[i].n2=p; sym_reach("second"); } }
      else { int p=np?(int)sym_int(("p"+s).c_str(),0,np-1):200+k,q=np?(int)sym_int(("q"+s).c_str(),-1,np-1):300+k; M.insert(IndexSegment(a,b),NeighboursBySegment(p,q)); int i=find(a,b); if(i<0) w.push_back(E{a,b,p,q}); else { w[i].n1=p; w[i].n2=q; sym_reach("replace"); } } }
    sym_assert(M.size()==(int)w.size()&&M.getMap().size()==w.size(),"number of edges"); 
    for(auto&e:w){ NeighboursBySegment x=M.get(IndexSegment(e.a,e.b)),y=M.get(IndexSegment(e.b,e.a)); sym_assert(x.getFirst()==e.n1&&x.getSecond()==e.n2,"neighbours of an edge"); sym_assert(y.getFirst()==e.n1&&y.getSecond()==e.n2,"neighbours of a reversed edge"); sym_assert(M.containsSegment(IndexSegment(e.b,e.a)),"edge is missing"); }
    int c=idx("c"),d=idx("d"); sym_assert(M.containsSegment(IndexSegment(c,d))==(find(c,d)>=0),"membership of an edge"); sym_assert(M.size()==(int)w.size(),"lookup changed the number of edges");
    SegmentMap C=M; int i=find(c,d); if(i>=0){ sym_reach("hit"); sym_assert(C.get(IndexSegment(c,d)).getFirst()==w[i].n1&&C.get(IndexSegment(c,d)).getSecond()==w[i].n2,"neighbours in a copy"); } else sym_reach("miss");
    for(auto&e:static_cast<const SegmentMap&>(M).getMap()){ int j=find(e.first.getFirst(),e.first.getSecond()); sym_assert(j>=0&&e.second.getFirst()==w[j].n1&&e.second.getSecond()==w[j].n2,"listed edge"); }
    // polygons found through the returned reference
    if(i>=0){ M.get(IndexSegment(d,c)).setSecond(77); sym_assert(M.get(IndexSegment(c,d)).getSecond()==77&&M.get(IndexSegment(c,d)).getFirst()==w[i].n1,"neighbour set through the map"); }
  } else {
    const double J=1.0/(1<<20); PointMap M; std::vector<std::pair<Point,std::vector<int>>> w;
    auto pt=[&](const std::string&s){ double x=(double)sym_int(("x"+s).c_str(),0,N),y=(double)sym_int(("y"+s).c_str(),0,N),j=(double)sym_int(("j"+s).c_str(),-4,4); return Point(x+j*J,y-j*J); };
    auto find=[&](const Point&p){ for(size_t i=0;i<w.size();i++){ double x=w[i].first.getX()-p.getX(),y=w[i].first.getY()-p.getY(); if(x<0.5&&x>-0.5&&y<0.5&&y>-0.5) return (int)i; } return -1; };
    for(int i=0;i<pre;i++){ Point p(i%6,i/6); M.insert(p,1000+i); w.push_back(std::make_pair(p,std::vector<int>(1,1000+i))); if(i%3==0){ Point o(i%6+2*J,i/6-3*J); M.insert(o,2000+i); w.back().second.push_back(2000+i); } }
    for(int k=0;k<steps;k++){ Point p=pt(std::to_string(k)); char op=k<(int)sc.size()?sc[k]:'i'; std::vector<int> v; v.push_back(np?(int)sym_int(("n"+std::to_string(k)).c_str(),0,np-1):10*k); if(op=='l') v.push_back(np?0:10*k+1); int i=find(p);
      if(op=='i') M.insert(p,v[0]); else { std::vector<int> u=v; M.insert(p,u); } if(i<0) w.push_back(std::make_pair(p,v)); else { sym_reach("second"); for(int x:v) w[i].second.push_back(x); } }
    sym_assert(M.size()==(int)w.size()&&M.getMap().size()==w.size(),"number of points");
    for(auto&e:w) sym_assert(M.get(e.first).getNeighbours()==e.second,"neighbours of a point");
    sym_assert(M.size()==(int)w.size(),"lookup changed the number of points");
    Point q=pt("q"); int i=find(q); if(i>=0){ sym_reach("hit"); sym_assert(M.get(q).getNeighbours()==w[i].second,"neighbours of a point within tolerance"); } else { sym_reach("miss"); sym_assert(M.getMap().find(q)==M.getMap().end(),"point that was never inserted"); }
    PointMap C=M; C.insert(w[0].first,99); sym_assert(M.get(w[0].first).getNeighbours()==w[0].second,"copy shares the neighbours");
  }
  sym_done();
}
