// Polygon structure queries (C11).  args: convex|self|edge|fix|equal, template, points (symbolic corners: index list "c.c"), window
#include "tmpl.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/Region.h>
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"convex"); int t=arg_i(argc,argv,2,0); std::string cs=arg_s(argc,argv,3,"0"); int w=arg_i(argc,argv,4,3); double off=arg_i(argc,argv,5,0),u=std::strtod(arg_s(argc,argv,6,"1").c_str(),0);
  Pts p=tmplx(t); int n=(int)p.size(); const char*s=cs.c_str(); int k=0;
  while(*s&&*s!='-'){ char*e; int c=(int)strtol(s,&e,10)%n; s=*e?e+1:e; char a[8],b[8]; snprintf(a,8,"x%d",k); snprintf(b,8,"y%d",k); k++; double x=(double)sym_int(a,(int)p[c].getX()-w,(int)p[c].getX()+w),y=(double)sym_int(b,(int)p[c].getY()-w,(int)p[c].getY()+w); p[c]=Point(x,y); }
  Pts o(p); for(auto&q:p) q=Point((q.getX()+off)*u,(q.getY()-off)*u);
  // the polygon refers to a longer list in another order
  Pts list; list.push_back(Point(-31,17)); for(int i=0;i<n;i++) list.push_back(p[n-1-i]); list.push_back(Point(99,-3));
  std::vector<int> idx; for(int i=0;i<n;i++) idx.push_back(n-i);
  std::vector<int> rot_,rev_(idx.rbegin(),idx.rend()); for(int i=0;i<n;i++) rot_.push_back(idx[(i+1+n/2)%n]);
  if(m=="convex"){
    bool a=false,b=false; { Ideal I; for(int i=0;i<n;i++){ double v=orc_o(o[i],o[(i+1)%n],o[(i+2)%n]); if(v>0) a=true; if(v<0) b=true; } }
    bool cv=!(a&&b); Polygon P(idx,list),Q(rot_,list),R(rev_,list);
    sym_reach(cv?"convex":"reflex"); sym_assert(P.isConvex(list)==cv,"isConvex"); sym_assert(Q.isConvex(list)==cv,"isConvex depends on the starting corner"); sym_assert(R.isConvex(list)==cv,"isConvex depends on the direction"); try { Polygon D(p); sym_assert(D.isConvex(p)==cv,"isConvex of a polygon built from points"); } catch(std::invalid_argument&){} Polygon C(Q); sym_assert(C.isConvex(list)==cv,"isConvex of a copy"); }
  else if(m=="self"){ // two non-adjacent, non-parallel sides share a point
    bool meet=orc_meets(o);
    // the queries, on a polygon with as many corners, which refers to the first n points of any list
    Pts c; for(int i=0;i<n;i++) c.push_back(Point(i,i*i)); Polygon D(c); sym_reach(meet?"meet":"simple"); sym_assert(D.isSelfIntersecting(p)==meet,"isSelfIntersecting"); Pts rp=rev(p),tp=rot(p,1+n/2); sym_assert(D.isSelfIntersecting(rp)==meet,"isSelfIntersecting depends on the direction"); sym_assert(D.isSelfIntersecting(tp)==meet,"isSelfIntersecting depends on the starting corner");
    std::vector<int> ri,bi; for(int i=0;i<n;i++){ ri.push_back((i+1)%n); bi.push_back(n-1-i); } Polygon E(ri,c),F(bi,c); sym_assert(E.isSelfIntersecting(p)==meet&&F.isSelfIntersecting(p)==meet,"isSelfIntersecting depends on the order of the indices");
    bool threw=false; try { Pts q(p); Polygon X(q); sym_assert(!X.isSelfIntersecting(p),"isSelfIntersecting of a polygon built from points"); } catch(std::invalid_argument&){ threw=true; } sym_assert(threw==meet,"self-intersecting points accepted, or simple points rejected, when a polygon is built");
    threw=false; try { Pts q(p); Region R(q); } catch(std::invalid_argument&){ threw=true; } sym_assert(threw==meet,meet?"self-intersecting region accepted":"region rejected although its outline is simple");
    Polygon G; threw=false; try { Pts q(p); G.mutate(q); } catch(std::invalid_argument&){ threw=true; } sym_assert(threw==meet,"self-intersecting points accepted, or simple points rejected, when a polygon is replaced"); }
  else if(m=="edge"){ // every index pair, including indices that are no corners
    Polygon P(idx,list),Q(rot_,list); int i=(int)sym_int("i",-1,n+2),j=(int)sym_int("j",-1,n+2); int pi=-1,pj=-1; for(int a=0;a<n;a++){ if(idx[a]==i) pi=a; if(idx[a]==j) pj=a; }
    bool e=pi>=0&&pj>=0&&(pj==(pi+1)%n||pi==(pj+1)%n); IndexSegment sg_(i,j); sym_reach(e?"side":"noside"); sym_assert(P.containsEdge(sg_)==e&&Q.containsEdge(sg_)==e,"containsEdge"); sym_assert(P.isVertex(i)==(pi>=0)&&Q.isVertex(j)==(pj>=0),"isVertex");
    std::vector<IndexSegment> ss; Q.getSegments(ss); sym_assert((int)ss.size()==n,"number of sides"); for(int a=0;a<n;a++) sym_assert(ss[a].getFirst()==rot_[a]&&ss[a].getSecond()==rot_[(a+1)%n],"sides not in order"); sym_assert(P.numberOfSides()==n,"numberOfSides");
    bool among=false; for(auto&x:ss) if(x==sg_) among=true; sym_assert(among==e,"a side is missing in getSegments"); 
    Polygon T(Q); T.getSegments(ss); sym_assert((int)ss.size()==2*n&&ss[n].getFirst()==rot_[0]&&T.containsEdge(sg_)==e&&T.isVertex(i)==(pi>=0),"queries of a copy"); std::vector<Point> pp=Q.getPoints(list); for(int a=0;a<n;a++) sym_assert(same(pp[a],list[rot_[a]]),"corner points"); }
  else if(m=="fix"){
    double A; { Ideal I; A=orc_area2(o); } Polygon P(rot_,list); bool cwi=P.isClockwise(list); P.fixCCW(list); std::vector<int> q=P.getPoints(); if(A!=0) sym_assert(cwi==(A<0),"isClockwise");
    sym_assert((int)q.size()==n,"orientation changes the number of corners"); int at=-1; for(int a=0;a<n;a++) if(q[a]==rot_[0]) at=a; sym_assert(at>=0,"corner lost"); bool f=true,b=true; for(int a=0;a<n;a++){ if(q[(at+a)%n]!=rot_[a]) f=false; if(q[(at+n-a)%n]!=rot_[a]) b=false; } sym_assert(f||b,"corners or sides changed with the orientation");
    double B=0; { Ideal I; for(int a=0;a<n;a++){ const Point&x=list[q[a]],&y=list[q[(a+1)%n]]; B+=x.getX()*y.getY()-y.getX()*x.getY(); } } sym_assert(B>=0,"not counter-clockwise after fixing the orientation"); if(A!=0) sym_assert(!P.isClockwise(list),"isClockwise after fixing the orientation"); if(A<0) sym_reach("turned"); if(A>0) sym_reach("kept"); Polygon O(rot_,list); sym_assert(O==P,"orientation changes equality");
    P.fixCCW(list); sym_assert(A==0||P.getPoints()==q,"a second fix changes the polygon"); std::vector<IndexSegment> ss; P.getSegments(ss); for(auto&x:ss) sym_assert(O.containsEdge(x),"side lost with the orientation"); }
  else if(m=="equal"){ // same set of corners in any order, repeated indices as given
    Pts z; for(int i=0;i<8;i++) z.push_back(Point(i,i%2==0?0:i==3?9:4)); int c=arg_i(argc,argv,3,3); std::vector<int> v; const char*nm[]={"a","b","c","d"}; int lim=arg_i(argc,argv,4,7); for(int i=0;i<c;i++) v.push_back((int)sym_int(nm[i],0,lim)); for(int i=0;i<c;i++) for(int j=0;j<i;j++) sym_assume(v[i]!=v[j]);
    std::vector<int> perm(v); int q=(int)sym_int("perm",0,c==3?5:23); for(int i=c-1;i>0;i--){ int j=q%(i+1); q/=(i+1); std::swap(perm[i],perm[j]); }
    Polygon P,Q; { std::vector<int> e; try{ P=Polygon(v,z); Q=Polygon(perm,z);}catch(std::invalid_argument&){ sym_reject(); } } sym_reach("equal"); sym_assert(P==Q&&Q==P,"polygons with the same corners differ"); sym_assert(!(P<Q)&&!(Q<P),"equal polygons are ordered"); }
  sym_done();
}
