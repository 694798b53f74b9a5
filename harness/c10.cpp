// C10: polygon measures.  args: n corners (template of that size), how many symbolic, start rotation, mode, reversed
#include "tmpl.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/Region.h>
#include <delynoi/utilities/geometryFunctions.h>
int main(int argc,char**argv){
  int t=arg_i(argc,argv,1,0),k=arg_i(argc,argv,2,1),k0=arg_i(argc,argv,3,0); std::string mode=arg_s(argc,argv,4,"area"); int rv=arg_i(argc,argv,5,0),w=arg_i(argc,argv,6,3); double off=arg_i(argc,argv,7,0);
  Pts p=tmpl(t,1,off,off/2); int n=(int)p.size();
  for(int i=0;i<k;i++){ int c=(k0+i)%n; char a[16],b[16]; sprintf(a,"x%d",i); sprintf(b,"y%d",i); double x=(double)sym_int(a,(int)p[c].getX()-w,(int)p[c].getX()+w), y=(double)sym_int(b,(int)p[c].getY()-w,(int)p[c].getY()+w); p[c]=Point(x,y); }
  if(rv) p=rev(p);
  double A2; { Ideal I; A2=orc_area2(p); }
  // the polygon refers to a longer list in another order
  Pts list; list.push_back(Point(-31,17)); for(int i=0;i<n;i++) list.push_back(p[n-1-i]); list.push_back(Point(99,-3));
  std::vector<int> idx,rot_,rev_; for(int i=0;i<n;i++) idx.push_back(n-i);
  for(int i=0;i<n;i++) rot_.push_back(idx[(i+1+n/2)%n]);
  rev_.assign(idx.rbegin(),idx.rend());
  Polygon P(idx,list),Q(rot_,list),V(rev_,list);
  if(mode=="area"){
    double a=P.getArea(list),s=P.signedArea(list),aq=Q.getArea(list),av=V.getArea(list),sv=V.signedArea(list); bool cw=P.isClockwise(list),cwq=Q.isClockwise(list),cwv=V.isClockwise(list);
    { Ideal I; sym_assert(near_(2*a,A2,1e-6),"getArea is not the shoelace area"); sym_assert(near_(2*s,A2,1e-6),"signedArea is not the shoelace area"); sym_assert(near_(2*aq,A2,1e-6),"area depends on the starting corner"); sym_assert(near_(2*av,-A2,1e-6)&&near_(2*sv,-A2,1e-6),"reversing does not negate the area");
      if(A2>0){ sym_reach("ccw"); sym_assert(!cw&&!cwq&&cwv,"orientation of a counter-clockwise polygon"); } if(A2<0){ sym_reach("cw"); sym_assert(cw&&cwq&&!cwv,"orientation of a clockwise polygon"); } }
    { Polygon X(idx,list),Y(rev_,list); X.fixCCW(list); Y.fixCCW(list); double x=X.getArea(list),y=Y.getArea(list); Ideal I; double B=A2<0?-A2:A2; sym_assert(near_(2*x,B,1e-6)&&near_(2*y,B,1e-6),"area first read after fixing the orientation"); }
    P.fixCCW(list); double f=P.getArea(list); V.fixCCW(list); double fv=V.getArea(list),fs=V.signedArea(list); double again=P.getArea(list);
    { Ideal I; double B=A2<0?-A2:A2; sym_assert(near_(2*f,B,1e-6)&&near_(2*again,B,1e-6),"area after fixing the orientation"); sym_assert(near_(2*fv,B,1e-6)&&near_(2*fs,B,1e-6),"area of the reversed polygon after fixing the orientation"); }
    if(A2!=0) sym_assert(!P.isClockwise(list)&&!V.isClockwise(list),"still clockwise after fixing the orientation");
    Polygon C(P); double c=C.getArea(list); sym_assert(c==f,"area of a copy");
    Polygon W(V); { Polygon D=W; double d=D.getArea(list); sym_assert(d==fv,"area of a copy"); }
    double g=geometry_functions::area(p); { Ideal I; sym_assert(near_(2*g,A2,1e-6),"area of a point list"); }
  } else if(mode=="centroid"){
    sym_assume(A2>=1||A2<=-1);
    Point c=P.getCentroid(list),c2=P.getCentroid(list),cq=Q.getCentroid(list),cv=V.getCentroid(list);
    Ideal I; double sx=0,sy=0; for(int i=0;i<n;i++){ const Point&a=p[i],&b=p[(i+1)%n]; double cr=a.getX()*b.getY()-b.getX()*a.getY(); sx+=(a.getX()+b.getX())*cr; sy+=(a.getY()+b.getY())*cr; }
    double e=1e-5; if(A2<0) e=-e; // |c - s/(3A2)|<e  <=>  |3*A2*c-s|<3*|A2|*e
    sym_assert(near_(3*A2*c.getX(),sx,3*A2*e)&&near_(3*A2*c.getY(),sy,3*A2*e),"centroid"); sym_reach("centroid");
    sym_assert(c2.getX()==c.getX()&&c2.getY()==c.getY(),"centroid changes on the second call");
    sym_assert(near_(3*A2*cq.getX(),sx,3*A2*e)&&near_(3*A2*cq.getY(),sy,3*A2*e),"centroid depends on the starting corner");
    sym_assert(near_(3*A2*cv.getX(),sx,3*A2*e)&&near_(3*A2*cv.getY(),sy,3*A2*e),"centroid depends on the orientation");
  } else if(mode=="average"){
    Point c=P.getAverage(list); Ideal I; double sx=0,sy=0; for(auto&q:p){ sx+=q.getX(); sy+=q.getY(); } sym_assert(near_(n*c.getX(),sx,1e-6)&&near_(n*c.getY(),sy,1e-6),"average"); sym_reach("average");
  } else if(mode=="diameter"||mode=="edge"){
    bool di=mode=="diameter";
    double d=di?P.getDiameter(list):P.getMaxDistance(list), dv=di?V.getDiameter(list):V.getMaxDistance(list); double d2=di?P.getDiameter(list):P.getMaxDistance(list);
    Ideal I; double m=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(di||j==i+1||(i==0&&j==n-1)){ double q=orc_d2(p[i],p[j]); if(q>m) m=q; }
    sym_assert(near_(d*d,m,1e-6),di?"diameter is not the largest distance between corners":"maximum edge is not the longest side"); sym_assert(near_(dv*dv,m,1e-6),"value changes when the corners are reversed"); sym_assert(d2==d,"value changes on the second call"); sym_reach(mode.c_str());
  } else if(mode=="stale"){
    // a region that is replaced after its measures were read
    Pts sq=tmpl(12); Region R(sq); double a0=R.getArea(sq),d0=R.getDiameter(sq); Point c0=R.getCentroid(sq); (void)c0;
    { Ideal I; sym_assert(near_(2*a0,orc_area2(sq),1e-6),"area of a region"); }
    sym_assume(A2>=1||A2<=-1); Pts pc(p); try{ R.mutate(pc); }catch(std::invalid_argument&){ sym_reject(); }
    double a=R.getArea(pc),d=R.getDiameter(pc); Point c=R.getCentroid(pc); 
    Region R2(R); Pts pts=R2.getRegionPoints(); double ar=R2.getArea(pts); (void)d0;
    Ideal I; double m=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ double q=orc_d2(p[i],p[j]); if(q>m) m=q; }
    sym_assert(near_(2*a,A2,1e-6),"area is stale after the region changed"); sym_assert(near_(d*d,m,1e-6),"diameter is stale after the region changed"); sym_assert(near_(2*ar,A2,1e-6),"area of a copied region");
    double sx=0; for(int i=0;i<n;i++){ const Point&a=p[i],&b=p[(i+1)%n]; sx+=(a.getX()+b.getX())*(a.getX()*b.getY()-b.getX()*a.getY()); } double e=1e-5; if(A2<0) e=-e;
    sym_assert(near_(3*A2*c.getX(),sx,3*A2*e),"centroid is stale after the region changed"); sym_reach("stale");
  }
  sym_done();
}
