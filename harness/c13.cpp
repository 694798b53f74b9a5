// Point comparison (C13), all finite doubles, bit-precise.  args: mode, [symbolic tolerance 0/1]
#include "common.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/basic/PointSegment.h>
static bool grid=false; static double U=1.0/(1<<20);
static double fin(const char*n){ if(grid) return (double)sym_int(n,-(1<<26),1<<26)*U; double v=sym_f64(n); sym_assume(v<=1.7976931348623157e308&&v>=-1.7976931348623157e308); return v; }
static double T;
static bool cl(double a,double b){ return std::fabs(a-b)<T; }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"eq"); T=1e-5; grid=m=="transg"; bool one=m=="trans1";
  if(arg_i(argc,argv,2,0)){ if(grid) T=(double)sym_int("tol",1,1000)*U; else { T=sym_f64("tol"); sym_assume(T>0&&T<=1e300); } DelynoiConfig::instance()->setTolerance(T); }
  double ax=fin("ax"),ay=one?0:fin("ay"),bx=fin("bx"),by=one?0:fin("by"); Point p(ax,ay),q(bx,by);
  if(m=="eq"){
    bool e=p==q,w=cl(ax,bx)&&cl(ay,by); sym_assert(e==w,"equality does not follow the tolerance"); sym_assert((q==p)==e,"equality is not symmetric"); sym_assert(p==p,"a point differs from itself");
    if(e) sym_reach("equal"); else sym_reach("different");
  } else if(m=="less"){
    bool l=p<q,w=cl(ax,bx)?(!cl(ay,by)&&ay<by):ax<bx; sym_assert(l==w,"order does not follow the coordinates"); if(l) sym_reach("less"); else sym_reach("notless");
    sym_assert(!(p<p),"a point is smaller than itself");
  } else if(m=="tri"){
    int n=(p<q)+(q<p)+(p==q); sym_assert(n==1,"not exactly one of less, greater and equal"); sym_reach("tri");
  } else if(m=="seg"){ // vertices of segments compare like points
    double cx=fin("cx"),cy=fin("cy"); Point r(cx,cy); PointSegment s(p,q); bool v=s.isVertex(r); sym_assert(v==((cl(ax,cx)&&cl(ay,cy))||(cl(bx,cx)&&cl(by,cy))),"segment vertex test does not follow point equality"); sym_reach("seg");
    sym_assert(PointSegment(q,p)==s,"segment differs from its reverse");
  } else { // order is transitive where being within tolerance is
    double cx=fin("cx"),cy=one?0:fin("cy"); Point r(cx,cy); if(arg_i(argc,argv,3,0)){ p=Point(ay,ax); q=Point(by,bx); r=Point(cy,cx); }
    bool x1=cl(ax,bx),x2=cl(bx,cx),x3=cl(ax,cx),y1=cl(ay,by),y2=cl(by,cy),y3=cl(ay,cy);
    sym_assume((x1+x2+x3)!=2&&(y1+y2+y3)!=2);
    if(p<q&&q<r){ sym_reach("trans"); sym_assert(p<r,"order is not transitive"); }
    if(p==q&&q==r){ sym_reach("transeq"); sym_assert(p==r,"equality is not transitive"); }
  }
  sym_done();
}
