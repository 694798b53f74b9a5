// Bounding boxes (C25).  args: box | eq  (bit-precise),  region, template, sym corner(s), window
#include "tmpl.h"
#include <delynoi/models/polygon/BoundingBox.h>
#include <delynoi/models/Region.h>
#include <delynoi/config/DelynoiConfig.h>
static bool grid=false;
static double fin(const char*n){ if(grid) return (double)sym_int(n,-(1<<24),1<<24)/1024; double v=sym_f64(n); sym_assume(v<=1.7976931348623157e308&&v>=-1.7976931348623157e308); return v; }
static double mn(double a,double b){ return b<a?b:a; }
static double mx(double a,double b){ return a<b?b:a; }
static bool pt(const Point&p,double x,double y){ return p.getX()==x&&p.getY()==y; }
static bool side(PointSegment&s,double x0,double y0,double x1,double y1){ Point a=s.getFirst(),b=s.getSecond(); return (pt(a,x0,y0)&&pt(b,x1,y1))||(pt(a,x1,y1)&&pt(b,x0,y0)); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"box"); grid=m=="swap";
  if(m=="box"||m=="swap"||m=="in"||m=="sides"){
    double ax=fin("ax"),ay=fin("ay"),bx=fin("bx"),by=fin("by"); BoundingBox B(Point(ax,ay),Point(bx,by));
    double x0=mn(ax,bx),x1=mx(ax,bx),y0=mn(ay,by),y1=mx(ay,by);
    if(m=="box"){
      sym_assert(pt(B.getFirst(),ax,ay)&&pt(B.getSecond(),bx,by),"corners given");
      sym_assert(B.xMin()==x0&&B.xMax()==x1&&B.yMin()==y0&&B.yMax()==y1,"minimum or maximum"); sym_assert(B.getWidth()==std::fabs(ax-bx)&&B.getHeight()==std::fabs(ay-by),"width or height"); sym_reach("box");
      BoundingBox D(Point(ax,by),Point(bx,ay)); sym_assert(D.xMin()==x0&&D.yMin()==y0&&D.xMax()==x1&&D.yMax()==y1,"extent depends on the corners given"); }
    else if(m=="swap"){
      BoundingBox C(Point(bx,by),Point(ax,ay)),D(Point(ax,by),Point(bx,ay)); sym_reach("swap"); sym_assert(B==C&&C==B,"box differs from the one with its corners swapped"); sym_assert(B==D&&D==B,"box differs from the one given by its other corners"); sym_assert(D.xMin()==x0&&D.yMin()==y0&&D.xMax()==x1&&D.yMax()==y1&&D.getWidth()==x1-x0&&D.getHeight()==y1-y0&&B.getWidth()==x1-x0&&B.getHeight()==y1-y0,"extent depends on the corners given"); }
    else if(m=="in"){ double x=fin("x"),y=fin("y"); bool in=x>=x0&&x<=x1&&y>=y0&&y<=y1; sym_assert(B.contains(Point(x,y))==in,"containment"); sym_reach(in?"in":"out"); }
    else { std::vector<PointSegment> s; B.getSegments(s); sym_assert(s.size()==4,"number of sides"); int n[4]={0,0,0,0}; sym_assume(ax!=bx&&ay!=by);
      for(auto&t:s){ int k=side(t,x0,y0,x1,y0)?0:side(t,x1,y0,x1,y1)?1:side(t,x1,y1,x0,y1)?2:side(t,x0,y1,x0,y0)?3:-1; sym_assert(k>=0,"segment is no side of the box"); n[k]++; } for(int k=0;k<4;k++) sym_assert(n[k]==1,"side missing"); sym_reach("sides"); }
  } else if(m=="eq"){ // lattice: equality as sets, up to the tolerance
    int r=arg_i(argc,argv,2,20); const char*nm[]={"a","b","c","d","e","f","g","h"}; double v[8]; for(int i=0;i<8;i++) v[i]=(double)sym_int(nm[i],0,r);
    BoundingBox B(Point(v[0],v[1]),Point(v[2],v[3])),C(Point(v[4],v[5]),Point(v[6],v[7]));
    bool e=mn(v[0],v[2])==mn(v[4],v[6])&&mx(v[0],v[2])==mx(v[4],v[6])&&mn(v[1],v[3])==mn(v[5],v[7])&&mx(v[1],v[3])==mx(v[5],v[7]);
    sym_assert((B==C)==e&&(C==B)==e,"equality of boxes"); sym_reach(e?"equal":"different");
  } else { // region
    int t=arg_i(argc,argv,2,1),c=arg_i(argc,argv,3,0),w=arg_i(argc,argv,4,3),o=arg_i(argc,argv,5,0),c2=arg_i(argc,argv,6,-1); double u=std::strtod(arg_s(argc,argv,7,"1").c_str(),0);
    Pts p=tmpl(t); for(auto&q:p) q=Point(q.getX()+o,q.getY()-o);
    p[c]=Point(p[c].getX()+(double)sym_int("dx",-w,w),p[c].getY()+(double)sym_int("dy",-w,w)); if(c2>=0) p[c2]=Point(p[c2].getX()+(double)sym_int("ex",-w,w),p[c2].getY()+(double)sym_int("ey",-w,w));
    for(auto&q:p) q=Point(q.getX()*u,q.getY()*u);
    double x0=p[0].getX(),x1=x0,y0=p[0].getY(),y1=y0; for(auto&q:p){ x0=mn(x0,q.getX()); x1=mx(x1,q.getX()); y0=mn(y0,q.getY()); y1=mx(y1,q.getY()); }
    try { Region R(p); BoundingBox B=R.getBox(); sym_assert(B.xMin()==x0&&B.xMax()==x1&&B.yMin()==y0&&B.yMax()==y1,"box of the region is not its extent"); for(auto&q:p) sym_assert(B.contains(q),"corner outside the box"); sym_reach("region");
      Region S(R); BoundingBox D=S.getBox(); sym_assert(B==D,"box of a copy");
      Pts h; for(auto&q:p) h.push_back(Point(q.getX()*2+1,q.getY()*2-3)); R.mutate(h); BoundingBox E=R.getBox(); sym_assert(E.xMin()==x0*2+1&&E.xMax()==x1*2+1&&E.yMin()==y0*2-3&&E.yMax()==y1*2-3,"box after the region was replaced"); }
    catch(std::invalid_argument&){ sym_reject(); }
  }
  sym_done();
}
