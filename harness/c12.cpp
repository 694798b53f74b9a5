// Segments (C12).  args: inter|on|basic|ccw|index|col, concrete end points..., window
#include "common.h"
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/utilities/geometryFunctions.h>
static Point sp(const char*x,const char*y,int x0,int x1,int y0,int y1,double u=1){ double a=(double)sym_int(x,x0,x1)*u,b=(double)sym_int(y,y0,y1)*u; return Point(a,b); }
static bool near0(double a,double e){ return a<e&&a>-e; }
static bool inb(double v,double a,double b,double e){ return a<b?v>=a-e&&v<=b+e:v>=b-e&&v<=a+e; }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"inter"); int w=arg_i(argc,argv,2,6); double ox=arg_i(argc,argv,3,0),oy=arg_i(argc,argv,4,0); int px=arg_i(argc,argv,5,3),py=arg_i(argc,argv,6,2),qx=arg_i(argc,argv,7,0),qy=arg_i(argc,argv,8,0); double u=argc>9?std::strtod(argv[9],0):1;
  // first segment from (ox,oy) along (px,py); the second one has a symbolic end, and a symbolic or fixed start
  Point a(ox*u,oy*u),b((ox+px)*u,(oy+py)*u);
  if(m=="inter4"){ a=sp("ax","ay",-w,w,-w,w,u); b=sp("bx","by",-w,w,-w,w,u); }
  if(m=="on4"){ a=sp("ax","ay",-w,w,-w,w,u); b=sp("bx","by",-w,w,-w,w,u); m="on"; }
  if(m=="inter"||m=="inter2"||m=="inter4"){
    Point d=sp("dx","dy",(int)ox-w,(int)ox+w,(int)oy-w,(int)oy+w,u),c=m!="inter"?sp("cx","cy",(int)ox-w,(int)ox+w,(int)oy-w,(int)oy+w,u):Point((ox+qx)*u,(oy+qy)*u);
    if(arg_i(argc,argv,10,0)) std::swap(a,b);
    bool e; { Ideal I; double den=(b.getX()-a.getX())*(d.getY()-c.getY())-(b.getY()-a.getY())*(d.getX()-c.getX()); sym_assume(den!=0);
      double o1=orc_o(a,b,c),o2=orc_o(a,b,d),o3=orc_o(c,d,a),o4=orc_o(c,d,b); e=((o1>=0&&o2<=0)||(o1<=0&&o2>=0))&&((o3>=0&&o4<=0)||(o3<=0&&o4>=0)); }
    Pts p; p.push_back(c); p.push_back(a); p.push_back(d); p.push_back(b); Point i1(-77,-77),i2(-77,-77); IndexSegment s(1,3),t(0,2);
    bool r=s.intersection(p,t,i1),r2=s.intersection(p,PointSegment(c,d),i2); sym_assert(r==e,"intersection of index segments"); sym_assert(r2==e,"intersection with a point segment"); Point i3; sym_assert(t.intersection(p,s,i3)==e,"intersection is not symmetric");
    if(e){ sym_reach("meet"); for(Point*i:{&i1,&i2,&i3}){ double x=i->getX(),y=i->getY(),k=u*(2*w+8); Ideal I; sym_assert(near0(orc_o(a,b,*i),1e-9*k*k)&&near0(orc_o(c,d,*i),1e-9*k*k),"returned point is off the line of a segment"); sym_assert(inb(x,a.getX(),b.getX(),1e-9*k)&&inb(y,a.getY(),b.getY(),1e-9*k)&&inb(x,c.getX(),d.getX(),1e-9*k)&&inb(y,c.getY(),d.getY(),1e-9*k),"returned point is outside a segment"); } } else sym_reach("apart");
  } else if(m=="on"){
    Point q=sp("x","y",2*(int)ox-2*w,2*(int)ox+2*w,2*(int)oy-2*w,2*(int)oy+2*w,0.5*u),c=qx==99?sp("cx","cy",(int)ox-w,(int)ox+w,(int)oy-w,(int)oy+w,u):b; bool e; { Ideal I; e=orc_on(a,c,q); }
    PointSegment s(a,c),t(c,a); sym_assert(s.contains(q)==e,"point segment containment"); sym_assert(t.contains(q)==e,"containment depends on the direction"); Pts p; p.push_back(c); p.push_back(a); sym_assert(IndexSegment(0,1).contains(p,q)==e&&IndexSegment(1,0).contains(p,q)==e,"index segment containment"); sym_reach(e?"on":"off");
    Point z((a.getX()+c.getX())/2,(a.getY()+c.getY())/2); sym_assert(s.contains(z)&&s.contains(a)&&s.contains(c),"segment misses its ends or middle");
    p.push_back(q); p.push_back(z); sym_assert(IndexSegment(0,1).contains(p,IndexSegment(2,3))==e,"segment in segment"); sym_assert(IndexSegment(2,3).isContained(s,p)==e&&IndexSegment(3,2).isContained(t,p)==e,"isContained");
  } else if(m=="basic"){
    Point c=sp("cx","cy",-w,w,-w,w,u),d=sp("dx","dy",-w,w,-w,w,u); Pts p; p.push_back(d); p.push_back(Point(7,7)); p.push_back(c); PointSegment s(c,d); IndexSegment t(2,0);
    sym_assert(same(s.getFirst(),c)&&same(s.getSecond(),d)&&t.getFirst()==2&&t.getSecond()==0,"ends of a segment"); double l=s.length(),l2=t.length(p); double q; { Ideal I; q=orc_d2(c,d); }
    sym_assert(l>=0&&l2>=0,"negative length"); sym_assert(near0(l*l-q,1e-9*u*u)&&near0(l2*l2-q,1e-9*u*u),"length"); Point z=t.middlePoint(p); sym_assert(z.getX()==(c.getX()+d.getX())/2&&z.getY()==(c.getY()+d.getY())/2,"middle point"); sym_reach("basic");
    PointSegment r(d,c); sym_assert(r==s&&s==r&&s.isVertex(c)&&s.isVertex(d)&&r.isVertex(c),"reverse or vertices of a segment"); 
    sym_assert(s.isVertex(Point(0,0))==((c.getX()==0&&c.getY()==0)||(d.getX()==0&&d.getY()==0)),"vertex test"); PointSegment o(c,Point(0,0)); sym_assert((o==s)==((d.getX()==0&&d.getY()==0)||(c.getX()==0&&c.getY()==0&&d.getX()==0&&d.getY()==0)),"segment equality");
  } else if(m=="ccw"){
    Point c=sp("cx","cy",-w,w,-w,w,u),d=sp("dx","dy",-w,w,-w,w,u),z=qx==99?sp("zx","zy",-w,w,-w,w,u):Point(qx*u,qy*u); Pts p; p.push_back(Point(1,1)); p.push_back(d); p.push_back(c); bool e,f; { Ideal I; double o=orc_o(c,d,z); e=o>0; f=o<0; }
    IndexSegment s(2,1),r(1,2); sym_assert(s.isCCW(p,z)==e,"counter-clockwise test"); sym_assert(r.isCCW(p,z)==f,"counter-clockwise test of the reverse"); s.orderCCW(p,z); r.orderCCW(p,z); sym_assert(s==IndexSegment(1,2)&&r==s,"reordering changed the ends");
    if(e||f){ sym_reach("turn"); sym_assert(s.getFirst()==(e?2:1)&&s.getSecond()==(e?1:2)&&r.getFirst()==s.getFirst()&&r.getSecond()==s.getSecond(),"order around the centre"); sym_assert(s.isCCW(p,z)&&r.isCCW(p,z),"not counter-clockwise after reordering"); } else sym_reach("straight");
  } else if(m=="index"){
    int i=(int)sym_int("i",0,w),j=(int)sym_int("j",0,w),o=(int)sym_int("o",-w,w),k=(int)sym_int("k",0,w); IndexSegment s(i,j); IndexSegment t=s.add(o); sym_assert(t.getFirst()==i+o&&t.getSecond()==j+o,"offset indices"); sym_assert(s.getFirst()==i&&s.getSecond()==j,"offset changed the original"); sym_assert(s.isVertex(k)==(k==i||k==j),"vertex test"); sym_assert(IndexSegment(j,i)==s,"reverse"); sym_reach("index");
  } else { // collinear segments and points
    Point c=sp("cx","cy",-w,w,-w,w,u),d=sp("dx","dy",-w,w,-w,w,u); bool e; { Ideal I; e=orc_o(a,b,c)==0&&orc_o(a,b,d)==0; } PointSegment s(a,b),t(c,d); sym_assert(geometry_functions::collinear(s,t)==e,"collinear segments"); bool f; { Ideal I; f=orc_o(a,b,c)==0; } sym_assert(geometry_functions::collinear(a,b,c)==f,"collinear points"); sym_reach(e?"col":"notcol");
  }
  sym_done();
}
