// Circles, arcs and circular holes (C18).  args: circle|arc|hole|far, grade or limits ...
#include "common.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/utilities/delynoi_utilities.h>
static const double PI=3.14159265358979323846;
static void on_circle(const Point&p,double cx,double cy,double r,double deg,double e,const char*what){ double ex=cx+r*std::cos(deg*PI/180),ey=cy+r*std::sin(deg*PI/180); sym_assert(near_(p.getX(),ex,e)&&near_(p.getY(),ey,e),what); double dx=p.getX()-cx,dy=p.getY()-cy,d=dx*dx+dy*dy-r*r; sym_assert(d<e*(1+2*r)&&d>-e*(1+2*r),"point not at the radius from the centre"); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"circle"); int g0=arg_i(argc,argv,2,3),g1=arg_i(argc,argv,3,20); int w=arg_i(argc,argv,4,100); double u=std::ldexp(1.0,-arg_i(argc,argv,5,0)),off=arg_i(argc,argv,6,0); int sweep=arg_i(argc,argv,7,0);
  int g=g0==g1?g0:each((int)sym_int("grade",g0,g1),g0,g1); if(g!=12||sweep==99) DelynoiConfig::instance()->setDiscretizationGrade(g);
  double cx=sym_int("cx",-w,w)*u+off,cy=sym_int("cy",-w,w)*u-off,r=sym_int("r",1,w)*u,e=1e-9*(1+off*0.1+w*u*0.01);
  if(m=="circle"){ Circle c(r,Point(cx,cy)); Pts p=c.discretizeCircle(); sym_assert((int)p.size()==g,"number of circle points"); for(int i=0;i<g;i++) on_circle(p[i],cx,cy,r,360.0*i/g,e,"circle point");
    Pts q=c.discretizeCircle(); sym_assert(q.size()==p.size()&&same(q[0],p[0])&&same(q[g-1],p[g-1]),"a second discretization differs");
    // circles in between with the same radius or centre, and another grade for a while
    { Pts a=Circle(r,Point(cx+3*u,cy-5*u)).discretizeCircle(),b=Circle(r+u,Point(cx,cy)).discretizeCircle(),d=Circle(r,Point(cx+3*u,cy)).discretizeCircle(); sym_assert((int)a.size()==g&&(int)b.size()==g&&(int)d.size()==g,"number of points of another circle"); for(int i=0;i<g;i++){ on_circle(a[i],cx+3*u,cy-5*u,r,360.0*i/g,e,"point of another circle"); on_circle(b[i],cx,cy,r+u,360.0*i/g,e,"point of another circle"); on_circle(d[i],cx+3*u,cy,r,360.0*i/g,e,"point of another circle"); }
      DelynoiConfig::instance()->setDiscretizationGrade(g+3); Pts k=c.discretizeCircle(); sym_assert((int)k.size()==g+3,"number of points after the grade changed"); for(int i=0;i<g+3;i++) on_circle(k[i],cx,cy,r,360.0*i/(g+3),e,"circle point after the grade changed"); DelynoiConfig::instance()->setDiscretizationGrade(g); Pts z=c.discretizeCircle(); sym_assert((int)z.size()==g&&same(z[g-1],p[g-1]),"circle after the grade was set back"); }
    sym_reach("circle"); }
  else if(m=="hole"){ CircularHole h(Point(cx,cy),r); Pts p=h.getPoints(); sym_assert((int)p.size()==g,"number of hole points"); for(int i=0;i<g;i++) on_circle(p[i],cx,cy,r,360.0*i/g,e,"hole point"); Point c=h.getCenter(); sym_assert(c.getX()==cx&&c.getY()==cy,"centre of the hole");
    int o=arg_i(argc,argv,8,0); std::vector<IndexSegment> s; s.push_back(IndexSegment(90,91)); h.getSegments(s,o); sym_assert((int)s.size()==g+1&&s[0].getFirst()==90,"number of sides"); for(int i=0;i<g;i++){ int a=s[i+1].getFirst()-o,b=s[i+1].getSecond()-o; sym_assert((a==i&&b==(i+1)%g)||(b==i&&a==(i+1)%g),"side does not join consecutive points"); }
    // the configuration of later circles does not change an existing hole; copies keep everything
    DelynoiConfig::instance()->setDiscretizationGrade(g+1); Hole k(h); Pts q=k.getPoints(); sym_assert((int)q.size()==g&&same(q[g-1],p[g-1])&&same(q[0],p[0]),"points of a copied hole"); Point kc=k.getCenter(); sym_assert(kc.getX()==cx&&kc.getY()==cy,"centre of a copied hole"); std::vector<IndexSegment> t; k.getSegments(t,0); sym_assert((int)t.size()==g,"sides of a copied hole"); Circle z(r,Point(cx,cy)); sym_assert((int)z.discretizeCircle().size()==g+1,"changed grade not used"); sym_reach("hole"); }
  else { double a=sweep,b=arg_i(argc,argv,8,90); if(arg_i(argc,argv,9,0)){ int ia=each((int)sym_int("a",0,8),0,8),ib=each((int)sym_int("b",-4,4),-4,4); a+=ia*30; b+=ib*45; } Pts p=delynoi_utilities::generateArcPoints(Point(cx,cy),r,a,b); sym_assert((int)p.size()==g+1,"number of arc points"); for(int i=0;i<=g;i++) on_circle(p[i],cx,cy,r,a+(b-a)*i/g,e,i==0?"first point of an arc":i==g?"last point of an arc":"arc point");
    Pts q=delynoi_utilities::generateArcPoints(Point(cx-u,cy+2*u),r,a,b),z=delynoi_utilities::generateArcPoints(Point(cx,cy),r,b,a); sym_assert((int)q.size()==g+1&&(int)z.size()==g+1,"number of points of another arc"); for(int i=0;i<=g;i++){ on_circle(q[i],cx-u,cy+2*u,r,a+(b-a)*i/g,e,"point of another arc"); on_circle(z[i],cx,cy,r,b+(a-b)*i/g,e,"point of the reversed arc"); } sym_reach("arc"); }
  sym_done();
}
