// Configuration (C21).  args: set|tol|grade|scale|prec, ...
#include "common.h"
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/Region.h>
#include <delynoi/utilities/delynoi_utilities.h>
static void expect(int g,double t,int s,int p){ DelynoiConfig*c=DelynoiConfig::instance(); sym_assert(c->getDiscretizationGrade()==g,"discretization grade"); sym_assert(c->getTolerance()==t,"tolerance"); sym_assert(c->getScale()==s,"scale"); sym_assert(c->getPrecision()==p,"precision"); }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"set");
  if(m=="set"){ // bit-precise: any values, any order of setters
    std::string sc=arg_s(argc,argv,2,"???"); expect(12,1e-5,100000,6); int g=12,s=100000,p=6; double t=1e-5;
    for(size_t k=0;k<sc.size();k++){ std::string n=std::to_string(k); int op=sc[k]=='?'?(int)sym_int(("op"+n).c_str(),0,4):sc[k]-'0'; DelynoiConfig*c=DelynoiConfig::instance();
      if(op==0){ g=(int)sym_u32(("g"+n).c_str()); c->setDiscretizationGrade(g); } else if(op==1){ t=sym_f64(("t"+n).c_str()); sym_assume(t==t); c->setTolerance(t); } else if(op==2){ s=(int)sym_u32(("s"+n).c_str()); c->setScale(s); } else if(op==3){ p=(int)sym_u32(("p"+n).c_str()); c->setPrecision(p); }
      else { c->setPrecision(Precision::large); p=16; }
      sym_assert(DelynoiConfig::instance()==c,"configuration is not shared"); expect(g,t,s,p); }
    sym_reach("set"); }
  else if(m=="enum"){ DelynoiConfig::instance()->setPrecision(Precision::small); expect(12,1e-5,100000,6); DelynoiConfig::instance()->setPrecision(Precision::mid); expect(12,1e-5,100000,10); DelynoiConfig::instance()->setPrecision(Precision::large); expect(12,1e-5,100000,16); sym_reach("set"); }
  else if(m=="tol"){ const double U=1.0/(1<<16); double t=(double)sym_int("t",1,1<<17)*U; DelynoiConfig::instance()->setTolerance(t); double d=(double)sym_int("d",-(1<<18),1<<18)*U; 
    Ideal I; double a=d<0?-d:d; bool w=a<t; sym_reach(w?"in":"out"); sym_ideal(0);
    sym_assert((Point(3,5)==Point(3+d,5))==w&&(Point(3,5+d)==Point(3,5))==w,"tolerance of point equality");
    // a unit segment: the collinearity test compares the distance itself
    PointSegment s(Point(0,0),Point(0,1)); sym_assert(s.contains(Point(d,0.5))==w,"tolerance of segment containment (across)"); PointSegment h(Point(0,0),Point(1,0)); sym_assert(h.contains(Point(0.5,d))==w,"tolerance of segment containment (across)");
    sym_assert(h.contains(Point(d,0))==(w||(d>=0&&d<=1)||(d>1&&d-1<t)),"tolerance of segment containment (along)"); sym_assert(s.contains(Point(0,1+d))==((d<=0&&d>=-1)||w||(d<-1&&-1-d<t)),"tolerance of segment containment (along)");
    std::vector<Point> p; p.push_back(Point(0,0)); p.push_back(Point(1,0)); sym_assert(IndexSegment(1,0).contains(p,Point(0.5,d))==w,"tolerance of index segment containment"); }
  else if(m=="grade"){ int g=(int)sym_int("g",3,arg_i(argc,argv,2,40)),r=(int)sym_int("r",1,3); DelynoiConfig::instance()->setDiscretizationGrade(g); Circle c(r,Point(1,2)); sym_assert((int)c.discretizeCircle().size()==g,"number of circle points"); sym_assert((int)delynoi_utilities::generateArcPoints(Point(0,0),r,0,90).size()==g+1,"number of arc points"); CircularHole h(Point(0,0),r); sym_assert((int)h.getPoints().size()==g,"number of points of a circular hole"); sym_reach("grade"); }
  else if(m=="prec"){ int p=(int)sym_int("p",0,17); DelynoiConfig::instance()->setPrecision(p); std::string s=Point(1.0/3,-2.0/3).getString(); size_t b=s.find(' '); sym_assert(b!=std::string::npos,"coordinates are not separated"); std::string x=s.substr(0,b),y=s.substr(b+1); size_t d=x.find('.'),e=y.find('.');
    sym_assert((p==0)==(d==std::string::npos)&&(p==0)==(e==std::string::npos),"decimal point"); if(p>0) sym_assert(x.size()-d-1==(size_t)p&&y.size()-e-1==(size_t)p,"number of decimals"); double ex=std::pow(10.0,-p); sym_assert(std::fabs(atof(x.c_str())-1.0/3)<=ex*0.5000001&&std::fabs(atof(y.c_str())+2.0/3)<=ex*0.5000001,"written value"); sym_reach("prec"); }
  else if(m=="scale"){ int k=arg_i(argc,argv,2,4); DelynoiConfig::instance()->setScale(k); Pts o; o.push_back(Point(0,0)); o.push_back(Point(8,0)); o.push_back(Point(8,8)); o.push_back(Point(0,8)); Region R(o);
    double x=(double)sym_int("x",8*4,8*5)/8.0,y=(double)sym_int("y",8*3,8*4)/8.0; Pts h; h.push_back(Point(x,-2)); h.push_back(Point(10,-2)); h.push_back(Point(10,y)); h.push_back(Point(x,y)); R.addHole(PolygonalHole(h));
    Pts q=R.getRegionPoints(); Ideal I; sym_assert(q.size()==6,"corners of the cut region"); // every corner is a multiple of 1/scale within one step of the exact corner
    double st=1.0/k; bool fx=false,fy=false; for(auto&c:q){ bool on=c.getX()==0||c.getX()==8||(c.getX()-x<=st*1.000001&&x-c.getX()<=st*1.000001); sym_assert(on,"corner further than the resolution from its place"); if(!(c.getX()==0||c.getX()==8)) fx=true; 
      bool oy=c.getY()==0||c.getY()==8||(c.getY()-y<=st*1.000001&&y-c.getY()<=st*1.000001); sym_assert(oy,"corner further than the resolution from its place"); if(!(c.getY()==0||c.getY()==8)) fy=true; }
    sym_assert(fx&&fy,"cut not made"); 
    for(auto&c:q){ double v=c.getX()*k,u=c.getY()*k; bool ok=false; for(int i=0;i<=8*k;i++) if(v==i) ok=true; sym_assert(ok,"corner is no multiple of the resolution"); ok=false; for(int i=0;i<=8*k;i++) if(u==i) ok=true; sym_assert(ok,"corner is no multiple of the resolution"); }
    sym_reach("scale"); }
  else if(m=="hist"){ // used, changed and used again, in any of the given orders
    std::string sc=arg_s(argc,argv,2,"ggtt"); DelynoiConfig*c=DelynoiConfig::instance(); int g=12,p=6,k=100000; double t=1e-5;
    for(size_t i=0;i<=sc.size();i++){
      Circle o(2,Point(1,2)); sym_assert((int)o.discretizeCircle().size()==g,"grade of a circle after a change"); sym_assert((int)delynoi_utilities::generateArcPoints(Point(0,0),2,10,80).size()==g+1,"grade of an arc after a change"); CircularHole h(Point(3,3),1); sym_assert((int)h.getPoints().size()==g,"grade of a circular hole after a change");
      std::string w=Point(1.25,0.125).getString(); size_t b=w.find(' '),d=w.find('.'); sym_assert(b!=std::string::npos&&(p==0?d==std::string::npos:d!=std::string::npos&&(int)(b-d-1)==p),"precision after a change");
      for(int j=-1;j<=1;j+=2){ double x=t*(1+0.25*j); bool e=j<0; sym_assert((Point(0,0)==Point(x,0))==e&&(Point(0,x)==Point(0,0))==e,"tolerance of equality after a change"); sym_assert((Point(0,0)<Point(x,0))!=e,"tolerance of the order after a change"); PointSegment s(Point(0,0),Point(1,0)); sym_assert(s.contains(Point(0.5,x))==e,"tolerance of containment after a change"); }
      { Pts q; q.push_back(Point(0,0)); q.push_back(Point(8,0)); q.push_back(Point(8,8)); q.push_back(Point(0,8)); Region R(q); Pts z; z.push_back(Point(4+0.3,-1)); z.push_back(Point(9,-1)); z.push_back(Point(9,4)); z.push_back(Point(4+0.3,4)); R.addHole(PolygonalHole(z)); Pts r=R.getRegionPoints(); sym_assert(r.size()==6,"corners of a cut region after a change"); double want=(double)(long)(k*4.3)/(1.0*k); bool f=false; for(auto&v:r) if(v.getX()-want<1e-9&&want-v.getX()<1e-9) f=true; sym_assert(f,"scale of clipping after a change"); }
      if(i==sc.size()) break; std::string n=std::to_string(i);
      if(sc[i]=='g'){ g=each((int)sym_int(("g"+n).c_str(),3,12),3,12); c->setDiscretizationGrade(g); } else if(sc[i]=='p'){ p=each((int)sym_int(("p"+n).c_str(),0,6),0,6); c->setPrecision(p); } else if(sc[i]=='t'){ int e=each((int)sym_int(("t"+n).c_str(),1,8),1,8); t=std::ldexp(1.0,-2*e); c->setTolerance(t); } else if(sc[i]=='k'){ int e=each((int)sym_int(("k"+n).c_str(),0,5),0,5); k=1; while(e--) k*=10; c->setScale(k); } else if(sc[i]=='P'){ c->setPrecision(Precision::mid); p=10; } }
    sym_reach("hist"); }
  sym_done();
}
