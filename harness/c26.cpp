// Angles (C26).  args: norm|big|less|conv|inv|cart ...
#include "common.h"
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/config/DelynoiConfig.h>
#include <utilities/utilities.h>
static bool near0(double a,double e){ return a<e&&a>-e; }
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"norm"); int sh=arg_i(argc,argv,2,10),lim=arg_i(argc,argv,3,4096); double u=std::ldexp(1.0,-sh),L=std::ldexp((double)lim,sh);
  if(m=="norm"){ // any multiple of 2^-sh in [-lim,lim]
    double a=(double)sym_int("a",-(int64_t)L,(int64_t)L)*u; Angle x(a); sym_assert(x.angle>=0&&x.angle<=180,"angle out of range"); Ideal I; double d=a-x.angle; bool ok=false; int K=lim/180+2; for(int k=-K;k<=K;k++) if(near0(d-180.0*k,1e-9)){ ok=true; break; } sym_assert(ok,"angle differs by no multiple of 180"); sym_reach("norm"); }
  else if(m=="big"){ // magnitudes beyond the range of int: a = 180 k + r
    double k=(double)sym_int("k",-4,4),r=(double)sym_int("r",0,179); double base=std::ldexp(45.0,sh); Angle x(base*4*k+r); sym_assert(x.angle==r||(r==0&&x.angle==180),"angle of a large value"); sym_reach("norm"); }
  else if(m=="less"){ double t=1e-5; if(arg_i(argc,argv,4,0)){ t=(double)sym_int("t",1,1<<12)*u; DelynoiConfig::instance()->setTolerance(t); }
    double a=(double)sym_int("a",0,(int64_t)L)*u,b=(double)sym_int("b",0,(int64_t)L)*u; Angle x(a),y(b); double d=x.angle-y.angle; bool cl=d<t&&d>-t; sym_assert((x<y)==(!cl&&x.angle<y.angle),"order of angles"); sym_assert(!(x<y&&y<x),"angles ordered both ways"); sym_assert(!(x<x),"angle smaller than itself"); sym_reach(x<y?"less":"notless"); }
  else if(m=="conv"){ double d=(double)sym_int("d",1,360*(1<<sh))*u; double r=utilities::radian(d),b=utilities::degrees(r); sym_assert(near0(b-d,1e-9),"degrees of radian"); sym_assert(near0(r*180-d*3.14159265358979323846,1e-9),"radian is not linear"); sym_reach("conv");
    double n=utilities::radian(-d); sym_assert(near0(n+r,1e-12),"radian of a negative angle"); 
    double p=d*3.14159265358979323846/180-2*3.14159265358979323846; if(d<360){ double q=utilities::degrees(p); sym_assert(near0(q-d,1e-8),"degrees of a negative angle"); } }
  else if(m=="sum"){ double d=(double)sym_int("d",-720*(1<<sh),720*(1<<sh))*u,e=(double)sym_int("e",-720*(1<<sh),720*(1<<sh))*u; sym_assert(near0(utilities::radian(d+e)-utilities::radian(d)-utilities::radian(e),1e-12),"radian is not additive"); sym_reach("conv");
    double x=(double)sym_int("x",1,1<<20)*std::ldexp(1.0,-18),y=(double)sym_int("y",1,1<<20)*std::ldexp(1.0,-18); sym_assert(near0(utilities::degrees(x+y)-utilities::degrees(x)-utilities::degrees(y),1e-9),"degrees is not additive"); }
  else { // direction of a segment
    int w=arg_i(argc,argv,2,4),ox=arg_i(argc,argv,3,0),oy=arg_i(argc,argv,4,0); double x=(double)sym_int("x",-w,w),y=(double)sym_int("y",-w,w); sym_assume(x!=0||y!=0); Point a(ox,oy),b(ox+x,oy+y); double t=PointSegment(a,b).cartesianAngle(); Pts p; p.push_back(a); p.push_back(b); double t2=IndexSegment(0,1).cartesianAngle(p);
    sym_assert(t==t2,"segments of either kind have different angles"); sym_assert(t>0&&t<=360.0000001,"angle out of range"); double l=std::sqrt(x*x+y*y),r=t*3.14159265358979323846/180; sym_assert(near0(l*std::cos(r)-x,1e-9)&&near0(l*std::sin(r)-y,1e-9),"angle of a segment"); sym_reach("cart"); }
  sym_done();
}
