// Point generators and their rules (C17).  args: grid|single|both|fn|alt|disp|wave|rnd|noise|sign ...
#include "common.h"
#include <random>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/polygon/BoundingBox.h>
// Once `rng_sym` is set a uniform distribution returns any value of its range (the contract of the standard library); before, a fixed stream.
static int rng_sym=0,rng_n=0; static uint64_t rng_c=88172645463325252ull; static double rng_lo,rng_hi;
static uint64_t draw(uint64_t lo,uint64_t hi){ rng_c^=rng_c<<13; rng_c^=rng_c>>7; rng_c^=rng_c<<17; return lo+(rng_c>>11)%(hi-lo+1); }
static const char*rng_name(){ static char b[16]; snprintf(b,16,"u%d",rng_n++); return b; }
namespace std { template<> mt19937::result_type mt19937::operator()(){ return draw(0,4294967295ull); }
  template<> template<> int uniform_int_distribution<int>::operator()(mt19937&g,const param_type&p){ sym_assert(p.a()<=p.b(),"empty range of random integers"); if(rng_sym) return (int)sym_int(rng_name(),p.a(),p.b()); return (int)((int64_t)p.a()+(int64_t)draw(0,(int64_t)p.b()-p.a())); }
  template<> template<> double uniform_real_distribution<double>::operator()(mt19937&g,const param_type&p){ sym_assert(p.a()<=p.b(),"empty range of random numbers"); double k=rng_sym?(double)sym_int(rng_name(),0,1024):(double)draw(0,1024); return p.a()+(p.b()-p.a())*(k/1024); } }
struct Rec: Functor { std::vector<double> seen; double a,b; Rec(double a,double b):a(a),b(b){} double apply(double x){ seen.push_back(x); return a*x+b; } };
static const double PI=3.14159265358979323846;
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"grid"); int nX=arg_i(argc,argv,2,3),nY=arg_i(argc,argv,3,2),w=arg_i(argc,argv,4,8); double u=std::ldexp(1.0,-arg_i(argc,argv,5,0)),off=arg_i(argc,argv,6,0);
  if(m=="grid"||m=="single"){
    // two opposite corners of the box in any order
    double x0=sym_int("x0",-w,w)*u+off,y0=sym_int("y0",-w,w)*u-off,x1=sym_int("x1",-w,w)*u+off,y1=sym_int("y1",-w,w)*u-off;
    sym_assume(x0!=x1&&y0!=y1);
    BoundingBox box(Point(x0,y0),Point(x1,y1)); double lx=x0<x1?x0:x1,ly=y0<y1?y0:y1,W=x0<x1?x1-x0:x0-x1,H=y0<y1?y1-y0:y0-y1;
    Rec f(2,0.5),g(-4,3); Functor*k=functions::constant(),*s=functions::uniform(-2); Pts v; v.push_back(Point(77,78));
    int which=arg_i(argc,argv,7,0);
    double dx=nX>1?W/(nX-1):0,dy=nY>1?H/(nY-1):0,e=1e-9*(1+(off>0?off:-off));
    if(m=="grid"){ if(which==0) PointGenerator(&f,&g).generate(v,box,nX,nY); else if(which==1) PointGenerator(k,s).generate(v,box,nX,nY); else PointGenerator(s,&f).generate(v,box,nX,nY); }
    else if(which==0) PointGenerator(&f,functions::independent_variable::x).generate(v,box,nX,nY);
    else PointGenerator(&f,functions::independent_variable::y).generate(v,box,nX,nY);
    sym_assert((int)v.size()==nX*nY+1,"number of generated points"); sym_assert(v[0].getX()==77&&v[0].getY()==78,"existing points changed");
    for(int i=0;i<nY;i++) for(int j=0;j<nX;j++){ double X=lx+j*dx,Y=ly+i*dy,ex,ey; const Point&p=v[1+i*nX+j];
      if(m=="grid"){ ex=which==0?2*X+0.5:which==1?X:-2*X; ey=which==0?-4*Y+3:which==1?-2*Y:2*Y+0.5; }
      else if(which==0){ ex=X; ey=Y+2*X+0.5; } else { ex=X+2*Y+0.5; ey=Y; }
      sym_assert(near_(p.getX(),ex,e)&&near_(p.getY(),ey,e),"generated point"); }
    if(m=="grid"&&which==0){ Pts z; PointGenerator gg(&f,&g); gg.generate(z,box,nX,nY); gg.generate(z,box,nY,nX); sym_assert((int)z.size()==2*nX*nY,"number of points generated in two goes"); sym_assert(same(z[0],v[1])&&same(z[nX*nY-1],v[nX*nY])&&same(z[nX*nY],v[1]),"points generated in two goes"); }
    sym_reach(m.c_str());
  } else if(m=="both"){ Functor*f=functions::constant(); bool t=false; try { PointGenerator g(f,functions::independent_variable::both); } catch(std::invalid_argument&){ t=true; } sym_assert(t,"one rule for both variables accepted"); sym_reach("both");
  } else if(m=="fn"){ // rules of one value
    double W=std::ldexp(1.0,nX),e=std::ldexp(1.0,-nY); double x=sym_int("x",-W,W)*e,d=sym_int("d",-W,W)*e,y=sym_int("y",-W,W)*e; Functor*c=functions::constant(),*s=functions::uniform(d),*a=functions::displace_points(d);
    sym_assert(c->apply(x)==x,"constant rule"); sym_assert(s->apply(x)==x*d,"uniform rule"); sym_assert(c->apply(y)==y,"constant rule, second value"); sym_assert(s->apply(y)==y*d,"uniform rule, second value");
    sym_assert(a->apply(x)==x+d/2,"first displaced value"); sym_assert(a->apply(y)==y,"second value of the displacing rule"); sym_assert(a->apply(y)==y+d/2,"third value of the displacing rule"); sym_assert(a->apply(x)==x,"fourth value of the displacing rule"); sym_assert(a->apply(x)==x+d/2,"fifth value of the displacing rule"); 
    // every rule has a state and parameters of its own
    Functor*b=functions::displace_points(3*d),*s2=functions::uniform(-2*d); sym_assert(b->apply(y)==y+3*d/2,"first value of another displacing rule"); sym_assert(a->apply(y)==y,"displacing rules share their state"); sym_assert(b->apply(x)==x,"second value of another displacing rule"); sym_assert(a->apply(x)==x+d/2&&b->apply(x)==x+3*d/2,"displacing rules share their state"); sym_assert(s2->apply(x)==-2*d*x&&s->apply(x)==x*d,"uniform rules share their factor"); sym_reach("fn");
  } else if(m=="alt"){ // rows of equal strictly increasing values
    int n=nX,rows=nY; std::vector<double> x; double c=sym_int("x0",-w,w)*u; x.push_back(c); for(int i=1;i<n;i++){ char b[8]; snprintf(b,8,"d%d",i); c+=sym_int(b,1,w)*u; x.push_back(c); }
    if(arg_i(argc,argv,6,0)) std::reverse(x.begin(),x.end());
    Functor*f=functions::constantAlternating(),*f2=functions::constantAlternating(); double h=x[1]-x[0]; if(h<0) h=-h; h/=2;
    for(int r=0;r<rows;r++) for(int i=0;i<n;i++) sym_assert(f->apply(x[i])==(r%2?x[i]+h:x[i]),"alternating rule");
    if(rows%2) for(int i=0;i<n;i++) sym_assert(f->apply(x[i])==x[i]+h,"alternating rule"); // the next row is not displaced: the rule learns the spacing from its first two values
    for(int r=0;r<rows;r++) for(int i=0;i<n;i++){ double z=x[0]+2*(x[i]-x[0]); sym_assert(f->apply(z)==(r%2?z+2*h:z),"alternating rule with rows of another spacing"); }
    for(int r=0;r<rows;r++){ for(int i=0;i<n;i++) sym_assert(f2->apply(3*x[i]+1)==(r%2?3*x[i]+1+3*h:3*x[i]+1),"alternating rule used after another"); if(r==0) f->apply(x[0]); } sym_reach("alt");
    Functor*g=functions::constantAlternating(); sym_assert(g->apply(x[0])==x[0],"alternating rules share their state");
  } else if(m=="wave"){ double a=sym_int("a",-w,w)*u,x=sym_int("x",-w,w)*u; double f=nX*0.25,p=nY; Functor*s=functions::sine(a,f,p),*c=functions::cosine(a,f,p),*s2=functions::sine(a+1,f*2,p+7),*c2=functions::cosine(a-1,f*3,p-5); double r=s->apply(x),q=c->apply(x); double t2=(f*2*x*180+p+7)*PI/180,t3=(f*3*x*180+p-5)*PI/180; sym_assert(near_(s2->apply(x),(a+1)*std::sin(t2),1e-9)&&near_(c2->apply(x),(a-1)*std::cos(t3),1e-9),"another wave"); sym_assert(s->apply(x)==r&&c->apply(x)==q,"a wave gives another value when asked again");
    double t=(f*x*180+p)*PI/180,es=a*std::sin(t),ec=a*std::cos(t); sym_assert(near_(r,es,1e-9),"sine rule"); sym_assert(near_(q,ec,1e-9),"cosine rule"); sym_reach("wave");
  } else if(m=="irnd"||m=="drnd"||m=="inoise"||m=="dnoise"){ // any limits, any draw
    bool noise_=m[1]=='n',in=m[0]=='i'; if(in) u=1; double lo=sym_int("lo",nX,nY),hi=sym_int("hi",nX,nY),x=sym_int("x",-w,w); sym_assume(lo<=hi); lo*=u; hi*=u; Rec base(2,0.5);
    Functor*f=m=="irnd"?functions::random_integer(lo,hi):m=="drnd"?functions::random_double(lo,hi):m=="inoise"?noise::random_integer_noise(&base,lo,hi):noise::random_double_noise(&base,lo,hi);
    rng_sym=1; double r=f->apply(x); rng_sym=0; 
    if(!noise_){ sym_assert(r>=lo&&r<=hi,"random value outside its limits"); if(in){ sym_assert(r==(double)(int64_t)r,"random integer is no integer"); rng_sym=1; int k=utilities::random_integer((int)lo,(int)hi); rng_sym=0; sym_assert(k>=lo&&k<=hi,"random integer outside its limits"); } sym_reach("rnd"); }
    else { sym_assert(base.seen.size()==1&&base.seen[0]==x,"rule below the noise"); double d=r-(2*x+0.5); bool ok=(d>=lo&&d<=hi)||(-d>=lo&&-d<=hi); sym_assert(ok,"noise outside its limits"); 
      if(in) sym_assert(d==(double)(int64_t)d,"integer noise is no integer"); sym_reach(d<0?"minus":"plus"); }
  } else if(m=="sign"){ // 64 draws from a fixed stream reach both signs and several magnitudes
    double x=(double)sym_int("x",-w,w); for(int k=0;k<2;k++){ Rec base(1,0); Functor*f=k?noise::random_double_noise(&base,nX,nY):noise::random_integer_noise(&base,nX,nY); bool p=false,n=false; double mn=1e9,mx=-1e9; for(int i=0;i<64;i++){ double d=f->apply(x)-x; if(d>0) p=true; if(d<0) n=true; double a=d<0?-d:d; if(a<mn) mn=a; if(a>mx) mx=a; } sym_assert(p&&n,"noise of one sign only"); sym_assert(mx-mn>0.5*(nY-nX),"noise does not spread over its limits"); }
    for(int k=0;k<2;k++){ Functor*f=k?functions::random_double(nX,nY):functions::random_integer(nX,nY); double mn=1e9,mx=-1e9; for(int i=0;i<64;i++){ double a=f->apply(x); if(a<mn) mn=a; if(a>mx) mx=a; } sym_assert(mx-mn>0.5*(nY-nX),"random values do not spread over their limits"); } sym_reach("sign"); }
  sym_done();
}
