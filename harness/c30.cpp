// Vectors, areas and small helpers (C30).
// args: vec W step | area T corners window offset unit | coll step | pair W step | norm W step | index n | list n | words len | sign
#include "tmpl.h"
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/config/DelynoiConfig.h>
#include <utilities/utilities.h>
#include <utilities/Pair.h>
namespace G=geometry_functions; namespace D=delynoi_utilities;
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"vec");
  auto rel=[](double a,double b,double s){ double d=a-b; double e=1e-12*s+1e-300; return d<=e&&d>=-e; };
  if(m=="vec"){ int64_t W=arg_i(argc,argv,2,1000); double u=std::ldexp(1.0,arg_i(argc,argv,3,0)); double x[3],y[3]; for(int i=0;i<3;i++){ char a[8],b[8]; snprintf(a,8,"x%d",i); snprintf(b,8,"y%d",i); x[i]=(double)sym_int(a,-W,W)*u; y[i]=(double)sym_int(b,-W,W)*u; } Point p(x[0],y[0]),q(x[1],y[1]),r(x[2],y[2]); double S=8.0*(double)W*(double)W*u*u; double c=D::crossProduct(p,q),s=D::squareNorm(p),s2=p.squareNorm(),o=D::orientation(p,q,r),a2=G::area2(p,q,r),ta=G::triangleArea(p,q,r); Point d=p-q; double nm=D::norm(p);
    Ideal I; sym_assert(d.getX()==x[0]-x[1]&&d.getY()==y[0]-y[1],"difference"); sym_assert(rel(c,x[0]*y[1]-y[0]*x[1],S),"cross product"); sym_assert(rel(s,x[0]*x[0]+y[0]*y[0],S)&&rel(s2,x[0]*x[0]+y[0]*y[0],S),"square norm"); double e=orc_o(p,q,r); sym_assert(rel(o,e,S)&&rel(a2,e,S)&&rel(2*ta,e,S),"orientation and area of three points"); sym_assert(nm>=0&&rel(nm*nm,x[0]*x[0]+y[0]*y[0],2*S),"norm"); sym_reach(e>0?"left":e<0?"right":"line"); sym_assert(same(p,Point(x[0],y[0]))&&same(q,Point(x[1],y[1])),"operands changed"); sym_done(); }
  if(m=="area"){ Pts p=tmpl(arg_i(argc,argv,2,0)%100); if(arg_i(argc,argv,2,0)>=100) p=rev(p); std::string cs=arg_s(argc,argv,3,"0"); int w=arg_i(argc,argv,4,5); double off=arg_i(argc,argv,5,0),u=std::strtod(arg_s(argc,argv,6,"1").c_str(),0); int n=(int)p.size(),k=0; const char*s=cs.c_str(); while(*s&&*s!='-'){ char*e; int c=(int)strtol(s,&e,10)%n; s=*e?e+1:e; char a[8],b[8]; snprintf(a,8,"x%d",k); snprintf(b,8,"y%d",k); k++; double x=(double)sym_int(a,(int)p[c].getX()-w,(int)p[c].getX()+w),y=(double)sym_int(b,(int)p[c].getY()-w,(int)p[c].getY()+w); p[c]=Point(x,y); }
    Pts l; for(auto&q:p) l.push_back(Point((q.getX()+off)*u,(q.getY()-off)*u)); Pts mix; std::vector<int> idx; mix.push_back(Point(1,2)); for(int i=0;i<n;i++) mix.push_back(l[n-1-i]); for(int i=0;i<n;i++) idx.push_back(n-i); double A=G::area(l),B=G::area(mix,idx); Pts e_; double Z=G::area(e_); std::vector<int> ei; double Y=G::area(mix,ei); Ideal I; double W=orc_area2(p)*u*u,S=1e-9*u*u*(1+(off<0?-off:off)); sym_assert(near_(2*A,W,S),"signed area of a list of points"); sym_assert(near_(2*B,W,S),"signed area of indexed points"); sym_assert(Z==0&&Y==0,"area of nothing"); sym_reach("area"); sym_done(); }
  if(m=="coll"){ // collinear: twice the area is within the tolerance
    double u=std::ldexp(1.0,arg_i(argc,argv,2,-12)); int W=arg_i(argc,argv,3,400); double tol=DelynoiConfig::instance()->getTolerance(); Point a(1,2),b(3,(double)sym_int("b",-W,W)*u+5),c((double)sym_int("x",-W,W)*u+5,(double)sym_int("y",-W,W)*u+8); bool g=G::collinear(a,b,c); double o; bool near=false; { Ideal I; o=orc_o(a,b,c); if((o<tol*1.000001&&o>tol*0.999999)||(o>-tol*1.000001&&o<-tol*0.999999)) near=true; } if(near) sym_reject(); bool e=o<tol&&o>-tol; sym_reach(e?"on":"off"); sym_assert(g==e,"collinear points"); PointSegment s(a,b),t(c,b),v(c,c); sym_assert(G::collinear(s,t)==(g&&G::collinear(a,b,b)),"collinear segments"); sym_assert(G::collinear(s,v)==g,"collinear segments"); sym_done(); }
  if(m=="pair"){ int W=arg_i(argc,argv,2,100); int a=(int)sym_int("a",-W,W),b=(int)sym_int("b",-W,W),c=(int)sym_int("c",-W,W),d=(int)sym_int("d",-W,W); Pair<int> p(a,b),q(c,d); sym_assert((p==q)==((a==c)&(b==d)),"equality of pairs"); sym_assert((p<q)==((a<c)|((a==c)&(b<d))),"order of pairs"); sym_assert(p.dot(q)==a*c+b*d,"dot product"); Pair<int> r=p+q; sym_assert(r.first==a+c&&r.second==b+d,"sum of pairs"); Pair<int> z=p*3; sym_assert(z.first==3*a&&z.second==3*b,"multiple of a pair"); Pair<int> w(p); sym_assert(w==p&&p.first==a&&q.second==d,"copy of a pair");
    double u=std::ldexp(1.0,arg_i(argc,argv,3,-8)); Pair<double> x(a*u,b*u),y(c*u,d*u); sym_assert((x==y)==(p==q)&&(x<y)==(p<q),"pairs of decimals"); Pair<double> s=x+y,h=y*0.5; double dt=x.dot(y); Ideal I; sym_assert(s.first==(a+c)*u&&s.second==(b+d)*u&&h.first==c*u/2&&h.second==d*u/2&&dt==(a*c+b*d)*u*u,"arithmetic on pairs of decimals"); sym_reach("pair"); sym_done(); }
  if(m=="norm"){ int W=arg_i(argc,argv,2,1000); double u=std::ldexp(1.0,arg_i(argc,argv,3,0)); double x=(double)sym_int("x",-W,W)*u,y=(double)sym_int("y",-W,W)*u; if(x==0&&y==0) sym_reject(); Pair<double> v(x,y),n=utilities::normalize(v); Ideal I; double l=n.first*n.first+n.second*n.second; sym_assert(near_(l,1,1e-9),"length of a normalised vector"); double S=(double)W*u; sym_assert(near_(n.first*y,n.second*x,1e-9*S),"direction of a normalised vector"); sym_assert((x>0)==(n.first>0)&&(y>0)==(n.second>0)&&(x<0)==(n.first<0)&&(y<0)==(n.second<0),"sense of a normalised vector"); sym_assert(v.first==x&&v.second==y,"vector changed"); sym_reach("norm"); sym_done(); }
  if(m=="index"){ int n=arg_i(argc,argv,2,4); std::vector<int> v; std::vector<Point> p; for(int i=0;i<n;i++){ char b[8]; snprintf(b,8,"v%d",i); v.push_back((int)sym_int(b,-3,3)); p.push_back(Point(v[i],1)); } std::vector<int> w(v); int e=(int)sym_int("e",-4,4); int want=-1; for(int i=n-1;i>=0;i--) if(v[i]==e) want=i; sym_reach(want<0?"absent":"present"); sym_assert(utilities::indexOf(v,e)==want,"position of an element"); sym_assert(utilities::indexOf(p,Point(e,1))==want,"position of a point"); sym_assert(v==w,"list changed"); std::vector<int> none; sym_assert(utilities::indexOf(none,e)==-1,"position in an empty list"); sym_done(); }
  if(m=="list"){ int a=arg_i(argc,argv,2,3); int n=each((int)sym_int("n",-2,12),-2,12); std::vector<int> v; for(int i=0;i<a;i++) v.push_back(50+i); D::TrivialIndexVector(v,n); sym_assert((int)v.size()==a+(n>0?n:0),"number of indices"); for(int i=0;i<(int)v.size();i++) sym_assert(v[i]==(i<a?50+i:i-a),"trivial indices"); sym_reach(n>0?"some":"none"); sym_done(); }
  if(m=="words"){ // texts over letters, spaces and tabs
    int n=arg_i(argc,argv,2,4); const char al[]={'a',' ','b','\t'}; std::string s; for(int i=0;i<n;i++){ char b[8]; snprintf(b,8,"c%d",i); s+=al[each((int)sym_int(b,0,3),0,3)]; } std::vector<std::string> want; std::string w; for(char c:s){ if(c==' '||c=='\t'){ if(!w.empty()) want.push_back(w); w.clear(); } else w+=c; } if(!w.empty()) want.push_back(w);
    std::vector<std::string> got=utilities::splitBySpaces(s); sym_assert(got==want,"words of a line"); std::vector<std::string> g2=utilities::split(s,std::regex("b")); std::vector<std::string> w2; w.clear(); for(char c:s){ if(c=='b'){ if(!w.empty()) w2.push_back(w); w.clear(); } else w+=c; } if(!w.empty()) w2.push_back(w); sym_assert(g2==w2,"parts of a line"); sym_reach(want.empty()?"blank":"words"); sym_done(); }
  if(m=="sign"){ int a=(int)sym_int("a",-2147483647,2147483647); double d=(double)sym_int("d",-1000000,1000000)*std::ldexp(1.0,-30); sym_assert(utilities::sign(a)==(a>0?1:a<0?-1:0)&&utilities::sign(d)==(d>0?1:d<0?-1:0),"sign"); sym_reach(a>0?"positive":a<0?"negative":"zero"); sym_done(); }
  sym_done();
}
