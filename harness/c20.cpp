// Convex hull and rotating calipers (C20).  args: points, scale exponent offset
#include "meshio.h"
#include <delynoi/utilities/convexHull.h>
static bool member(const Pts&v,const Point&q){ for(auto&x:v) if(same(x,q)) return true; return false; }
int main(int argc,char**argv){
  Pts p=points_of(arg_s(argc,argv,1,"s0.4.0.4/f2.2/f4.1")); double off=arg_i(argc,argv,2,0); int n=(int)p.size(); std::string dup=arg_s(argc,argv,3,""); double un=std::strtod(arg_s(argc,argv,4,"1").c_str(),0); for(char c:dup) if(c>='0'&&c<='9'){ Point q=p[c-'0']; p.push_back(q); n++; }
  for(auto&q:p) q=Point((q.getX()+off)*un,(q.getY()-off)*un);
  Pts in(p),u,l; convex::convexHull(in,u,l); Ideal I;
  sym_assert(!u.empty()&&!l.empty(),"empty chain"); for(auto&q:u) sym_assert(member(p,q),"corner of the upper chain is not a given point"); for(auto&q:l) sym_assert(member(p,q),"corner of the lower chain is not a given point");
  sym_assert((int)in.size()==n,"points lost"); for(auto&q:p) sym_assert(member(in,q),"points changed");
  for(auto&q:p){ sym_assert(u[0].getX()<=q.getX()&&l[0].getX()<=q.getX(),"chain does not start at the leftmost point"); sym_assert(u.back().getX()>=q.getX()&&l.back().getX()>=q.getX(),"chain does not end at the rightmost point"); }
  sym_assert(same(u[0],l[0])&&same(u.back(),l.back()),"chains do not share their ends");
  for(size_t i=0;i+2<u.size();i++) sym_assert(orc_o(u[i],u[i+1],u[i+2])<0,"upper chain does not turn strictly"); for(size_t i=0;i+2<l.size();i++) sym_assert(orc_o(l[i],l[i+1],l[i+2])>0,"lower chain does not turn strictly");
  for(size_t i=0;i+1<u.size();i++) sym_assert(u[i].getX()<u[i+1].getX()||(u[i].getX()==u[i+1].getX()&&u[i].getY()<=u[i+1].getY())||i+2==u.size(),"upper chain runs backwards");
  for(auto&q:p){ for(size_t i=0;i+1<u.size();i++) sym_assert(orc_o(u[i],u[i+1],q)<=0,"point above the upper chain"); for(size_t i=0;i+1<l.size();i++) sym_assert(orc_o(l[i],l[i+1],q)>=0,"point below the lower chain"); }
  if(u.size()==2&&l.size()==2) sym_reach("flat"); else sym_reach("hull");
  Pts in2(p); auto pr=convex::rotatingCalipers(in2); double m=0,g=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double d=orc_d2(p[i],p[j]); if(d>m) m=d; }
  sym_assert(!pr.empty(),"no antipodal pair"); for(auto&x:pr){ sym_assert((member(u,x.first)||member(l,x.first))&&(member(u,x.second)||member(l,x.second)),"antipodal pair is not made of hull corners"); double d=orc_d2(x.first,x.second); if(d>g) g=d; }
  sym_assert(g==m,"no farthest pair among the antipodal pairs"); sym_reach("calipers");
  sym_done();
}
