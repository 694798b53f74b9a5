// C09: point-in-polygon.  args: template, reversed, start corner, offset(=big coords), [corner made symbolic or -1], duplicate corner or -1
#include "tmpl.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(int argc,char**argv){
  int t=arg_i(argc,argv,1,0),rv=arg_i(argc,argv,2,0),st=arg_i(argc,argv,3,0),sc=arg_i(argc,argv,5,-1),du=arg_i(argc,argv,6,-1); double off=arg_i(argc,argv,4,0);
  Pts o=tmpl(t,1,off,-off); double x0,x1,y0,y1; box(o,x0,x1,y0,y1);
  if(sc>=0){ // one symbolic corner: keep the polygon simple by construction (star-shaped move checked by the oracle)
    double cx=(double)sym_int("cx",(int)o[sc].getX()-2,(int)o[sc].getX()+2),cy=(double)sym_int("cy",(int)o[sc].getY()-2,(int)o[sc].getY()+2);
    o[sc]=Point(cx,cy); size_t n=o.size();
    Ideal I; for(size_t i=0;i<n;i++) for(size_t j=i+1;j<n;j++){ const Point&a=o[i],&b=o[(i+1)%n],&c=o[j],&d=o[(j+1)%n];
      bool adj=j==i+1||(i==0&&j==n-1);
      if(((int)i!=sc&&(int)((i+1)%n)!=sc)&&((int)j!=sc&&(int)((j+1)%n)!=sc)) continue;
      if(adj){ if(j==i+1){ if(orc_on(a,b,d)||orc_on(c,d,a)) sym_reject(); } else if(orc_on(a,b,c)||orc_on(c,d,b)) sym_reject(); continue; }
      double p=orc_o(a,b,c),q=orc_o(a,b,d),r=orc_o(c,d,a),s=orc_o(c,d,b);
      if(orc_on(a,b,c)||orc_on(a,b,d)||orc_on(c,d,a)||orc_on(c,d,b)||(((p>0)!=(q>0))&&p!=0&&q!=0&&((r>0)!=(s>0))&&r!=0&&s!=0)) sym_reject(); }
  }
  Pts p=rot(o,st); if(rv) p=rev(p);
  if(du>=0) p.insert(p.begin()+du,p[du]);
  // the polygon refers to a longer, differently ordered list
  Pts list; list.push_back(Point(x0-7,y0+3)); for(size_t i=0;i<p.size();i++) list.push_back(p[p.size()-1-i]); list.push_back(Point(x1+9,y1-1));
  std::vector<int> idx; for(size_t i=0;i<p.size();i++) idx.push_back((int)(p.size()-i));
  double lo=2*(x0-1),hi=2*(x1+1),ly=2*(y0-1),hy=2*(y1+1);
  Point q(sym_grid("qx",(int64_t)lo,(int64_t)hi,0.5),sym_grid("qy",(int64_t)ly,(int64_t)hy,0.5));
  Polygon P(idx,list);
  bool in=P.containsPoint(list,q),ed=P.inEdges(list,q); IndexSegment ce=P.containerEdge(list,q);
  bool ob,oi; { Ideal I; ob=orc_onb(p,q); oi=ob||orc_in(p,q); }
  sym_assert(in==oi,"containsPoint differs from the geometry");
  sym_assert(ed==ob,"inEdges differs from the geometry");
  if(ob){ sym_reach("boundary"); int a=ce.getFirst(),b=ce.getSecond(); bool side=false; int n=(int)idx.size(); for(int i=0;i<n;i++) if((idx[i]==a&&idx[(i+1)%n]==b)||(idx[i]==b&&idx[(i+1)%n]==a)) side=true;
    sym_assert(side,"containerEdge is not a side"); Ideal I; sym_assert(orc_on(list[a],list[b],q),"containerEdge does not contain the point"); }
  else sym_assert(ce.getFirst()==-1&&ce.getSecond()==-1,"containerEdge reported for a point off the boundary");
  if(oi&&!ob) sym_reach("inside"); if(!oi) sym_reach("outside");
  if(sc<0||(q.getX()==x0&&q.getY()>y0)){ // same outline through the other classes
    Region R(p); sym_assert(R.containsPoint(q)==oi,"Region::containsPoint"); sym_assert(R.inEdges(q)==ob,"Region::inEdges");
    PolygonalHole h(p); sym_assert(h.Hole::containsPoint(q)==oi,"Hole::containsPoint");
    Hole hc(h); sym_assert(hc.containsPoint(q)==oi,"Hole::containsPoint of a copied hole"); }
  sym_done();
}
