// Triangles and walks around a vertex (C29).
// args: circ box step offset [third point] | third | walk k closed | edge | point n
#include "common.h"
#include <unordered_map>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/voronoi/structures/PointData.h>
int main(int argc,char**argv){
  std::string m=arg_s(argc,argv,1,"circ");
  if(m=="circ"){ // any triangle whose area is not small
    int W=arg_i(argc,argv,2,6); double u=std::ldexp(1.0,arg_i(argc,argv,3,0)),off=arg_i(argc,argv,4,0); int free_=arg_i(argc,argv,5,2); Pts z; z.push_back(Point(99,99)); double X[3]={0,(double)W,2},Y[3]={0,1,(double)W}; Pts o;
    for(int i=0;i<3;i++){ char a[8],b[8]; snprintf(a,8,"x%d",i); snprintf(b,8,"y%d",i); if(i<free_){ X[i]=(double)sym_int(a,-W,W); Y[i]=(double)sym_int(b,-W,W); } o.push_back(Point(X[i],Y[i])); z.push_back(Point((X[i]+off)*u,(Y[i]-off)*u)); z.push_back(Point(-i,77)); }
    { Ideal I; if(orc_o(o[0],o[1],o[2])==0) sym_reject(); } std::vector<int> v; int turn=each((int)sym_int("turn",0,5),0,5); int pm[6][3]={{1,3,5},{3,5,1},{5,1,3},{1,5,3},{5,3,1},{3,1,5}}; for(int i=0;i<3;i++) v.push_back(pm[turn][i]);
    Triangle T(v,z); Point c=T.getCircumcenter(); UniqueList<Point> L; Point far(1e6,1e6); L.push_back(far); Triangle A(v,z,L); Triangle B(v,z,L); Pts V; V.push_back(far); V.push_back(far); Triangle C(v,z,V); Triangle D(v,z,V); Triangle E(A);
    sym_assert(A.getCircumcenterIndex()==1&&B.getCircumcenterIndex()==1&&L.size()==2,"position of the circumcentre in a list without repetitions"); sym_assert(C.getCircumcenterIndex()==2&&D.getCircumcenterIndex()==3&&V.size()==4,"position of the circumcentre in a list"); sym_assert(E.getCircumcenterIndex()==1&&same(E.getCircumcenter(),A.getCircumcenter()),"copy of a triangle"); sym_assert(same(L[1],c)&&same(V[2],c)&&same(V[3],c),"circumcentre in the list"); sym_assert(!T.isNull()&&Triangle().isNull(),"isNull"); sym_assert(T.getPoints()==v&&A.getPoints()==v,"corners of a triangle");
    Ideal I; double k=1/u; Point q(c.getX()*k-off,c.getY()*k+off); double a=orc_d2(q,o[0]),b=orc_d2(q,o[1]),d=orc_d2(q,o[2]),e=1e-6+1e-9*(a<0?-a:a); sym_assert(near_(a,b,e)&&near_(a,d,e),"circumcentre not at the same distance from the corners"); sym_reach("circ"); sym_done(); }
  if(m=="third"){ // any three indices, any side in any direction
    int a=(int)sym_int("a",0,5),b=(int)sym_int("b",0,5),c=(int)sym_int("c",0,5); sym_assume(a!=b&&b!=c&&a!=c); Pts z; for(int i=0;i<6;i++) z.push_back(Point(i*i,3*i+(i%2))); std::vector<int> v; v.push_back(a); v.push_back(b); v.push_back(c); Triangle T(v,z); int s=each((int)sym_int("side",0,5),0,5); int f=v[s%3],g=v[(s+1)%3],r=v[(s+2)%3]; if(s>=3) std::swap(f,g);
    sym_reach("third"); EdgeData e(f,g); sym_assert(T.thirdPoint(e)==r,"third point"); std::unordered_map<Key,int,KeyHasher> M; for(int i=0;i<6;i++) for(int j=0;j<i;j++) M[Key(i,j)]=10*i+j; sym_assert(T.nextEdge(f,e,M)==10*std::max(f,r)+std::min(f,r),"next edge around the first end"); sym_assert(T.nextEdge(g,e,M)==10*std::max(g,r)+std::min(g,r),"next edge around the second end"); sym_assert(e.p1==f&&e.p2==g&&e.t1==-1&&e.t2==-1,"edge changed"); sym_done(); }
  if(m=="walk"){ // triangles around a vertex in a random order and orientation, started at any edge
    int k=arg_i(argc,argv,2,4); bool closed=arg_i(argc,argv,3,1); int n=closed?k:k+1; Pts z; z.push_back(Point(0,0)); for(int i=0;i<n;i++){ double t=6.28318530717958648*i/(closed?k:2*k+1); z.push_back(Point(std::cos(t),std::sin(t))); }
    int sw=(int)sym_int("flip",0,(1<<k)-1),sh=each((int)sym_int("shift",0,k-1),0,k-1); std::vector<Triangle> ts; std::vector<EdgeData> es; std::unordered_map<Key,int,KeyHasher> M;
    for(int q=0;q<k;q++){ int i=(q*(k%2?2:1)+sh)%k; int a=1+i,b=1+(i+1)%n; std::vector<int> v; if((sw>>q)&1){ v.push_back(b); v.push_back(0); v.push_back(a); } else { v.push_back(0); v.push_back(a); v.push_back(b); } ts.push_back(Triangle(v,z)); for(int s=0;s<3;s++){ int f=v[s],g=v[(s+1)%3]; Key K(f,g); auto it=M.find(K); if(it==M.end()){ M.insert(std::make_pair(K,(int)es.size())); es.push_back(EdgeData(f,g)); it=M.find(K); } es[it->second].setTriangle(q); } }
    int st=each((int)sym_int("start",0,n-1),0,n-1); EdgeData e=es[M[Key(0,1+st)]]; int t=e.t1; std::set<int> seen; int steps=0; bool end=false; EdgeData first=e;
    while(true){ sym_assert(t>=0&&t<k,"triangle of an edge"); sym_assert(seen.insert(t).second,"triangle visited twice"); e=es[ts[t].nextEdge(0,e,M)]; sym_assert(++steps<=k,"walk does not end"); sym_assert(e.p1==0||e.p2==0,"walk leaves the vertex"); if(e==first) break; int o=e.t1!=t?e.t1:e.t2; if(o==-1){ end=true; break; } t=o; }
    if(closed) sym_assert(!end&&(int)seen.size()==k,"walk around an inner vertex"); else { sym_assert(end,"walk does not reach the boundary"); int i0=st,want; (void)i0; EdgeData s0=es[M[Key(0,1+st)]]; want=-1; if(s0.t2==-1) want=k; if(want>=0) sym_assert((int)seen.size()==k,"walk from the boundary does not see all triangles"); } sym_reach(closed?"closed":"open"); sym_done(); }
  if(m=="edge"){ int a=(int)sym_int("a",-2147483647,2147483647),b=(int)sym_int("b",-2147483647,2147483647),c=(int)sym_int("c",-2147483647,2147483647),d=(int)sym_int("d",-2147483647,2147483647),t=(int)sym_int("t",0,2147483647),s=(int)sym_int("s",0,2147483647);
    EdgeData e(a,b),f(c,d); bool q=((a==c)&(b==d))|((a==d)&(b==c)); sym_assert((e==f)==q&&(f==e)==q,"equality of edges"); sym_assert(e.p1==a&&e.p2==b&&e.t1==-1&&e.t2==-1,"new edge"); e.setTriangle(t); sym_assert(e.t1==t&&e.t2==-1,"first triangle of an edge"); e.setTriangle(s); sym_assert(e.t1==t&&e.t2==s,"second triangle of an edge"); sym_assert(e.p1==a&&e.p2==b&&(e==f)==q,"edge changed by its triangles"); Key k(a,b),l(c,d); sym_assert((k==l)==q,"equality of keys"); if(q){ sym_reach("equal"); sym_assert(KeyHasher()(k)==KeyHasher()(l),"equal keys with different hashes"); } else sym_reach("other"); sym_done(); }
  if(m=="point"){ int n=arg_i(argc,argv,2,3); PointData p(7); sym_assert(p.point==7&&p.edge==-1,"new point"); int want=-1; for(int i=0;i<n;i++){ char a[8],b[8]; snprintf(a,8,"e%d",i); snprintf(b,8,"m%d",i); int e=(int)sym_int(a,0,1000),k=(int)sym_int(b,-2,3); if(want==-1||k==1) want=e; p.setEdge(e,k); sym_assert(p.edge==want&&p.point==7,"edge of a point: the first one, or the latest on the boundary"); } sym_reach("point"); sym_done(); }
  sym_done();
}
