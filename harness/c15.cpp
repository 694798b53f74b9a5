// UniqueList against an insertion-ordered set (C15).  args: element kind (int, dbl, pt), steps, number of values, ops mask
#include "common.h"
#include <utilities/UniqueList.h>
template<class T> struct Elem; 
static int g_k=0; static std::string nm(const char*p){ return p+std::to_string(g_k); }
static const double J=1.0/(1<<20); // the tolerance (1e-5) is about 10.5 of these
template<> struct Elem<int>{ static int at(int i){ return i%2?i*7:-i*5; } static int get(int n){ g_k++; return (int)sym_int(nm("v").c_str(),-n,n); } static bool eq(int a,int b){ return a==b; } };
template<> struct Elem<double>{ static double at(int i){ return i*0.5-8; } static double get(int n){ g_k++; return (double)sym_int(nm("v").c_str(),-n,n)*0.5; } static bool eq(double a,double b){ return a==b; } };
template<> struct Elem<Point>{ // grid points moved by less than half the tolerance
  static Point at(int i){ return Point(i%8,i/8); } static Point get(int n){ g_k++; double x=(double)sym_int(nm("x").c_str(),0,n),y=(double)sym_int(nm("y").c_str(),0,n); double j=(double)sym_int(nm("j").c_str(),-4,4); return Point(x+j*J,y-j*J); }
  static bool eq(const Point&a,const Point&b){ double x=a.getX()-b.getX(),y=a.getY()-b.getY(); return x<0.5&&x>-0.5&&y<0.5&&y>-0.5; } };
template<class T> static void check(UniqueList<T>&l,std::vector<T>&m,const char*){
  sym_assert(l.size()==(int)m.size(),"size");
  std::vector<T> c=static_cast<const UniqueList<T>&>(l).getList(); sym_assert(c.size()==m.size(),"list length"); sym_assert(l.getList().size()==m.size(),"list length");
  for(size_t i=0;i<m.size();i++){ sym_assert(Elem<T>::eq(c[i],m[i])&&Elem<T>::eq(l[(int)i],m[i]),"element order"); }
  for(size_t i=0;i<m.size();i++){ sym_assert(l.contains(m[i]),"contains misses an element"); sym_assert(l.indexOf(m[i])==(int)i,"indexOf"); }
  UniqueList<T> o(l); sym_assert(o==l&&l==o,"copy differs"); sym_assert(o.size()==l.size(),"copy size");
}
template<class T> static int find(std::vector<T>&m,const T&x){ for(size_t i=0;i<m.size();i++) if(Elem<T>::eq(m[i],x)) return (int)i; return -1; }
template<class T> static int push(std::vector<T>&m,const T&x){ int i=find(m,x); if(i>=0) return i; m.push_back(x); return (int)m.size()-1; }
template<class T> static void run(int steps,int n,int mask,const char*script,int pre){
  UniqueList<T> l; std::vector<T> m; // a list that already holds many elements, then the symbolic operations
  for(int i=0;i<pre;i++){ T x=Elem<T>::at(i),y=x; int r=l.push_back(x); sym_assert(r==(int)m.size(),"push_back returns the wrong position"); m.push_back(y); }
  int ops[8],no=0; for(int i=0;i<8;i++) if(mask>>i&1) ops[no++]=i;
  for(int k=0;k<steps;k++){
    int op; if(script&&script[k]&&script[k]!='?') op=script[k]-'0'; else op=ops[no==1?0:(int)sym_int(("op"+std::to_string(k)).c_str(),0,no-1)];
    if(op==0){ T x=Elem<T>::get(n); T y=x; int r=l.push_back(x); sym_assert(r==push(m,y),"push_back returns the wrong position"); sym_reach("push"); }
    else if(op==1){ T x=Elem<T>::get(n); int i=find(m,x); l.delete_element(x); if(i>=0){ m.erase(m.begin()+i); sym_reach("delete"); } }
    else if(op==2){ if(m.empty()) sym_reject(); l.pop_front(); m.erase(m.begin()); sym_reach("pop"); }
    else if(op==3){ l.clear(); m.clear(); }
    else if(op==4){ std::vector<T> v; for(int i=0;i<2;i++) v.push_back(Elem<T>::get(n)); std::vector<T> w=v; std::vector<int> r=l.push_list(v); sym_assert(r.size()==2,"push_list returns the wrong number of positions"); for(int i=0;i<2;i++) sym_assert(r[i]==push(m,w[i]),"push_list returns the wrong position"); sym_reach("list"); }
    else if(op==5){ UniqueList<T> v; std::vector<T> w; for(int i=0;i<2;i++){ T x=Elem<T>::get(n); v.push_back(x); push(w,x); } bool c=false; for(auto&x:w) if(find(m,x)>=0) c=true;
      sym_assert(l.hasCommonElement(v)==c&&v.hasCommonElement(l)==c,"hasCommonElement"); if(c) sym_reach("common"); std::vector<int> r=l.push_list(v); sym_assert(r.size()==w.size(),"push_list returns the wrong number of positions"); for(size_t i=0;i<w.size();i++) sym_assert(r[i]==push(m,w[i]),"push_list returns the wrong position"); }
    else if(op==6){ UniqueList<T> o(l); T x=Elem<T>::get(n),y=x; int r=o.push_back(x); sym_assert(o.size()==(find(m,y)<0?(int)m.size()+1:(int)m.size())&&(r<(int)m.size())==(find(m,y)>=0),"push into a copy"); sym_assert((o==l)==(find(m,y)>=0),"list equality"); }
    check(l,m,"");
    if(k+1<steps) continue;
    T q=Elem<T>::get(n); sym_assert(l.contains(q)==(find(m,q)>=0),"contains"); sym_assert(l.indexOf(q)==find(m,q),"indexOf of any element");
    // lists are equal when they hold the same elements in the same order
    { UniqueList<T> r,s,t; for(size_t i=m.size();i-->0;){ T x=m[i]; r.push_back(x); } for(size_t i=0;i<m.size();i++){ T x=m[i]; s.push_back(x); t.push_back(x); } sym_assert(s==l&&l==s,"list with the same elements differs");
      if(m.size()>=2){ sym_reach("order"); sym_assert(!(r==l)&&!(l==r),"list in another order is equal"); } if(!m.empty()){ T x=m[0]; s.delete_element(x); sym_assert(!(s==l)&&!(l==s),"shorter list is equal"); }
      if(find(m,q)<0){ T x=q; t.push_back(x); sym_assert(!(t==l)&&!(l==t),"longer list is equal"); } }
  }
  sym_done();
}
int main(int argc,char**argv){
  std::string k=arg_s(argc,argv,1,"int"); int steps=arg_i(argc,argv,2,3),n=arg_i(argc,argv,3,2),mask=arg_i(argc,argv,4,127); std::string sc=arg_s(argc,argv,5,""); int pre=arg_i(argc,argv,6,0); if(sc=="-") sc="";
  if(k=="int") run<int>(steps,n,mask,sc.c_str(),pre); if(k=="dbl") run<double>(steps,n,mask,sc.c_str(),pre); run<Point>(steps,n,mask,sc.c_str(),pre);
}
