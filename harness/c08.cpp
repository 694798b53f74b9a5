// Seed points of a region (C08).  args: template, unit, holes, point lists joined by '_', script
// script: h add the next hole, L add the next list, F read the next list from a file (fixed points only), G regular generator 3x5, g generator with one rule 5x3, C clear, X go on with a copy of the region, N drop the inner holes
#include "meshio.h"
#include <delynoi/models/generator/functions/functions.h>
#include <unistd.h>
#include <sys/stat.h>
static Pts cur; static double TOL=1e-4;
static void filter(Region&R){ Pts all=R.getRegionPoints(); int n=R.numberOfSides(); Pts out(all.begin(),all.begin()+n); std::vector<Hole> hs=R.getHoles(); Pts keep; Ideal I;
  for(auto&s:cur){ bool k=orc_onb(out,s)||orc_in(out,s); for(auto&h:hs){ Pts hp=h.getPoints(); if(hp.size()>8&&orc_onbt(hp,s)&&!orc_onb(hp,s)) sym_reject(); if(k&&(orc_onb(hp,s)||orc_in(hp,s))) k=false; } sym_reach(k?"kept":"dropped"); if(k) keep.push_back(s); } cur=keep; }
static void check(Region&R,const char*what){ static char b[120]; Pts s=R.getSeedPoints(); snprintf(b,120,"%s: number of seeds",what); sym_assert(s.size()==cur.size(),b); snprintf(b,120,"%s: seed or order of seeds",what); for(size_t i=0;i<s.size();i++) sym_assert(same(s[i],cur[i]),b); }
int main(int argc,char**argv){
  int t=arg_i(argc,argv,1,1); double u=arg_i(argc,argv,2,1); std::vector<HoleIn> hs=holes_of(arg_s(argc,argv,3,"-")); std::string ls=arg_s(argc,argv,4,""),sc=arg_s(argc,argv,5,"L"); double off=arg_i(argc,argv,6,0);
  Pts p=tmpl(t%100,u); if(t>=100) p=rev(p); std::vector<Pts> lists; { size_t a=0; while(a<=ls.size()){ size_t b=ls.find('_',a); if(b==std::string::npos) b=ls.size(); lists.push_back(points_of(ls.substr(a,b-a),0.5)); a=b+1; } }
  for(auto&q:p) q=Point(q.getX()+off,q.getY()); for(auto&l:lists) for(auto&q:l) q=Point(q.getX()+off,q.getY());
  Region*R=new Region(p); size_t nl=0,nh=0;
  for(char c:sc){
    if(c=='h'){ Pts hp; for(auto&q:hs[nh].pts) hp.push_back(Point(q.getX()+off,q.getY())); if(off==0) R->addHole(hs[nh].hole); else { PolygonalHole ph(hp); R->addHole(ph); } nh++; check(*R,"hole added"); }
    else if(c=='L'){ Pts l=lists[nl++],l0(l); R->addSeedPoints(l); sym_assert(l.size()==l0.size(),"given list changed"); for(size_t i=0;i<l.size();i++) sym_assert(same(l[i],l0[i]),"given list changed"); cur=l; filter(*R); check(*R,"list"); }
    else if(c=='F'){ char d[]="/tmp/verif-c08-XXXXXX"; if(!mkdtemp(d)) sym_reject(); std::string fn=std::string(d)+"/seeds.txt"; FILE*f=fopen(fn.c_str(),"w"); Pts l=lists[nl++]; fprintf(f,"%d\n",(int)l.size()); for(auto&q:l) fprintf(f,"%.17g %.17g\n",q.getX(),q.getY()); fclose(f); std::string old=getenv("HOME")?getenv("HOME"):""; setenv("HOME",d,1);
      bool threw=false; try { R->addSeedsFromFile("seeds.txt"); } catch(std::exception&e){ threw=true; } unlink(fn.c_str()); bool miss=false; size_t before=R->getSeedPoints().size(); try { R->addSeedsFromFile("seeds.txt"); } catch(std::exception&e){ miss=true; } rmdir(d); setenv("HOME",old.c_str(),1); sym_assert(!threw,"seed file rejected"); sym_assert(miss,"missing seed file accepted"); sym_assert(R->getSeedPoints().size()==before,"seeds changed although the file is missing"); cur.insert(cur.end(),l.begin(),l.end()); filter(*R); check(*R,"file"); sym_reach("file"); }
    else if(c=='G'||c=='g'){ Pts all=R->getRegionPoints(),out(all.begin(),all.begin()+R->numberOfSides()); double x0,x1,y0,y1; box(out,x0,x1,y0,y1); int nx=c=='G'?3:5,ny=c=='G'?5:3;
      if(c=='G') R->generateSeedPoints(PointGenerator(functions::constant(),functions::constant()),nx,ny); else R->generateSeedPoints(PointGenerator(functions::uniform(0.5),functions::independent_variable::x),nx,ny);
      for(int i=0;i<ny;i++) for(int j=0;j<nx;j++){ double x=x0+j*((x1-x0)/(nx-1)),y=y0+i*((y1-y0)/(ny-1)); cur.push_back(c=='G'?Point(x,y):Point(x,y+0.5*x)); } filter(*R); check(*R,"generator"); sym_reach("generator"); }
    else if(c=='C'){ R->cleanSeedPoints(); cur.clear(); check(*R,"clearing"); }
    else if(c=='N'){ R->cleanInternalHoles(); check(*R,"holes dropped"); sym_assert(R->getHoles().empty(),"holes are still there"); }
    else if(c=='X'){ Region*Q=new Region(*R); check(*Q,"copy"); Pts e; R->addSeedPoints(e); sym_assert(R->getSeedPoints().empty(),"empty list does not replace the seeds"); R=Q; check(*R,"copy after a change of the original"); } }
  sym_reach("seeds"); sym_done();
}
