"""dbg.py HARNESS ARGS INPUTS: one run, with the operations that had to be pinned"""
import sys,build,explore as E,grid as G,random,collections,tempfile,json,os,traceback
exe=build.harness(sys.argv[1]); args=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else []
inp=json.loads(sys.argv[3]) if len(sys.argv)>3 else {}
st=collections.Counter(); sites=open(exe+'.sites').read().splitlines(); pins=collections.Counter()
op=G.Grid.pin
def pin(s,n,nd):
    w=traceback.extract_tb(sys.exc_info()[2]); 
    d=[]
    for x in (nd.a,nd.b):
        if x:
            v=s.av[x]; d.append(type(v).__name__+(' num[%d..%d] den%s rel%g ab%g'%(v.num.lo,v.num.hi,[(p.lo,p.hi) for p,_ in v.den],v.rel,v.ab) if isinstance(v,G.R) else ''))
    if not set().union(*[set(s.av[x].vars()) for x in (nd.a,nd.b) if x])<=s.ctx.pinned: pins['kind%d op%d ty%d %s @%s line %s :: %s'%(nd.kind,nd.op,nd.ty,sites[nd.site-1],w[-1].name,w[-1].lineno,' | '.join(d))]+=1
    return op(s,n,nd)
G.Grid.pin=pin
opt=E.Ctx.point
def point(s,g,sup):
    if not set(sup)<=s.pinned and sys._getframe(1).f_code.co_name!='op': pins['point from '+' < '.join(f.name+':%d'%f.lineno for f in traceback.extract_stack()[-5:-1])]+=1
    return opt(s,g,sup)
E.Ctx.point=point
r=E.analyse(exe,args,dict(inputs=inp,forces={},prefix=[],excl=[]),tempfile.mkdtemp(),json.loads(os.environ.get('OPT','{}')),random.Random(1),st)
print({k:v for k,v in r.items() if k not in('children','sites')},len(r['children']),dict(st))
for k,v in pins.most_common(20): print(v,k)
