"""Exhaustive generational exploration of a harness (concolic, every branch side decided by z3)."""
import os, sys, struct, time, json, subprocess, random, tempfile, shutil, signal, multiprocessing as mp, collections, traceback, resource
import grid as G, numpy as np, z3

STAT={0:'ok',1:'violation',2:'reject',3:'exception',4:'signal',5:'steps',6:'noexit',7:'nodes'}
class Node:
    __slots__=('kind','op','ty','site','a','b','c','flags','av','bv','cv','r')
class Trace:
    def __init__(s,path):
        d=open(path,'rb').read()
        h=struct.unpack_from('<8I',d,0); assert h[0]==0x53594d32
        s.status=h[1]; n,e,ns,ml=h[2:6]; s.steps=h[6]; o=32; s.msg=d[o:o+ml].decode('utf8','replace'); o+=ml; s.strs=[]
        for _ in range(ns):
            l,=struct.unpack_from('<I',d,o); o+=4; s.strs.append(d[o:o+l].decode()); o+=l
        s.d=d; s.no=o; s.n=n; s.eo=o+64*n; s.ne=e; s.cache={}
        s.ev=list(struct.iter_unpack('<4IQ',d[s.eo:s.eo+24*e]))
    def node(s,i):
        r=s.cache.get(i)
        if r is None:
            r=Node(); (r.kind,r.op,r.ty,r.site,r.a,r.b,r.c,r.flags,r.av,r.bv,r.cv,r.r)=struct.unpack_from('<8I4Q',s.d,s.no+64*(i-1)); s.cache[i]=r
        return r
    def rty(s,i):
        n=s.node(i); return 1 if n.kind==5 else n.ty
    def sites(s):
        if not s.n: return set()
        a=np.frombuffer(s.d,dtype=np.uint32,count=16*s.n,offset=s.no).reshape(-1,16)[:,3]
        return set(np.unique(a).tolist())

class Divergence(Exception): pass
class Stop(Exception): pass
_nl={}
def nlsat(ms):
    t=_nl.get(ms)
    if t is None: t=_nl[ms]=z3.TryFor(z3.Then('simplify','propagate-values','solve-eqs','tseitin-cnf','nlsat'),ms)
    return t.solver()
def zf(f,decl):
    """z3 term of a formula; decl collects the variables used"""
    G.fvars(f,decl); return G.fz(f)
class Pos:
    """one decision of a run: its alternatives, the one taken, and how to build a child"""
    __slots__=('kind','sig','label','fa','alts','excl','order','poly','force')
class Ctx:
    """collects the decisions of one run; finish() asks the solver which of them can go another way"""
    def __init__(s,task,opt,rng,stats):
        s.task=task; s.opt=opt; s.rng=rng; s.st=stats
        s.path=[]; s.children=[]; s.facts={}; s.pinned=set(); s.aux=[]; s.pos=[]; s.complete=True
    def learn(s,f):
        if f is True or f is False: return
        if f[0]=='a': s.facts[f[1].id]=s.facts.get(f[1].id,7)&f[2]
        elif f[0]=='&': s.learn(f[1]); s.learn(f[2])
    # -- decisions
    def reg(s,kind,sig,label,fa,alts,**kw):
        k=len(s.path); pre=s.task['prefix']
        if k<len(pre) and (pre[k][0]!=sig or pre[k][1]!=label): raise Divergence('decision %d: expected %r got %r'%(k,pre[k],(sig,label)))
        p=Pos(); p.kind=kind; p.sig=sig; p.label=label; p.fa=fa; p.alts=alts; p.excl=None; p.order=None; p.poly=None; p.force=None
        for a,b in kw.items(): setattr(p,a,b)
        s.path.append((sig,label,True)); s.pos.append(p); s.learn(fa)
    def decide(s,g,alts,actual,force=None):
        fa=None; alts2=[]
        for l,f in alts:
            f2=G.fsimp(f,s.facts)
            if l==actual: fa=f2
            if f2 is not False: alts2.append((l,f2))
        if fa is None or fa is False or not G.feval(fa,g.pt): raise G.Mismatch('decision %r not satisfied by the run'%(actual,))
        if len(alts2)==1: return
        if s.pinned and all(G.fvars(f,set())<=s.pinned for _,f in alts2): return
        sig=hash(tuple((l if not isinstance(l,str) else sum(map(ord,l)),G.fsig(f)) for l,f in alts2))
        s.reg('d',sig,actual,fa,[(l,f) for l,f in alts2 if l!=actual])
    def names(s,m): return {G.V.name[i]:v for i,v in m.items()}
    def assume(s,g,f,i): s.aux.append(i)
    def pinpoly(s,g,p,v):
        if s.pinned>=p.vars(): return
        d=G.padd(p,G.pc(v),-1); fa=G.atom(d,G.ZERO)
        if G.fsimp(fa,s.facts) is True: return
        sig=hash((77,p.h())); k=len(s.path); pre=s.task['prefix']
        excl=list(s.task['excl']) if k==len(pre) else []
        if v in excl: raise Divergence('excluded value')
        f=True
        for e in excl: f=G.fand(f,G.atom(G.padd(p,G.pc(e),-1),G.NEG|G.POS))
        s.reg('p',sig,('v',v),fa,[('other',G.fand(f,G.fnot(fa)))],poly=p,excl=excl)
        if len(p.t)<=2 and len(p.vars())==1 and all(e==1 for kk,_ in p.t for _,e in G.mono_vars(kk)): s.pinned|=p.vars()
    def point(s,g,sup):
        # close over auxiliary variables
        base=set(); st=list(sup)
        while st:
            i=st.pop(); d=G.V.definition[i]
            if d is None: base.add(i)
            else: st+=list(d[0].vars()|d[1].vars())
        base-=s.pinned; s.st['pins']+=1
        if not base: return
        order=sorted(base,key=lambda i:G.V.name[i]); val=tuple(g.pt[i] for i in order)
        sig=hash((99,)+tuple(G.pv(i).h() for i in order)); k=len(s.path); pre=s.task['prefix']
        excl=list(s.task['excl']) if k==len(pre) else []
        if val in excl: raise Divergence('excluded point')
        fa=True
        for i,v in zip(order,val): fa=G.fand(fa,G.atom(G.padd(G.pv(i),G.pc(v),-1),G.ZERO))
        f=True
        for e in excl: f=G.fand(f,s.neq(order,e))
        s.reg('P',sig,('p',val),fa,[('other',G.fand(f,s.neq(order,val)))],order=order,excl=excl)
        s.pinned|=base
    def neq(s,order,val):
        o=False
        for i,v in zip(order,val): o=G.for_(o,G.atom(G.padd(G.pv(i),G.pc(v),-1),G.NEG|G.POS))
        return o
    # -- the solver's part
    def child(s,k,p,label,m,kids):
        """child at position k; returns the formula of the inputs it covers"""
        kids.append((k,p,label,m))
        if p.kind=='d': return dict(p.alts)[label]
        if p.kind=='p': return G.atom(G.padd(p.poly,G.pc(label[1]),-1),G.ZERO)
        f=True
        for i,v in zip(p.order,label[1]): f=G.fand(f,G.atom(G.padd(G.pv(i),G.pc(v),-1),G.ZERO))
        return f
    def labelof(s,p,pt):
        if p.kind=='d':
            for l,f in p.alts:
                if G.feval(f,pt): return l
            return None
        if p.kind=='p':
            v=p.poly.eval(pt); return None if v in p.excl else ('v',v)
        v=tuple(pt[i] for i in p.order); return None if v in p.excl else ('p',v)
    def fullpt(s,m,g):
        pt=dict(m)
        for i in g.pt:
            if i not in pt: s.auxval(i,pt)
        return pt
    def auxval(s,i,pt):
        d=G.V.definition[i]
        for v in d[0].vars()|d[1].vars():
            if v not in pt: s.auxval(v,pt)
        pt[i]=d[0].eval(pt)//d[1].eval(pt)
    def finish(s,g):
        P=len(s.task['prefix']); pre=s.task['prefix']; suf=s.pos[P:]
        if not suf: return
        base=[p.fa for p,q in zip(s.pos[:P],pre) if q[2]]
        if P<len(s.pos) and s.pos[P].excl: base.append(s.pos[P].excl and G.for_(s.pos[P].fa,s.pos[P].alts[0][1]))
        kids=[]; cov=[]; seen=set(); st=s.st; ess=set(); percap=s.opt.get('percap',48); cnt=collections.Counter(); rest={}
        def take(k,p,lab,m):
            if (k,lab) in seen: return False
            seen.add((k,lab))
            if p.kind!='d':
                cnt[k]+=1
                if cnt[k]>percap:
                    rest.setdefault(k,m); cov.append((k,None)); return True
            cov.append((k,s.child(k,p,lab,m,kids))); return True
        # candidate witnesses
        if s.opt.get('pool',300): s.witness(g,base,suf,take)
        for k,p in enumerate(suf):
            if p.kind=='d':
                open_=[(l,f) for l,f in p.alts if (k,l) not in seen]; need=len(open_)<len(p.alts)
                if len(open_)>1:
                    o=False
                    for l,f in open_: o=G.for_(o,f)
                    if s.real(g,base,o)=='unsat': open_=[]
                for l,f in open_:
                    if len(p.alts)>1 or True:
                        m=s.solve(g,base,f)
                        if m=='real': need=True
                        elif m is not None: take(k,p,l,m); need=True
            else:
                need=True; f=p.alts[0][1]
                for kk,_,l,_ in kids:
                    if kk==k: f=G.fand(f,s.differs(p,l[1]))
                while k not in rest:
                    m=s.solve(g,base,f)
                    if m is None or m=='real': break
                    lab=s.labelof(p,s.fullpt(m,g))
                    if lab is None or not take(k,p,lab,m): raise G.Mismatch('model repeats an excluded value')
                    f=G.fand(f,s.differs(p,lab[1]))
            if need: base.append(p.fa); ess.add(k)
        pf=[(a,b,c) for a,b,c in pre]
        own=[(p.sig,p.label,k in ess) for k,p in enumerate(suf)]
        for k,p,lab,m in kids:
            s.children.append(dict(inputs=s.names(m),forces={},prefix=pf+own[:k]+[(p.sig,lab,True)],excl=[]))
        for k,m in rest.items():
            p=suf[k]; ex=list(p.excl or [])+[p.label[1]]+[l[1] for kk,_,l,_ in kids if kk==k]
            s.children.append(dict(inputs=s.names(m),forces={},prefix=pf+own[:k],excl=ex))
    def differs(s,p,v): return G.atom(G.padd(p.poly,G.pc(v),-1),G.NEG|G.POS) if p.kind=='p' else s.neq(p.order,v)
    def real(s,g,base,f):
        """relaxation of the integer question to the reals (z3 nlsat); 'unsat' carries over to the integers"""
        st=s.st; t=time.time()
        if f is False: return 'unsat'
        c=None; key=None
        sv=nlsat(s.opt.get('rqto',400)); vs=set()
        for x in base:
            if x is not True: sv.add(G.fr(x)); G.fvars(x,vs)
        if f is not True: sv.add(G.fr(f)); G.fvars(f,vs)
        done=set(); todo=list(vs)
        while todo:
            i=todo.pop()
            if i in done: continue
            done.add(i); v=G.rvar(i); sv.add(v>=G.V.lo[i],v<=G.V.hi[i]); d=G.V.definition[i]
            if d is not None:
                num,den=d; q=G.pv(i); todo+=list(num.vars()|den.vars())
                r=G.padd(num,G.pmul(q,den),-1); sv.add(G.fr(G.atom(r,G.POS|G.ZERO)),G.fr(G.atom(G.padd(r,den,-1),G.NEG)))
        c=sv.check(); dt=time.time()-t; st['queries']+=1; st['solver_s']+=dt
        if s.opt.get('v'): print('R %.4f %s base=%d %s'%(dt,c,len(base),str(f)[:150]),flush=True)
        if c==z3.unsat: st['unsat']+=1; return 'unsat'
        if c==z3.unknown: st['rtimeout']+=1; return None
        st['rsat']+=1
        m=sv.model(); pt=dict(g.pt)
        for i in g.inputs:
            if i in done:
                x=m.eval(G.rvar(i),model_completion=True)
                if z3.is_algebraic_value(x): x=x.approx(10)
                pt[i]=min(G.V.hi[i],max(G.V.lo[i],round(x.as_fraction())))
        pt=s.fullpt({i:pt[i] for i in g.inputs},g)
        if all(G.feval(x,pt) for x in base) and G.feval(f,pt): return {i:pt[i] for i in g.inputs}
        return 'sat'
    def solve(s,g,base,f):
        """integer model of base & f; None: proved impossible; 'real': impossible for integers only (or undecided)"""
        r=s.real(g,base,f)
        if r=='unsat': return None
        if isinstance(r,dict): return r
        st=s.st; t=time.time(); decl=set()
        sv=z3.SolverFor('QF_BV'); sv.set('timeout',s.opt.get('qto',60000))
        for x in base:
            if x is not True: sv.add(zf(x,decl))
        if f is not True: sv.add(zf(f,decl))
        done=set(); todo=list(decl)
        while todo:
            i=todo.pop()
            if i in done: continue
            done.add(i); v=G.V.z[i]; sv.add(v>=G.V.lo[i],v<=G.V.hi[i]); d=G.V.definition[i]
            if d is not None:
                num,den=d; q=G.pv(i); todo+=list(num.vars()|den.vars())
                sv.add(G.fz(G.atom(G.padd(num,G.pmul(q,den),-1),G.POS|G.ZERO)),G.fz(G.atom(G.padd(G.padd(num,G.pmul(q,den),-1),den,-1),G.NEG)))
        sv.set('timeout',s.opt.get('bvto',250)); c=sv.check(); dt=time.time()-t; st['bvqueries']+=1; st['solver_s']+=dt; st['bv_s']+=dt
        if c==z3.unknown:
            r=s.bnb(g,base,f)
            if r=='unsat': st['unsat']+=1; return 'real'
            if r is not None: st['sat']+=1; return r
            t=time.time(); sv.set('timeout',s.opt.get('qto',60000)); c=sv.check(); dt=time.time()-t; st['bvqueries']+=1; st['bvslow']+=1; st['solver_s']+=dt; st['bv_s']+=dt
        if s.opt.get('v'): print('B %.4f %s base=%d %s'%(dt,c,len(base),str(f)[:150]),flush=True)
        if c==z3.unsat: st['unsat']+=1; return 'real'
        if c!=z3.sat: st['unknown']+=1; s.complete=False; return 'real'
        st['sat']+=1; m=sv.model()
        mv={i:(m.eval(G.V.z[i],model_completion=True).as_signed_long() if i in done else g.pt[i]) for i in g.inputs}
        pt=s.fullpt(mv,g)
        if not(all(G.feval(x,pt) for x in base) and G.feval(f,pt)): raise G.Mismatch('solver model does not satisfy the query')
        return mv
    def bnb(s,g,base,f):
        """branch and bound over the integer inputs, every box decided by nlsat; 'unsat', a model, or None when it takes too long"""
        st=s.st; t=time.time(); vs=set(); cons=[]; forms=[x for x in list(base)+[f] if x is not True]
        for x in list(base)+[f]:
            if x is not True: cons.append(G.fr(x)); G.fvars(x,vs)
        ins=set(); todo=list(vs); done=set()
        while todo:
            i=todo.pop()
            if i in done: continue
            done.add(i); d=G.V.definition[i]
            if d is None: ins.add(i); continue
            num,den=d; q=G.pv(i); todo+=list(num.vars()|den.vars()); v=G.rvar(i); cons+= [v>=G.V.lo[i],v<=G.V.hi[i]]
            r=G.padd(num,G.pmul(q,den),-1); cons+=[G.fr(G.atom(r,G.POS|G.ZERO)),G.fr(G.atom(G.padd(r,den,-1),G.NEG))]
        ins=sorted(ins); boxes=[{i:(G.V.lo[i],G.V.hi[i]) for i in ins}]; n=0; lim=s.opt.get('bnb',250); tl=s.opt.get('bnbs',20)
        def ok(b):
            pt=s.fullpt({i:b.get(i,g.pt[i]) for i in g.inputs},g)
            return all(G.feval(x,pt) for x in base) and G.feval(f,pt)
        try:
            while boxes:
                b=boxes.pop(); free=[i for i in ins if b[i][0]<b[i][1]]
                if not free:
                    p={i:v[0] for i,v in b.items()}
                    if ok(p): return {i:p.get(i,g.pt[i]) for i in g.inputs}
                    continue
                if any(_ivfalse(x,b) for x in forms): continue
                np_=1
                for i in free: np_*=b[i][1]-b[i][0]+1
                if np_<=24:
                    i=free[0]
                    for v in range(b[i][0],b[i][1]+1): boxes.append({**b,i:(v,v)})
                    continue
                n+=1; st['bnbq']+=1
                if n>lim or time.time()-t>tl: return None
                sv=nlsat(60 if n>1 else 30); sv.add(*cons)
                for i in ins:
                    v=G.rvar(i); l,h=b[i]
                    if l==h: sv.add(v==l)
                    else: sv.add(v>=l,v<=h)
                c=sv.check()
                if c==z3.unsat: continue
                pick=max(free,key=lambda i:b[i][1]-b[i][0]); l,h=b[pick]; mid=(l+h)//2; ex=None
                if c==z3.sat:
                    m=sv.model(); val={}
                    for i in free:
                        x=m.eval(G.rvar(i),model_completion=True)
                        if z3.is_algebraic_value(x): x=x.approx(20)
                        val[i]=x.as_fraction()
                    p={i:(b[i][0] if i not in val else min(b[i][1],max(b[i][0],round(val[i])))) for i in ins}
                    if ok(p): return {i:p.get(i,g.pt[i]) for i in g.inputs}
                    fr=[i for i in free if val[i].denominator!=1]
                    if fr:
                        pick=max(fr,key=lambda i:b[i][1]-b[i][0]); l,h=b[pick]; mid=int(val[pick]//1); mid=min(h-1,max(l,mid))
                    else:
                        ex=p[pick]
                if ex is not None:
                    for q in ((l,ex-1),(ex,ex),(ex+1,h)):
                        if q[0]<=q[1] and q!=(l,h): boxes.append({**b,pick:q})
                    continue
                for q in ((l,mid),(mid+1,h)): boxes.append({**b,pick:q})
            return 'unsat'
        finally: st['solver_s']+=time.time()-t; st['bnb_s']+=time.time()-t
    def witness(s,g,base,suf,take):
        """random inputs near the current one: cheap satisfying assignments, every one re-checked against the formulas"""
        n=s.opt.get('pool',300); ins=g.inputs; nv=len(G.V.name); rows=np.zeros((n,nv),dtype=np.int64); R=s.rng
        cur=[g.pt[i] for i in ins]
        for r in range(n):
            if r%3==0: v=[R.randint(G.V.lo[i],G.V.hi[i]) for i in ins]
            else:
                v=list(cur); k=R.choice((1,1,2,len(ins)))
                for j in R.sample(range(len(ins)),min(k,len(ins))):
                    i=ins[j]; v[j]=min(G.V.hi[i],max(G.V.lo[i],v[j]+R.choice((-4,-2,-1,1,2,4)))) if r%3==1 else R.randint(G.V.lo[i],G.V.hi[i])
            for j,i in enumerate(ins): rows[r,i]=v[j]
        s.pool=rows; s.pcols=set(ins)
        for f in base:
            if f is True: continue
            s.cols(f); s.pool=s.pool[G.fnp(f,s.pool,{})]
            if not len(s.pool): return
        for k,p in enumerate(suf):
            s.cols(p.fa); m=G.fnp(p.fa,s.pool,{})
            if m.all(): continue
            dev=s.pool[~m]; s.pool=s.pool[m]; got={}
            for row in dev:
                pt={i:int(row[i]) for i in ins}; pt=s.fullpt(pt,g); lab=s.labelof(p,pt)
                if lab is not None and lab not in got:
                    got[lab]=1
                    if take(k,p,lab,{i:pt[i] for i in ins}): s.st['witness']+=1
                if p.kind=='d' and len(got)==len(p.alts): break
                if len(got)>16: break
            if not len(s.pool): return
    def cols(s,f):
        for i in G.fvars(f,set()): s.col(i)
    def col(s,i):
        if i in s.pcols: return
        if s.pool.shape[1]<=i: s.pool=np.hstack([s.pool,np.zeros((len(s.pool),len(G.V.name)-s.pool.shape[1]),dtype=np.int64)])
        s.pcols.add(i); d=G.V.definition[i]
        if d is None: return
        for v in d[0].vars()|d[1].vars(): s.col(v)
        a=_np_poly(d[0],s.pool); b=_np_poly(d[1],s.pool)
        s.pool[:,i]=np.floor_divide(a,np.where(b>0,b,1))
def _ivpoly(p,b):
    lo=hi=0
    for k,c in p.t:
        l=h=1
        for i,e in G.mono_vars(k):
            x,y=b[i] if i in b else (G.V.lo[i],G.V.hi[i])
            if e==1: pl,ph=x,y
            elif e%2: pl,ph=x**e,y**e
            else: pl,ph=(0 if x<=0<=y else min(abs(x),abs(y))**e),max(abs(x),abs(y))**e
            q=(l*pl,l*ph,h*pl,h*ph); l,h=min(q),max(q)
        if c>0: lo+=c*l; hi+=c*h
        else: lo+=c*h; hi+=c*l
    return lo,hi
def _ivfalse(f,b):
    """no point of the box satisfies f"""
    if f is True or f is False: return f is False
    if f[0]=='a':
        lo,hi=_ivpoly(f[1],b); m=f[2]
        return not((m&G.NEG and lo<0) or (m&G.POS and hi>0) or (m&G.ZERO and lo<=0<=hi))
    if f[0]=='&': return _ivfalse(f[1],b) or _ivfalse(f[2],b)
    return _ivfalse(f[1],b) and _ivfalse(f[2],b)
def _np_poly(p,pool):
    v=np.zeros(len(pool),dtype=np.int64)
    for k,c in p.t:
        t=np.full(len(pool),c,dtype=np.int64)
        for i,e in G.mono_vars(k):
            for _ in range(e): t=t*pool[:,i]
        v=v+t
    return v

def run_binary(exe,args,task,tmp,opt):
    inp=os.path.join(tmp,'in'); tr=os.path.join(tmp,'tr')
    with open(inp,'w') as f:
        for k,v in task['inputs'].items(): f.write('%s %d\n'%(k,v&0xffffffffffffffff))
        for k,v in task['forces'].items(): f.write('!force %d %d\n'%(k,v))
    try: os.unlink(tr)
    except OSError: pass
    env={'SYM_INPUT':inp,'SYM_TRACE':tr,'HOME':tmp,'PATH':'/usr/bin:/bin','SYM_STEPS':str(opt.get('steps',20000000))}
    try: p=subprocess.run([exe]+[str(a) for a in args],env=env,cwd=tmp,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=opt.get('rto',120))
    except subprocess.TimeoutExpired: return None
    if not os.path.exists(tr): return None
    return Trace(tr)

def analyse(exe,args,task,tmp,opt,rng,stats):
    t0=time.time()
    T=run_binary(exe,args,task,tmp,opt); stats['run_s']+=time.time()-t0
    res=dict(children=[],status=None,msg='',reach=[],bad=None)
    if T is None: res['status']='timeout'; res['msg']='execution produced no trace'; res['forced']=bool(task['forces']); return res
    ctx=Ctx(task,opt,rng,stats); theory=opt.get('theory','grid')
    if theory=='grid': g=G.Grid(T,ctx)
    else:
        import bits as B; g=B.Bits(T,ctx); ctx=g.wrapctx(ctx)
    try:
        for kind,node,site,pad,val in T.ev:
            if kind==4: g.declare(node)
            elif kind==1: g.branch(g.val(node,1,val),bool(val&1),node)
            elif kind==2: g.conc(node,val)
            elif kind==3: raise G.Unsupported('aggregate')
            elif kind==5: res['reach'].append(T.strs[val-1])
    except (G.Mismatch,Divergence) as e:
        res['bad']='%s: %s'%(type(e).__name__,e)
    except G.Unsupported as e: res['bad']='Unsupported: %s'%e
    if res['bad'] is None and len(ctx.path)<len(task['prefix']): res['bad']='Divergence: path shorter than prefix'
    if res['bad'] is None or not res['bad'].startswith('Div'):
        try: ctx.finish(g)
        except G.Mismatch as e: res['bad']='Mismatch: %s'%e
        except G.Unsupported as e: res['bad']='Unsupported: %s'%e
    res['children']=ctx.children; res['complete']=ctx.complete
    res['status']=STAT[T.status]; res['msg']=T.msg; res['forced']=False; res['sites']=T.sites(); res['ndec']=len(ctx.path); res['nodes']=T.n; res['ncons']=len(ctx.pos)
    res['inputs']={G.V.name[i]:v for i,v in g.pt.items() if G.V.definition[i] is None} if theory=='grid' else dict(task['inputs'])
    if T.status in (1,3,4,5,6):
        c=[res['inputs']]
        res['cands']=c
    stats['analyse_s']+=time.time()-t0
    if opt.get('v2'): print('RUN %.2fs pre=%d dec=%d kids=%d base=%d %s'%(time.time()-t0,len(task['prefix']),len(ctx.path),len(ctx.children),sum(1 for q in task['prefix'] if q[2]),dict(stats)),flush=True)
    return res

def worker(conn,exe,seed,opt,wid):
    try: resource.setrlimit(resource.RLIMIT_CORE,(0,0))
    except Exception: pass
    tmp=tempfile.mkdtemp(prefix='symw'); rng=random.Random(seed*1000+wid); sys.setrecursionlimit(100000)
    try:
        while True:
            m=conn.recv()
            if m is None: break
            args,tasks=m; out=[]
            for task in tasks:
                stats=collections.Counter()
                try: r=analyse(exe,args,task,tmp,opt,rng,stats)
                except Exception as e:
                    r=dict(children=[],status='error',msg=traceback.format_exc()[-1500:],reach=[],bad='Error: %r'%e,forced=False,sites=set(),inputs=task['inputs'],ndec=0,nodes=0)
                r['stats']=stats; r['args']=args; out.append(r)
            conn.send(out)
    except (EOFError,KeyboardInterrupt): pass
    finally: shutil.rmtree(tmp,ignore_errors=True)

def native_run(exe,args,inputs,tmp,timeout=60):
    inp=os.path.join(tmp,'rin'); home=os.path.join(tmp,'rhome'); os.makedirs(home,exist_ok=True)
    with open(inp,'w') as f:
        for k,v in inputs.items(): f.write('%s %d\n'%(k,v&0xffffffffffffffff))
    try: p=subprocess.run([exe]+[str(a) for a in args],env={'SYM_INPUT':inp,'HOME':home,'PATH':'/usr/bin:/bin'},cwd=home,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=timeout,text=True)
    except subprocess.TimeoutExpired: return 15,'timeout'
    return p.returncode,p.stdout.strip()[-400:]

class Result: pass
def explore(exe,scenarios,native,opt,seed=1,budget=300,jobs=8,known=lambda args,inputs,msg:None,log=None):
    """scenarios: list of argument lists.  native: callable returning the replay executable (built on demand)."""
    t0=time.time(); st=collections.Counter(); R=Result()
    R.sites=set(); R.reach=collections.Counter(); R.bad=collections.Counter(); R.badex=[]; R.viol=None; R.known=collections.Counter(); R.unconf=[]; R.samples=[]; R.per=collections.OrderedDict(); R.status=collections.Counter(); R.maxdec=0
    rng=random.Random(seed); tmp=tempfile.mkdtemp(prefix='symm')
    ws=[]
    for i in range(jobs):
        a,b=mp.Pipe(); p=mp.Process(target=worker,args=(b,exe,seed,opt,i),daemon=True); p.start(); b.close(); ws.append([p,a,None])
    queues=collections.OrderedDict()
    for a in scenarios:
        a=tuple(a); queues[a]=[dict(inputs={},forces={},prefix=[],excl=[])]; R.per[a]=collections.Counter()
    inflight=0; order=list(queues)
    def pick():
        ne=[a for a in order if queues[a]]
        if not ne: return None
        a=ne[rng.randrange(len(ne))]; q=queues[a]; n=1 if len(q)<4*jobs else 3; out=[]
        for _ in range(n):
            i=rng.randrange(len(q)); q[i],q[-1]=q[-1],q[i]; out.append(q.pop())
        return list(a),out
    stop=False; R.exhaustive=True
    try:
        while True:
            if not stop:
                for w in ws:
                    if w[2] is None:
                        t=pick()
                        if t is None: break
                        w[1].send(t); w[2]=time.time(); w.append(t) if len(w)<4 else w.__setitem__(3,t); inflight+=1
            if inflight==0: break
            ready=mp.connection.wait([w[1] for w in ws if w[2] is not None],timeout=1.0)
            if time.time()-t0>budget: 
                stop=True; R.exhaustive=False
                if time.time()-t0>budget+opt.get('grace',8): break
            for c in ready:
                w=next(x for x in ws if x[1] is c)
                try: out=c.recv()
                except EOFError:
                    inflight-=1; st['worker_died']+=1; R.exhaustive=False
                    ws.remove(w); 
                    a,b=mp.Pipe(); p=mp.Process(target=worker,args=(b,exe,seed,opt,len(ws)+100+st['worker_died']),daemon=True); p.start(); b.close(); ws.append([p,a,None]); continue
                w[2]=None; inflight-=1
                for r in out:
                    a=tuple(r['args']); st.update(r['stats']); st['runs']+=1; per=R.per[a]; per['runs']+=1; R.status[r['status']]+=1
                    R.sites|=r.get('sites',set()); R.maxdec=max(R.maxdec,r.get('ndec',0)); st['nodes']+=r.get('nodes',0); st['decisions']+=r.get('ndec',0)
                    for t in r['reach']: R.reach[t]+=1
                    queues[a].extend(r['children'])
                    if r['bad']:
                        R.bad[r['bad'].split(':')[0]]+=1
                        if len(R.badex)<20: R.badex.append((a,r['bad'],r['msg'],r.get('inputs')))
                    if len(R.samples)<4 and r['status']=='ok': R.samples.append(dict(scenario=list(a),inputs=r.get('inputs'),decisions=r.get('ndec'),constraints=r.get('ncons')))
                    if r['status'] in (('signal',) if opt.get('memory') else ('violation','exception','signal','steps','noexit','timeout')):
                        conf=None
                        for c_ in r.get('cands',[r.get('inputs') or {}]):
                            rc,o=native_run(native(),a,c_,tmp)
                            if rc==14 or (rc not in (0,12) and not opt.get('memory')): conf=(c_,rc,o); break
                        if conf is None:
                            st['unconfirmed']+=1
                            if len(R.unconf)<20: R.unconf.append((a,r['status'],r['msg'],r.get('inputs'),r['forced']))
                        else:
                            k=known(a,conf[0],conf[2])
                            if k is not None: R.known[k]+=1
                            elif R.viol is None:
                                R.viol=dict(args=list(a),inputs=conf[0],msg=r['msg'],native_rc=conf[1],native=conf[2],symbolic_status=r['status']); stop=True; R.exhaustive=False; budget=min(budget,time.time()-t0+1)
                if log and st['runs']%200<len(out): log('%.0fs runs=%d queue=%d q=%d sat=%d unsat=%d wit=%d solver=%.1fs run=%.1fs an=%.1fs bad=%s unconf=%d'%(time.time()-t0,st['runs'],sum(map(len,queues.values())),st['queries'],st['sat'],st['unsat'],st['witness'],st['solver_s'],st['run_s'],st['analyse_s'],dict(R.bad),st['unconfirmed']))
            if R.viol is not None: break
    finally:
        for w in ws:
            try: w[1].send(None) if w[2] is None else w[0].terminate()
            except Exception: pass
        for w in ws:
            w[0].join(0.5)
            if w[0].is_alive(): w[0].terminate(); w[0].join(0.5)
            if w[0].is_alive(): w[0].kill()
        shutil.rmtree(tmp,ignore_errors=True)
    for a in queues:
        R.per[a]['open']=len(queues[a])
        if queues[a]: R.exhaustive=False
    R.st=st; R.wall=time.time()-t0
    return R
if __name__=='__main__':
    import build
    name=sys.argv[1]; sc=[x.split(',') if x else [] for x in (sys.argv[2:] or [''])]
    asan=bool(os.environ.get('ASAN')); defs=('-DSYM_MEM',) if asan else ()
    exe=build.harness(name,asan=asan,defs=defs); 
    nat=[None]
    def native():
        if nat[0] is None: nat[0]=build.harness(name,native=True,asan=asan,defs=defs)
        return nat[0]
    opt=json.loads(os.environ.get('OPT','{}'))
    if asan: opt['memory']=True
    R=explore(exe,sc,native,opt,budget=float(os.environ.get('BUDGET','60')),jobs=int(os.environ.get('JOBS','8')),log=print)
    print('wall %.1f'%R.wall,dict(R.st)); print('exhaustive',R.exhaustive,'status',dict(R.status),'reach',dict(R.reach),'bad',dict(R.bad),'maxdec',R.maxdec)
    for a,c in R.per.items(): print(a,dict(c))
    for b in R.badex[:6]: print('BAD',b)
    for b in R.unconf[:6]: print('UNCONF',b)
    if R.viol: print('VIOL',R.viol)
