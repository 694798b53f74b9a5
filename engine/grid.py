"""GRID theory: inputs are bounded integers; machine values are tracked as exact rational
functions of the inputs plus a bound on the floating point rounding error.  Conditions are
sign conditions on integer polynomials, decided by z3 (bit-vectors wide enough never to wrap)."""
import math, struct
from fractions import Fraction
import z3
try: import numpy as np
except ImportError: np=None

EPS=2.0**-53
NEG,ZERO,POS=1,2,4

class Point(Exception): pass      # value must be pinned to the current input
class Mismatch(Exception): pass   # model and execution disagree
class Unsupported(Exception): pass

def f64(bits): return struct.unpack('<d',struct.pack('<Q',bits&0xffffffffffffffff))[0]
def sgn(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if v>>(w-1) else v

# ------------------------------------------------------------------ polynomials
class Vars:
    """variable table (per worker process); every run registers the same names"""
    def __init__(s): s.idx={}; s.name=[]; s.key=[]; s.lo=[]; s.hi=[]; s.z=[]; s.definition=[]
    def add(s,name,lo,hi,definition=None):
        key=name if definition is not None else '%s@%d:%d'%(name,lo,hi)
        if key in s.idx: return s.idx[key]
        i=len(s.name); s.idx[key]=i; s.name.append(name); s.key.append(key); s.lo.append(lo); s.hi.append(hi); s.definition.append(definition)
        w=max(abs(lo),abs(hi)+1).bit_length()+1
        s.z.append(z3.BitVec(key,w)); return i
V=Vars()
SH=8; MASK=255
def mono_vars(k):
    i=0; out=[]
    while k:
        e=k&MASK
        if e: out.append((i,e))
        k>>=SH; i+=1
    return out
_mono_iv={}
def mono_iv(k):
    r=_mono_iv.get(k)
    if r is None:
        lo,hi=1,1
        for i,e in mono_vars(k):
            a,b=V.lo[i],V.hi[i]
            if e%2==0: m=0 if a<=0<=b else min(abs(a),abs(b)); p=(m**e,max(abs(a),abs(b))**e)
            else: p=(a**e,b**e)
            c=(lo*p[0],lo*p[1],hi*p[0],hi*p[1]); lo,hi=min(c),max(c)
        r=_mono_iv[k]=(lo,hi)
    return r

import zlib
M61=(1<<61)-1
_mh={}
def mono_h(k):
    r=_mh.get(k)
    if r is None:
        r=0x9e3779b97f4a7c15%M61
        for i,e in mono_vars(k): r=(r*pow((zlib.crc32(V.key[i].encode())+12345)*2654435761%M61,e,M61))%M61
        # order independent product
        _mh[k]=r
    return r
class Poly:
    __slots__=('t','id','lo','hi','_z','_vars','_h')
    def h(s):
        if s._h is None:
            r=0
            for k,c in s.t: r=(r+c*mono_h(k))%M61
            s._h=r
        return s._h
    def is_const(s): return not s.t or (len(s.t)==1 and s.t[0][0]==0)
    def const(s): return s.t[0][1] if s.t else 0
    def vars(s):
        if s._vars is None:
            o=0
            for k,_ in s.t: o|=k
            s._vars=frozenset(i for i,e in mono_vars(o))
        return s._vars
    def eval(s,pt):
        r=0
        for k,c in s.t:
            for i,e in mono_vars(k): c*=pt[i]**e
            r+=c
        return r
    def __repr__(s):
        if not s.t: return '0'
        return ' + '.join(str(c)+''.join('*%s%s'%(V.name[i],'^%d'%e if e>1 else '') for i,e in mono_vars(k)) for k,c in s.t)
_intern={}
def P(d):
    t=tuple(sorted((k,c) for k,c in d.items() if c))
    p=_intern.get(t)
    if p is None:
        p=Poly(); p.t=t; p.id=len(_intern); p._z=None; p._vars=None; p._h=None
        lo=hi=0
        for k,c in t:
            a,b=mono_iv(k)
            if c>0: lo+=c*a; hi+=c*b
            else: lo+=c*b; hi+=c*a
        # univariate-ish refinement: complete the square bound for a*x^2 + b*x + c
        p.lo,p.hi=lo,hi; _intern[t]=p
    return p
def pc(c): return P({0:c})
def pv(i): return P({1<<(SH*i):1})
_addc={};_mulc={}
def padd(a,b,kb=1):
    if kb==1:
        if not a.t: return b
        if not b.t: return a
    key=(a.id,b.id,kb); r=_addc.get(key)
    if r is None:
        d=dict(a.t)
        for k,c in b.t: d[k]=d.get(k,0)+kb*c
        r=_addc[key]=P(d)
    return r
def pscale(a,k):
    if k==1: return a
    return P({m:c*k for m,c in a.t})
def pmul(a,b):
    if not a.t or not b.t: return ZEROP
    if a.is_const(): return pscale(b,a.const())
    if b.is_const(): return pscale(a,b.const())
    key=(a.id,b.id) if a.id<b.id else (b.id,a.id); r=_mulc.get(key)
    if r is None:
        if len(a.t)*len(b.t)>4000000: raise Point()
        d={}
        for k1,c1 in a.t:
            for k2,c2 in b.t:
                k=k1+k2; d[k]=d.get(k,0)+c1*c2
        r=_mulc[key]=P(d)
    return r
def ppow(a,e):
    r=ONEP
    for _ in range(e): r=pmul(r,a)
    return r
ZEROP=P({}); ONEP=pc(1)
_canon={}
def canon(p):
    """(q,s): p = s*|content|*q with q primitive and its leading coefficient positive"""
    r=_canon.get(p.id)
    if r is None:
        if not p.t: r=(p,1,1)
        else:
            g=0
            for _,c in p.t: g=math.gcd(g,c)
            s=1 if max(p.t,key=lambda kc:(mono_h(kc[0]) if kc[0] else -1))[1]>0 else -1
            q=P({k:s*c//g for k,c in p.t}) if g!=1 or s!=1 else p
            r=(q,s,g)
        _canon[p.id]=r
    return r
_divc={}
def pexact(a,b):
    """a/b if b divides a exactly, else None"""
    if not a.t: return a
    if b.is_const():
        c=b.const()
        return P({k:v//c for k,v in a.t}) if all(v%c==0 for _,v in a.t) else None
    key=(a.id,b.id)
    if key in _divc: return _divc[key]
    d=dict(a.t); q={}; lb,cb=b.t[-1]; res=None; steps=0
    lbv=mono_vars(lb)
    while d:
        steps+=1
        if steps>400: q=None; break
        k=max(d); c=d[k]
        if c%cb or any(((k>>(SH*i))&MASK)<e for i,e in lbv): q=None; break
        m=k-lb; qc=c//cb; q[m]=qc
        for kb,c2 in b.t:
            kk=kb+m; v=d.get(kk,0)-qc*c2
            if v: d[kk]=v
            else: d.pop(kk,None)
    r=None if q is None else P(q)
    _divc[key]=r
    return r

# z3 translation ----------------------------------------------------------------
def width(lo,hi): return max(abs(lo),abs(hi)+1).bit_length()+1
def sx(e,w):
    d=w-e.size()
    return z3.SignExt(d,e) if d>0 else e
_monoz={}
def mono_z(k):
    r=_monoz.get(k)
    if r is None:
        vs=mono_vars(k); i,e=vs[-1]
        rest=k-(1<<(SH*i))
        if rest==0: r=V.z[i]
        else:
            a=mono_z(rest); w=width(*mono_iv(k)); w=max(w,a.size(),V.z[i].size()); r=sx(a,w)*sx(V.z[i],w)
        _monoz[k]=r
    return r
def poly_z(p):
    if p._z is None:
        lo=hi=0; w=2
        for k,c in p.t:
            a,b=mono_iv(k) if k else (1,1)
            m=max(abs(a),abs(b))*abs(c); hi+=m
            if k: w=max(w,mono_z(k).size())
        w=max(w,width(-hi,hi)+1)
        acc=None
        for k,c in p.t:
            if k==0: continue
            t=sx(mono_z(k),w)
            if c!=1: t=t*z3.BitVecVal(c,w)
            acc=t if acc is None else acc+t
        c0=p.t[0][1] if p.t and p.t[0][0]==0 else 0
        p._z=(acc,c0,w)
    return p._z
# ------------------------------------------------------------------ formulas
# True / False / ('a',poly,mask) / ('&',f,g) / ('|',f,g)
def atom(p,mask):
    """sign(p) in mask"""
    if mask==7: return True
    if mask==0: return False
    if p.is_const():
        c=p.const(); return bool(mask&(NEG if c<0 else POS if c>0 else ZERO))
    q,s,g=canon(p)
    if s<0: mask=(mask&ZERO)|(NEG if mask&POS else 0)|(POS if mask&NEG else 0)
    m=(NEG if q.lo<0 else 0)|(POS if q.hi>0 else 0)|(ZERO if q.lo<=0<=q.hi else 0)
    if mask&m==0: return False
    if m&~mask==0: return True
    return ('a',q,mask)
def fand(a,b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a==b: return a
    if a[0]=='a' and b[0]=='a' and a[1] is b[1]: return atom(a[1],a[2]&b[2])
    return ('&',a,b)
def for_(a,b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if a==b: return a
    if a[0]=='a' and b[0]=='a' and a[1] is b[1]: return atom(a[1],a[2]|b[2])
    return ('|',a,b)
def fnot(a):
    if a is True: return False
    if a is False: return True
    if a[0]=='a': return atom(a[1],7&~a[2])
    if a[0]=='&': return for_(fnot(a[1]),fnot(a[2]))
    return fand(fnot(a[1]),fnot(a[2]))
def feval(f,pt):
    if f is True or f is False: return f
    if f[0]=='a':
        v=f[1].eval(pt); return bool(f[2]&(NEG if v<0 else POS if v>0 else ZERO))
    if f[0]=='&': return feval(f[1],pt) and feval(f[2],pt)
    return feval(f[1],pt) or feval(f[2],pt)
def fsig(f):
    if f is True or f is False: return f
    if f[0]=='a': return (f[1].h()*8+f[2])%M61
    return ((17 if f[0]=='&' else 31)*1000003+fsig(f[1])*7919+fsig(f[2])*104729)%M61
def fvars(f,acc):
    if f is True or f is False: return acc
    if f[0]=='a': acc|=f[1].vars(); return acc
    fvars(f[1],acc); return fvars(f[2],acc)
def fsimp(f,facts):
    """simplify with known sign facts"""
    if f is True or f is False: return f
    if f[0]=='a':
        k=facts.get(f[1].id,7)
        if k&f[2]==0: return False
        if k&~f[2]==0: return True
        return f
    a=fsimp(f[1],facts); b=fsimp(f[2],facts)
    return fand(a,b) if f[0]=='&' else for_(a,b)
_fz={}
def fz(f):
    if f is True: return z3.BoolVal(True)
    if f is False: return z3.BoolVal(False)
    if f[0]=='a':
        key=(f[1].id,f[2]); r=_fz.get(key)
        if r is None:
            e,c0,w=poly_z(f[1]); c=z3.BitVecVal(-c0,w); m=f[2]
            r={NEG:lambda:e<c,ZERO:lambda:e==c,POS:lambda:e>c,NEG|ZERO:lambda:e<=c,POS|ZERO:lambda:e>=c,NEG|POS:lambda:e!=c}[m]()
            _fz[key]=r
        return r
    return z3.And(fz(f[1]),fz(f[2])) if f[0]=='&' else z3.Or(fz(f[1]),fz(f[2]))
# real relaxation (integer polynomials: p<0 is p<=-1)
_rv={};_pr={};_fr={}
def rvar(i):
    r=_rv.get(i)
    if r is None: r=_rv[i]=z3.Real(V.key[i])
    return r
_mr={}
def mono_r(k):
    r=_mr.get(k)
    if r is None:
        i,e=mono_vars(k)[-1]; rest=k-(1<<(SH*i))
        r=_mr[k]=rvar(i) if rest==0 else mono_r(rest)*rvar(i)
    return r
def poly_r(p):
    r=_pr.get(p.id)
    if r is None:
        ts=[z3.RealVal(c) if k==0 else mono_r(k) if c==1 else z3.RealVal(c)*mono_r(k) for k,c in p.t]
        r=_pr[p.id]=ts[0] if len(ts)==1 else z3.Sum(ts)
    return r
def fr(f):
    if f is True or f is False: return z3.BoolVal(f)
    if f[0]=='a':
        key=(f[1].id,f[2]); r=_fr.get(key)
        if r is None:
            e=poly_r(f[1]); m=f[2]
            r=_fr[key]={NEG:lambda:e<=-1,ZERO:lambda:e==0,POS:lambda:e>=1,NEG|ZERO:lambda:e<=0,POS|ZERO:lambda:e>=0,NEG|POS:lambda:z3.Or(e<=-1,e>=1)}[m]()
        return r
    return z3.And(fr(f[1]),fr(f[2])) if f[0]=='&' else z3.Or(fr(f[1]),fr(f[2]))
def fnp(f,pool,cache):
    """vectorised evaluation over a pool of candidate points"""
    if f is True or f is False: return np.full(len(pool),f)
    if f[0]=='a':
        p=f[1]; v=cache.get(p.id)
        if v is None:
            big=sum(abs(c)*max(abs(mono_iv(k)[0]),abs(mono_iv(k)[1])) for k,c in p.t)>2**62
            a=pool.astype(object) if big else pool
            v=np.zeros(len(pool),dtype=object if big else np.int64)
            for k,c in p.t:
                t=np.full(len(pool),c,dtype=v.dtype)
                for i,e in mono_vars(k):
                    for _ in range(e): t=t*a[:,i]
                v=v+t
            cache[p.id]=v
        m=f[2]; r=np.zeros(len(pool),dtype=bool)
        if m&NEG: r|=(v<0)
        if m&ZERO: r|=(v==0)
        if m&POS: r|=(v>0)
        return r
    a=fnp(f[1],pool,cache); b=fnp(f[2],pool,cache)
    return a&b if f[0]=='&' else a|b

# ------------------------------------------------------------------ abstract values
class R:
    """num/(den*2^sh), |computed - this| <= rel*|this| + ab"""
    __slots__=('num','den','sh','rel','ab','amax')
    def __init__(s,num,den=(),sh=0,rel=0.0,ab=0.0):
        if not num.t: den=(); sh=0
        elif sh>0:
            tz=min((c&-c).bit_length()-1 for _,c in num.t); k=min(tz,sh)
            if k: num=P({m:c>>k for m,c in num.t}); sh-=k
        elif sh<0: num=pscale(num,1<<-sh); sh=0
        s.num=num; s.den=den; s.sh=sh; s.rel=rel; s.ab=ab; s.amax=None
    def dmax(s):
        r=1
        for p,e in s.den: r*=p.hi**e
        return r
    def mag(s):
        """upper bound of |ideal|"""
        if s.amax is None:
            m=max(abs(s.num.lo),abs(s.num.hi)); d=1
            for p,e in s.den: d*=max(1,p.lo)**e
            s.amax=_div_up(m,d<<s.sh)
        return s.amax
    def err(s): return s.rel*s.mag()*(1+1e-9)+s.ab
    def exact(s): return s.rel==0.0 and s.ab==0.0
    def is_const(s): return s.num.is_const() and not s.den
    def cval(s): return Fraction(s.num.const(),1<<s.sh)
    def vars(s):
        v=set(s.num.vars())
        for p,_ in s.den: v|=p.vars()
        return v
    def eval(s,pt):
        d=1<<s.sh
        for p,e in s.den: d*=p.eval(pt)**e
        return Fraction(s.num.eval(pt),d)
def _div_up(m,d):
    try: return float(Fraction(m,d))*(1+1e-12)
    except OverflowError: return float('inf')
class ABS:
    __slots__=('x',)
    def __init__(s,x): s.x=x
    def vars(s): return s.x.vars()
class SQRT:
    __slots__=('x','rel')
    def __init__(s,x,rel): s.x=x; s.rel=rel
    def vars(s): return s.x.vars()
class OPQ:
    __slots__=('lo','hi','sup')
    def __init__(s,lo,hi,sup): s.lo=lo; s.hi=hi; s.sup=frozenset(sup)
    def vars(s): return s.sup
class SPEC:
    __slots__=('vals',)
    def __init__(s,vals): s.vals=vals
    def vars(s): return ()
class BOOL:
    __slots__=('f',)
    def __init__(s,f): s.f=f
    def vars(s): return fvars(s.f,set())

def rconst(v):
    if v!=v or v in (float('inf'),float('-inf')): return SPEC((v,))
    n,d=v.as_integer_ratio()
    return R(pc(n),(),d.bit_length()-1)
def const_av(ty,bits):
    if ty==200: return rconst(f64(bits))
    if ty==1: return BOOL(bool(bits&1))
    return R(pc(sgn(bits,ty)))

def _merge(a,b):
    """lcm of two factor lists; returns (lcm, cofactor of a, cofactor of b)"""
    if a is b or a==b: return a,ONEP,ONEP
    da={p.id:(p,e) for p,e in a}; db={p.id:(p,e) for p,e in b}
    out=[];ca=ONEP;cb=ONEP
    for i in sorted(set(da)|set(db),key=lambda i:(da.get(i) or db.get(i))[0].h()):
        p=(da.get(i) or db.get(i))[0]; ea=da.get(i,(p,0))[1]; eb=db.get(i,(p,0))[1]; m=max(ea,eb)
        out.append((p,m))
        if m>ea: ca=pmul(ca,ppow(p,m-ea))
        if m>eb: cb=pmul(cb,ppow(p,m-eb))
    return tuple(out),ca,cb
def reduce_(num,den):
    if not den or not num.t: return num,()if not num.t else den
    out=[]
    for p,e in den:
        while e>0:
            q=pexact(num,p)
            if q is None: break
            num=q; e-=1
        if e: out.append((p,e))
    return num,tuple(out)
def rlin(a,b,kb):
    """ideal a + kb*b"""
    s=max(a.sh,b.sh)
    if a.den==() and b.den==():
        return padd(pscale(a.num,1<<(s-a.sh)),pscale(b.num,1<<(s-b.sh)),kb),(),s
    den,ca,cb=_merge(a.den,b.den)
    n=padd(pscale(pmul(a.num,ca),1<<(s-a.sh)),pscale(pmul(b.num,cb),1<<(s-b.sh)),kb)
    if n.t and len(n.t)<400: n,den=reduce_(n,den)
    return n,den,s
def fits(num,sh): return max(abs(num.lo),abs(num.hi))<=(1<<53) and sh<=1000
def finish(num,den,sh,rel,ab,exact_ops,ideal):
    r=R(num,den,sh)
    if ideal: return r
    if exact_ops:
        if not r.den and fits(r.num,r.sh): return r
        r.rel=EPS*(1+1e-9); return r
    # inexact operands: add this operation's rounding
    r.rel=rel
    if ab==0.0: r.rel=(1+rel)*(1+EPS)-1 if rel<1e-3 else rel*(1+1e-9)+EPS; r.rel*=1+1e-9; r.rel+=1e-20
    else: r.ab=ab*(1+4*EPS)+EPS*r.mag()*(1+rel); 
    return r
def add(a,b,kb,ideal):
    num,den,sh=rlin(a,b,kb)
    ex=a.exact() and b.exact()
    if ex or ideal: return finish(num,den,sh,0,0,True,ideal)
    if not b.num.t and b.exact(): # x + 0
        return R(num,den,sh,a.rel,a.ab)
    if not a.num.t and a.exact(): return R(num,den,sh,b.rel,b.ab)
    return finish(num,den,sh,0.0,(a.err()+b.err())*(1+1e-9)+1e-300,False,False)
def mul(a,b,ideal):
    num=pmul(a.num,b.num)
    den=_mulden(a.den,b.den); sh=a.sh+b.sh
    if den: num,den=reduce_(num,den)
    ex=a.exact() and b.exact()
    if ex or ideal: return finish(num,den,sh,0,0,True,ideal)
    if not num.t and (not a.num.t and a.exact() or not b.num.t and b.exact()): return R(num)
    for x,y in ((a,b),(b,a)):   # multiplication by a power of two is exact
        if x.is_const():
            c=abs(x.num.const())
            if c&(c-1)==0 and x.exact(): return R(num,den,sh,y.rel,y.ab*float(Fraction(c,1<<x.sh)))
    if a.ab==0 and b.ab==0: return finish(num,den,sh,(1+a.rel)*(1+b.rel)-1,0.0,False,False)
    ea,eb=a.err(),b.err()
    return finish(num,den,sh,0.0,(a.mag()*eb+b.mag()*ea+ea*eb)*(1+1e-9),False,False)
def _mulden(a,b):
    if not a: return b
    if not b: return a
    d={}
    for p,e in a+b: d[p.id]=(p,d.get(p.id,(p,0))[1]+e)
    return tuple(sorted(d.values(),key=lambda x:x[0].h()))

class Grid:
    """one run's analysis.  run.decide(alts,actual) registers a decision."""
    def __init__(s,trace,ctx):
        s.T=trace; s.ctx=ctx; s.av={}; s.pt={}; s.inputs=[]
    # ---- inputs
    def declare(s,node):
        nd=s.T.node(node); name=s.T.strs[nd.c-1]
        lo,hi=sgn(nd.av,64),sgn(nd.bv,64)
        if nd.op!=1: raise Unsupported('arbitrary-bits input in GRID theory')
        i=V.add(name,lo,hi); s.pt[i]=sgn(nd.r,64); s.inputs.append(i); s.av[node]=R(pv(i)); return i
    # ---- values
    def val(s,nid,ty,bits):
        if nid==0: return const_av(ty,bits)
        a=s.av.get(nid)
        if a is None:
            s.force(nid); a=s.av[nid]
        return a
    def force(s,nid):
        # iterative post-order to avoid deep recursion
        st=[nid]
        while st:
            n=st[-1]
            if n in s.av: st.pop(); continue
            nd=s.T.node(n); k=nd.kind
            if k==6: # select: only the condition first
                ch=[nd.c]
            else: ch=[x for x in (nd.a,nd.b) if x]
            miss=[x for x in ch if x and x not in s.av]
            if miss: st.extend(reversed(miss)); continue
            if k==6:
                c=s.av[nd.c]; taken=nd.cv&1
                if isinstance(c,BOOL) and nd.ty==1:
                    miss=[x for x in (nd.a,nd.b) if x and x not in s.av]
                    if miss: st.extend(reversed(miss)); continue
                    a=s.boolof(s.val(nd.a,1,nd.av),nd.av); b=s.boolof(s.val(nd.b,1,nd.bv),nd.bv)
                    s.av[n]=BOOL(for_(fand(c.f,a),fand(fnot(c.f),b))); st.pop(); continue
                s.branch(c,bool(taken),nd.c)
                x=nd.a if taken else nd.b
                if x and x not in s.av: st.append(x); continue
                s.av[n]=s.val(x,nd.ty,nd.av if taken else nd.bv); st.pop(); continue
            try: r=s.compute(n,nd)
            except Point:
                r=s.pin(n,nd)
            s.av[n]=r; st.pop()
    def pin(s,n,nd):
        """pin every input the operands depend on to its current value"""
        sup=set()
        for x in (nd.a,nd.b):
            if x: sup|=set(s.av[x].vars())
        s.ctx.point(s,sup)
        ty=1 if nd.kind==5 else nd.ty
        return const_av(ty,nd.r)
    def sign(s,p):
        """decide the sign of an integer polynomial -> -1,0,1"""
        if p.is_const(): return (p.const()>0)-(p.const()<0)
        alts=[(NEG,atom(p,NEG)),(ZERO,atom(p,ZERO)),(POS,atom(p,POS))]
        v=p.eval(s.pt); act=NEG if v<0 else POS if v>0 else ZERO
        s.ctx.decide(s,[a for a in alts if a[1] is not False],act)
        return {NEG:-1,ZERO:0,POS:1}[act]
    def noabs(s,a):
        if isinstance(a,ABS):
            sg=s.sign(a.x.num)
            x=a.x
            if sg>=0: return x
            return R(pscale(x.num,-1),x.den,x.sh,x.rel,x.ab)
        return a
    def iv(s,a):
        if isinstance(a,R):
            lo,hi=Fraction(a.num.lo),Fraction(a.num.hi); d=1<<a.sh
            dl=d
            for p,e in a.den: dl*=max(1,p.lo)**e
            if a.den: 
                dh=d*a.dmax(); lo=lo/dl if lo<0 else lo/dh; hi=hi/dl if hi>0 else hi/dh
            else: lo/=d; hi/=d
            e=a.err(); return float(lo)-e-1e-300-abs(float(lo))*1e-12,float(hi)+e+1e-300+abs(float(hi))*1e-12
        if isinstance(a,ABS):
            l,h=s.iv(a.x); return (0.0 if l<=0<=h else min(abs(l),abs(h))),max(abs(l),abs(h))
        if isinstance(a,SQRT):
            l,h=s.iv(a.x); return math.sqrt(max(l,0))*(1-1e-9),math.sqrt(max(h,0))*(1+1e-9)+1e-300
        if isinstance(a,OPQ): return a.lo,a.hi
        raise Point()
    def boolof(s,a,bits):
        if isinstance(a,BOOL): return a.f
        if isinstance(a,R): # integer 0/1
            return atom(a.num,NEG|POS)
        raise Point()
    def branch(s,c,taken,nid):
        if isinstance(c,R): f=atom(c.num,NEG|POS)
        elif isinstance(c,BOOL): f=c.f
        else: raise Unsupported('branch on %r'%c)
        if f is True or f is False:
            if f!=taken: raise Mismatch('branch')
            return
        s.ctx.decide(s,[(True,f),(False,fnot(f))],taken)
    def conc(s,nid,val):
        nd=s.T.node(nid); ty=1 if nd.kind==5 else nd.ty
        a=s.val(nid,ty,val)
        if isinstance(a,BOOL): s.branch(a,bool(val&1),nid); return
        if isinstance(a,R) and a.is_const(): return
        if isinstance(a,R) and not a.den and a.exact():
            v=a.num.eval(s.pt); s.ctx.pinpoly(s,a.num,v); s.av[nid]=const_av(ty,nd.r); return
        if isinstance(a,SPEC): return
        s.ctx.point(s,set(a.vars())); s.av[nid]=const_av(ty,nd.r)
    # ---- operations
    def compute(s,n,nd):
        k=nd.kind; ideal=nd.flags&1
        if k==2: return s.binop(nd,ideal)
        if k==3:
            a=s.val(nd.a,200,nd.av); return s.neg(a)
        if k==4: return s.cast(nd)
        if k==5: return s.cmp(n,nd)
        if k==7: return s.math1(nd,ideal)
        if k==8: return s.math2(nd,ideal)
        if k==9: # bitcast
            if nd.op==nd.ty: return s.val(nd.a,nd.ty,nd.av)
            if nd.op!=200 and nd.ty!=200:
                a=s.val(nd.a,nd.op,nd.av)
                if nd.ty>1 and nd.op>1 and isinstance(a,R): return a
            raise Point()
        if k==10: # concat of two 32-bit parts
            lo=s.val(nd.a,32,nd.av) if nd.a else const_av(32,nd.av); hi=s.val(nd.b,32,nd.bv) if nd.b else const_av(32,nd.bv)
            raise Point()
        if k==11:
            a=s.val(nd.a,s.T.rty(nd.a),nd.av)
            if nd.op==0 and isinstance(a,R) and s.T.rty(nd.a)!=200: return s.wrap(a,nd.ty)
            raise Point()
        raise Unsupported('node kind %d'%k)
    def neg(s,a):
        if isinstance(a,ABS): a=s.noabs(a)
        if isinstance(a,R): return R(pscale(a.num,-1),a.den,a.sh,a.rel,a.ab)
        if isinstance(a,OPQ): return OPQ(-a.hi,-a.lo,a.sup)
        if isinstance(a,SQRT): l,h=s.iv(a); return OPQ(-h,-l,a.vars())
        if isinstance(a,SPEC): return SPEC(tuple(-v for v in a.vals))
        raise Point()
    def wrap(s,r,w,uns=False):
        lo,hi=-(1<<(w-1)),(1<<(w-1))-1
        if lo<=r.num.lo and r.num.hi<=hi: return r
        p=r.num
        inr=fand(atom(padd(p,pc(lo),-1),POS|ZERO),atom(padd(p,pc(hi),-1),NEG|ZERO))
        act=feval(inr,s.pt)
        if inr is not True and inr is not False: s.ctx.decide(s,[(True,inr),(False,fnot(inr))],act)
        if act: return r
        raise Point()
    def ival(s,a,ty):
        if isinstance(a,BOOL):
            if a.f is True: return R(pc(1 if ty>1 else -1))
            if a.f is False: return R(ZEROP)
            act=feval(a.f,s.pt); s.ctx.decide(s,[(True,a.f),(False,fnot(a.f))],act)
            return R(pc(1)) if act else R(ZEROP)
        return a
    def binop(s,nd,ideal):
        o=nd.op; ty=nd.ty
        a=s.val(nd.a,ty,nd.av); b=s.val(nd.b,ty,nd.bv)
        if ty==200:
            if isinstance(a,SPEC) or isinstance(b,SPEC): 
                for x in (a,b):
                    if isinstance(x,SPEC) and any(v!=v for v in x.vals): return SPEC((float('nan'),))
                r=f64(nd.r)
                if r!=r: return SPEC((r,)) if False else s._spec(nd,a,b)
                return s._spec(nd,a,b)
            if isinstance(a,ABS) and isinstance(b,ABS) and a.x.num is b.x.num: pass
            a=s.noabs(a); b=s.noabs(b)
            if isinstance(a,R) and isinstance(b,R):
                if o==14: return add(a,b,1,ideal)
                if o==16: return add(a,b,-1,ideal)
                if o==18: return mul(a,b,ideal)
                if o==21: return s.div(a,b,nd,ideal)
                if o==24 and b.is_const() and b.exact() and b.num.t and a.exact():
                    q=s.trunc(s.div(a,b,nd,True)); return add(a,mul(b,q,True),-1,True)
                raise Point()
            # sqrt times/over a constant
            if o in (18,21) and isinstance(a,SQRT) and isinstance(b,R) and b.is_const() and b.exact():
                c=b.cval()
                if c==0: raise Point()
                if o==21: c=1/c
                if c>0 and (o==18 or (c.numerator&(c.numerator-1))==0 and (c.denominator&(c.denominator-1))==0 or True):
                    if c.denominator&(c.denominator-1)==0:
                        return SQRT(mul(a.x,R(pc(c.numerator**2),(),2*(c.denominator.bit_length()-1)),True) if a.x.exact() else mul(a.x,R(pc(c.numerator**2),(),2*(c.denominator.bit_length()-1)),False),a.rel+2*EPS)
            if o==18 and isinstance(b,SQRT) and isinstance(a,R) and a.is_const() and a.exact() and a.cval()>0 :
                c=a.cval(); return SQRT(mul(b.x,R(pc(c.numerator**2),(),2*(c.denominator.bit_length()-1)),True),b.rel+2*EPS+b.x.rel)
            if o==18 and isinstance(a,SQRT) and isinstance(b,SQRT) and (a is b or nd.a and nd.a==nd.b):
                x=a.x; return x if ideal else R(x.num,x.den,x.sh,x.rel+2.01*a.rel+2*EPS,x.ab)
            l1,h1=s.iv(a); l2,h2=s.iv(b); sup=set(a.vars())|set(b.vars())
            if o==16 and nd.a and nd.a==nd.b: return R(ZEROP)
            if o==14: lo,hi=l1+l2,h1+h2
            elif o==16: lo,hi=l1-h2,h1-l2
            elif o==18: c=(l1*l2,l1*h2,h1*l2,h1*h2); lo,hi=min(c),max(c)
            elif o==21:
                if l2<=0<=h2: raise Point()
                c=(l1/l2,l1/h2,h1/l2,h1/h2); lo,hi=min(c),max(c)
            else: raise Point()
            m=max(abs(lo),abs(hi)); 
            if not m<1e300: raise Point()
            return OPQ(lo-m*1e-15-1e-300,hi+m*1e-15+1e-300,sup)
        if ty==1:
            fa=s.boolof(a,nd.av); fb=s.boolof(b,nd.bv)
            if o==28: return BOOL(fand(fa,fb))
            if o==29: return BOOL(for_(fa,fb))
            if o in (30,13,15): return BOOL(for_(fand(fa,fnot(fb)),fand(fnot(fa),fb)))
            raise Point()
        if isinstance(a,BOOL) and isinstance(b,BOOL) and o in (28,29,30):
            fa,fb=a.f,b.f
            return BOOL(fand(fa,fb) if o==28 else for_(fa,fb) if o==29 else for_(fand(fa,fnot(fb)),fand(fnot(fa),fb)))
        a0,b0=a,b
        if isinstance(a,BOOL) and isinstance(b,R) and b.is_const() and b.num.const() in (0,1) and o in (28,30):
            if o==28: return a if b.num.const()==1 else R(ZEROP)
            return BOOL(fnot(a.f)) if b.num.const()==1 else a
        a=s.ival(a,ty); b=s.ival(b,ty)
        if not(isinstance(a,R) and isinstance(b,R)): raise Point()
        if o==13: return s.wrap(R(padd(a.num,b.num)),ty)
        if o==15: return s.wrap(R(padd(a.num,b.num,-1)),ty)
        if o==17: return s.wrap(R(pmul(a.num,b.num)),ty)
        if o==25 and b.is_const() and 0<=b.num.const()<ty: return s.wrap(R(pscale(a.num,1<<b.num.const())),ty)
        if o==20 and b.is_const() and b.num.const()>0:  # sdiv by positive constant
            c=b.num.const()
            e=pexact(a.num,pc(c))
            if e is not None: return R(e)
            sg=s.sign(a.num)
            if sg>=0: return R(s.floorvar(a.num,pc(c)))
            return R(pscale(s.floorvar(pscale(a.num,-1),pc(c)),-1))
        if o==23 and b.is_const() and b.num.const()>0:
            c=b.num.const(); sg=s.sign(a.num)
            if sg>=0: return R(padd(a.num,pscale(s.floorvar(a.num,pc(c)),c),-1))
            return R(padd(a.num,pscale(s.floorvar(pscale(a.num,-1),pc(c)),c)))
        if o in (19,22,26,27) and b.is_const() and b.num.const()>=0:
            c=b.num.const() if o in (19,22) else 1<<b.num.const()
            if c>0 and (o==27 or s.sign(a.num)>=0):
                q=s.floorvar(a.num,pc(c))
                return R(q) if o!=22 else R(padd(a.num,pscale(q,c),-1))
        if o==28 and b.is_const() and b.num.const()>=0 and (b.num.const()+1)&b.num.const()==0:
            c=b.num.const()+1; return R(padd(a.num,pscale(s.floorvar(a.num,pc(c)),c),-1))
        raise Point()
    def _spec(s,nd,a,b):
        # inf combined with a finite value: keep only when sign independent
        o=nd.op
        if o in (14,16):
            vals=set()
            A=a.vals if isinstance(a,SPEC) else (0.0,); B=b.vals if isinstance(b,SPEC) else (0.0,)
            for x in A:
                for y in B: vals.add(x+y if o==14 else x-y)
            vs=sorted(v for v in vals if v==v)+([float('nan')] if any(v!=v for v in vals) else [])
            return SPEC(tuple(vs))
        raise Point()
    def floorvar(s,num,den):
        """aux variable q = floor(num/den), den a positive polynomial"""
        e=pexact(num,den)
        if e is not None: return e
        name='fl_%x_%x'%(num.h(),den.h())
        if name not in V.idx:
            dl=max(1,den.lo)
            lo=num.lo//dl if num.lo<0 else num.lo//den.hi; hi=num.hi//dl if num.hi>0 else num.hi//den.hi
            i=V.add(name,lo,hi,(num,den))
        i=V.idx[name]
        for v in num.vars()|den.vars(): s.ensure(v)
        s.ensure(i)
        return pv(i)
    def ensure(s,i):
        if i in s.pt: return
        num,den=V.definition[i]
        for v in num.vars()|den.vars(): s.ensure(v)
        s.pt[i]=num.eval(s.pt)//den.eval(s.pt)
        q=pv(i); f=fand(atom(padd(num,pmul(q,den),-1),POS|ZERO),atom(padd(padd(num,pmul(q,den),-1),den,-1),NEG))
        s.ctx.assume(s,f,i)
    def div(s,a,b,nd,ideal):
        if b.is_const():
            c=b.cval()
            if c==0: 
                if b.ab!=0: raise Point()
                sg=s.sign(a.num)
                return s.divzero(nd,a,sg,b)
            n,d=abs(c.numerator),c.denominator
            # a / (n/d) = a*d/n
            num=pscale(a.num,d*(1 if c>0 else -1)); tz=(n&-n).bit_length()-1; n>>=tz
            den=a.den; sh=a.sh+tz
            if n>1: den=_mulden(den,((pc(n),1),)); num,den=reduce_(num,den)
            if a.exact() and b.exact() or ideal: return finish(num,den,sh,0,0,True,ideal)
            if n==1 and d&(d-1)==0 and b.exact(): return R(num,den,sh,a.rel,a.ab*float(1/abs(c)))
            if a.ab==0 and b.ab==0: return finish(num,den,sh,(1+a.rel)/(1-b.rel)-1,0.0,False,False)
            if b.exact(): return finish(num,den,sh,0.0,a.err()*float(1/abs(c))*(1+1e-9),False,False)
            raise Point()
        if not b.exact() and b.ab!=0 and not ideal:
            gap=1.0/(b.dmax()*(1<<b.sh)) if b.dmax()<1e300 else 0.0
            if b.err()>=gap*0.5:
                return s.opqdiv(a,b)
        sg=s.sign(b.num)
        if sg==0:
            if b.ab!=0: raise Point()
            return s.divzero(nd,a,s.sign(a.num),b)
        bn=b.num if sg>0 else pscale(b.num,-1)
        q,_,g=canon(bn)
        # bn = g * (+-q) with positive value; use the positive version as the factor
        if canon(bn)[1]<0: q=pscale(q,-1)
        num=pscale(a.num,sg)
        for p,e in b.den: num=pmul(num,ppow(p,e))
        num=pscale(num,1<<b.sh)
        den=_mulden(a.den,((q,1),)) if not q.is_const() else a.den
        tz=(g&-g).bit_length()-1; g>>=tz; sh=a.sh+tz
        if g>1: den=_mulden(den,((pc(g),1),))
        num,den=reduce_(num,den)
        if a.exact() and b.exact() or ideal: return finish(num,den,sh,0,0,True,ideal)
        if a.ab==0 and b.ab==0: return finish(num,den,sh,(1+a.rel)/(1-b.rel)-1,0.0,False,False)
        gap=1.0/(b.dmax()*(1<<b.sh)); eb=b.err(); 
        if eb>=gap*0.5: raise Point()
        ab=(a.err()/gap+a.mag()*eb/(gap*(gap-eb)))*(1+1e-9)
        return finish(num,den,sh,0.0,ab,False,False)
    def opqdiv(s,a,b):
        l1,h1=s.iv(a); l2,h2=s.iv(b)
        if l2<=0<=h2: raise Point()
        c=(l1/l2,l1/h2,h1/l2,h1/h2); m=max(map(abs,c))*1e-15
        return OPQ(min(c)-m,max(c)+m,set(a.vars())|set(b.vars()))
    def divzero(s,nd,a,sg,b):
        if a.ab!=0: raise Point()
        if sg==0: return SPEC((float('nan'),))
        if s.zneg(nd.b,nd.bv): sg=-sg
        return SPEC((sg*float('inf'),))
    def fneg_(s,nid,bits):
        """sign bit of a finite double operand, decided where it depends on the inputs"""
        a=s.noabs(s.val(nid,200,bits))
        if isinstance(a,R):
            if a.ab!=0: raise Point()
            if not a.num.is_const(): 
                z=atom(a.num,ZERO); act=feval(z,s.pt)
                if z is not True and z is not False: s.ctx.decide(s,[(True,z),(False,fnot(z))],act)
            else: act=not a.num.t
            if act: return s.zneg(nid,bits)
            return s.sign(a.num)<0
        raise Point()
    def zneg(s,nid,bits):
        """an operand known to be zero: is it -0?"""
        if not nid: return bool(bits>>63)
        nd=s.T.node(nid); k=nd.kind
        if k==1 or k==4: return False
        if k==3: return not s.zneg(nd.a,nd.av)
        if k==6:
            if nd.cv&1: return s.zneg(nd.a,nd.av)
            return s.zneg(nd.b,nd.bv)
        if k==2 and nd.op in (18,21): return s.fneg_(nd.a,nd.av)!=s.fneg_(nd.b,nd.bv)
        if k==2 and nd.op in (14,16):
            a=s.noabs(s.val(nd.a,200,nd.av))
            if not isinstance(a,R) or a.ab!=0: raise Point()
            z=atom(a.num,ZERO); act=feval(z,s.pt)
            if z is not True and z is not False: s.ctx.decide(s,[(True,z),(False,fnot(z))],act)
            if not act: return False
            x=s.zneg(nd.a,nd.av); y=s.zneg(nd.b,nd.bv)
            return x and (y if nd.op==14 else not y)
        raise Point()
    def cast(s,nd):
        o=nd.op; f=nd.cv; t=nd.ty
        a=s.val(nd.a,f,nd.av)
        if o==44: # sitofp
            a=s.ival(a,f) if not(isinstance(a,BOOL)) else (lambda x: R(pscale(x.num,-1)))(s.ival(a,32))
            if not fits(a.num,0): return finish(a.num,(),0,0,0,True,False)
            return a
        if o==43:
            a=s.ival(a,f)
            if a.num.lo<0:
                if s.sign(a.num)<0: raise Point()
            return finish(a.num,(),0,0,0,True,False)
        if o==40:
            if isinstance(a,BOOL): a=s.ival(a,32); return R(pscale(a.num,-1))
            return a
        if o==39:
            if isinstance(a,BOOL): return a      # 0/1
            if a.num.lo<0 and s.sign(a.num)<0: return R(padd(a.num,pc(1<<f)))
            return a
        if o==38:
            if isinstance(a,BOOL): return a
            if t==1:
                if a.num.lo>=0 and a.num.hi<=1: return BOOL(atom(a.num,POS))
                q=s.floorvar(a.num,pc(2)); return BOOL(atom(padd(a.num,pscale(q,2),-1),POS))
            return s.wrap(a,t)
        if o==42 or o==41: # fptosi
            a=s.noabs(a)
            if isinstance(a,SPEC) or not isinstance(a,R): raise Point()
            r=s.trunc(a); lim=1<<(t-1) if o==42 else 1<<t
            if r.num.lo<-lim or r.num.hi>=lim: return s.wrap(r,t)
            return r
        raise Point()
    def trunc(s,a):
        if not a.den and a.sh==0 and a.exact(): return R(a.num)
        sg=s.sign(a.num)
        if sg==0: return R(ZEROP)
        x=a if sg>0 else R(pscale(a.num,-1),a.den,a.sh,a.rel,a.ab)
        q=s.floor(x)
        return q if sg>0 else R(pscale(q.num,-1))
    def floor(s,a):
        if not a.den and a.sh==0 and a.exact(): return R(a.num)
        den=pc(1<<a.sh)
        for p,e in a.den: den=pmul(den,ppow(p,e))
        q=s.floorvar(a.num,den)
        if not a.exact():
            # computed value may fall on the other side of an integer when the ideal one is within err of it
            gap=1.0/float(den.hi) if den.hi<1e300 else 0
            if a.err()>=gap: raise Point()
            rem=padd(a.num,pmul(q,den),-1)
            if s.sign(rem)==0: raise Point()
        return R(q)
    def math1(s,nd,ideal):
        a=s.val(nd.a,200,nd.av); k=nd.op
        if k==2:
            if isinstance(a,(ABS,SQRT)): return a
            if isinstance(a,R):
                if a.num.lo>=0: return a
                if a.num.hi<=0: return s.neg(a)
                return ABS(a)
            if isinstance(a,OPQ):
                if a.lo>=0: return a
                return OPQ(0.0 if a.hi>=0 else -a.hi,max(-a.lo,a.hi),a.sup)
            if isinstance(a,SPEC): return SPEC(tuple(sorted({abs(v) for v in a.vals})) if all(v==v for v in a.vals) else (float('nan'),))
            raise Point()
        if isinstance(a,SPEC): raise Point()
        a=s.noabs(a)
        if k==1:
            if isinstance(a,R):
                if a.num.lo<0:
                    if s.sign(a.num)<0: return SPEC((float('nan'),)) if a.ab==0 else (_ for _ in ()).throw(Point())
                if a.is_const() and a.exact(): return rconst(f64(nd.r))
                return SQRT(a,0.0 if ideal else EPS*1.0001)
            l,h=s.iv(a)
            if l<0: raise Point()
            return OPQ(math.sqrt(l)*(1-1e-15),math.sqrt(h)*(1+1e-15)+1e-300,a.vars())
        if k==20: # rounding to single precision
            if isinstance(a,R):
                if a.exact() and not a.den and max(abs(a.num.lo),abs(a.num.hi))<=1<<24 and a.sh<100: return a
                e=2.0**-24; return R(a.num,a.den,a.sh,(a.rel+e*(1+a.rel))*(1+1e-15),a.ab*(1+2*e)+1e-45)
            raise Point()
        if k in (3,4,8,7) and isinstance(a,R):
            if k==3: return s.floor(a)
            if k==4: return s.neg(s.floor(s.neg(a)))
            if k==8: return s.trunc(a)
            sg=s.sign(a.num)
            if sg==0: return R(ZEROP)
            x=a if sg>0 else s.neg(a)
            q=s.floor(add(x,R(ONEP,(),1),1,False)); return q if sg>0 else s.neg(q)
        l,h=s.iv(a)
        m=1e-15
        if k in (5,6): return OPQ(-1.0,1.0,a.vars())
        if k==10: return OPQ(math.atan(l)-m,math.atan(h)+m,a.vars())
        if k==11 and h<700: return OPQ(math.exp(l)*(1-m),math.exp(h)*(1+m),a.vars())
        raise Point()
    def math2(s,nd,ideal):
        a=s.val(nd.a,200,nd.av); b=s.val(nd.b,200,nd.bv); k=nd.op
        if isinstance(a,SPEC) or isinstance(b,SPEC): raise Point()
        if k==3 and isinstance(b,R) and b.is_const() and b.exact() and b.num.t:
            a=s.noabs(a)
            if isinstance(a,R) and a.exact():
                q=s.trunc(s.div(a,b,nd,True)); return add(a,mul(b,q,True),-1,True)
            raise Point()
        if k==2 and isinstance(b,R) and b.is_const() and b.exact() and not nd.b:
            e=b.cval()
            if e.denominator==1 and 1<=e<=6:
                a=s.noabs(a) if e%2 else (a.x if isinstance(a,ABS) else a)
                if isinstance(a,SQRT) and e==2: return R(a.x.num,a.x.den,a.x.sh,a.x.rel+4*EPS+2*a.rel,a.x.ab*1.0001) if not ideal else a.x
                if isinstance(a,R):
                    r=a
                    for _ in range(int(e)-1): r=mul(r,a,ideal)
                    return r
            if e==Fraction(1,2) and isinstance(a,R) and a.num.lo>=0: return SQRT(a,0.0 if ideal else 2*EPS)
        if k==4 and isinstance(s.noabs(a),R) and isinstance(s.noabs(b),R):
            a=s.noabs(a); b=s.noabs(b)
            return SQRT(add(mul(a,a,True),mul(b,b,True),1,True),4*EPS)
        if k in (5,6):
            c=s.compare(a,b,4 if k==5 else 2,nd,None)
            if c is True: return a
            if c is False: return b
            act=feval(c,s.pt); s.ctx.decide(s,[(True,c),(False,fnot(c))],act); return a if act else b
        if k==1: return OPQ(-3.1415926535897936,3.1415926535897936,set(a.vars())|set(b.vars()))
        raise Point()
    # ---- comparisons
    def cmp(s,n,nd):
        ty=nd.ty; pred=nd.op
        a=s.val(nd.a,ty,nd.av); b=s.val(nd.b,ty,nd.bv)
        if pred>=32:
            if ty==1 or (isinstance(a,BOOL) or isinstance(b,BOOL)):
                if pred in (32,33):
                    if isinstance(a,BOOL) and isinstance(b,R) and b.is_const():
                        c=b.num.const()
                        f=a.f if c==1 else fnot(a.f) if c==0 else False
                        return BOOL(f if pred==32 else fnot(f))
                    if isinstance(b,BOOL) and isinstance(a,R) and a.is_const():
                        c=a.num.const(); f=b.f if c==1 else fnot(b.f) if c==0 else False
                        return BOOL(f if pred==32 else fnot(f))
                    if isinstance(a,BOOL) and isinstance(b,BOOL):
                        x=for_(fand(a.f,fnot(b.f)),fand(fnot(a.f),b.f)); return BOOL(fnot(x) if pred==32 else x)
                a=s.ival(a,ty); b=s.ival(b,ty)
                if ty==1: raise Point()
            if not(isinstance(a,R) and isinstance(b,R)): raise Point()
            d=padd(a.num,b.num,-1)
            if pred>=34 and pred<=37: # unsigned
                def u(x):
                    if x.num.lo>=0: return x.num
                    return x.num if s.sign(x.num)>=0 else padd(x.num,pc(1<<ty))
                d=padd(u(a),u(b),-1)
            m={32:ZERO,33:NEG|POS,34:POS,35:POS|ZERO,36:NEG,37:NEG|ZERO,38:POS,39:POS|ZERO,40:NEG,41:NEG|ZERO}[pred]
            return BOOL(atom(d,m))
        if nd.a and nd.a==nd.b and not isinstance(a,SPEC): f=pred in (1,3,5,7,9,11,13,15)
        else: f=s.compare(a,b,pred,nd,n)
        if f is True or f is False:
            if f!=bool(nd.r&1): raise Mismatch('fcmp const pred %d'%pred)
        return BOOL(f)
    def compare(s,a,b,pred,nd,n):
        if isinstance(a,SPEC) or isinstance(b,SPEC):
            A=a.vals if isinstance(a,SPEC) else None; B=b.vals if isinstance(b,SPEC) else None
            outs=set()
            for x in (A or (0.0,)):
                for y in (B or (0.0,)): outs.add(fc(pred,x,y))
            if len(outs)==1: return outs.pop()
            raise Point()
        o=pred&7 if pred<8 else pred-8
        # after NaN is excluded: 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 true(ord) / 8 uno -> false
        if pred in (0,8): return False
        if pred in (7,15): return True
        o=pred if pred<8 else pred-8
        m={1:ZERO,2:POS,3:POS|ZERO,4:NEG,5:NEG|ZERO,6:NEG|POS}[o]
        return s.rel(a,b,m,nd,n)
    def rel(s,a,b,m,nd,n):
        """formula for sign(a-b) in m"""
        if isinstance(a,ABS) and isinstance(b,ABS):
            if a.x.num is b.x.num and a.x.den==b.x.den and a.x.sh==b.x.sh: return bool(m&ZERO)
            a=s.noabs(a)
        if isinstance(b,ABS):
            m2=(m&ZERO)|(NEG if m&POS else 0)|(POS if m&NEG else 0)
            return s.rel(b,a,m2,nd,n)
        if isinstance(a,ABS):
            x=a.x; nx=s.neg(x)
            if isinstance(b,R):
                if m in (NEG,NEG|ZERO): return fand(s.rel(x,b,m,nd,n),s.rel(nx,b,m,nd,n))
                if m in (POS,POS|ZERO): return for_(s.rel(x,b,m,nd,n),s.rel(nx,b,m,nd,n))
            a=s.noabs(a)
        if isinstance(a,SQRT) and isinstance(b,SQRT):
            x,y=a.x,b.x
            if (x.exact() and y.exact() and not x.den and not y.den and x.mag()*2.0**max(x.sh,y.sh)<2**49 and y.mag()*2.0**max(x.sh,y.sh)<2**49 and max(a.rel,b.rel)<=EPS*1.01):
                return s.rel(x,y,m,nd,n)
            return s.band(R(x.num,x.den,x.sh,x.rel+2*a.rel*1.01+1e-19,x.ab),R(y.num,y.den,y.sh,y.rel+2*b.rel*1.01+1e-19,y.ab),m,nd,n)
        if isinstance(b,SQRT) and isinstance(a,R):
            m2=(m&ZERO)|(NEG if m&POS else 0)|(POS if m&NEG else 0)
            return s.rel(b,a,m2,nd,n)
        if isinstance(a,SQRT) and isinstance(b,R):
            x=a.x
            sb=s.sign(b.num)
            if b.ab!=0: raise Point()
            if sb<0: return bool(m&POS)
            if sb==0: return s.rel(x,R(ZEROP),m,nd,n)
            y=mul(b,b,True); 
            return s.band(R(x.num,x.den,x.sh,x.rel+2*a.rel*1.01+1e-19 if a.rel or x.rel else 0.0,x.ab),R(y.num,y.den,y.sh,2*b.rel*1.01,0.0),m,nd,n)
        if isinstance(a,R) and isinstance(b,R):
            if isinstance(a,R) and a.num is b.num and a.den==b.den and a.sh==b.sh and a.exact() and b.exact(): return bool(m&ZERO)
            return s.band(a,b,m,nd,n)
        l1,h1=s.iv(a); l2,h2=s.iv(b)
        if h1<l2: return bool(m&NEG)
        if l1>h2: return bool(m&POS)
        raise Point()
    def band(s,a,b,m,nd,n):
        num,den,sh=rlin(a,b,-1)
        if not num.t and a.exact() and b.exact(): return bool(m&ZERO)
        # purely relative error on one side, compared with exact zero: sign is preserved
        if not b.num.t and b.exact() and a.ab==0: return atom(a.num,m)
        if not a.num.t and a.exact() and b.ab==0: return atom(pscale(b.num,-1),m)
        E=0.0 if a.exact() and b.exact() else (a.err()+b.err())*(1+1e-9)
        if not E<1e290: raise Point()
        dm=1; dn=1
        for p,e in den: dm*=p.hi**e; dn*=max(1,p.lo)**e
        less,mid,great=regions(num,sh,den,dm,dn,E)
        if E==0.0: return for_(for_(less if m&NEG else False,great if m&POS else False),mid if m&ZERO else False)
        return s.three(less,great,mid,m,nd,n)
    def three(s,less,great,mid,m,nd,n):
        """regions: surely less, surely greater, undecided by the model (decided by the execution)"""
        if mid is False: return for_(less if m&NEG else False,great if m&POS else False)
        if less is False and great is False and mid is True: raise Point()
        act='L' if feval(less,s.pt) else 'G' if feval(great,s.pt) else ('B1' if nd.r&1 else 'B0')
        alts=[('L',less),('G',great)]
        alts.append(('B',mid)); act='B' if act[0]=='B' else act
        alts=[x for x in alts if x[1] is not False]
        s.ctx.decide(s,alts,act)
        if act=='B': raise Point()
        if act=='L': r=bool(m&NEG)
        elif act=='G': r=bool(m&POS)
        else: return bool(nd.r&1)
        return r

_reg={}
def regions(num,sh,den,dm,dn,E):
    """(surely negative, undecided, surely positive) for num/(den*2^sh) observed with error <= E; when E==0 the middle is 'zero'"""
    key=(num.id,sh,den and tuple((p.id,e) for p,e in den),E)
    r=_reg.get(key)
    if r is None: r=_reg[key]=_regions(num,sh,den,dm,dn,E)
    return r
def _regions(num,sh,den,dm,dn,E):
    if not num.t: return (False,True,False)
    q,sg,g=canon(num)
    bits=max(abs(c) for _,c in q.t).bit_length()
    fe=Fraction(E)
    gap=Fraction(g,dm<<sh)
    simple=(atom(num,NEG),atom(num,ZERO),atom(num,POS))
    if fe<gap and bits<=24: return simple
    # split the coefficients at 2^k: num = 2^k*A + B, B tiny
    for k in range(bits+g.bit_length(),4,-1):
        M=1<<k; hi={};lo={}
        for mo,c in num.t:
            h=(c+(M>>1))>>k; hi[mo]=h; lo[mo]=c-(h<<k)
        A=P(hi)
        if not A.t: continue
        B=P(lo)
        if not B.t: continue
        bm=max(abs(B.lo),abs(B.hi))
        if bm+fe*(dm<<sh)<canon(A)[2]<<k:
            l,mi,gr=regions(B,sh,den,dm,dn,E)
            z=atom(A,ZERO)
            return (for_(atom(A,NEG),fand(z,l)),fand(z,mi),for_(atom(A,POS),fand(z,gr)))
    if fe<gap: return simple
    # general case: compare with a short dyadic bound on the error
    mant,ex=math.frexp(E); mm=int(math.ceil(mant*1024)); er=Fraction(mm)*Fraction(2)**(ex-10)
    d=pc(1)
    for p,e in den: d=pmul(d,ppow(p,e))
    N=pscale(num,er.denominator); K=pscale(d,er.numerator<<sh)
    less=atom(padd(N,K),NEG); great=atom(padd(N,K,-1),POS)
    return (less,fand(fnot(less),fnot(great)),great)
def fc(pred,x,y):
    if x!=x or y!=y: return pred>=8
    r={1:x==y,2:x>y,3:x>=y,4:x<y,5:x<=y,6:x!=y,7:True,0:False}[pred if pred<8 else pred-8] if pred not in (8,15) else pred==15
    return r
