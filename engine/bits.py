"""BITS theory: inputs are arbitrary bit patterns (32/64-bit words, IEEE doubles); every operation of
the compiled code is encoded bit-precisely (z3 bit-vectors and floating point, round to nearest even)."""
import time, struct, z3
import grid as G
RNE=z3.RNE(); F64=z3.Float64()
def sgn(v,w): return G.sgn(v,w)
def bval(ty,bits):
    if ty==200: return z3.fpBVToFP(z3.BitVecVal(bits&0xffffffffffffffff,64),F64)
    if ty==1: return z3.BoolVal(bool(bits&1))
    return z3.BitVecVal(bits&((1<<ty)-1),ty)
class BCtx:
    def __init__(s,c): s.task=c.task; s.opt=c.opt; s.st=c.st; s.path=[]; s.pos=[]; s.children=[]; s.complete=True
    def finish(s,g): g.finish(s)
class Bits:
    def __init__(s,T,ctx): s.T=T; s.z={}; s.raw={}; s.pt={}; s.inputs=[]; s.cons=[]; s.seen=set(); s.keep=[]; s.c=None
    def wrapctx(s,c): s.c=BCtx(c); return s.c
    def declare(s,node):
        nd=s.T.node(node); name=s.T.strs[nd.c-1]; w=64 if nd.ty==200 else nd.ty; v=z3.BitVec(name,w)
        if nd.op==1: s.cons.append(z3.And(v>=sgn(nd.av,64),v<=sgn(nd.bv,64)))
        s.raw[node]=v; s.z[node]=z3.fpBVToFP(v,F64) if nd.ty==200 else v; s.inputs.append((name,v)); s.pt[name]=nd.r
    def val(s,nid,ty,bits):
        if nid==0: return bval(ty,bits)
        if nid not in s.z: s.force(nid)
        return s.z[nid]
    def arg(s,n,ty,bits):
        if not n: return bval(ty,bits)
        return s.z[n]
    def force(s,nid):
        st=[nid]
        while st:
            n=st[-1]
            if n in s.z: st.pop(); continue
            nd=s.T.node(n); miss=[x for x in ((nd.a,nd.b,nd.c) if nd.kind==6 else (nd.a,nd.b)) if x and x not in s.z]
            if miss: st.extend(miss); continue
            s.z[n]=s.compute(n,nd); st.pop()
    def bv(s,nid,ty,bits):
        """the bit pattern of a double operand"""
        if not nid: return z3.BitVecVal(bits,64)
        if nid in s.raw: return s.raw[nid]
        x=s.z[nid]
        return z3.fpToIEEEBV(x) if ty==200 else x
    def compute(s,n,nd):
        k=nd.kind; ty=nd.ty
        if k==2:
            a=s.arg(nd.a,ty,nd.av); b=s.arg(nd.b,ty,nd.bv); o=nd.op
            if ty==200:
                f={14:z3.fpAdd,16:z3.fpSub,18:z3.fpMul,21:z3.fpDiv}.get(o)
                if f is None: raise G.Unsupported('fp op %d'%o)
                if o in (14,18) and a.get_id()>b.get_id(): a,b=b,a
                return f(RNE,a,b)
            if ty==1:
                if o==28: return z3.And(a,b)
                if o==29: return z3.Or(a,b)
                if o in (30,13,15): return z3.Xor(a,b)
                raise G.Unsupported('bool op %d'%o)
            return {13:lambda:a+b,15:lambda:a-b,17:lambda:a*b,19:lambda:z3.UDiv(a,b),20:lambda:a/b,22:lambda:z3.URem(a,b),23:lambda:z3.SRem(a,b),25:lambda:a<<b,26:lambda:z3.LShR(a,b),27:lambda:a>>b,28:lambda:a&b,29:lambda:a|b,30:lambda:a^b}[o]()
        if k==3: return z3.fpNeg(s.arg(nd.a,200,nd.av))
        if k==4:
            f=nd.cv; a=s.arg(nd.a,f,nd.av); o=nd.op
            if f==1 and o in (39,40):
                return z3.If(a,z3.BitVecVal(1 if o==39 else -1,ty),z3.BitVecVal(0,ty))
            if f==1 and o in (43,44): return z3.If(a,bval(200,G.struct.unpack('<Q',struct.pack('<d',1.0 if o==43 else -1.0))[0]),bval(200,0))
            if o==38:
                e=z3.Extract(ty-1,0,a); return (e==1) if ty==1 else e
            if o==39: return z3.ZeroExt(ty-f,a)
            if o==40: return z3.SignExt(ty-f,a)
            if o==42: return z3.fpToSBV(z3.RTZ(),a,z3.BitVecSort(ty))
            if o==41: return z3.fpToUBV(z3.RTZ(),a,z3.BitVecSort(ty))
            if o==44: return z3.fpSignedToFP(RNE,a,F64)
            if o==43: return z3.fpUnsignedToFP(RNE,a,F64)
            raise G.Unsupported('cast %d'%o)
        if k==5:
            a=s.arg(nd.a,ty,nd.av); b=s.arg(nd.b,ty,nd.bv); p=nd.op
            if ty==200:
                r={0:lambda:z3.BoolVal(False),1:lambda:z3.fpEQ(a,b),2:lambda:z3.fpGT(a,b),3:lambda:z3.fpGEQ(a,b),4:lambda:z3.fpLT(a,b),5:lambda:z3.fpLEQ(a,b)}
                nan=lambda:z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
                if p in r: return r[p]()
                if p==6: return z3.And(z3.Not(nan()),z3.Not(z3.fpEQ(a,b)))
                if p==7: return z3.Not(nan())
                if p==8: return nan()
                if p==15: return z3.BoolVal(True)
                return z3.Or(nan(),{9:lambda:z3.fpEQ(a,b),10:lambda:z3.fpGT(a,b),11:lambda:z3.fpGEQ(a,b),12:lambda:z3.fpLT(a,b),13:lambda:z3.fpLEQ(a,b),14:lambda:z3.Not(z3.fpEQ(a,b))}[p]())
            if ty==1:
                if p==32: return a==b
                if p==33: return z3.Xor(a,b)
                a=z3.If(a,z3.BitVecVal(1,1),z3.BitVecVal(0,1)); b=z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
            return {32:lambda:a==b,33:lambda:a!=b,34:lambda:z3.UGT(a,b),35:lambda:z3.UGE(a,b),36:lambda:z3.ULT(a,b),37:lambda:z3.ULE(a,b),38:lambda:a>b,39:lambda:a>=b,40:lambda:a<b,41:lambda:a<=b}[p]()
        if k==6:
            c=s.arg(nd.c,1,nd.cv); return z3.If(c,s.arg(nd.a,ty,nd.av),s.arg(nd.b,ty,nd.bv))
        if k==7:
            a=s.arg(nd.a,200,nd.av)
            if nd.op==2:
                # |x-y| and |y-x| are the same double: normalise the operand order
                if z3.is_app_of(a,z3.Z3_OP_FPA_SUB):
                    x,y=a.arg(1),a.arg(2)
                    if x.get_id()>y.get_id(): a=z3.fpSub(RNE,y,x)
                return z3.fpAbs(a)
            if nd.op==1: return z3.fpSqrt(RNE,a)
            if nd.op==20: return z3.fpFPToFP(RNE,z3.fpFPToFP(RNE,a,z3.Float32()),F64)
            m={3:z3.RTN(),4:z3.RTP(),8:z3.RTZ(),13:RNE}.get(nd.op)
            if m is not None: return z3.fpRoundToIntegral(m,a)
            raise G.Unsupported('libm')
        if k==8:
            if nd.op in (5,6):
                a=s.arg(nd.a,200,nd.av); b=s.arg(nd.b,200,nd.bv); return z3.fpMin(a,b) if nd.op==5 else z3.fpMax(a,b)
            raise G.Unsupported('libm2')
        if k==9:
            f=nd.op
            if f==ty: return s.arg(nd.a,f,nd.av)
            if f==200: return s.bv(nd.a,200,nd.av)
            if ty==200: return z3.fpBVToFP(s.bv(nd.a,f,nd.av),F64)
            a=s.arg(nd.a,f,nd.av)
            if f==1: a=z3.If(a,z3.BitVecVal(1,8),z3.BitVecVal(0,8)); f=8
            if ty==1: return z3.Extract(0,0,a)==1
            return z3.Extract(ty-1,0,a) if ty<f else z3.ZeroExt(ty-f,a) if ty>f else a
        if k==10: return z3.Concat(s.arg(nd.b,32,nd.bv),s.arg(nd.a,32,nd.av))
        if k==11:
            f=s.T.rty(nd.a); a=s.bv(nd.a,f,nd.av) if f==200 else s.arg(nd.a,f,nd.av); return z3.Extract(8*nd.op+ty-1,8*nd.op,a)
        raise G.Unsupported('kind %d'%k)
    def asbool(s,c): return c if z3.is_bool(c) else c!=0
    def reg(s,sig,label,cond,kind):
        k=len(s.c.path); pre=s.c.task['prefix']
        if k<len(pre) and (pre[k][0]!=sig or pre[k][1]!=label):
            import explore as X; raise X.Divergence('decision %d'%k)
        s.c.path.append((sig,label,True)); s.c.pos.append((kind,sig,label,cond))
    def branch(s,c,taken,nid):
        c=z3.simplify(s.asbool(c))
        if z3.is_true(c) or z3.is_false(c):
            if z3.is_true(c)!=bool(taken): raise G.Mismatch('branch')
            return
        key=c.get_id()
        if key in s.seen: return
        s.seen.add(key); s.keep.append(c); s.reg(nid,bool(taken),c if taken else z3.Not(c),'d')
    def conc(s,nid,val):
        nd=s.T.node(nid); ty=1 if nd.kind==5 else nd.ty; a=s.val(nid,ty,val)
        if z3.is_bool(a): s.branch(a,bool(val&1),nid); return
        if ty==200: # a double that leaves the encoding: one value after the other
            e=s.raw.get(nid); e=z3.fpToIEEEBV(a) if e is None else e; v=val&0xffffffffffffffff
            if z3.is_bv_value(z3.simplify(e)) or (e.get_id(),'p') in s.seen: return
            s.seen.add((e.get_id(),'p')); s.keep.append(e); s.reg(nid,('v',v),e==v,('p',e,v)); return
        e=z3.simplify(a)
        if z3.is_bv_value(e) or (e.get_id(),'p') in s.seen: return
        s.seen.add((e.get_id(),'p')); s.keep.append(e); v=val&((1<<ty)-1); s.reg(nid,('v',v),e==v,('p',e,v))
    def finish(s,c):
        P=len(c.task['prefix']); st=c.st; sv=z3.Solver(); sv.set('timeout',c.opt.get('qto',60000)); sv.add(*s.cons)
        def names(m): return {n:m.eval(v,model_completion=True).as_long() for n,v in s.inputs}
        for k,(kind,sig,label,cond) in enumerate(c.pos):
            if k<P: sv.add(cond); continue
            pf=list(c.path[:k]); n=0; sv.push(); sv.add(z3.Not(cond))
            while True:
                t=time.time(); r=sv.check(); dt=time.time()-t; st['queries']+=1; st['solver_s']+=dt
                if r==z3.unsat: st['unsat']+=1; break
                if r!=z3.sat: st['unknown']+=1; c.complete=False; break
                st['sat']+=1; m=sv.model(); n+=1
                if kind=='d': lab=not label
                else:
                    w=m.eval(kind[1],model_completion=True).as_long(); lab=('v',w)
                    if n>c.opt.get('percap',64): c.complete=False; st['unknown']+=1; break
                c.children.append(dict(inputs=names(m),forces={},prefix=pf+[(sig,lab,True)],excl=[]))
                if kind=='d': break
                sv.add(kind[1]!=w)
            sv.pop(); sv.add(cond)
