#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--seed N] [--budget S]: decides one property on /repo's current tree."""
import sys, os, json, time, argparse, random, collections, tempfile, shutil, subprocess
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE+'/engine'); sys.path.insert(0,HERE)
import build, explore as X, specs

def functions_of(exe,sites):
    names=collections.Counter()
    try: lines=open(exe+'.sites').read().splitlines()
    except OSError: return []
    for i in sites:
        if 0<i<=len(lines): names[lines[i-1].split('\t')[0]]+=1
    ns=list(names)
    dem=ns
    return sorted(set(d for d in dem if d and not d.startswith(('std::','__gnu','operator','void std::','main','bool std::'))))

def known_findings():
    r=[]
    try:
        for l in open(HERE+'/known-findings.txt'):
            l=l.strip()
            if l.startswith('finding:'):
                d=dict(x.split('=',1) for x in l[8:].split('|')[0].split() if '=' in x); d['text']=l.split('|',1)[1].strip() if '|' in l else ''
                r.append(d)
    except OSError: pass
    return r

def main():
    ap=argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--seed',type=int,default=int(os.environ.get('VERIF_SEED','1') or 1))
    ap.add_argument('--budget',type=float); ap.add_argument('--jobs',type=int,default=min(8,os.cpu_count() or 8)); ap.add_argument('-v',action='store_true'); ap.add_argument('--only'); A=ap.parse_args()
    if A.tier not in('quick','thorough'): A.tier='quick'
    os.environ.setdefault('PYTHONHASHSEED','0')
    t0=time.time(); pid=A.id; spec=specs.SPECS[pid]; quick=A.tier=='quick'
    units=[u for u in spec['units'] if not (quick and u.get('thorough_only')) and (not A.only or A.only in u['harness'])]
    total=A.budget or spec.get('budget',110 if quick else 600) if quick else (A.budget or spec.get('thorough_budget',600))
    evp=HERE+'/evidence/%s.json'%pid; os.makedirs(HERE+'/evidence',exist_ok=True)
    log=(lambda s:print('  '+s,flush=True)) if A.v else None
    tb=time.time(); build.tool(); build.lib(A.jobs); exes={}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for u,e in zip(units,ex.map(lambda u:build.harness(u['harness'],defs=tuple(u.get('defs',())),asan=u.get('asan',False)),units)): exes[id(u)]=e
    tb=time.time()-tb
    finds=[f for f in known_findings() if f.get('property')==pid]
    viol=None; out=[]; funcs=set(); tot=collections.Counter(); samples=[]; exhaustive=True; reach=collections.Counter(); bad=collections.Counter(); known=collections.Counter(); validated=0; mism=[]; problems=[]
    texp=time.time(); wsum=sum(u.get('weight',1) for u in units); done=0; unconf=[]
    for u in units:
        left=total-(time.time()-texp); share=max(5.0,left*u.get('weight',1)/max(1e-9,wsum-done)); done+=u.get('weight',1)
        exe=exes[id(u)]; nat=[None]
        def native():
            if nat[0] is None: nat[0]=build.harness(u['harness'],native=True,defs=tuple(u.get('defs',())),asan=u.get('asan',False))
            return nat[0]
        def kn(args,inputs,msg):
            for f in finds:
                if f.get('harness') in (None,u['harness']) and (f.get('scenario') is None or f['scenario']==' '.join(args)or f['scenario']==','.join(args)) and (f.get('tag') is None or f['tag'] in msg): return f.get('id','?')
            return None
        sc=u['quick'] if quick else u.get('thorough',u['quick'])
        opt=dict(u.get('opt',{})); 
        R=X.explore(exe,sc,native,opt,seed=A.seed,budget=share,jobs=A.jobs,known=kn,log=log)
        funcs|=set(functions_of(exe,R.sites)); tot.update(R.st); exhaustive&=R.exhaustive and not R.bad and not R.st['unknown'] and not R.unconf; reach.update(R.reach); bad.update(R.bad); known.update(R.known); unconf+=R.unconf
        for s_ in R.samples: s_['harness']=u['harness']
        samples+=R.samples[:2]
        for a in sc:
            if R.per[tuple(a)]['runs']==0 and R.viol is None: exhaustive=False
        miss=[t for t in u.get('reach',()) if R.reach[t]==0] if R.viol is None else []
        if miss: problems.append('%s: reachability witnesses not seen: %s'%(u['harness'],miss))
        if A.v:
            print(u['harness'],'wall %.1f'%R.wall,dict(R.st)); print(' exhaustive',R.exhaustive,'status',dict(R.status),'reach',dict(R.reach),'bad',dict(R.bad))
            for a,c in R.per.items(): print('  ',a,dict(c))
            for b in R.badex[:4]: print('  BAD',b)
            for b in R.unconf[:4]: print('  UNCONF',b)
        # the engine's runs re-executed by the uninstrumented build
        vs=[]; 
        for s_ in R.samples: vs.append((s_['scenario'],s_['inputs']))
        if vs:
            tmp=tempfile.mkdtemp(prefix='symn')
            for a,i in vs[:4]:
                rc,o=X.native_run(native(),a,i or {},tmp)
                if rc in(0,12): validated+=1
                else: mism.append((a,i,rc,o))
            shutil.rmtree(tmp,ignore_errors=True)
        out.append(dict(harness=u['harness'],theory=u.get('opt',{}).get('theory','grid'),bounds=u.get('bounds',''),scenarios=[' '.join(map(str,a)) for a in sc],paths=R.st['runs'],open_paths=sum(c['open'] for c in R.per.values()),exhaustive=bool(R.exhaustive and not R.bad),solver_queries=R.st['queries']+R.st['bvqueries'],unsat=R.st['unsat'],solver_s=round(R.st['solver_s'],2),wall_s=round(R.wall,2),engine_gaps=dict(R.bad),status=dict(R.status)))
        if R.viol is None and mism:
            a,i,rc,o=mism[0]; R.viol=dict(args=a,inputs=i,msg=o,native_rc=rc,native=o,symbolic_status='ok in the symbolic run, fails natively') if (rc==14 or (rc in(10,11,13) and not u.get('opt',{}).get('memory'))) and not kn(a,i,o) else None
        if R.viol: viol=(u,R.viol); break
    for k,n in sorted(known.items()):
        f=next(f for f in finds if f.get('id','?')==k); print('KNOWN-FINDING: property=%s %s (%s, %d paths)'%(pid,f['text'],k,n))
    runs=tot['runs']; q=tot['queries']+tot['bvqueries']
    cov=dict(states=runs,transitions=tot['decisions'],traces_validated_against_impl=validated+(1 if viol else 0),samples=samples[:6] or [dict(note='violation found before the first complete path')],
        exhaustive=bool(exhaustive and viol is None),method='concolic symbolic execution of the compiled functions; every alternative of every input-dependent decision is sent to z3 (real relaxation by nlsat, integer models by bit-blasting; bit-precise FP/BV where theory=bits) and either refuted or run',
        functions_encoded=sorted(funcs)[:400],functions_encoded_count=len(funcs),paths=runs,solver_queries=q,unsat=tot['unsat'],sat=tot['sat']+tot['rsat'],witness_children=tot['witness'],solver_unknown=tot['unknown'],pinned_points=tot['pins'],solver_s=round(tot['solver_s'],2),symbolic_nodes=tot['nodes'],
        units=out,reached=dict(reach),engine_gaps=dict(bad),unconfirmed=[repr(x)[:300] for x in unconf[:5]],problems=problems,known_findings=dict(known),build_s=round(tb,2))
    ev=dict(property=pid,tier=A.tier,seed=A.seed,level=spec.get('level','model_checking'),coverage=cov,assumptions=spec.get('assumptions',[])+specs.COMMON_ASSUMPTIONS,wall_s=round(time.time()-t0,2),violations=1 if viol else 0)
    json.dump(ev,open(evp+'.t','w'),indent=1,default=str); os.rename(evp+'.t',evp)
    print('%s %s: paths=%d decisions=%d queries=%d unsat=%d solver=%.1fs exhaustive=%s wall=%.1fs%s'%(pid,A.tier,runs,tot['decisions'],q,tot['unsat'],tot['solver_s'],cov['exhaustive'],time.time()-t0,(' gaps=%s'%dict(bad)) if bad else ''))
    for x in problems: print('note: '+x)
    if viol:
        u,v=viol; rp=HERE+'/evidence/%s.replay.json'%pid
        json.dump(dict(property=pid,harness=u['harness'],defs=list(u.get('defs',())),asan=u.get('asan',False),**v),open(rp,'w'),indent=1,default=str)
        print('harness %s %s inputs %s'%(u['harness'],' '.join(map(str,v['args'])),v['inputs'])); print('  '+str(v['native'])[:600])
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    return 0
if __name__=='__main__':
    try: rc=main()
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); print('no answer: the check could not be built or run',flush=True); rc=2
    sys.exit(rc)
