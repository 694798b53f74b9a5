#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl (run: python3 tools/manifest.py)."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
import specs
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in specs.SPECS:
        s=specs.SPECS[i]; bits=any(u.get('opt',{}).get('theory')=='bits' for u in s['units'])
        t='concolic symbolic execution of the compiled code (LLVM IR), every decision decided by z3 '+('(bit-precise floating point and bit-vectors)' if bits else '(polynomial real/integer arithmetic, bit-blasting)')
        b='; '.join(u['bounds'] for u in s['units'] if u.get('bounds'))
        checks.append(dict(property=i,quick_cmd='./check.py %s --tier quick'%i,thorough_cmd='./check.py %s --tier thorough'%i,technique=t,level='model_checking',
          level_note='Holds for every input value within the bounds when the evidence says exhaustive, otherwise for the paths explored in the time budget. Bounds: %s. Trusts z3, the IR instrumentation and its error-bound model of doubles; reported violations are confirmed on an uninstrumented build.'%b))
    else: na.append(dict(property=i,reason=specs.NA.get(i,'no check yet')))
json.dump(dict(version=1,setup_cmd='python3-vt engine/build.py',checks=checks,not_applicable=na,notes='No hooks in /repo: the checks instrument the compiled LLVM IR of the unmodified sources. See DESIGN.md.'),open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
