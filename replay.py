#!/usr/bin/env python3-vt
"""replay.py FILE: re-executes a reported violation against an uninstrumented build of /repo (exit 1 if it fails again)."""
import sys,os,json,tempfile,shutil
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE+'/engine')
import build, explore as X
r=json.load(open(sys.argv[1])); exe=build.harness(r['harness'],native=True,defs=tuple(r.get('defs',())),asan=r.get('asan',False))
tmp=tempfile.mkdtemp(); os.environ['SYM_SHOW']='1'
rc,o=X.native_run(exe,r['args'],r['inputs'],tmp); shutil.rmtree(tmp)
print(r['harness'],r['args'],r['inputs']); print('exit',rc,o); sys.exit(0 if rc in(0,12) else 1)
