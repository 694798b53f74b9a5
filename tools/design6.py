"""Rewrites section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(here+'/DESIGN.md').read(); i=s.find('\n## 6. Planted bugs'); s=s[:i] if i>=0 else s.rstrip('\n')+'\n'
MISSED=json.load(open(here+'/tools/missed.json'))
o=['\n## 6. Planted bugs\n','''
Each folder of `seeded/` is one change to the library, written from the text of a property and the code, that compiles, passes the stable
tests and breaks the property in a special case; `demo.cpp` shows it natively.  All of them are caught by the check of their property (quick
tier).  The last column says which were missed at first, and what was added to the check.

| bug | needs | breaks | missed at first? |
|---|---|---|---|
''']
d=here+'/seeded'
for n in sorted(os.listdir(d)):
    m=json.load(open(d+'/%s/meta.json'%n)); o.append('| %s | %s | %s | %s |\n'%(n,m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),MISSED.get(n,'')))
open(here+'/DESIGN.md','w').write(s+''.join(o))
