#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the lists below."""
import json, os, glob, re, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
meta=json.load(open(here+'/harness/meta.json'))
have=set()
for f in glob.glob(here+'/harness/*.go'):
    have|=set(re.findall(r'func zvH_(C\d\d)_',open(f).read()))
if os.path.exists(here+'/rt/run.py'):
    have|=set(re.findall(r"'(C2[4-8])'",open(here+'/rt/run.py').read()))
checks=[];na=[]
NA={}
for p in props:
    i=p['id']
    if i not in have:
        na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
        continue
    c=i in('C24','C25','C26','C27','C28')
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
      evidence_file=f'evidence/{i}.json',
      technique=('symbolic execution of the LLVM IR of the real C runtime, decided by Z3' if c else
        'symbolic execution of the Go SSA of the real front end, decided by Z3') ,
      level='exploration',
      level_note=meta.get(i,{}).get('level_note') or ('Holds for every value of the symbolic inputs within the stated bounds ('+meta[i]['bounds']+'). Nothing is claimed outside them. Trusts '+('clang -O0, the IR executor in rt/llsym.py and Z3; counterexamples are run against the compiled C code before they are reported.' if c else 'the gosym encoder, Z3 and the reference implementation of the language in harness/zvref.go; counterexamples are replayed natively before they are reported.'))))
json.dump(dict(version=1,setup_cmd='./build.sh',hooks=dict(guard='none',enable='no hooks are added to /repo: harnesses are overlaid in memory'),checks=checks,not_applicable=na,
  notes='See DESIGN.md.'),open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
