#!/usr/bin/env python3
# Writes MANIFEST.json from props.py, properties.jsonl and the reasons below.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS
from na import NA
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'bounded symbolic execution of the real code (LLVM bitcode) with z3 deciding every branch and assertion',
        'level': 'model_checking', 'level_note': 'Exhaustive over all symbolic values within the bounds: %s Not covered: %s Trusted: clang/LLVM 18 lowering, the engine in engine/, z3; counterexamples are replayed natively before being reported.' % (c['bounds'][0], c.get('outside', ''))})
na = [{'property': i, 'reason': NA.get(i, 'No check built yet.')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: harnesses drive public interfaces of the unmodified sources.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
