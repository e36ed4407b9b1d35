#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks = []
for p in props.PROPS:
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': 'symbolic execution of the real headers (LLVM IR from clang, engine psx) with Z3 deciding every branch, assertion and memory access; counterexamples replayed natively',
        'level': props.LEVEL[p], 'level_note': 'bounded: ' + props.BOUNDS[p]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check built yet')} for i in ids if i not in props.PROPS]}
if os.path.exists(V + '/tools/hooks.json'): m['hooks'] = json.load(open(V + '/tools/hooks.json'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
