#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl, checks/*/check.json and tools/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/tools/na.json')) if os.path.exists(V + '/tools/na.json') else {}
checks, nal = [], []
for p in props:
    i = p['id']; c = f'{V}/checks/{i}/check.json'
    if os.path.exists(c) and i not in na:
        s = json.load(open(c))
        note = 'Exhaustive within bounds: ' + s['bounds'] + '. Nothing is claimed outside them.'
        if s.get('assumptions'): note += ' Assumes: ' + '; '.join(s['assumptions']) + '.'
        note += ' Trusted: clang, the symbolic VM in engine/ with its C library model in rt/ and shim/ (cross-checked by replaying sample paths natively), Z3.'
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough', evidence_file=f'evidence/{i}.json',
            technique=s.get('technique', 'symbolic execution of the LLVM bitcode of the real code, SMT (Z3) deciding every branch and assertion, counterexamples replayed natively'), level='model_checking', level_note=note))
    else: nal.append(dict(property=i, reason=na.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=nal,
    notes='No hooks are compiled into /repo; the checks compile its sources unmodified. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(nal), 'not applicable')
