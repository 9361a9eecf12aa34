#!/usr/bin/env python3
"""Regenerates known_findings.json: one 'fixed' entry per fix: commit of /repo, plus the open findings below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(V + '/tools/fix_props.json'))   # commit subject -> property
OPEN = json.load(open(V + '/tools/open_findings.json')) if os.path.exists(V + '/tools/open_findings.json') else []
out = list(OPEN)
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    pr = PROP[s]; out.append(dict(id='fixed-' + h, property=pr, status='fixed', what=f'fixed: property={pr} {h} {s[4:].strip()}'))
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1)
print(len(out))
