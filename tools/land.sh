#!/bin/bash
# land.sh ID "message": assigns unassigned fix commits to ID, regenerates the generated files and commits
cd /verif; python3 - "$1" <<'PY'
import json,subprocess,sys
p='/verif/tools/fix_props.json'; d=json.load(open(p))
for l in subprocess.run(['git','-C','/repo','log','--format=%s'],capture_output=True,text=True).stdout.splitlines():
    if l.startswith('fix:') and l not in d: d[l]=sys.argv[1]; print('assigned',l)
json.dump(d,open(p,'w'),indent=1)
PY
python3 tools/gen_props.py && python3 tools/gen_findings.py && python3 tools/gen_manifest.py && git add -A && git commit -qm "$2" && git status --short | head -3
