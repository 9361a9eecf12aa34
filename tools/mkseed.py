#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'old' 'new' 'needs' 'breaks' < demo.cc ; edits FILE in a scratch copy and writes seeded/ID
Several edits: FILE, old, new may be JSON lists."""
import sys,subprocess,os,json
i,prop,f,old,new,needs,br=sys.argv[1:8]
S='/tmp/seedrepo'; subprocess.run(f'git -C {S} checkout -q -- . && git -C {S} fetch -q /repo && git -C {S} reset -q --hard FETCH_HEAD',shell=True,check=True)
ed=list(zip(json.loads(f),json.loads(old),json.loads(new))) if f.startswith('[') else [(f,old,new)]
for f,o,n in ed:
    p=os.path.join(S,f); s=open(p).read(); assert s.count(o)==1,(f,s.count(o)); open(p,'w').write(s.replace(o,n))
d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(subprocess.run(['git','-C',S,'diff'],capture_output=True,text=True).stdout)
subprocess.run(['git','-C',S,'checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.cc','w').write(sys.stdin.read())
open(d+'/demo.sh','w').write('''#!/bin/bash
# builds demo.cc against the built library and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=""; for d in nlp_common incr_models phrase_models sw_models error_correction stack_dec downhill_simplex hat_trie; do I="$I -I/repo/src/$d"; done
g++ -w -O1 -std=c++11 -DHAVE_CONFIG_H -I/repo/_build/src $I "$D/demo.cc" -o "$T/demo" -L/repo/_build/src/.libs -lthot -Wl,-rpath,/repo/_build/src/.libs -lpthread || exit 3
cd "$T" && timeout 100 ./demo
''')
