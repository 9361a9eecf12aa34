#!/bin/bash
# Judges planted bugs in a scratch copy of /repo, bind-mounted over /repo in a private mount namespace:
#   tools/seedtest.sh [-n (no stable tests)] ID...
S=/tmp/seedrepo; notest=; [ "$1" = -n ] && { notest=1; shift; }
[ -d $S ] || cp -a /repo $S
git -C $S checkout -q -- . ; git -C $S pull -q /repo HEAD 2>/dev/null || git -C $S fetch -q /repo && git -C $S reset -q --hard FETCH_HEAD
for id in "$@"; do
unshare -m env ID=$id NOTEST=$notest bash -c '
mount --bind /tmp/seedrepo /repo; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
cp -r $D /tmp/seed_$ID.d; rm -f /tmp/seed_$ID.d/*.diff /tmp/seed_$ID.d/meta.json
cd /repo; bash /opt/vp/build.sh >/tmp/seed_$ID.b0 2>&1 || echo "$ID: BUILD0 FAILED"
bash /tmp/seed_$ID.d/demo.sh >/tmp/seed_$ID.d0 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit; }
bash /opt/vp/build.sh >/tmp/seed_$ID.b1 2>&1 || echo "$ID: BUILD1 FAILED"
bash /tmp/seed_$ID.d/demo.sh >/tmp/seed_$ID.d1 2>&1; b=$?
t=skipped; [ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/seed_$ID.json >/tmp/seed_$ID.t 2>&1; t=$(python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed_$ID.json"))
def ok(x):
    if isinstance(x,dict) and "stable" in x: return set(x["stable"])
    if isinstance(x,dict) and "passed" in x: return set(x["passed"])
    if isinstance(x,dict) and "tests" in x: x=x["tests"]
    if isinstance(x,dict): return {k for k,v in x.items() if v in (True,"pass","passed","PASS","ok")}
    return set(x)
m=ok(b)-ok(r); print("tests-ok(%d)"%len(ok(b)) if not m else "TESTS FAIL %s"%sorted(m)[:3])
PY
); }
cd /verif; c=-; [ -d checks/$P ] && { s=$(date +%s); ./check $P >/tmp/seed_$ID.c 2>&1; c="$? ($(( $(date +%s)-s )) s) $(grep -m1 VIOLATION /tmp/seed_$ID.c)"; }
echo "$ID [$P]: demo clean=$a patched=$b; $t; check=$c"
git -C /repo checkout -q -- .; rm -rf /tmp/seed_$ID.d'
done
