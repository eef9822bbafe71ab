#!/bin/bash
# seedtest.sh SLOT ID...   confirm planted bugs in a private mount of /tmp/sw/SLOT over /repo:
# applies, builds, stable tests pass, demo fails with / passes without it.
# With CHECKS="C01 C02" also runs those checks (quick) with the change.
slot=$1; shift
mkdir -p /tmp/sw; [ -d /tmp/sw/$slot ] || cp -a /repo /tmp/sw/$slot
for id in "$@"; do
unshare -Urm bash -c '
mount --bind /tmp/sw/'$slot' /repo; cd /repo

git checkout -q -- . 
D=/tmp/sw/demo-'$id'; mkdir -p $D; cp -r /verif/seeded/'$id'/. $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh >$D/out0 2>&1; r0=$?
git apply /verif/seeded/'$id'/patch.diff || { echo "'$id': DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $D/res.json >$D/test.log 2>&1; rt=$?
python3 - $D/res.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
s=b.get("stable") or b.get("passed") or b
s=set(s if isinstance(s,list) else s.get("passed",[]))
m=s-set(r["passed"])
print("'$id': stable tests", len(s), "missing", len(m), sorted(m)[:5])
P
fi
bash $D/demo.sh >$D/out1 2>&1; r1=$?
echo "'$id': demo unpatched $r0 patched $r1"; tail -2 $D/out1
for c in $CHECKS; do
  (cd /verif && timeout 900 python3 run/check.py $c quick >$D/check-$c 2>&1; echo "'$id' $c rc=$?"; grep -m2 "REJECTED\|VIOLATION\|TOOL-ERR" $D/check-$c | cut -c1-400)
done
git checkout -q -- .
'
done
