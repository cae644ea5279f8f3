#!/bin/bash
# seedtest.sh ID [CHECK...]: validate a planted bug in a scratch copy bind-mounted over /repo (private mount namespace)
id=$1; shift
S=/tmp/seed_$id
if [ -z "$VP_INNER" ]; then
  mkdir -p $S; cp -a /repo $S/repo; cp -a ${V:-/verif}/seeded/$id $S/bug
  VP_INNER=1 unshare -rm bash "$0" "$id" "$@"; rc=$?
  rm -rf /tmp/seed_$id
  exit $rc
fi
mount --bind $S/repo /repo
cd /repo
git config --global --add safe.directory /repo 2>/dev/null
bash $S/bug/demo.sh >$S/demo0.log 2>&1; echo "$id demo unchanged: $? (want 0)"
git apply $S/bug/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "$id BUILD FAILED"; tail -20 $S/build.log; exit 1; }
bash /opt/vp/test.sh $S/out.json >$S/test.log 2>&1
python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bl=b['stable']
bl=[x if isinstance(x,str) else x.get('name') for x in bl]
miss=set(bl)-set(o['passed'])
print('tests passed',len(o['passed']),'broken',sorted(miss)[:5])
P
bash $S/bug/demo.sh >$S/demo1.log 2>&1; echo "$id demo patched: $? (want nonzero)"; tail -3 $S/demo1.log
for c in "$@"; do
  python3 ${V:-/verif}/engine/vp.py $c >$S/chk.log 2>&1; echo "$id check $c: $?"; grep -E 'VIOLATION|UNDECIDED|CHECK-ERROR|failed oblig' $S/chk.log | head -12
done
