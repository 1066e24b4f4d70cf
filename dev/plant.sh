#!/bin/bash
# dev/plant.sh ID [notest]: validates a planted bug in /repo (applied, built, tested, demonstrated, checked, undone)
# prints one line per question; leaves /repo as it was
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d /tmp/plant.XXXXXX)
cp -r "$d" $t/demo; rm -f $t/demo/*.diff $t/demo/meta.json
bash /opt/vp/build.sh > $t/build0.log 2>&1 || { echo "base build failed"; exit 2; }
bash $t/demo/demo.sh > $t/demo0.log 2>&1; echo "$id demo on unchanged tree: exit $?"
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 2; }
if bash /opt/vp/build.sh > $t/build1.log 2>&1; then
  if [ "$2" != notest ]; then
  bash /opt/vp/test.sh $t/out.json > $t/test.log 2>&1
  python3 - $t/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print("stable tests broken:", len(b-o), sorted(b-o)[:3])
P
  fi
  bash $t/demo/demo.sh > $t/demo1.log 2>&1; echo "$id demo with the bug: exit $? ($(tail -1 $t/demo1.log | cut -c1-200))"
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop quick > $t/check.log 2>&1; echo "$id check $prop: exit $? $(grep ^VIOLATION $t/check.log)")
  cat $t/check.log | tail -${VERB:-0}
else echo "build failed"; tail -5 $t/build1.log; fi
git checkout -q -- . ; rm -rf "$t"
