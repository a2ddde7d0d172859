#!/bin/bash
# plant.sh ID [check...]: confirm a planted bug: demo passes without, patch applies, stable tests pass, demo fails with,
# the given checks (default: the property's) catch it.  The patch is undone afterwards.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- . ; }
trap undo EXIT
s=$(mktemp -d /tmp/demo.XXXX); cp $d/* $s/; rm -f $s/*.diff $s/meta.json
timeout 300 bash $s/demo.sh >/tmp/demo.out 2>&1; r=$?
[ $r = 0 ] || { echo "$id: demo fails on the unchanged tree ($r)"; tail -5 /tmp/demo.out; exit 1; }
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P' || { echo "$id: tests fail"; exit 1; }
import json, sys
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return x.keys()
missing=names(b)-set(o.get('passed',o.get('pass',[])))
if missing: print(missing)
sys.exit(bool(missing))
P
timeout 300 bash $s/demo.sh >/tmp/demo.out 2>&1; r=$?
[ $r != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
echo "$id: confirmed (demo $r: $(tail -1 /tmp/demo.out | cut -c1-150))"
rm -rf $s
cd /verif
for c in ${@:-$prop}; do
  t0=$(date +%s)
  timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 run.py $c >/tmp/plant.out 2>&1; r=$?
  echo "   $c: exit $r, $(grep -ac "^VIOLATION property=$c" /tmp/plant.out) violations, $(( $(date +%s)-t0 )) s: $(grep -a 'what:' /tmp/plant.out | head -1 | cut -c1-200)"
done
