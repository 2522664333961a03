#!/bin/bash
# Development tool: tries one planted bug (seeded/<id>) in a private mount namespace,
# so that /repo itself is never touched.  Usage: seedtest.sh ID [--notest] [PROP...]
id=$1; shift
notest=; [ "$1" = --notest ] && { notest=1; shift; }
D=/verif/seeded/$id
W=/tmp/seedtest-$id
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
cp -a "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
props=${*:-$prop}
cat > "$W/in.sh" <<X
ip link set lo up 2>/dev/null
mount --bind $W/repo /repo || exit 9
mkdir -p $W/build $W/evidence; mount --bind $W/build /verif/build; mount --bind $W/evidence /verif/evidence
cd /repo
bash /opt/vp/build.sh > $W/build0.log 2>&1 || echo "clean build FAILED"
bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo "demo clean: \$? (want 0)"
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || { echo "build FAILED"; tail -5 $W/build1.log; exit 1; }
bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo "demo patched: \$? (want nonzero)"; tail -2 $W/demo1.log
if [ -z "$notest" ]; then
  bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
st=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
p=set(o['passed']); miss=[t for t in st if t not in p]
print('tests: %d of %d stable ones pass' % (len(st)-len(miss), len(st)), miss[:3])
P
fi
for p in $props; do
  python3 /verif/tools/run.py \$p > $W/check-\$p.log 2>&1; echo "check \$p: \$? \$(grep -c ^VIOLATION $W/check-\$p.log) violations"; grep -m2 -A3 '^  [a-z]' $W/check-\$p.log | cut -c1-200
done
X
unshare -mn bash "$W/in.sh"
rm -rf "$W/repo" "$W/build"
