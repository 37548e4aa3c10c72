#!/bin/bash
# seed_test.sh ID [notests]: confirms a planted bug in a scratch copy (private mount namespace over
# /repo): patch applies, builds, stable tests pass, demo fails with it and passes without.
ID=$1
S=/verif/seeded/$ID
W=/tmp/seedtest-$ID
[ -f "$S/patch.diff" ] || { echo "no $S"; exit 2; }
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
cp -a "$S" "$W/seed"; rm -f "$W"/seed/*.diff "$W/seed/meta.json"
git -C "$W/repo" checkout -q -- . 
cat > "$W/run.sh" <<X
set -e
mount --bind $W/repo /repo
cp -r /opt/vp $W/vp; mount --bind $W/vp /opt/vp
cd /repo
bash /opt/vp/build.sh > $W/build0.log 2>&1
set +e
timeout 300 bash $W/seed/demo.sh > $W/demo0.log 2>&1; echo "demo unchanged: \$?"
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || { echo "BUILD FAILS"; exit 1; }
timeout 300 bash $W/seed/demo.sh > $W/demo1.log 2>&1; echo "demo patched: \$?"
if [ "$2" != notests ]; then
  bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
  python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return d[k]
    return d
pb=set(names(b)); pt=set(names(t))
print('stable tests failing:', sorted(pb-pt)[:10], len(pb), len(pt))
Y
fi
X
unshare -Urm bash "$W/run.sh"
tail -3 "$W/demo1.log"
[ -n "$KEEP" ] || rm -rf "$W"
