#!/bin/bash
# tryplant.sh ID [notest]: confirm the planted bug seeded/ID in a private copy
# of /repo (bind-mounted over /repo in a mount namespace) and run its check.
ID=$1; NOTEST=$2
HERE=$(cd "$(dirname "$0")/.." && pwd)
S=$HERE/seeded/$ID
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/demo"; cp -a "$S"/. "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
export W S P NOTEST HERE ID
unshare -m bash -c '
mount --bind $W/repo /repo
cd /repo
git checkout -q -- .
bash $W/demo/demo.sh > $W/d0.log 2>&1; D0=$?
git checkout -q -- .
git apply $S/patch.diff || { echo "$ID: DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1; B=$?
T=-
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  T=$(python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$W/out.json"))
def ids(x):
    if isinstance(x, dict):
        for k in ("passed","stable","tests"):
            if k in x:
                return ids(x[k])
        return set(k for k,v in x.items() if v in ("passed","pass",True))
    return set(x)
bb, oo = ids(b), ids(o)
print("missing=%d/%d %s" % (len(bb-oo), len(bb), sorted(bb-oo)[:2]))
PY
)
fi
bash $W/demo/demo.sh > $W/d1.log 2>&1; D1=$?
cd $HERE; C=$(jq -r ".checks[]|select(.property==\"$P\")|.quick_cmd" MANIFEST.json)
$C > $W/c.log 2>&1; R=$?
echo "== $ID $P demo0=$D0 build=$B tests=$T demo1=$D1 check=$R"
[ $D0 = 0 ] || tail -5 $W/d0.log
[ $B = 0 ] || tail -5 $W/build.log
[ $D1 != 0 ] && tail -2 $W/d1.log
grep -h "VIOLATION" $W/c.log | head -3
[ $R = 0 -o $R = 1 ] || tail -5 $W/c.log
'
