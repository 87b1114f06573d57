#!/bin/bash
# tools/plant.sh ID [PID ...]: verify the planted bug seeded/ID on a bind-mounted copy of /repo and run the checks on it
HERE=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
D=$HERE/seeded/$ID
PROP=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$D/meta.json")
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"
mkdir "$W/demo"; cp "$D"/*.sh "$D"/*.py "$W/demo/"
cat > "$W/run.sh" <<X
mount --bind $W/repo /repo || exit 9
cd /repo && git checkout -q -- . 
bash $W/demo/demo.sh > $W/clean.log 2>&1; echo "demo clean rc=\$?"
git apply $D/patch.diff || exit 9
bash /opt/vp/build.sh > $W/build.log 2>&1; echo "build rc=\$?"
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$W/t.json'))
bad=[x for x in b if x not in t['passed']]
print('stable tests broken:', len(bad), bad[:3])
P
bash $W/demo/demo.sh > $W/pat.log 2>&1; echo "demo patched rc=\$?: \$(tail -1 $W/pat.log)"
for p in ${@:-$PROP}; do MC_REPO=/repo $HERE/check.sh \$p quick > $W/c.log 2>&1; echo "check \$p rc=\$?: \$(grep -v ^VIOL $W/c.log | head -1 | cut -c1-200) | \$(tail -1 $W/c.log | cut -c1-160)"; done
X
echo "== $ID ($PROP)"
unshare -Urm bash "$W/run.sh"
tail -2 "$W/clean.log"
/bin/rm -rf "$W"
