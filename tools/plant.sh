#!/bin/bash
# plant.sh <seeded dir> [property...]: in an overlay of /repo and the build cache, applies the
# patch, builds, runs the tests and the demonstration, then the checks. Leaves nothing behind.
# SKIPTESTS=1: no test suite.
D=$(readlink -f "$1"); shift
W=$(mktemp -d /tmp/plant.XXXXXX)
export D W SKIPTESTS
CHECKS="$*"; export CHECKS
[ -n "$CHECKS" ] || CHECKS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -c '
mount -t tmpfs tmpfs $W
for x in repo build verif tmpd; do mkdir -p $W/$x/u $W/$x/w; done
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/repo/u,workdir=$W/repo/w /repo
mount -t overlay overlay -o lowerdir=/opt/nisaba-build,upperdir=$W/build/u,workdir=$W/build/w /opt/nisaba-build
mount -t overlay overlay -o lowerdir=/verif,upperdir=$W/verif/u,workdir=$W/verif/w /verif
cd /repo
git apply --check $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NODEMO0" ]; then timeout 300 bash $D/demo.sh >$W/d0 2>&1; echo "demo on clean: $?"; fi
git apply $D/patch.diff
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/build.sh >$W/b 2>&1 || { tail -5 $W/b; echo "BUILD FAILED"; exit 1; }
bash /opt/vp/test.sh $W/o.json >$W/t 2>&1
python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open("$W/o.json"))["passed"])
print("stable tests failing:", len(b-p), sorted(b-p)[:6])
P
timeout 300 bash $D/demo.sh >$W/d1 2>&1; echo "demo with patch: $?"; grep -v StringFst $W/d1 | tail -3
fi
cd /verif
for c in $CHECKS; do timeout 900 ./run $c >$W/c 2>$W/ce; echo "$c: exit $?"; grep -E "VIOLATION|KNOWN" -A1 $W/c | head -${LINES_MAX:-4}; grep -v StringFst $W/ce | tail -2; done
'
rm -rf "$W" 2>/dev/null
