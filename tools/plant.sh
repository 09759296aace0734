#!/bin/bash
# plant.sh NAME [CHECK...]: verifies seeded/NAME in a scratch copy of /repo (bound over /repo in a private mount
# namespace) and runs the named checks (default: the bug's property) against it.  SLOT=k selects a scratch copy.
set -u
NAME=$1; shift
SLOT=${SLOT:-0}; S=/tmp/seed$SLOT
D=${V:-/verif}/seeded/$NAME
CHECKS="$*"
[ -n "$CHECKS" ] || CHECKS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $S/build $S/evidence $S/replays
[ -d $S/repo ] || { cp -a /repo $S/repo; cp -a ${V:-/verif}/build/. $S/build/; }
HEAD=$(git -C /repo rev-parse HEAD)
(cd $S/repo && git checkout -q -- . && { [ "$(git rev-parse HEAD)" = "$HEAD" ] || { git fetch -q /repo && git checkout -q $HEAD; }; })
cat > $S/inner.sh <<EOF
mount --bind $S/repo /repo; mount --bind $S/build ${V:-/verif}/build; mount --bind $S/evidence ${V:-/verif}/evidence; mount --bind $S/replays ${V:-/verif}/replays
cd /repo
bash /opt/vp/build.sh > $S/b.log 2>&1 || { echo "BASE BUILD FAIL"; exit 9; }
D=$D
mkdir -p $S/demo; rm -rf $S/demo/$NAME; cp -a $D $S/demo/$NAME; rm -f $S/demo/$NAME/patch.diff $S/demo/$NAME/meta.json
timeout 300 bash $S/demo/$NAME/demo.sh > $S/demo0.log 2>&1; echo "demo unpatched: \$?"
git apply $D/patch.diff || { echo "APPLY FAIL"; exit 9; }
bash /opt/vp/build.sh > $S/b.log 2>&1 || { echo "PATCHED BUILD FAIL"; tail -20 $S/b.log; git checkout -q -- .; exit 9; }
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh $S/o.json > $S/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/o.json'))
st=set(b.get('stable_pass', b.get('stable', b.get('passed',[]))))
print('stable failing:', sorted(st-set(o['passed']))[:5], len(st))
P
fi
timeout 300 bash $S/demo/$NAME/demo.sh > $S/demo1.log 2>&1; echo "demo patched: \$?"; tail -2 $S/demo1.log
for c in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt ${V:-/verif}/run.py \$c > $S/c.log 2>&1; echo "check \$c exit \$?"; grep -A2 VIOLATION $S/c.log | head -6; tail -2 $S/c.log | cut -c1-300
done
git checkout -q -- .
EOF
unshare -Urm bash $S/inner.sh
