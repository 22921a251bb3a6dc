#!/bin/bash
# seedcheck.sh ID [noclean]: applies a planted bug to /repo, builds, runs the stable tests, its demonstration and the quick check of its
# property, and undoes it.
set -u
ID=$1
D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- . ' EXIT
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "clean build failed"; exit 2; }
T=$(mktemp -d); cp -a $D/. $T/; rm -f $T/*.diff $T/meta.json
timeout 300 bash $T/demo.sh >/tmp/sd0.log 2>&1; R0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/sb.log; exit 1; }
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
bad=[t for t in st if t not in r['passed']]
print('tests:', 'ok' if not bad else 'FAIL %s'%bad)
P
timeout 300 bash $T/demo.sh >/tmp/sd1.log 2>&1; R1=$?
rm -rf "$T"
echo "demo: clean $R0, patched $R1"
cd /verif; S=$SECONDS; timeout 900 python3 check.py $PROP --tier quick >/tmp/sc.log 2>&1; RC=$?
echo "check $PROP: exit $RC in $((SECONDS-S)) s: $(grep -m1 VIOLATION /tmp/sc.log) $(grep -m1 -i 'key' /tmp/sc.log | cut -c1-200)"
for P in "${@:2}"; do timeout 900 python3 check.py $P --tier quick >/tmp/sc2.log 2>&1; echo "check $P: $? $(grep -m1 VIOLATION /tmp/sc2.log)"; done
