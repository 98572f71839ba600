#!/bin/bash
# seedtest.sh <id> [check]: apply seed to /repo, build, tests, demo (expects nonzero), optional check, revert, demo (expects 0)
id=$1; S=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
git apply --check $S/patch.diff || { echo "NOAPPLY"; exit 2; }
git apply $S/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/st_build 2>&1 || { echo "BUILD FAIL"; tail -5 /tmp/st_build; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/st_res.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st_res.json'))
base=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in base if t not in r['passed']]
print('TESTS', 'ok' if not miss else 'FAIL %s'%miss[:5], len(base))
P
fi
D=$(mktemp -d /tmp/demo.XXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >/tmp/st_demo1 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/st_demo1
for c in "${@:2}"; do (cd /verif; timeout 900 python3-vt check.py $c quick > /tmp/st_chk_$c 2>&1; echo "check $c rc=$?"; grep -E 'VIOLATION|UNDECIDED' /tmp/st_chk_$c | head -5 | cut -c1-300; f=$(ls /verif/evidence/replay/$c-* 2>/dev/null|head -1); [ -n "$f" ] && sed -n 3,6p $f | cut -c1-300); done
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/st_build 2>&1
timeout 300 bash $D/demo.sh >/tmp/st_demo0 2>&1; echo "demo unchanged: $? (want 0)"; tail -2 /tmp/st_demo0
rm -rf $D
