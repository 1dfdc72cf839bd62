#!/bin/bash
# plant.sh ID [CHECK]: confirm /verif/seeded/ID (patch applies, builds, stable tests pass, demo 0 -> nonzero) and run CHECK on it.
# Works in /repo (as vcheck does) and always restores it.
id=$1; S=/verif/seeded/$id; cd /repo || exit 9
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/pb.log 2>&1
T=$(mktemp -d); cp -r $S/. $T/; rm -f $T/*.diff $T/meta.json
timeout 300 bash $T/demo.sh >/tmp/pd0.log 2>&1; r0=$?
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo "$id: BUILD FAIL"; tail -5 /tmp/pb.log; exit 1; }
bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1
m=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/pt.json'))
print(len(b-set(t['passed'])), sorted(b-set(t['passed']))[:3])")
timeout 300 bash $T/demo.sh >/tmp/pd1.log 2>&1; r1=$?; rm -rf "$T"
echo "$id: demo clean=$r0 patched=$r1 tests-missing=$m"; [ $r0 = 0 ] || tail -5 /tmp/pd0.log; [ $r1 = 0 ] || tail -2 /tmp/pd1.log
for c in ${2:-$prop}; do cd /verif; timeout 900 python3 run.py $c quick 2>&1 | grep -E "^VIOLATION|^  [a-z]|^C[0-9]+ quick|ERROR|KNOWN" | cut -c1-160 | head -4; done
