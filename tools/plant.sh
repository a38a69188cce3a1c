#!/bin/bash
# plant.sh ID [no-check]: confirm seeded/ID: builds, stable tests pass, demo 0 -> nonzero, and what the check says.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
(cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1; timeout 300 bash $D/demo.sh >/tmp/d0.log 2>&1); R0=$?
git -C /repo apply $D/patch.diff || { echo "$1: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if ! bash /opt/vp/build.sh >/tmp/b.log 2>&1; then echo "$1: build fails"; tail -20 /tmp/b.log; exit 1; fi
bash /opt/vp/test.sh /tmp/out.json >/tmp/tt.log 2>&1
M=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/out.json'))['passed'])
print([x for x in b if x not in p])")
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/d1.log 2>&1); R1=$?
C=-; if [ -z "$2" ]; then (cd /verif && timeout 900 python3 checks/run.py $P >/tmp/c.log 2>&1); C=$?; fi
git -C /repo checkout -q -- .
echo "$1 $P: missing=$M demo clean=$R0 planted=$R1 check=$C $(grep -h -o 'VIOLATION.*' /tmp/c.log 2>/dev/null)"
