#!/bin/bash
# plant.sh ID [check-tier]: applies seeded/ID to /repo, builds, runs the tests, the demo and the check of its property, then undoes it.
# Maintenance tool; no check uses it.
D=/verif/seeded/$1; P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 9; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "clean build failed"; exit 9; }
timeout 300 bash $D/demo.sh >/tmp/plant.demo0 2>&1; d0=$?
git apply $D/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/plant.log 2>&1; b=$?
t=skipped; [ -n "$SKIPTEST" ] || { bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/plant.json'));print(len(d['passed']))"); }
timeout 300 bash $D/demo.sh >/tmp/plant.demo1 2>&1; d1=$?
s=$(date +%s); python3 /verif/check.py $P ${2:-quick} >/tmp/plant.check 2>&1; c=$?; e=$(date +%s)
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
echo "$1 property=$P build=$b tests=$t demo_clean=$d0 demo_patched=$d1 check=$c ($((e-s)) s) $(grep -c VIOLATION /tmp/plant.check)"
[ $c = 1 ] && tail -2 /tmp/plant.check | head -1 | cut -c1-300
