#!/bin/bash
# plant.sh ID : confirm a seeded bug (build, stable tests, demo both ways) and say whether its check catches it
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >/tmp/plant.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || echo "BUILD FAILED"
timeout 300 bash $S/demo.sh >/tmp/plant.bug 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then mkdir -p /tmp/d; bash /opt/vp/test.sh /tmp/d/out.json >/dev/null 2>&1; t=$(python3 /verif/tool/cmp.py /tmp/d/out.json); fi
cd /verif; r=$(python3 run.py $P 2>&1 | cut -c1-250 | head -3); 
cd /repo; git checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1 [$P] demo clean=$a bug=$b tests: $t"; echo "$r"
