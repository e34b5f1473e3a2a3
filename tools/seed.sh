#!/bin/bash
# seed.sh ID [notest]: confirm a planted bug: demo passes unpatched, patch builds, stable tests pass, demo fails, then run its property's check
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh > /tmp/seed.b0 2>&1 || { echo BUILD0; exit 2; }
w=$(mktemp -d); cp $d/* $w/; rm -f $w/*.diff $w/meta.json
timeout 300 bash $w/demo.sh > /tmp/seed.d0 2>&1; echo "demo clean: $? (want 0)"; 
git apply $d/patch.diff || { echo "PATCH does not apply"; exit 2; }
bash /opt/vp/build.sh > /tmp/seed.b1 2>&1 || echo "BUILD FAILED"
timeout 300 bash $w/demo.sh > /tmp/seed.d1 2>&1; echo "demo patched: $? (want nonzero)"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed.t.json > /tmp/seed.t 2>&1; python3 /tmp/cmp.py /tmp/seed.t.json | grep -o "missing.*"; fi
if grep -q "\"property\": \"$prop\"" /verif/MANIFEST.json && python3 -c "
import json,sys;sys.exit(0 if '$prop' in [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] else 1)"; then (cd /verif && python3 check.py $prop quick | cut -c1-250 | tail -4); fi
git checkout -- . ; rm -rf $w
