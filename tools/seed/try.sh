#!/bin/bash
# try.sh ID...: applies, builds, tests, demo, own check
cd /repo
[ -n "$(git status --porcelain)" ] && { echo repo dirty; exit 1; }
for id in "$@"; do
 d=/verif/seeded/$id
 prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 mkdir -p /tmp/demo_$id; rm -rf /tmp/demo_$id/*; cp $d/* /tmp/demo_$id/; rm -f /tmp/demo_$id/*.diff /tmp/demo_$id/meta.json
 if [ ! -e /tmp/seed/clean_built ] ; then bash /opt/vp/build.sh >/dev/null 2>&1; touch /tmp/seed/clean_built; fi
 bash /tmp/demo_$id/demo.sh > /tmp/seed/demo0.log 2>&1; d0=$?
 git apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
 bash /opt/vp/build.sh > /tmp/seed/build.log 2>&1; b=$?
 bash /opt/vp/test.sh /tmp/seed/o.json > /tmp/seed/test.log 2>&1
 t=$(python3 - <<P
import json
o=json.load(open('/tmp/seed/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b['stable'] if 'stable' in b else b
p=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else set(k for k,v in o.items() if v=='passed')
miss=[s for s in st if s not in p]
print(len(miss), miss[:2])
P
)
 bash /tmp/demo_$id/demo.sh > /tmp/seed/demo1.log 2>&1; d1=$?
 s=$(date +%s)
 c=""
 for p in ${CHECKS:-$prop}; do (cd /verif && VERIF_SEED=1 timeout 900 node bin/check.mjs $p > /tmp/seed/check_$id.$p.log 2>&1); rc=$?; c="$c $p=$rc"; done
 git checkout -q -- .
 rm -f /tmp/seed/clean_built
 bash /opt/vp/build.sh >/dev/null 2>&1 && touch /tmp/seed/clean_built
 rm -rf /tmp/demo_$id
 echo "$id build=$b testsmissing=$t demo0=$d0 demo1=$d1 check:$c ($(( $(date +%s)-s ))s) $(tail -1 /tmp/seed/demo1.log)"
done
