#!/bin/bash
# seedtest.sh ID...: applies seeded/ID/patch.diff to /repo, runs stable tests, demo and the property's check, undoes it
for id in "$@"; do
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1
bad=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def passed(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return set(d[k])
    return set()
miss=passed(b)-passed(o)
print(len(miss), sorted(miss)[:3])
P
)
(cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
t=$(date +%s)
out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python vf/run.py $prop 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id [$prop] tests-missing=$bad demo clean=$r0 patched=$r1 check rc=$rc $(($(date +%s)-t))s"
echo "$out" | grep -v '^ *$' | head -${LINES_OUT:-4} | cut -c1-220 | sed 's/^/      /'
done
