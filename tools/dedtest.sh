#!/bin/bash
# dedtest.sh SEED...: deductive side alone on a scratch copy (/tmp/wt) with the planted bug
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
for id in "$@"; do
d=/verif/seeded/$id
git -C /tmp/wt checkout -q -- . ; git -C /tmp/wt fetch -q /repo HEAD 2>/dev/null && git -C /tmp/wt reset -q --hard FETCH_HEAD
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /tmp/wt apply $d/patch.diff || continue
echo "== $id [$prop]"
(cd /verif && VERIF_REPO=/tmp/wt /opt/venv/bin/python -m vf.pydv.verify $prop 2>&1 | grep -v "^[a-z].* \([0-9]*\)/\1 obligations.*s $" | cut -c1-300 | tail -${LINES_OUT:-12})
git -C /tmp/wt checkout -q -- .
done
