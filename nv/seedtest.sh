#!/bin/bash
# developer helper: seedtest.sh <seed-id> : confirms one planted bug in /repo and runs the property's check on it
# (applies the patch, undoes it at the end)
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
export NVDEMO_TARGET=/tmp/nvdemo_target
[ "$2" = fast ] || { bash $S/demo.sh >/tmp/demo.$1.log 2>&1; echo "demo clean rc=$?"; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /tmp/regr.sh | head -3
bash $S/demo.sh >/tmp/demo.$1.log 2>&1; echo "demo patched rc=$? $(tail -2 /tmp/demo.$1.log | cut -c1-300)"
cd /verif; timeout 900 python3 check.py $P quick; echo "check $P rc=$?"
