#!/bin/bash
# try_seeds.sh [ids]: apply each planted bug to /repo, run the check of its property, undo; prints which are caught
cd /verif; for d in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])"); git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
s=$(date +%s); timeout 900 python3 run.py $p > /tmp/try.$d.log 2>&1; rc=$?; git -C /repo checkout -- .; echo "$d rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -o 'VIOLATION.*\|NO-VERDICT.\{0,160\}\|HELD.*' /tmp/try.$d.log)"; done
