#!/bin/bash
# tryseed.sh <bug id>... : runs the check of the bug's property with the bug applied to /repo
for b in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
s=$(date +%s); /verif/check.sh ${PROP:-$p} ${TIER:-quick} > /tmp/try.$b.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$b ${PROP:-$p} exit=$rc $(( $(date +%s)-s ))s $(grep -am1 VIOLATION /tmp/try.$b.log) $(grep -av VIOLATION /tmp/try.$b.log | tail -1 | cut -c1-200)"
done
