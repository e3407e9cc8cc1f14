#!/bin/bash
# Applies each planted bug to /repo, runs its property's check, undoes it. usage: runseeds.sh [id...]
cd /verif; for id in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
 s=$SECONDS; timeout 900 ./check.sh $p quick > /tmp/seed_$id.txt 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$id $p rc=$rc $((SECONDS-s))s $(grep -a -m1 VIOLATION /tmp/seed_$id.txt | cut -c1-120) | $(grep -a 'failed obligation' /tmp/seed_$id.txt | head -3 | cut -c19-80 | tr '\n' ';')"
done
