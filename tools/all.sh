#!/bin/bash
# all.sh [TIER]: runs every registered check from a copy of /verif, prints one line each.
d=$(mktemp -d /tmp/vall.XXXX); cp -a /verif/. $d/; cd $d
for p in $(python3 -c "
import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s); timeout 900 bin/govc -prop $p -tier ${1:-quick} -verif $d -repo /repo > $d/out.$p 2>&1; r=$?
  echo "$p exit=$r $(($(date +%s)-s))s $(grep -c VIOLATION $d/out.$p) $(tail -1 $d/out.$p | cut -c1-150)"
done
echo ALL DONE $d
