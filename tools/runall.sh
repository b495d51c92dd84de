#!/bin/bash
# run every quick check; prints property, exit code, seconds, last line
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
 s=$(date +%s); timeout 900 python3 check.py $i > /tmp/o_$i.txt 2>&1; rc=$?
 echo "$i rc=$rc $(( $(date +%s)-s ))s $(tail -1 /tmp/o_$i.txt | cut -c1-150)"; done
