#!/bin/bash
# run every check in sequence; one summary line each
cd /verif
for c in $(ls sa/checks | grep -E '^[A-Z][0-9]+\.py$' | sed 's/.py//'); do s=$(date +%s); timeout 900 python3 -m sa.run $c $* > /tmp/w/all.$c 2>&1; r=$?; echo "$c rc=$r $(( $(date +%s)-s ))s $(grep obligations /tmp/w/all.$c | head -1)"; done
