#!/bin/bash
# developer tool: run every check, flag anything not proved on the current tree
cd "$(dirname "$0")/.."
for i in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
  s=$(date +%s); ./check $i > /tmp/chk_$i.log 2>&1; r=$?
  echo "$i rc $r $(( $(date +%s)-s ))s $(grep -c 'not attached' /tmp/chk_$i.log) unattached; $(grep "^$i:" /tmp/chk_$i.log | cut -c1-60)"
done
