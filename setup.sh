#!/bin/bash
# warms the Lean cache; nothing has to be built ahead of the checks
cd "$(dirname "$0")" || exit 1
printf 'import Mathlib\nexample : (1:Int) + 1 = 2 := by norm_num\n' > /tmp/dv_warm_$$.lean
timeout 600 lean /tmp/dv_warm_$$.lean >/dev/null 2>&1
rm -f /tmp/dv_warm_$$.lean
exit 0
