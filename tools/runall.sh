#!/bin/bash
# run all (or the named) checks in parallel; print one line each
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "
import sys; sys.path.insert(0,'.')
import checks; print(*sorted(checks.REGISTRY))")
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 's=$(date +%s); o=$(timeout 900 python3 check.py {} 2>&1); r=$?; e=$(date +%s); echo "{} rc=$r $((e-s))s $(echo "$o" | grep -E "VIOLATION|UNDEC|KNOWN" | head -5 | cut -c1-300 | tr "\n" " ") $(echo "$o" | tail -1 | cut -c1-150)"' | sort
