#!/bin/bash
# the same seeds give the same executions, whatever the number of jobs
cd "$(dirname "$0")/.." && sim/build.sh || exit 2
T=$(mktemp -d); rc=0
for p in ${*:-$(seq -f 'C%02g' 1 23) C26 C27}; do
 for j in 1 8 3; do build/simcheck --prop $p --seed 7 --tier quick --runs ${RUNS:-2000} --wall 300 --jobs $j --hashes --replays "$T" --evidence "$T/e" 2>/dev/null | grep -E '^[0-9]+ [0-9a-f]{16}$' | sort -n > "$T/$j"; done
 if cmp -s "$T/1" "$T/8" && cmp -s "$T/1" "$T/3"; then echo "$p same ($(wc -l < "$T/1") runs)"; else echo "$p DIFFERS"; rc=1; fi
done
find "$T" -delete; exit $rc
