#!/bin/bash
# one seed is one execution: same event log with another number of workers and another hash seed of the driver
cd "$(dirname "$0")/.."
d=$(mktemp -d)
export VERIF_EVIDENCE_DIR=$d/ev VERIF_REPLAY_DIR=$d/rp
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12}; do
  VERIF_HASHSEED=0 ./check.py --property $p --runs ${RUNS:-150} --jobs 8 --eventlog $d/a > $d/o1 2>&1
  VERIF_HASHSEED=${HS:-0} ./check.py --property $p --runs ${RUNS:-150} --jobs 5 --eventlog $d/b > $d/o2 2>&1
  if cmp -s <(sort $d/a) <(sort $d/b) && [ -s $d/a ]; then echo "$p same ($(wc -l < $d/a) runs)"; else echo "$p DIFFERENT"; diff <(sort $d/a) <(sort $d/b) | head -4 | cut -c1-300; fi
done
rm -rf "$d"
