#!/bin/bash
# sweep.sh SEEDS... : every check on the current tree with other seeds, from a copy of /verif's commit; prints what is not quiet
set -u
D=$(mktemp -d /tmp/sweep.XXXXXX); git -C /verif archive HEAD | tar x -C "$D"
cd "$D" || exit 1
PIDS=${PIDS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for s in "$@"; do for p in $PIDS; do
  t0=$(date +%s); timeout 1500 /opt/venv/bin/python -B harness/check.py $p --seed $s --tier ${TIER:-quick} > out.txt 2>&1; rc=$?
  t=$(( $(date +%s) - t0 ))
  [ $rc -ne 0 ] && { echo "seed $s $p rc=$rc ($t s)"; cut -c1-400 out.txt | head -12; }
  [ $t -gt 60 ] && echo "slow: seed $s $p $t s"
done; echo "seed $s done"; done
mkdir -p /tmp/sweep_replays; cp -r replays/. /tmp/sweep_replays/ 2>/dev/null
rm -rf "$D"
