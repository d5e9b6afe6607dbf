#!/bin/bash
# soak.sh SEED...: all the quick checks (or $CHECKS) for other seeds, 4 at a time
cd "$(dirname "$0")/.."
ids=${CHECKS:-$(python3 -c "
import json
for l in open('properties.jsonl'): print(json.loads(l)['id'])")}
for s in "$@"; do for p in $ids; do echo "$s $p"; done; done |
  xargs -P ${JOBS:-4} -L1 bash -c 'o=$(VERIF_SEED=$0 timeout 900 python3-vt check.py $1 $TRY_ARGS 2>&1); rc=$?; [ $rc = 0 ] || { echo "== seed $0 $1 rc=$rc"; echo "$o" | tail -4 | cut -c1-1500; }'
echo "soak done"
