#!/bin/bash
# seeds.sh FROM TO [ids...]: run quick checks at several seeds; print only what is not quiet.
cd "$(dirname "$0")/.."
from=$1; to=$2; shift 2
ids=${*:-$(ls props | grep -o '^C[0-9]*')}
for id in $ids; do for s in $(seq $from $to); do
  out=$(timeout 900 ./check.py $id --tier quick --seed $s 2>&1); rc=$?
  if [ $rc != 0 ] || grep -q VIOLATION <<<"$out"; then echo "== $id seed $s rc $rc"; echo "$out" | grep -E "^C[0-9]+/|minimal|HARNESS|Error" | cut -c1-900 | head -12; fi
done; done
echo done
