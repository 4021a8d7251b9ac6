#!/bin/bash
# tools/sweep.sh TIER SEEDS CHECKS...: run checks one after another, print what was not quiet
cd "$(dirname "$0")/.."
tier=$1; seeds=$2; shift 2
[ $# = 0 ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29
for s in $seeds; do for c in "$@"; do
  t=$(date +%s); out=$(VERIF_SEED=$s VERIF_TIER=$tier ./check $c $tier 2>&1); rc=$?
  echo "$c $tier seed=$s rc=$rc $(( $(date +%s) - t ))s"; [ $rc = 0 ] || echo "$out" | cut -c1-1500
done; done
