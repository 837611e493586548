#!/bin/bash
# development helper: runs every claimed check (quick) one after another
cd "$(dirname "$0")"
tier=${TIER:-quick}
for p in ${@:-$(ls harness/[A-Z]*.py | xargs -n1 basename | sed 's/.py//' | grep -E '^[A-Z][0-9]+$')}; do
  t=$SECONDS; VERIF_SEED=1 VERIF_TIER=$tier ./check.sh $p $tier > /tmp/out.$p 2>&1; r=$?
  echo "$p rc=$r $((SECONDS-t))s $(grep -E 'VIOLATION|INCOMPL|divers' /tmp/out.$p | head -2)"
done
