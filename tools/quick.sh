#!/bin/bash
# tools/quick.sh [PROPERTY...]: runs the quick checks one after another, logs in /tmp/w
mkdir -p /tmp/w
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
  s=$(date +%s); VERIF_SEED=${SEED:-1} timeout 900 /verif/bin/check $p ${TIER:-quick} > /tmp/w/q_$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/w/q_$p.log)"
done
