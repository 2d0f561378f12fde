#!/bin/bash
# fibers.sh BIN PROP IDX SEED [FIBER...]: stacks of the fibers still alive when the run fails
b=$1; p=$2; i=$3; s=$4; shift 4
SIM_BT=1 "$b" one "$p" "$i" --seed "$s" ${SC:+--scenario $SC} 2>&1 | grep "^BT" | while read -r _ name addrs; do
  id=${name%%[*}; id=${id#\#}
  if [ $# -gt 0 ] && ! [[ " $* " == *" $id "* ]]; then continue; fi
  echo "== $name"
  # shellcheck disable=SC2086
  addr2line -Cfipe "$b" $addrs | grep -v "bits/\|simrt\|std::" | sed 's/(discriminator.*//' | cut -c1-180
done
