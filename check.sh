#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 1
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
ulimit -v 14000000
ulimit -c 0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
timeout -k 5 880 python3-vt -m irv.main "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p evidence/replay
  echo "{\"property\":\"$id\",\"kind\":\"verifier did not finish (exit $rc): the obligations of this property are not discharged\"}" > "evidence/replay/$id.json"
  echo "VIOLATION property=$id replay=$PWD/evidence/replay/$id.json no-failing-input-found"
  exit 1
fi
exit $rc
