#!/bin/bash
# tools/runall.sh [quick|thorough] [ids...]: runs the checks one after another and prints the last line of each
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}
shift
ids=${*:-$(seq -f 'C%02g' 1 37)}
for i in $ids; do
    VERIF_TIER=$tier python3 check.py "$i" >"/tmp/verif-run-$i.log" 2>&1
    rc=$?
    echo "rc=$rc $(tail -n 1 "/tmp/verif-run-$i.log")"
done
