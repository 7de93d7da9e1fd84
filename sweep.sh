#!/bin/bash
# sweep.sh LO HI [IDS...]: quick checks over many seeds (development aid)
lo=$1; hi=$2; shift 2
ids=${*:-$(python3 -c 'import jobs;print(*jobs.PROPS)')}
for s in $(seq $lo $hi); do for c in $ids; do VERIF_SEED=$s python3 run.py $c > /tmp/sw.$c.$s.txt 2>&1; r=$?; [ $r = 0 ] && rm -f /tmp/sw.$c.$s.txt || { echo "seed $s $c -> $r"; tail -3 /tmp/sw.$c.$s.txt; }; done; done; echo sweep done
