#!/bin/bash
# histogram of violation classes: tally.sh EXE PROPERTY RUNS (development tool)
exe=$1; prop=$2; runs=$3; shift 3
for w in 0 1 2 3 4 5 6 7; do nice -n 5 $exe --prop $prop --seed 1 --start $w --stride 8 --runs $runs --cap 100 --ignore : --ignore ref --ignore in --ignore e --dump --out /dev/null "$@" > /tmp/tally.$w 2>&1 & done; wait
cat /tmp/tally.? | grep -ao '^--- run [0-9]* status [0-9] cls [^ ]*' | awk '{c[$5" "$7]++; if(!($5" "$7 in ex)) ex[$5" "$7]=$3} END{for(k in c) print c[k], k, "run", ex[k]}' | sort -rn
