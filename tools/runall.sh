#!/bin/bash
# Runs the replay generators of every property on the current build: runall.sh [tier] [budget]
mkdir -p /tmp/rp
run() { i=$1; timeout 800 /verif/target/debug/replay run C$i /tmp/rp/C$i.json /tmp/rp/C$i.case 1 $2 --budget $3 >/tmp/rp/C$i.log 2>&1; echo "C$i rc=$?"; }
export -f run
seq -w 1 21 | xargs -P 8 -I{} bash -c "run {} ${1:-quick} ${2:-100}" | sort
cat /tmp/rp/*.json | python3 -c "
import sys,json
for l in sys.stdin.read().replace('}{','}\n{').split('\n'):
    d=json.loads(l); print(d['property'],d['cases'],d['nontrivial'],str(d['violation'])[:700])"
