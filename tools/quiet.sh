#!/bin/bash
# quiet.sh "C01 C02 ..." [transforms...]: run checks against behaviour-preserving rewrites
props="$1"; shift
ts="${*:-rename invert guard unguard elsereturn tempret tempcond temparg splitand demorgan noop noop2 comp2loop aug anyloop extract swap listiter inmatch cmpflip while idxloop iterloop whiletrue ifexp2if if2ifexp mergeif inline1 walrus}"
run1(){ t=$1; p=$2; seed=$3; d=/tmp/rf_$t$seed
 out=$(VP_REPO=$d VP_NOEV=1 timeout 600 /usr/bin/python3 /verif/run.py $p 2>&1); rc=$?
 [ $rc -ne 0 ] && echo "### $t $seed $p rc=$rc" && echo "$out" | cut -c1-300 | tail -${TAILN:-6}; }
export -f run1
for t in $ts; do for s in ${SEEDS:-0}; do
 python3 /verif/tools/refactor.py $t /tmp/rf_$t$s $s; done; done
for t in $ts; do for s in ${SEEDS:-0}; do for p in $props; do echo "$t $p $s"; done; done; done | xargs -P 8 -L1 bash -c 'run1 $0 $1 $2'
echo done
