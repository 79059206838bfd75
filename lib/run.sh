#!/bin/bash
# development helper: run.sh harness variant args... ; all 8 shards, distinct violations and crashes
h=$1; v=$2; shift 2
T=$(mktemp -d)
cd "$(dirname "$0")/.." && python3 lib/build.py $h:$v >$T/bld 2>&1 || { tail -30 $T/bld; exit 1; }
s=$(date +%s)
for i in 0 1 2 3 4 5 6 7; do ./build/$v/$h --shard $i/8 "$@" > $T/$i.log 2>&1 & done; wait
e=$(date +%s)
cat $T/?.log | grep -a "^V" | cut -f2 | sort | uniq -c
cat $T/?.log | grep -a "^V" | sort -t$'\t' -k2,2 -u | cut -c1-${W:-400} | head -${N:-20}
n=0
for i in 0 1 2 3 4 5 6 7; do grep -aq "^STATS" $T/$i.log || { echo "shard $i died"; [ $n = 0 ] && grep -a "ERROR\|SUMMARY\|#[0-9] " $T/$i.log | head -12; n=1; }; done
grep -a "^STATS" $T/0.log | cut -c1-${W:-400}
echo "$((e-s)) s"; rm -r "$T"
