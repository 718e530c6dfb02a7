#!/bin/bash
# bt.sh NAME "parts" "families-asan" "families-tsan" [time]: build both variants by hand and run families
D=/tmp/x/$1; T=${5:-5}
cd "$(dirname "$0")"; mkdir -p $D.a $D.t
for o in $D.a/*.o $D.t/*.o; do [ -f $o ] && [ -n "$(find ${MON_REPO:-/repo}/include ${MON_REPO:-/repo}/source -newer $o -type f)" ] && rm -f $o; done
( ./build.sh $D.a asan $2 > $D.alog 2>&1 || grep -m9 -A3 error: $D.alog | cut -c1-300 ) & ( [ -n "$4" ] && { ./build.sh $D.t tsan $2 > $D.tlog 2>&1 || head -5 $D.tlog; } ); wait
i=0
for f in $3; do ( ./run1.sh $D.a/mon --time $T --core $i --family $f > $D.o.a.$f 2>&1 ) & i=$((i+1)); done
for f in $4; do ( ./run1.sh setarch -R $D.t/mon --time $T --core $i --family $f > $D.o.t.$f 2>&1 ) & i=$((i+1)); done
wait
for f in $3; do echo "== $f asan"; grep -v '^ *#[6-9]\|^ *#[12]' $D.o.a.$f | cut -c1-160 | head -${N:-25}; done
for f in $4; do echo "== $f tsan"; grep -v '^ *#[6-9]\|^ *#[12]' $D.o.t.$f | cut -c1-160 | head -${N:-25}; done
