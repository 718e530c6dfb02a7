#!/bin/bash
# build.sh OUTDIR VARIANT PART...   -> OUTDIR/mon
#   VARIANT: asan | tsan | none;  PART: name[:n] compiles name.cpp (with -DPART=n)
# The library's sources and headers are taken from $MON_REPO (/repo), instrumented like the rest.
set -e
H=$(cd "$(dirname "$0")" && pwd); REPO=${MON_REPO:-/repo}
O=$1; V=$2; shift 2
mkdir -p "$O"
case $V in
asan) S="-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,return,unreachable,bool,enum,nonnull-attribute,returns-nonnull-attribute,builtin -fno-sanitize-recover=all -fsanitize-address-use-after-scope" ;;
tsan) S="-fsanitize=thread" ;;
none) S="" ;;
*) echo "bad variant $V"; exit 2 ;;
esac
C="-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores,no-prune"
F="-std=c++2a -fcoroutines-ts -stdlib=libstdc++ -pthread -g1 -O1 -fno-inline -fno-omit-frame-pointer -Wno-deprecated -Wno-deprecated-experimental-coroutine -I$REPO/include -I$REPO -DLIBRF_USE_STATIC_LIBRARY=1 -D_GLIBCXX_ALWAYS_INLINE=inline $MON_DEFS"
mk=$O/Makefile
objs="$O/vs.o $O/main.o"
rules=""
for f in "$REPO"/source/*.cpp; do b=lib_$(basename "$f" .cpp); objs="$objs $O/$b.o"; rules+="$O/$b.o: $f"$'\n\t'"@clang++-16 $F $S $C -c $f -o \$@ 2>\$@.err || { cat \$@.err; exit 1; }"$'\n'; done
for a in "$@"; do f=${a%%:*}.cpp; n=${a#*:}; D=""; b=${a/:/_}; [ "$n" != "$a" ] && D="-DPART=$n"; objs="$objs $O/$b.o"; rules+="$O/$b.o: $H/$f $H/mon.h $H/vs.h"$'\n\t'"@clang++-16 $F $S $C $D -c $H/$f -o \$@ 2>\$@.err || { cat \$@.err; exit 1; }"$'\n'; done
W=""
for w in __cxa_begin_catch sched_yield nanosleep clock_nanosleep pthread_mutex_lock _ZNSt6chrono3_V212system_clock3nowEv; do W="$W -Wl,--wrap=$w"; done
{
	echo "$O/mon: $objs"
	echo -e "\t@clang++-16 -pthread $S $C $objs $W -o \$@"
	echo "$rules"
	echo "$O/vs.o: $H/vs.cpp $H/vs.h"
	echo -e "\t@clang++-16 -O2 -g1 -c $H/vs.cpp -o \$@"
	echo "$O/main.o: $H/main.cpp $H/mon.h $H/vs.h"
	echo -e "\t@clang++-16 $F $S $C -c $H/main.cpp -o \$@ 2>\$@.err || { cat \$@.err; exit 1; }"
} > "$mk"
make -s -j"${MON_JOBS:-8}" -f "$mk"
