#!/bin/bash
# build.sh OUTDIR NCOPIES : builds the simulator and the library under test from /repo's working tree
set -e
OUT=$1; N=${2:-16}; REPO=${VP_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj" "$OUT/gen"; rm -f "$OUT"/lib*.so
INC=$(mpicc --showme:incdirs 2>/dev/null | tr ' ' '\n' | sed 's/^/-I/' | tr '\n' ' ')
[ -n "$INC" ] || INC="-I/usr/lib/x86_64-linux-gnu/openmpi/include"
MPIH=$(for i in $INC; do f=${i#-I}/mpi.h; [ -e "$f" ] && echo $f && break; done)
{ grep -o 'extern struct ompi_predefined_[a-z_]* ompi_[A-Za-z0-9_]*;' $MPIH | awk '{print $3}' | sort -u | sed 's/.*/struct & { char x[512]; };/'
  echo 'extern "C" {'
  grep -o 'extern struct ompi_predefined_[a-z_]* ompi_[A-Za-z0-9_]*;' $MPIH | sed 's/^extern \(.*\);/\1 = {{0}};/' | sort -u
  echo '}'; } > "$OUT/gen/ompi_syms.inc"
sh "$REPO/minclude.sh" "$REPO/latency_bandwidth/ext_mpi_bm.txt" > "$OUT/gen/latency_bandwidth.tmp" 2>/dev/null || (cd "$REPO" && ./minclude.sh latency_bandwidth/ext_mpi_bm.txt > "$OUT/gen/latency_bandwidth.tmp")
TS="-fsanitize=thread --param tsan-distinguish-volatile=1 --param tsan-instrument-func-entry-exit=0"
CF="-g1 -O2 -w -fPIC -U_FORTIFY_SOURCE -fno-stack-protector -fvisibility=default $INC -I$OUT/gen -I$REPO -I$REPO/include/core -I$REPO/include/mpi -DDEBUG -DM_MAP -include $HERE/bstart.h $VP_EXTRA_CFLAGS"
WR=""; for f in memcpy memmove memset malloc calloc free realloc strdup exit abort shmget shmat shmdt shmctl; do WR="$WR -Wl,--wrap=$f"; done
(  for s in main mpi core; do case $s in core) o=-O2;; *) o=-O1;; esac; echo "g++ -std=gnu++17 -DOMPI_SKIP_MPICXX -DMPICH_SKIP_MPICXX -g1 $o -w -fPIC -I$OUT/gen $INC -I$HERE -c $HERE/$s.cc -o $OUT/obj/sim_$s.o"; done
  for s in $REPO/src/core/*.c $REPO/src/mpi/*.c $REPO/src/fortran/*.c $REPO/src/noopt/*.c; do
    b=$(echo ${s#$REPO/src/} | tr / _)
    # the schedule generator (src/core, src/noopt) only computes on private memory: no access hooks there
    case $s in */noopt/*) t=-O0;; */core/*) t="";; *) t="$TS";; esac
    echo "gcc $CF $t -c $s -o $OUT/obj/$b.o"
  done
) > "$OUT/cmds"
# the barriers one by one (optional: their names are internal)
PE=$REPO/src/mpi/ext_mpi_native_exec.c
[ -e $PE ] && echo "gcc $CF $TS -DVP_NATIVE_EXEC='\"$PE\"' -Werror=implicit-function-declaration -Werror=incompatible-pointer-types -Werror=int-conversion -c $HERE/barrier_probe.c -o $OUT/obj/barrier_probe.o" > "$OUT/cmd_probe" && rm -f $OUT/obj/barrier_probe.o
sh "$OUT/cmd_probe" 2> "$OUT/probe.err" &
xargs -P 8 -I{} sh -c '{} || { echo "compile failed: {}" >&2; exit 255; }' < "$OUT/cmds"
wait
[ -e $OUT/obj/barrier_probe.o ] && mv $OUT/obj/barrier_probe.o $OUT/obj/mpi_ext_mpi_native_exec.c.o
g++ -rdynamic -o "$OUT/sim" $OUT/obj/sim_*.o -ldl
gcc -shared -Wl,-Bsymbolic $WR -o "$OUT/lib0.so" $(ls $OUT/obj/*.c.o) -lm
for i in $(seq 1 $((N-1))); do cp "$OUT/lib0.so" "$OUT/lib$i.so"; done
