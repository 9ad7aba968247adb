#!/bin/bash
# build.sh OUTDIR VARIANT [OBJDIR]  -- builds the simulator around /repo's current working tree
#   A: clang++ -O1, assertions on, edge coverage      B: g++ -O3 -DNDEBUG
# OBJDIR keeps the objects that do not depend on /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; var=${2:-A}; obj=${3:-$1}; repo=${REPO:-/repo}
mkdir -p "$out" "$obj"
W="malloc calloc realloc free posix_memalign aligned_alloc pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort time gettimeofday rand random getpid sched_yield usleep nanosleep clock_nanosleep memcmp bcmp strlen memchr memcpy memmove memset"
wrap=""; for w in $W; do wrap="$wrap -Wl,--wrap=$w"; done
common="-mpopcnt -g1 -fno-omit-frame-pointer -D_GLIBCXX_EXTERN_TEMPLATE=0 -I$repo/include -I$repo/bench -I$here -w"
sut() {   # the project says C++11; a change may need more
  # Renamed internals of the vectors or the benchmark must not take the other checks along.
  for part in "" "-DSURFSIM_NO_TRIE" "-DSURFSIM_NO_PARTS" "-DSURFSIM_NO_TRIE -DSURFSIM_NO_PARTS" "-DSURFSIM_NO_TRIE -DSURFSIM_NO_PARTS -DSURFSIM_NO_BENCH"; do for std in c++11 c++14 c++17; do
    if [ "$var" = A ]; then
      clang++ -std=$std $common $part -O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fsanitize-coverage=trace-pc-guard -c "$here/sut.cpp" -o "$out/sut-$var.o" 2>"$out/sut-$var.err" && return 0
    else
      g++ -fno-gnu-unique -std=$std $common $part -O3 -DNDEBUG -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -c "$here/sut.cpp" -o "$out/sut-$var.o" 2>"$out/sut-$var.err" && return 0
    fi
  done; done
  cat "$out/sut-$var.err" >&2; return 1
}
# The two benchmark programs, each with its main under another name and everything else to itself.
own() {    # NAME
  ld -r --force-group-allocation -o "$out/$1-$var.r" "$out/$1-$var.o" && objcopy --redefine-sym exit=surf_prog_exit --keep-global-symbol=_Z18surf_workload_mainiPPc --keep-global-symbol=_Z21surf_workload_mt_mainiPPc "$out/$1-$var.r" "$out/$1-$var.o" && rm -f "$out/$1-$var.r"
}
prog() {   # FILE NAME FLAGS
  rm -f "$out/$2-$var.o"
  for std in c++11 c++14 c++17; do
    if [ "$var" = A ]; then
      clang++ -std=$std $common $3 -O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fsanitize-coverage=trace-pc-guard -c "$repo/bench/$1" -o "$out/$2-$var.o" 2>"$out/$2-$var.err" && own $2 && return 0
    else
      g++ -fno-gnu-unique -std=$std $common $3 -O3 -DNDEBUG -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -c "$repo/bench/$1" -o "$out/$2-$var.o" 2>"$out/$2-$var.err" && own $2 && return 0
    fi
  done
  rm -f "$out/$2-$var.o"; return 0        # the check that needs it says so
}
progs=""
if [ "$var" != none ]; then sut & pid=$!; else pid=; fi
if [ "$var" != none ] && [ -z "$NOPROGS" ]; then
  prog workload.cpp prog1 -Dmain=surf_workload_main & pid="$pid $!"
  prog workload_multi_thread.cpp prog2 "-Dmain=surf_workload_mt_main -DVERBOSE=1" & pid="$pid $!"
fi
exec 9>"$obj/.lock"; flock 9
pids=""
for f in rt plan gen model exec main; do
  if [ ! -e "$obj/$f.o" ] || [ -n "$(find "$here" -newer "$obj/$f.o" -name '*.[ch]*' -print -quit)" ]; then
    g++ -std=c++14 -O2 -g1 -faligned-new -Wall -Wno-unused-function -I"$here" -c "$here/$f.cpp" -o "$obj/$f.o" & pids="$pids $!"
  fi
done
for p in $pids $pid; do wait $p; done
flock -u 9
[ "$var" = none ] && exit 0
[ -z "$NOPROGS" ] && for p in prog1 prog2; do [ -e "$out/$p-$var.o" ] && progs="$progs $out/$p-$var.o"; done
g++ -o "$out/surfsim-$var" "$out/sut-$var.o" $progs "$obj"/{rt,plan,gen,model,exec,main}.o $wrap -lpthread -ldl
