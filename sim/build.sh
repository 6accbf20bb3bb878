#!/bin/bash
# usage: build.sh OUTDIR REPO FAT ; builds OUTDIR/sim
set -e
out=$1; repo=$2; fat=${3:-1}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
CXX=${LCESIM_CXX:-/usr/bin/clang++-18}
inc="-I$here/../stubs -I$repo -I$here"
common="-std=c++17 -g1 -fno-omit-frame-pointer -DTFLITE_WITH_RUY -DLCESIM_FAT_KERNEL=$fat"
instr="-O1 -fno-vectorize -fno-slp-vectorize -fsanitize=thread"
pids=()
k=$repo/larq_compute_engine/tflite/kernels
for f in "$k"/*.cc; do
  b=$(basename "$f" .cc)
  $CXX $common $instr $inc -c "$f" -o "$out/lce_$b.o" & pids+=($!)
done
( $CXX $common $instr $inc -c "$here/bgemm44.cc" -o "$out/x_bgemm44.o" 2>"$out/bgemm44.log" || {
    echo '#include "world.h"
namespace lcesim { void direct_products(Rng&) {} }' > "$out/nodirect.cc"
    $CXX $common -O1 $inc -c "$out/nodirect.cc" -o "$out/x_bgemm44.o"; } ) & pids+=($!)
for f in runtime ruy_rt tfl_rt net world invalid main; do
  $CXX $common -O2 $inc -c "$here/$f.cc" -o "$out/s_$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
w=""
for s in pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do w="$w -Wl,--wrap=$s"; done
$CXX -no-pie $w "$out"/lce_*.o "$out"/x_*.o "$out"/s_*.o -lpthread -o "$out/sim"
