#!/bin/bash
# usage: build.sh OUTDIR REPO VARIANT ; builds OUTDIR/sim and OUTDIR/guest.so
# VARIANT: 1 whole-block kernel calls with the streaming loops, 0 neither
set -e
out=$1; repo=$2; v=${3:-1}
here=$(cd "$(dirname "$0")" && pwd)
sim=$here/../sim
mkdir -p "$out"
CXX=${LCESIM_CXX:-/usr/bin/clang++-18}
pids=()
# the operators, for the simulated processor
gxx=$(ls -d /usr/include/c++/* | sort -V | tail -1); ver=$(basename "$gxx")
garch="--target=aarch64-linux-gnu -march=armv8-a -std=c++17 -O1 -fPIC -fno-vectorize -fno-slp-vectorize -ffp-contract=off -mno-outline-atomics -fno-stack-protector -fno-asynchronous-unwind-tables -nostdinc++ -w"
ginc="-I$here/../stubs -I$repo -I$sim -isystem $here/inc -isystem /usr/include/c++/$ver -isystem /usr/include/x86_64-linux-gnu/c++/$ver -isystem /usr/include/x86_64-linux-gnu"
gdef="-DTFLITE_WITH_RUY -DLCESIM_ARM=1 -DLCESIM_FAT_KERNEL=$v -DLCESIM_MAX_STREAMING=$v"
for f in "$repo"/larq_compute_engine/tflite/kernels/*.cc "$here/guest.cc"; do
  $CXX $garch $gdef $ginc -c "$f" -o "$out/guest_$(basename "$f" .cc).o" & pids+=($!)
done
# the simulator, for this machine
inc="-I$here/../stubs -I$repo -I$sim -I$here"
common="-std=c++17 -g1 -fno-omit-frame-pointer -DTFLITE_WITH_RUY -DLCESIM_FAT_KERNEL=$v -DLCESIM_ARM_HOST=1"
echo '#include "world.h"
namespace lcesim { void direct_products(Rng&) {} }' > "$out/nodirect.cc"
for f in "$sim"/{runtime,ruy_rt,tfl_rt,net,world,invalid,main}.cc "$out/nodirect.cc" "$here/arm.cc" "$here/cpu.cc"; do
  $CXX $common -O2 $inc -c "$f" -o "$out/s_$(basename "$f" .cc).o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
ld.lld-18 -m aarch64linux -shared -Bsymbolic -z norelro --hash-style=sysv -o "$out/guest.so" "$out"/guest_*.o
w=""
for s in pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do w="$w -Wl,--wrap=$s"; done
$CXX -no-pie -rdynamic $w "$out"/s_*.o -lpthread -ldl -o "$out/sim"
