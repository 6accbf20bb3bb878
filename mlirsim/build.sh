#!/bin/bash
# build.sh OUT REPO: the batch-size pass (memory accesses instrumented), the
# scheduler and the client, linked with the installed MLIR.
set -e
OUT=$1 REPO=$2 HERE=$(cd "$(dirname "$0")" && pwd)
CXX=/usr/bin/clang++-18
F="-std=c++17 -O1 -g -fno-exceptions -isystem /usr/lib/llvm-18/include -I$REPO -D_GNU_SOURCE"
$CXX $F -fno-omit-frame-pointer -fsanitize-coverage=trace-pc,trace-loads,trace-stores -c $REPO/larq_compute_engine/mlir/transforms/set_batch_size.cc -o $OUT/pass.o &
P1=$!
$CXX $F -c $HERE/main.cc -o $OUT/main.o &
P2=$!
$CXX $F -O2 -c $HERE/sched.cc -o $OUT/sched.o &
P3=$!
wait $P1; wait $P2; wait $P3
$CXX $OUT/pass.o $OUT/main.o $OUT/sched.o -o $OUT/sim -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lMLIR -lLLVM-18 -lpthread -ldl
