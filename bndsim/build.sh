#!/bin/bash
# build.sh OUT REPO: the Python extension on the simulated runtime
set -e
OUT=$1 REPO=$2 HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CXX=/usr/bin/clang++-18
VENV=/opt/lce/venv/lib/python3.12/site-packages
INC="-I$HERE/../stubs -I$REPO -I$HERE/../sim"
PY="-I/usr/include/python3.12 -isystem $VENV/pybind11/include -isystem $VENV/numpy/core/include"
F="-std=c++17 -O1 -g1 -fPIC -fvisibility=hidden -fno-omit-frame-pointer -DTFLITE_WITH_RUY -DLCESIM_FAT_KERNEL=1 -DLCESIM_BOUNDARY"
pids=()
for f in $REPO/larq_compute_engine/tflite/kernels/*.cc; do
  $CXX $F $INC -c $f -o $OUT/lce_$(basename $f .cc).o & pids+=($!)
done
$CXX $F $INC $PY -c $REPO/larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc -o $OUT/wrapper.o & pids+=($!)
for f in ../sim/ruy_rt ../sim/tfl_rt rt; do
  $CXX $F $INC -c $HERE/$f.cc -o $OUT/s_$(basename $f).o & pids+=($!)
done
/usr/bin/clang-18 -O1 -g1 -fPIC -shared $PY $HERE/memctl.c -o $OUT/memctl.so & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
$CXX -shared -Wl,-Bsymbolic -Wl,--wrap=__cxa_throw $OUT/lce_*.o $OUT/s_*.o $OUT/wrapper.o -o $OUT/interpreter_wrapper_lite.so
