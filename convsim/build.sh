#!/bin/bash
# build.sh OUT REPO: the converter's passes (memory accesses instrumented), the
# stand-ins for TensorFlow's dialects, the scheduler, the evaluator and the
# client, linked with the installed MLIR. Operator classes and patterns are
# generated from the repository's .td files.
set -e
OUT=$1 REPO=$2 HERE=$(cd "$(dirname "$0")" && pwd)
CXX=/usr/bin/clang++-18
M=$REPO/larq_compute_engine/mlir
G=$OUT/gen
mkdir -p $G/larq_compute_engine/mlir/ir $G/larq_compute_engine/mlir/transforms
dump() { /usr/bin/llvm-tblgen-18 -I /usr/lib/llvm-18/include -I $REPO -I $HERE/td --dump-json "$1" -o "$2"; }
ops() { dump "$1" $G/$3.json && python3 $HERE/gen.py ops $G/$3.json "$2" "$4"; }
pats() { dump $M/transforms/$1.td $G/$1.json && python3 $HERE/gen.py pats $G/$1.json $G/larq_compute_engine/mlir/transforms/generated_$2.inc; }
P=()
ops $M/ir/lce_ops.td ::mlir::lq lce $G/larq_compute_engine/mlir/ir/lce_ & P+=($!)
ops $HERE/td/tensorflow/compiler/mlir/lite/ir/tfl_ops.td ::mlir::TFL tfl $G/tfl_ & P+=($!)
ops $HERE/td/tensorflow/compiler/mlir/tensorflow/ir/tf_ops.td ::mlir::TF tf $G/tf_ & P+=($!)
pats op_removal_patterns op_removal & P+=($!)
pats prepare_patterns_target_arm prepare_target_arm & P+=($!)
pats prepare_patterns_common prepare_target_other & P+=($!)
pats optimize_patterns_target_arm optimize_target_arm & P+=($!)
pats optimize_patterns_common optimize_target_other & P+=($!)
pats bitpack_activations_patterns bitpack_activations & P+=($!)
pats bitpack_weights_patterns bitpack_weights & P+=($!)
pats quantize_patterns quantize & P+=($!)
pats fuse_padding fuse_padding & P+=($!)
for p in "${P[@]}"; do wait $p; done
# the runtime's operators, which read what the converter writes
K="-std=c++17 -O1 -g1 -w -D_GNU_SOURCE -I$HERE/../stubs -I$REPO"
P=()
for f in bconv2d bmaxpool quantization; do
  $CXX $K -c $REPO/larq_compute_engine/tflite/kernels/$f.cc -o $OUT/k_$f.o & P+=($!)
done
KP=("${P[@]}")
F="-std=c++17 -O1 -g1 -fno-exceptions -w -D_GNU_SOURCE -isystem /usr/lib/llvm-18/include -I$HERE/inc -I$HERE/../stubs -I$G -I$REPO"
I="-fno-omit-frame-pointer -fsanitize-coverage=trace-pc,trace-loads,trace-stores"
P=()
for f in op_removal prepare_tf optimize bitpack bitpack_weights fuse_padding quantize legalize_tflite translate_tflite detection_postprocess set_batch_size; do
  $CXX $F $I -c $M/transforms/$f.cc -o $OUT/r_$f.o & P+=($!)
done
$CXX $F $I -c $M/ir/lce_ops.cc -o $OUT/r_lce_ops.o & P+=($!)
$CXX $F $I -c $M/tf_tfl_passes.cc -o $OUT/r_tf_tfl_passes.o & P+=($!)
E=()
for f in tf_to_tfl_flatbuffer python/common python/graphdef_tfl_flatbuffer python/saved_model_tfl_flatbuffer python/pybind_export; do
  $CXX $F -fexceptions $I -I$M/python -c $M/$f.cc -o $OUT/r_$(basename $f).o & E+=($!)
done
for p in "${P[@]}"; do wait $p; done
# without the entry points everything but C27 can be decided
for p in "${E[@]}"; do wait $p || rm -f $OUT/r_{tf_to_tfl_flatbuffer,common,graphdef_tfl_flatbuffer,saved_model_tfl_flatbuffer,pybind_export}.o; done
P=()
$CXX $F -fexceptions -c $HERE/entry.cc -o $OUT/s_entry.o & P+=($!)
$CXX $F -c $HERE/dialects.cc -o $OUT/s_dialects.o & P+=($!)
$CXX $F -fexceptions -c $HERE/runtime.cc -o $OUT/s_runtime.o & P+=($!)
$CXX $K -c $HERE/unused.cc -o $OUT/k_unused.o & P+=($!)
for f in eval passes gen_model main; do
  $CXX $F -c $HERE/$f.cc -o $OUT/s_$f.o & P+=($!)
done
$CXX $F -O2 -c $HERE/../mlirsim/sched.cc -o $OUT/s_sched.o & P+=($!)
for p in "${P[@]}"; do wait $p; done
for p in "${KP[@]}"; do wait $p; done
$CXX $OUT/r_*.o $OUT/s_*.o $OUT/k_*.o -rdynamic -o $OUT/sim -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lMLIR -lLLVM-18 -labsl_statusor -labsl_status -labsl_cord -labsl_cordz_info -labsl_strings -labsl_raw_logging_internal -labsl_base -labsl_throw_delegate -lpthread -ldl
