// Evaluates functions of the converter's dialects on concrete tensors, keeping
// a bound of the rounding error with every number.
#pragma once
#include <stdint.h>
#include <map>
#include <string>
#include <vector>
#include "mlir/Dialect/Func/IR/FuncOps.h"

namespace ev {
enum Kind { F32, BOOL, INT, QUANT, NONE };
struct Tensor {
  std::vector<int64_t> shape;
  Kind kind = F32;
  double scale = 0;
  int zp = 0;
  std::vector<double> v, e;   // value, bound of its error
  std::vector<uint32_t> unk;  // INT: bits of the word that are not determined
  int64_t size() const {
    int64_t n = 1;
    for (auto d : shape) n *= d;
    return n;
  }
};
struct Result {
  bool ok = true;
  std::string error;
  std::vector<Tensor> outputs;
  long decided_bits = 0, undecided_bits = 0;
};
// loose: arithmetic on arbitrary numbers, every operation rounds
// called for every operator of the runtime in a converted model
extern thread_local void (*on_custom)(mlir::Operation* op, const std::string& code, const std::string& options, const std::vector<const Tensor*>& in, const Tensor& out, void* arg);
extern thread_local void* on_custom_arg;
Result Run(mlir::func::FuncOp f, const std::vector<Tensor>& inputs, bool loose);
// empty if they agree
std::string Compare(const Tensor& a, const Tensor& b);
Tensor FromType(mlir::Type t, bool& ok);
}  // namespace ev
