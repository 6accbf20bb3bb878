// Models for the converter, built from seeds.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include "eval.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"

namespace gen {
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return (int)(next() % n); }
  bool chance(int percent) { return below(100) < percent; }
};
enum Level { kTf, kLite, kSweep };
struct Func {
  uint64_t seed = 0;
  Level level = kTf;
  bool exact = true, dynamic = false, fail = false, decl = false;
  bool big = false;       // large option values
  bool runnable = false;  // only what the runtime's operators take
  std::vector<uint64_t> blocks;
};
// what a block is
std::string Name(const Func& f, uint64_t block);
void Build(mlir::ModuleOp m, const std::vector<Func>& funcs);
// values for the inputs of the function (dynamic sizes become 1)
std::vector<ev::Tensor> Inputs(mlir::func::FuncOp f, const Func& spec, uint64_t seed);
}  // namespace gen
