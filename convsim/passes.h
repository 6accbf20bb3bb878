#pragma once
#include <stdint.h>
#include <string>
#include "mlir/IR/Operation.h"
namespace convsim {
extern bool fail_now;  // functions marked test.fail fail
extern uint64_t failures, stub_runs;
extern bool (*on_pass)(const std::string& name, mlir::Operation* op);  // whether it fails
int64_t OutSize(int64_t in, int64_t k, int64_t s, int64_t d, bool same);
}  // namespace convsim
