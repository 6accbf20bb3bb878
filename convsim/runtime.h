// Runs one operator of a converted model with the runtime's real kernels.
#pragma once
#include "eval.h"
namespace rt {
// accepted: the kernel could be prepared. kind: 0 the reference convolution,
// 1 the indirect one. Tensors are read without their error bounds.
struct Outcome {
  bool known = true, accepted = false, ran = false;
  std::string log;
  ev::Tensor output;
};
Outcome Run(const std::string& code, const std::string& options, const std::vector<const ev::Tensor*>& in, const std::vector<bool>& constant, const ev::Tensor& out_type, int kind);
}  // namespace rt
