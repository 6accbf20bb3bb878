#ifndef LCESIM_INTERNAL_COMMON_H_
#define LCESIM_INTERNAL_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/cppmath.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T>
inline T ActivationFunctionWithMinMax(T x, T lo, T hi) { return std::min(std::max(x, lo), hi); }
template <typename Integer>
Integer CeilQuotient(Integer a, Integer b) { return (a + b - 1) / b; }
template <typename T>
inline T DivideRoundUp(T a, T b) { return (a + b - 1) / b; }
}
#endif
