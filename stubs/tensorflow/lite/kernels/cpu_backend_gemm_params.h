#ifndef LCESIM_CPU_BACKEND_GEMM_PARAMS_H_
#define LCESIM_CPU_BACKEND_GEMM_PARAMS_H_
#include <cstdint>
#include <limits>
#include <type_traits>
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
namespace cpu_backend_gemm {
enum class Order { kColMajor, kRowMajor };
enum class CachePolicy : std::uint8_t { kNeverCache, kCacheIfLargeSpeedup, kAlwaysCache };
inline CachePolicy DefaultCachePolicy(bool is_constant_data) {
  return is_constant_data ? CachePolicy::kCacheIfLargeSpeedup : CachePolicy::kNeverCache;
}
template <typename Scalar>
struct MatrixParams {
  Order order = Order::kColMajor;
  int rows = 0;
  int cols = 0;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
}
}
#endif
