#ifndef RUY_RUY_TRMUL_PARAMS_H_
#define RUY_RUY_TRMUL_PARAMS_H_
#include <cstddef>
#include <cstdint>
#include "ruy/mat.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"
#include "ruy/side_pair.h"
#include "ruy/tune.h"
namespace ruy {
using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&,
                         const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
static constexpr std::size_t kMaxMulParamsSize = 256;
static constexpr int kMaxMulParamsAlignment = 16;
struct TrMulParams {
  TrMulParams() : run_pack{nullptr, nullptr}, is_prepacked{false, false} {}
  void RunPack(Side side, Tuning tuning, int start, int end) {
    run_pack[side](tuning, src[side], &packed_matrix[side], start, end);
  }
  void RunKernel(Tuning tuning, const SidePair<int>& start, const SidePair<int>& end) {
    run_kernel(tuning, packed_matrix, mul_params_bytes, start, end, &dst);
  }
  Path path = Path::kNone;
  SidePair<RunPackFn*> run_pack;
  RunKernelFn* run_kernel = nullptr;
  SidePair<EMat> src;
  EMat dst;
  SidePair<PEMat> packed_matrix;
  SidePair<bool> is_prepacked;
  alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize];
};
}  // namespace ruy
#endif
