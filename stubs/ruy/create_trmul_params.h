#ifndef RUY_RUY_CREATE_TRMUL_PARAMS_H_
#define RUY_RUY_CREATE_TRMUL_PARAMS_H_
#include <cstring>
#include <type_traits>
#include "ruy/mat.h"
#include "ruy/mul_params.h"
#include "ruy/side_pair.h"
#include "ruy/trmul_params.h"
namespace ruy {
// The simulator may lengthen the packed stride, as ruy does to avoid aliasing.
int lcesim_packed_stride(int rows, int kernel_rows, int size);
namespace detail {
template <typename Scalar, typename PackedScalar>
void CreatePackedMatrix(Side side, const KernelLayout& kernel_layout, TrMulParams* params) {
  const EMat& src = params->src[side];
  PEMat* packed_matrix = &params->packed_matrix[side];
  packed_matrix->data_type = Type::Create<PackedScalar>();
  using SumsType = typename std::conditional<std::is_floating_point<Scalar>::value, Scalar, std::int32_t>::type;
  packed_matrix->sums_type = Type::Create<SumsType>();
  packed_matrix->layout.order = Order::kColMajor;
  packed_matrix->layout.rows = round_up_pot(src.layout.rows, static_cast<int>(kernel_layout.rows));
  packed_matrix->layout.cols = round_up_pot(src.layout.cols, static_cast<int>(kernel_layout.cols));
  packed_matrix->layout.kernel = kernel_layout;
  packed_matrix->layout.stride =
      lcesim_packed_stride(packed_matrix->layout.rows, kernel_layout.rows, sizeof(PackedScalar));
  packed_matrix->zero_point = src.zero_point;
}
}  // namespace detail
}  // namespace ruy
#endif
