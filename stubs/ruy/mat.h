#ifndef RUY_RUY_MAT_H_
#define RUY_RUY_MAT_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include "ruy/check_macros.h"
#include "ruy/matrix.h"
#include "ruy/side_pair.h"
#include "ruy/size_util.h"
namespace ruy {
struct MatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
};
inline MatLayout ToInternal(const Layout& src) {
  MatLayout ret;
  ret.rows = src.rows(); ret.cols = src.cols(); ret.stride = src.stride(); ret.order = src.order();
  return ret;
}
template <typename Scalar>
struct Mat final {
  detail::ConstCheckingPtr<Scalar> data;
  MatLayout layout;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
template <typename Scalar>
inline Mat<Scalar> ToInternal(const Matrix<Scalar>& src) {
  Mat<Scalar> ret;
  ret.data = src.data();
  ret.layout = ToInternal(src.layout());
  ret.zero_point = src.zero_point();
  ret.cache_policy = src.cache_policy();
  return ret;
}
template <typename Scalar>
inline Mat<Scalar> ToInternal(Matrix<Scalar>& src) {
  Mat<Scalar> ret;
  ret.data = src.data();
  ret.layout = ToInternal(src.layout());
  ret.zero_point = src.zero_point();
  ret.cache_policy = src.cache_policy();
  return ret;
}
struct KernelLayout final {
  Order order = Order::kColMajor;
  std::uint8_t rows = 1, cols = 1;
};
struct PMatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
  KernelLayout kernel;
};
inline bool operator==(const PMatLayout& a, const PMatLayout& b) {
  return a.cols == b.cols && a.rows == b.rows && a.stride == b.stride && a.order == b.order &&
         a.kernel.rows == b.kernel.rows && a.kernel.cols == b.kernel.cols && a.kernel.order == b.kernel.order;
}
struct Type final {
  template <typename T>
  static Type Create() {
    Type ret;
    ret.is_signed = std::is_signed<T>::value;
    ret.is_floating_point = std::is_floating_point<T>::value;
    ret.size = sizeof(T);
    return ret;
  }
  template <typename T>
  void AssertIs() const {
    RUY_DCHECK_EQ(is_signed, std::is_signed<T>::value);
    RUY_DCHECK_EQ(is_floating_point, std::is_floating_point<T>::value);
    RUY_DCHECK_EQ(size, sizeof(T));
  }
  bool is_signed = false, is_floating_point = false;
  std::uint8_t size = 0;
};
struct EMat final {
  Type data_type;
  void* data = nullptr;
  MatLayout layout;
  std::int32_t zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
struct PEMat final {
  Type data_type;
  Type sums_type;
  void* data = nullptr;
  void* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename Scalar>
struct PMat final {
 private:
  using SumsType = std::int32_t;
 public:
  Scalar* data = nullptr;
  SumsType* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename T>
EMat EraseType(const Mat<T>& m) {
  EMat ret;
  ret.data_type = Type::Create<T>();
  ret.data = const_cast<void*>(static_cast<const void*>(m.data.get()));
  ret.layout = m.layout;
  ret.zero_point = m.zero_point;
  ret.cache_policy = m.cache_policy;
  return ret;
}
template <typename T>
Mat<T> UneraseType(const EMat& m) {
  m.data_type.AssertIs<T>();
  Mat<T> ret;
  ret.data = static_cast<T*>(m.data);
  ret.layout = m.layout;
  ret.zero_point = static_cast<T>(m.zero_point);
  ret.cache_policy = m.cache_policy;
  return ret;
}
template <typename T>
PMat<T> UneraseType(const PEMat& m) {
  m.data_type.AssertIs<T>();
  PMat<T> ret;
  ret.data = static_cast<T*>(m.data);
  ret.sums = static_cast<std::int32_t*>(m.sums);
  ret.layout = m.layout;
  ret.zero_point = m.zero_point;
  return ret;
}
inline bool IsUnstrided(const MatLayout& l) { return l.stride == (l.order == Order::kColMajor ? l.rows : l.cols); }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const PMatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsUnstrided(const PMatLayout& l) { return l.stride == (l.order == Order::kColMajor ? l.rows : l.cols); }
inline bool IsRowMajor(const Layout& l) { return l.order() == Order::kRowMajor; }
inline bool IsColMajor(const Layout& l) { return l.order() == Order::kColMajor; }
inline bool IsUnstrided(const Layout& l) { return l.stride() == (l.order() == Order::kColMajor ? l.rows() : l.cols()); }
inline int FlatSize(const Layout& l) { return l.stride() * (l.order() == Order::kColMajor ? l.cols() : l.rows()); }
inline int Offset(const Layout& l, int row, int col) {
  return row * (l.order() == Order::kColMajor ? 1 : l.stride()) + col * (l.order() == Order::kRowMajor ? 1 : l.stride());
}
inline int FlatSize(const MatLayout& l) {
  const int outerdim = l.order == Order::kColMajor ? l.cols : l.rows;
  return l.stride * outerdim;
}
inline int FlatSize(const PMatLayout& l) {
  const int outerdim = l.order == Order::kColMajor ? l.cols : l.rows;
  return l.stride * outerdim;
}
inline int Offset(const MatLayout& l, int row, int col) {
  int row_stride = l.order == Order::kColMajor ? 1 : l.stride;
  int col_stride = l.order == Order::kRowMajor ? 1 : l.stride;
  return row * row_stride + col * col_stride;
}
inline int Offset(const PMatLayout& l, int row, int col) {
  int row_outer = row & ~(l.kernel.rows - 1);
  int col_outer = col & ~(l.kernel.cols - 1);
  int row_stride_outer = l.order == Order::kColMajor ? l.kernel.cols : l.stride;
  int col_stride_outer = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  int offset_outer = row_outer * row_stride_outer + col_outer * col_stride_outer;
  int row_inner = row - row_outer;
  int col_inner = col - col_outer;
  int row_stride_inner = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols;
  int col_stride_inner = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return offset_outer + row_inner * row_stride_inner + col_inner * col_stride_inner;
}
template <typename Scalar>
const Scalar* ElementPtr(const Mat<Scalar>& mat, int row, int col) { return mat.data.get() + Offset(mat.layout, row, col); }
template <typename Scalar>
Scalar* ElementPtr(Mat<Scalar>* mat, int row, int col) { return mat->data.get() + Offset(mat->layout, row, col); }
template <typename Scalar>
Scalar Element(const Mat<Scalar>& mat, int row, int col) { return *ElementPtr(mat, row, col); }
template <typename Scalar>
const Scalar* ElementPtr(const PMat<Scalar>& mat, int row, int col) { return mat.data + Offset(mat.layout, row, col); }
template <typename Scalar>
Scalar* ElementPtr(PMat<Scalar>* mat, int row, int col) { return mat->data + Offset(mat->layout, row, col); }
template <typename Scalar>
Scalar Element(const PMat<Scalar>& mat, int row, int col) { return *ElementPtr(mat, row, col); }
inline std::ptrdiff_t DataBytes(const PEMat& p) { return FlatSize(p.layout) * p.data_type.size; }
inline std::ptrdiff_t SumsBytes(const PEMat& p) { return p.layout.cols * p.sums_type.size; }
template <Order tOrder, int tRows, int tCols>
struct FixedKernelLayout {
  static constexpr Order kOrder = tOrder;
  static constexpr int kRows = tRows;
  static constexpr int kCols = tCols;
};
template <typename FixedKernelLayout>
KernelLayout ToKernelLayout() {
  KernelLayout ret;
  ret.order = FixedKernelLayout::kOrder;
  ret.rows = FixedKernelLayout::kRows;
  ret.cols = FixedKernelLayout::kCols;
  return ret;
}
inline Order Transpose(Order order) { return order == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; }
inline MatLayout Transpose(const MatLayout& l) {
  MatLayout r(l);
  r.order = Transpose(l.order);
  r.rows = l.cols;
  r.cols = l.rows;
  return r;
}
template <typename Scalar>
inline Mat<Scalar> Transpose(const Mat<Scalar>& m) {
  Mat<Scalar> r(m);
  r.layout = Transpose(m.layout);
  return r;
}
}  // namespace ruy
#endif
