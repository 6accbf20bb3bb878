#ifndef RUY_RUY_MATRIX_H_
#define RUY_RUY_MATRIX_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include "ruy/check_macros.h"
namespace ruy {
enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class CachePolicy : std::uint8_t {
  kNeverCache,
  kCacheIfLargeSpeedup,
  kCacheIfSignificantSpeedup,
  kAlwaysCache,
};
class Layout final {
 public:
  int rows() const { return rows_; }
  int cols() const { return cols_; }
  int stride() const { return stride_; }
  Order order() const { return order_; }
  void set_rows(int v) { rows_ = v; }
  void set_cols(int v) { cols_ = v; }
  void set_stride(int v) { stride_ = v; }
  void set_order(Order v) { order_ = v; }
 private:
  std::int32_t rows_ = 0, cols_ = 0, stride_ = 0;
  Order order_ = Order::kColMajor;
};
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* layout) {
  layout->set_rows(rows);
  layout->set_cols(cols);
  layout->set_order(order);
  layout->set_stride(order == Order::kColMajor ? rows : cols);
}
inline bool operator==(const Layout& a, const Layout& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && a.stride() == b.stride() && a.order() == b.order();
}
namespace detail {
template <typename T>
class ConstCheckingPtr final {
 public:
  using element_type = T;
  ConstCheckingPtr& operator=(T* ptr) { ptr_ = ptr; set_is_const(false); return *this; }
  ConstCheckingPtr& operator=(const T* ptr) { ptr_ = ptr; set_is_const(true); return *this; }
  ConstCheckingPtr& operator=(std::nullptr_t) { ptr_ = nullptr; set_is_const(false); return *this; }
  T* get() { assert_not_const(); return const_cast<T*>(ptr_); }
  const T* get() const { return ptr_; }
 private:
  const T* ptr_ = nullptr;
  bool is_const_ = false;
  void set_is_const(bool v) { is_const_ = v; }
  void assert_not_const() { RUY_DCHECK(!is_const_); }
};
}  // namespace detail
template <typename Scalar>
class Matrix final {
 public:
  static_assert(!std::is_const<Scalar>::value, "");
  Matrix() {}
  const Scalar* data() const { return data_.get(); }
  Scalar* data() { return data_.get(); }
  const Layout& layout() const { return layout_; }
  Scalar zero_point() const { return zero_point_; }
  CachePolicy cache_policy() const { return cache_policy_; }
  Layout* mutable_layout() { return &layout_; }
  template <typename S>
  void set_data(S* ptr) {
    static_assert(std::is_same<S, Scalar>::value || std::is_same<S, const Scalar>::value, "");
    data_ = ptr;
  }
  void set_data(std::nullptr_t) { data_ = nullptr; }
  void set_zero_point(Scalar value) { zero_point_ = value; }
  void set_cache_policy(CachePolicy value) { cache_policy_ = value; }
 private:
  detail::ConstCheckingPtr<Scalar> data_;
  Layout layout_;
  Scalar zero_point_ = 0;
  CachePolicy cache_policy_ = CachePolicy::kNeverCache;
};
}  // namespace ruy
#endif
