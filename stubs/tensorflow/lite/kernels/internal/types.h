#ifndef LCESIM_TYPES_H_
#define LCESIM_TYPES_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <type_traits>
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
enum class FusedActivationFunctionType : uint8_t { kNone, kRelu6, kRelu1, kRelu };
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };
class RuntimeShape {
 public:
  static constexpr int kMaxSmallSize = 6;
  RuntimeShape& operator=(RuntimeShape const&) = delete;
  RuntimeShape() : size_(0) {}
  explicit RuntimeShape(int dimensions_count) : size_(dimensions_count) {
    if (dimensions_count > kMaxSmallSize) dims_pointer_ = new int32_t[dimensions_count];
  }
  RuntimeShape(int shape_size, int32_t value) : size_(0) {
    Resize(shape_size);
    for (int i = 0; i < shape_size; ++i) SetDim(i, value);
  }
  RuntimeShape(int dimensions_count, const int32_t* dims_data) : size_(0) { ReplaceWith(dimensions_count, dims_data); }
  RuntimeShape(const std::initializer_list<int> init_list) : size_(0) { BuildFrom(init_list); }
  RuntimeShape(RuntimeShape const& other) : size_(other.DimensionsCount()) {
    if (size_ > kMaxSmallSize) dims_pointer_ = new int32_t[size_];
    std::memcpy(DimsData(), other.DimsData(), sizeof(int32_t) * size_);
  }
  bool operator==(const RuntimeShape& comp) const {
    return this->size_ == comp.size_ && std::memcmp(DimsData(), comp.DimsData(), size_ * sizeof(int32_t)) == 0;
  }
  bool operator!=(const RuntimeShape& comp) const { return !((*this) == comp); }
  ~RuntimeShape() { if (size_ > kMaxSmallSize) delete[] dims_pointer_; }
  inline int32_t DimensionsCount() const { return size_; }
  inline int32_t Dims(int i) const {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, size_);
    return size_ > kMaxSmallSize ? dims_pointer_[i] : dims_[i];
  }
  inline void SetDim(int i, int32_t val) {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, size_);
    if (size_ > kMaxSmallSize) dims_pointer_[i] = val; else dims_[i] = val;
  }
  inline int32_t* DimsData() { return size_ > kMaxSmallSize ? dims_pointer_ : dims_; }
  inline const int32_t* DimsData() const { return size_ > kMaxSmallSize ? dims_pointer_ : dims_; }
  inline const int32_t* DimsDataUpTo5D() const { return dims_; }
  inline void Resize(int dimensions_count) {
    if (size_ > kMaxSmallSize) delete[] dims_pointer_;
    size_ = dimensions_count;
    if (dimensions_count > kMaxSmallSize) dims_pointer_ = new int32_t[dimensions_count];
  }
  inline void ReplaceWith(int dimensions_count, const int32_t* dims_data) {
    Resize(dimensions_count);
    std::memcpy(DimsData(), dims_data, dimensions_count * sizeof(int32_t));
  }
  template <typename T>
  inline void BuildFrom(const T& src_iterable) {
    const int dimensions_count = std::distance(src_iterable.begin(), src_iterable.end());
    Resize(dimensions_count);
    int32_t* data = DimsData();
    for (auto it : src_iterable) { *data = it; ++data; }
  }
  inline static RuntimeShape ExtendedShape(int new_shape_size, const RuntimeShape& shape) {
    RuntimeShape r(new_shape_size, 1);
    int d = new_shape_size - shape.DimensionsCount();
    for (int i = 0; i < shape.DimensionsCount(); ++i) r.SetDim(i + d, shape.Dims(i));
    return r;
  }
  inline int FlatSize() const {
    int buffer_size = 1;
    const int* dims_data = reinterpret_cast<const int*>(DimsData());
    for (int i = 0; i < size_; i++) buffer_size *= dims_data[i];
    return buffer_size;
  }
 private:
  int32_t size_;
  union { int32_t dims_[kMaxSmallSize]; int32_t* dims_pointer_; };
};
inline int Offset(const RuntimeShape& shape, int i0, int i1, int i2, int i3) {
  TFLITE_DCHECK_EQ(shape.DimensionsCount(), 4);
  const int* d = reinterpret_cast<const int*>(shape.DimsDataUpTo5D());
  TFLITE_DCHECK(i0 >= 0 && i0 < d[0]);
  TFLITE_DCHECK(i1 >= 0 && i1 < d[1]);
  TFLITE_DCHECK(i2 >= 0 && i2 < d[2]);
  TFLITE_DCHECK(i3 >= 0 && i3 < d[3]);
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3;
}
inline int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2) {
  TFLITE_DCHECK_EQ(s1.Dims(i1), s2.Dims(i2));
  return std::min(s1.Dims(i1), s2.Dims(i2));
}
template <typename... Args>
int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2, Args... args) {
  TFLITE_DCHECK_EQ(s1.Dims(i1), s2.Dims(i2));
  return MatchingDim(s1, i1, args...);
}
inline int FlatSizeSkipDim(const RuntimeShape& shape, int skip_dim) {
  const int dims_count = shape.DimensionsCount();
  TFLITE_DCHECK(skip_dim >= 0 && skip_dim < dims_count);
  const auto* dims_data = shape.DimsData();
  int flat_size = 1;
  for (int i = 0; i < dims_count; ++i) flat_size *= (i == skip_dim) ? 1 : dims_data[i];
  return flat_size;
}
inline int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b) {
  TFLITE_DCHECK_EQ(a.DimensionsCount(), b.DimensionsCount());
  for (int i = 0; i < a.DimensionsCount(); ++i) MatchingDim(a, i, b, i);
  return a.FlatSize();
}
template <typename... Args>
int MatchingFlatSize(const RuntimeShape& a, const RuntimeShape& b, Args... args) {
  for (int i = 0; i < a.DimensionsCount(); ++i) MatchingDim(a, i, b, i);
  return MatchingFlatSize(a, args...);
}
inline int MatchingFlatSizeSkipDim(const RuntimeShape& a, int skip_dim, const RuntimeShape& b) {
  for (int i = 0; i < a.DimensionsCount(); ++i) if (i != skip_dim) MatchingDim(a, i, b, i);
  return FlatSizeSkipDim(a, skip_dim);
}
inline int MatchingElementsSize(const RuntimeShape& a, const RuntimeShape& b) {
  TFLITE_DCHECK_EQ(a.FlatSize(), b.FlatSize());
  return a.FlatSize();
}
inline int Offset(const RuntimeShape& shape, int* index) { return Offset(shape, index[0], index[1], index[2], index[3]); }
struct PoolParams {
  FusedActivationFunctionType activation;
  PaddingType padding_type;
  PaddingValues padding_values;
  int stride_height, stride_width, filter_height, filter_width;
  int32_t quantized_activation_min, quantized_activation_max;
  float float_activation_min, float_activation_max;
};
struct ConvParams {
  PaddingType padding_type;
  PaddingValues padding_values;
  int16_t stride_width;
  int16_t stride_height;
  int16_t dilation_width_factor;
  int16_t dilation_height_factor;
  int32_t input_offset;
  int32_t weights_offset;
  int32_t output_offset;
  int32_t output_multiplier;
  int output_shift;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};
}
#endif
