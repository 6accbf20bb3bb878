#ifndef LCESIM_TENSOR_CTYPES_H_
#define LCESIM_TENSOR_CTYPES_H_
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T> inline T* GetTensorData(TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<T*>(t->data.raw) : nullptr; }
template <typename T> inline const T* GetTensorData(const TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<const T*>(t->data.raw) : nullptr; }
inline RuntimeShape GetTensorShape(std::vector<int32_t> data) { return RuntimeShape(data.size(), data.data()); }
inline RuntimeShape GetTensorShape(const TfLiteTensor* tensor) {
  if (tensor == nullptr) return RuntimeShape();
  TfLiteIntArray* dims = tensor->dims;
  return RuntimeShape(dims->size, reinterpret_cast<const int32_t*>(dims->data));
}
inline RuntimeShape GetTensorShape(const TfLiteIntArray* dims) { return dims ? RuntimeShape(dims->size, reinterpret_cast<const int32_t*>(dims->data)) : RuntimeShape(); }
}
#endif
