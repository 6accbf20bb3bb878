#ifndef LCESIM_KERNEL_UTIL_H_
#define LCESIM_KERNEL_UTIL_H_
#include <stdint.h>
#include <algorithm>
#include <limits>
#include <string>
#include <vector>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
namespace lcesim {
inline int ValidateTensorIndexing(const TfLiteContext* context, int index, int max_size, const int* tensor_indices) {
  if (index >= 0 && index < max_size) {
    const int tensor_index = tensor_indices[index];
    if (tensor_index != kTfLiteOptionalTensor) return tensor_index;
  }
  return -1;
}
inline TfLiteTensor* At(const TfLiteContext* context, int tensor_index) {
  if (tensor_index < 0) return nullptr;
  return &context->tensors[tensor_index];
}
}
inline const TfLiteTensor* GetInput(const TfLiteContext* c, const TfLiteNode* n, int i) {
  return lcesim::At(c, lcesim::ValidateTensorIndexing(c, i, n->inputs->size, n->inputs->data));
}
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, const TfLiteTensor** t) {
  *t = GetInput(c, n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* c, const TfLiteNode* n, int i) { return GetInput(c, n, i); }
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* n, int i) {
  TfLiteTensor* t = const_cast<TfLiteTensor*>(GetInput(c, n, i));
  return t && t->is_variable ? t : nullptr;
}
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* n, int i) {
  return lcesim::At(c, lcesim::ValidateTensorIndexing(c, i, n->outputs->size, n->outputs->data));
}
inline TfLiteStatus GetOutputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = GetOutput(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* n, int i) {
  return lcesim::At(c, lcesim::ValidateTensorIndexing(c, i, n->temporaries->size, n->temporaries->data));
}
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = GetTemporary(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline const TfLiteTensor* GetIntermediates(TfLiteContext* c, const TfLiteNode* n, int i) {
  return n->intermediates ? lcesim::At(c, lcesim::ValidateTensorIndexing(c, i, n->intermediates->size, n->intermediates->data)) : nullptr;
}
inline TfLiteStatus GetIntermediatesSafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = const_cast<TfLiteTensor*>(GetIntermediates(const_cast<TfLiteContext*>(c), n, i));
  return *t ? kTfLiteOk : kTfLiteError;
}
inline int NumIntermediates(const TfLiteNode* node) { return node->intermediates == nullptr ? 0 : node->intermediates->size; }
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int dim) { return t->dims->data[dim]; }
inline int NumInputs(const TfLiteNode* node) { return node->inputs == nullptr ? 0 : node->inputs->size; }
inline int NumOutputs(const TfLiteNode* node) { return node->outputs == nullptr ? 0 : node->outputs->size; }
inline int64_t NumElements(const int* dims, int num_dims) {
  int64_t count = 1;
  for (int i = 0; i < num_dims; ++i) count *= dims[i];
  return count;
}
inline int64_t NumElements(const TfLiteIntArray* dims) { return NumElements(dims->data, dims->size); }
inline int64_t NumElements(const TfLiteTensor* t) { return NumElements(t->dims); }
inline TfLiteStatus CheckedNumElements(const int* dims, int num_dims, size_t& count) {
  count = 1;
  for (int i = 0; i < num_dims; ++i)
    if (__builtin_mul_overflow(count, (size_t)dims[i], &count)) return kTfLiteError;
  return kTfLiteOk;
}
inline TfLiteStatus CheckedNumElements(const TfLiteTensor* t, size_t& count) { return CheckedNumElements(t->dims->data, t->dims->size, count); }
inline bool IsConstantTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteMmapRo; }
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) {
  return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo;
}
inline bool IsDynamicTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteDynamic; }
inline void SetTensorToDynamic(TfLiteTensor* t) {
  if (t->allocation_type != kTfLiteDynamic) { t->allocation_type = kTfLiteDynamic; t->data.raw = nullptr; }
}
inline void SetTensorToPersistentRo(TfLiteTensor* t) {
  if (t->allocation_type != kTfLitePersistentRo) { t->allocation_type = kTfLitePersistentRo; t->data.raw = nullptr; }
}
inline std::string GetShapeDebugString(const TfLiteIntArray* shape) {
  std::string s = "[";
  for (int i = 0; i < shape->size; ++i) s += (i ? ", " : "") + std::to_string(shape->data[i]);
  return s + "]";
}
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) { return TfLiteIntArrayEqual(a->dims, b->dims); }
inline TfLiteStatus GetOutputShapeFromInput(TfLiteContext*, const TfLiteTensor* t, TfLiteIntArray** out) {
  if (NumDimensions(t) != 1) return kTfLiteError;
  *out = TfLiteIntArrayCreate(SizeOfDimension(t, 0));
  for (int i = 0; i < (*out)->size; ++i) (*out)->data[i] = t->data.i32[i];
  return kTfLiteOk;
}
inline int TfLiteTypeGetSize(TfLiteType type) {
  switch (type) {
    case kTfLiteInt8: case kTfLiteUInt8: case kTfLiteBool: return 1;
    case kTfLiteInt16: case kTfLiteUInt16: case kTfLiteFloat16: return 2;
    case kTfLiteFloat32: case kTfLiteInt32: case kTfLiteUInt32: return 4;
    case kTfLiteInt64: case kTfLiteUInt64: case kTfLiteFloat64: case kTfLiteComplex64: return 8;
    case kTfLiteComplex128: return 16;
    default: return 0;
  }
}
inline TfLiteStatus GetMutableInputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = const_cast<TfLiteTensor*>(GetInput(c, n, i));
  return *t ? kTfLiteOk : kTfLiteError;
}
template <typename T>
void CalculateActivationRange(TfLiteFusedActivation activation, T* activation_min, T* activation_max) {
  if (activation == kTfLiteActRelu) {
    *activation_min = 0;
    *activation_max = std::numeric_limits<T>::max();
  } else if (activation == kTfLiteActRelu6) {
    *activation_min = 0;
    *activation_max = 6;
  } else if (activation == kTfLiteActReluN1To1) {
    *activation_min = -1;
    *activation_max = 1;
  } else {
    *activation_min = std::numeric_limits<T>::lowest();
    *activation_max = std::numeric_limits<T>::max();
  }
}
}
#endif
