#ifndef LCESIM_ARRAY_H_
#define LCESIM_ARRAY_H_
#include <initializer_list>
#include <memory>
#include "tensorflow/lite/c/common.h"
namespace tflite {
struct TfLiteArrayDeleter {
  void operator()(TfLiteIntArray* a) { if (a) TfLiteIntArrayFree(a); }
  void operator()(TfLiteFloatArray* a) { if (a) TfLiteFloatArrayFree(a); }
};
using IntArrayUniquePtr = std::unique_ptr<TfLiteIntArray, TfLiteArrayDeleter>;
inline IntArrayUniquePtr BuildTfLiteArray(int size) { return IntArrayUniquePtr(TfLiteIntArrayCreate(size)); }
inline IntArrayUniquePtr BuildTfLiteArray(std::initializer_list<int> v) {
  IntArrayUniquePtr r(TfLiteIntArrayCreate((int)v.size()));
  int i = 0;
  for (int x : v) r->data[i++] = x;
  return r;
}
inline IntArrayUniquePtr BuildTfLiteArray(const TfLiteIntArray& other) { return IntArrayUniquePtr(TfLiteIntArrayCopy(&other)); }
}
#endif
