#ifndef LCESIM_CPPMATH_H_
#define LCESIM_CPPMATH_H_
#include <cmath>
#include <limits>
namespace tflite {
template <class T> inline T TfLiteRound(const T x) { return std::round(x); }
template <class T> inline T TfLiteExpm1(const T x) { return std::expm1(x); }
template <typename T> inline T TfLiteMin(const T& x, const T& y) { return y < x ? y : x; }
template <typename T> inline T TfLiteMax(const T& x, const T& y) { return x < y ? y : x; }
template <typename U, typename T>
inline U SafeCast(T x) {
  if (std::isnan(x)) return 0;
  if (x > (double)std::numeric_limits<U>::max()) return std::numeric_limits<U>::max();
  if (x < (double)std::numeric_limits<U>::lowest()) return std::numeric_limits<U>::lowest();
  return static_cast<U>(x);
}
}
#endif
