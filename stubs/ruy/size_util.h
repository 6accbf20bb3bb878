#ifndef RUY_RUY_SIZE_UTIL_H_
#define RUY_RUY_SIZE_UTIL_H_
#include <type_traits>
#include <cstdint>
#include "ruy/check_macros.h"
namespace ruy {
template <typename I> inline bool is_pot(I v) { return v > 0 && (v & (v - 1)) == 0; }
template <typename I> inline I round_down_pot(I value, I modulo) { return value & ~(modulo - 1); }
template <typename I> inline I round_up_pot(I value, I modulo) { return round_down_pot<I>(value + modulo - 1, modulo); }
inline int floor_log2(int n) { int r = 0; while (n > 1) { n >>= 1; r++; } return r; }
inline int ceil_log2(int n) { return n == 1 ? 0 : floor_log2(n - 1) + 1; }
}  // namespace ruy
#endif
