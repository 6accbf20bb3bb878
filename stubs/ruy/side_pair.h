#ifndef RUY_RUY_SIDE_PAIR_H_
#define RUY_RUY_SIDE_PAIR_H_
#include "ruy/check_macros.h"
namespace ruy {
enum class Side { kLhs = 0, kRhs = 1 };
inline Side OtherSide(Side side) { return side == Side::kLhs ? Side::kRhs : Side::kLhs; }
template <typename T>
class SidePair final {
 public:
  SidePair() {}
  SidePair(const T& a, const T& b) : elem_{a, b} {}
  const T& operator[](Side side) const { return elem_[static_cast<int>(side)]; }
  T& operator[](Side side) { return elem_[static_cast<int>(side)]; }
 private:
  T elem_[2];
};
}  // namespace ruy
#endif
