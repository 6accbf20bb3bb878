#ifndef RUY_RUY_PATH_H_
#define RUY_RUY_PATH_H_
#include <cstdint>
#include "ruy/platform.h"
namespace ruy {
enum class Path : std::uint8_t {
  kNone = 0,
  kStandardCpp = 0x1,
  kNeon = 0x10,
  kNeonDotprod = 0x20,
};
inline constexpr Path operator|(Path p, Path q) {
  return static_cast<Path>(static_cast<std::uint32_t>(p) | static_cast<std::uint32_t>(q));
}
inline constexpr Path operator&(Path p, Path q) {
  return static_cast<Path>(static_cast<std::uint32_t>(p) & static_cast<std::uint32_t>(q));
}
inline constexpr Path operator^(Path p, Path q) {
  return static_cast<Path>(static_cast<std::uint32_t>(p) ^ static_cast<std::uint32_t>(q));
}
inline constexpr Path operator~(Path p) {
  return static_cast<Path>(~static_cast<std::uint32_t>(p));
}
constexpr Path kNonArchPaths = Path::kStandardCpp;
constexpr Path kDefaultPaths = Path::kStandardCpp;
}  // namespace ruy
#endif
