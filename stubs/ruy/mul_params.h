#ifndef RUY_RUY_MUL_PARAMS_H_
#define RUY_RUY_MUL_PARAMS_H_
#include <cstdint>
#include <limits>
#include "ruy/check_macros.h"
#include "ruy/mat.h"
namespace ruy {
enum class LoopStructure { kGeneral, kSimple, kAuto };
enum class ChannelDimension : std::int8_t { kRow, kCol };
}  // namespace ruy
#endif
