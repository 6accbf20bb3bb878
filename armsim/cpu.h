// A simulated 64-bit Arm processor: registers and an instruction interpreter.
// Guest addresses are host addresses; every data access is reported.
#pragma once
#include <cstdint>
namespace armsim {
typedef std::uint64_t u64;
typedef std::int64_t s64;
typedef std::uint32_t u32;
typedef std::int32_t s32;
typedef std::uint16_t u16;
typedef std::int16_t s16;
typedef std::uint8_t u8;
typedef std::int8_t s8;
union Vec {
  u8 b[16]; u16 h[8]; u32 w[4]; u64 d[2];
  s8 sb[16]; s16 sh[8]; s32 sw[4]; s64 sd[2];
  float f[4]; double g[2];
};
struct Cpu {
  u64 x[32];  // x[31] is the stack pointer
  u64 pc = 0;
  Vec v[32];
  bool n = false, z = false, c = false, o = false;
  u64 excl = 0;
  int excl_size = 0;
  u64 steps = 0;
};
struct Hooks {
  void (*access)(u64 a, unsigned n, bool write);
  void (*stop)(const char* why, u64 pc, u32 insn, bool machine);  // machine: this interpreter lacks something
};
extern Hooks g_hooks;
void step(Cpu& c);  // executes one instruction
}  // namespace armsim
