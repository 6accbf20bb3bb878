// Interpreter of the A64 instructions: integer core, scalar floating point and
// Advanced SIMD, decoded field by field from the encoding.
#include "cpu.h"
#include <cfenv>
#include <cmath>
#include <cstring>
#include <limits>
namespace armsim {
Hooks g_hooks;
namespace {
inline u32 bits(u32 i, int hi, int lo) { return (i >> lo) & ((hi - lo == 31) ? ~0u : ((1u << (hi - lo + 1)) - 1)); }
inline u32 bit(u32 i, int b) { return (i >> b) & 1; }
inline s64 sext(u64 v, int n) { return (s64)(v << (64 - n)) >> (64 - n); }
[[noreturn]] void undefined(Cpu& c, u32 i) { g_hooks.stop("instruction the simulated processor does not know", c.pc, i, true); __builtin_trap(); }
template <class T> inline T ld(u64 a) {
  g_hooks.access(a, sizeof(T), false);
  T v;
  memcpy(&v, (const void*)a, sizeof v);
  return v;
}
template <class T> inline void st(u64 a, T v) {
  g_hooks.access(a, sizeof(T), true);
  memcpy((void*)a, &v, sizeof v);
}
inline u64 load(u64 a, int size) {
  switch (size) { case 0: return ld<u8>(a); case 1: return ld<u16>(a); case 2: return ld<u32>(a); default: return ld<u64>(a); }
}
inline void store(u64 a, int size, u64 v) {
  switch (size) { case 0: st<u8>(a, (u8)v); break; case 1: st<u16>(a, (u16)v); break; case 2: st<u32>(a, (u32)v); break; default: st<u64>(a, v); }
}
inline void vload(Cpu& c, int t, u64 a, int lg) {  // 2^lg bytes, the rest of the register becomes zero
  Vec r;
  r.d[0] = r.d[1] = 0;
  g_hooks.access(a, 1u << lg, false);
  memcpy(&r, (const void*)a, (std::size_t)1 << lg);
  c.v[t] = r;
}
inline void vstore(Cpu& c, int t, u64 a, int lg) {
  g_hooks.access(a, 1u << lg, true);
  memcpy((void*)a, &c.v[t], (std::size_t)1 << lg);
}
inline u64 X(const Cpu& c, int r) { return r == 31 ? 0 : c.x[r]; }
inline void setX(Cpu& c, int r, u64 v, bool sf) { if (r != 31) c.x[r] = sf ? v : (u32)v; }
inline void setXsp(Cpu& c, int r, u64 v, bool sf) { c.x[r] = sf ? v : (u32)v; }
bool cond(const Cpu& c, u32 k) {
  bool r;
  switch (k >> 1) {
    case 0: r = c.z; break;
    case 1: r = c.c; break;
    case 2: r = c.n; break;
    case 3: r = c.o; break;
    case 4: r = c.c && !c.z; break;
    case 5: r = c.n == c.o; break;
    case 6: r = c.n == c.o && !c.z; break;
    default: return true;
  }
  return (k & 1) ? !r : r;
}
u64 add_flags(Cpu& c, u64 a, u64 b, bool carry, bool sf, bool set) {
  if (sf) {
    unsigned __int128 w = (unsigned __int128)a + b + carry;
    u64 r = (u64)w;
    if (set) { c.n = r >> 63; c.z = r == 0; c.c = (w >> 64) != 0; c.o = ((~(a ^ b) & (a ^ r)) >> 63) & 1; }
    return r;
  }
  u32 a32 = (u32)a, b32 = (u32)b;
  u64 w = (u64)a32 + b32 + carry;
  u32 r = (u32)w;
  if (set) { c.n = r >> 31; c.z = r == 0; c.c = (w >> 32) != 0; c.o = ((~(a32 ^ b32) & (a32 ^ r)) >> 31) & 1; }
  return r;
}
u64 shifted(u64 v, int type, int n, bool sf) {
  if (sf) {
    if (!n) return v;
    switch (type) { case 0: return v << n; case 1: return v >> n; case 2: return (u64)((s64)v >> n); default: return (v >> n) | (v << (64 - n)); }
  }
  u32 w = (u32)v;
  n &= 31;
  if (!n) return w;
  switch (type) { case 0: return (u32)(w << n); case 1: return w >> n; case 2: return (u32)((s32)w >> n); default: return (w >> n) | (w << (32 - n)); }
}
u64 extended(u64 v, int option, int sh) {
  switch (option) {
    case 0: v = (u8)v; break;
    case 1: v = (u16)v; break;
    case 2: v = (u32)v; break;
    case 3: break;
    case 4: v = (u64)(s64)(s8)v; break;
    case 5: v = (u64)(s64)(s16)v; break;
    case 6: v = (u64)(s64)(s32)v; break;
    default: break;
  }
  return v << sh;
}
bool bit_masks(u32 n, u32 imms, u32 immr, bool sf, u64* wmask, u64* tmask) {
  const u32 combined = (n << 6) | (~imms & 0x3f);
  int len = -1;
  for (int k = 6; k >= 0; k--) if (combined & (1u << k)) { len = k; break; }
  if (len < 1) return false;
  const u32 levels = (1u << len) - 1;
  const u32 s = imms & levels, r = immr & levels;
  const int esize = 1 << len;
  const u32 diff = (s - r) & levels;
  auto ones = [](int k) { return k >= 64 ? ~(u64)0 : (((u64)1 << k) - 1); };
  u64 we = ones((int)s + 1), te = ones((int)diff + 1);
  if (r) we = ((we >> r) | (we << (esize - (int)r))) & ones(esize);
  u64 w = 0, t = 0;
  for (int p = 0; p < 64; p += esize) { w |= we << p; t |= te << p; }
  *wmask = sf ? w : (u32)w;
  *tmask = sf ? t : (u32)t;
  return true;
}
// ---------------------------------------------------------------- floating point
enum Round { rNearestEven, rPlus, rMinus, rZero, rAway };
double round_to(double x, Round m) {
  switch (m) {
    case rNearestEven: return std::nearbyint(x);
    case rPlus: return std::ceil(x);
    case rMinus: return std::floor(x);
    case rZero: return std::trunc(x);
    default: {  // to nearest, halves away from zero
      const double t = std::trunc(x);
      return std::fabs(x - t) >= 0.5 ? t + (x < 0 ? -1.0 : 1.0) : t;
    }
  }
}
u64 to_int(double x, bool sgn, bool sf, Round m, int fbits = 0) {
  if (x != x) return 0;
  if (fbits) x = std::ldexp(x, fbits);
  x = round_to(x, m);
  if (sgn) {
    if (sf) return x >= 9223372036854775808.0 ? (u64)INT64_MAX : x <= -9223372036854775808.0 ? (u64)INT64_MIN : (u64)(s64)x;
    return (u32)(x >= 2147483647.0 ? INT32_MAX : x <= -2147483648.0 ? INT32_MIN : (s32)x);
  }
  if (x <= 0) return 0;
  if (sf) return x >= 18446744073709551616.0 ? ~(u64)0 : (u64)x;
  return x >= 4294967295.0 ? ~0u : (u32)x;
}
template <class F> F fmaxn(F a, F b, bool min, bool num) {
  if (a != a || b != b) {
    if (num) { if (a != a && b == b) return b; if (b != b && a == a) return a; }
    return a != a ? a : b;
  }
  if (a == 0 && b == 0) return min ? (std::signbit(a) ? a : b) : (std::signbit(a) ? b : a);
  return min ? (a < b ? a : b) : (a > b ? a : b);
}
template <class F> void fcompare(Cpu& c, F a, F b) {
  if (a != a || b != b) { c.n = c.z = false; c.c = c.o = true; }
  else if (a == b) { c.n = false; c.z = c.c = true; c.o = false; }
  else if (a < b) { c.n = true; c.z = c.c = c.o = false; }
  else { c.n = c.z = false; c.c = true; c.o = false; }
}
inline void setF(Cpu& c, int r, float f) { Vec v; v.d[0] = v.d[1] = 0; v.f[0] = f; c.v[r] = v; }
inline void setG(Cpu& c, int r, double g) { Vec v; v.d[1] = 0; v.g[0] = g; c.v[r] = v; }
u64 fp_imm(u32 imm8, bool dbl) {
  const u64 sign = imm8 >> 7, b6 = (imm8 >> 6) & 1, frac = imm8 & 15, e = (imm8 >> 4) & 3;
  if (dbl) return (sign << 63) | ((u64)(!b6) << 62) | ((b6 ? (u64)0xff : 0) << 54) | (e << 52) | (frac << 48);
  return (sign << 31) | ((u64)(!b6) << 30) | ((b6 ? (u64)0x1f : 0) << 25) | (e << 23) | (frac << 19);
}
float half_to_float(u16 h) {
  const int e = (h >> 10) & 31, m = h & 1023;
  double v = e == 0 ? std::ldexp((double)m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(1024.0 + m, e - 25);
  return (float)((h >> 15) ? -v : v);
}
template <class F> F fsqrt(F x) { return std::sqrt(x); }
template <class F> void fp_scalar(Cpu& c, u32 i, F (*get)(Cpu&, int), void (*set)(Cpu&, int, F)) {
  const int d = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16);
  constexpr bool dbl = sizeof(F) == 8;
  if (bits(i, 14, 10) == 0x10) {  // one source
    const F a = get(c, n);
    switch (bits(i, 20, 15)) {
      case 0: set(c, d, a); return;
      case 1: set(c, d, std::fabs(a)); return;
      case 2: set(c, d, -a); return;
      case 3: set(c, d, fsqrt(a)); return;
      case 4: if (!dbl) undefined(c, i); setF(c, d, (float)a); return;
      case 5: if (dbl) undefined(c, i); setG(c, d, (double)a); return;
      case 8: set(c, d, (F)round_to(a, rNearestEven)); return;
      case 9: set(c, d, (F)round_to(a, rPlus)); return;
      case 10: set(c, d, (F)round_to(a, rMinus)); return;
      case 11: set(c, d, (F)round_to(a, rZero)); return;
      case 12: set(c, d, (F)std::copysign((F)round_to(a, rAway), a)); return;
      case 14: case 15: set(c, d, (F)round_to(a, rNearestEven)); return;
      default: undefined(c, i);
    }
  }
  if (bits(i, 13, 10) == 8) {  // compare
    const F a = get(c, n), b = bit(i, 3) ? (F)0 : get(c, m);
    fcompare(c, a, b);
    return;
  }
  if (bits(i, 12, 10) == 4) {
    if (dbl) { Vec v; v.d[0] = fp_imm(bits(i, 20, 13), true); v.d[1] = 0; c.v[d] = v; }
    else { Vec v; v.d[0] = v.d[1] = 0; v.w[0] = (u32)fp_imm(bits(i, 20, 13), false); c.v[d] = v; }
    return;
  }
  switch (bits(i, 11, 10)) {
    case 1: {  // conditional compare
      if (cond(c, bits(i, 15, 12))) fcompare(c, get(c, n), get(c, m));
      else { c.n = bit(i, 3); c.z = bit(i, 2); c.c = bit(i, 1); c.o = bit(i, 0); }
      return;
    }
    case 3: set(c, d, cond(c, bits(i, 15, 12)) ? get(c, n) : get(c, m)); return;
    case 2: {
      const F a = get(c, n), b = get(c, m);
      switch (bits(i, 15, 12)) {
        case 0: set(c, d, a * b); return;
        case 1: set(c, d, a / b); return;
        case 2: set(c, d, a + b); return;
        case 3: set(c, d, a - b); return;
        case 4: set(c, d, fmaxn(a, b, false, false)); return;
        case 5: set(c, d, fmaxn(a, b, true, false)); return;
        case 6: set(c, d, fmaxn(a, b, false, true)); return;
        case 7: set(c, d, fmaxn(a, b, true, true)); return;
        case 8: set(c, d, -(a * b)); return;
        default: undefined(c, i);
      }
    }
    default: undefined(c, i);
  }
}
float getF(Cpu& c, int r) { return c.v[r].f[0]; }
double getG(Cpu& c, int r) { return c.v[r].g[0]; }
void fp(Cpu& c, u32 i) {
  const int type = bits(i, 23, 22);
  if (bits(i, 31, 24) == 0x1f) {  // multiply-add
    const int d = bits(i, 4, 0), n = bits(i, 9, 5), a = bits(i, 14, 10), m = bits(i, 20, 16);
    const bool o1 = bit(i, 21), o0 = bit(i, 15);
    if (type == 0) {
      float p = c.v[n].f[0], q = c.v[a].f[0];
      if (o1) q = -q;
      if (o0 != o1) p = -p;
      setF(c, d, std::fma(p, c.v[m].f[0], q));
    } else if (type == 1) {
      double p = c.v[n].g[0], q = c.v[a].g[0];
      if (o1) q = -q;
      if (o0 != o1) p = -p;
      setG(c, d, std::fma(p, c.v[m].g[0], q));
    } else undefined(c, i);
    return;
  }
  const bool sf = bit(i, 31);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  if (!bit(i, 21)) {  // fixed point
    const int fb = 64 - (int)bits(i, 15, 10);
    const u32 op = bits(i, 20, 16);
    if (type > 1) undefined(c, i);
    if (op == 2 || op == 3) {
      const u64 v = X(c, n);
      const double x = op == 2 ? (sf ? (double)(s64)v : (double)(s32)v) : (sf ? (double)v : (double)(u32)v);
      if (type) setG(c, d, std::ldexp(x, -fb));
      else setF(c, d, std::ldexp(op == 2 ? (sf ? (float)(s64)v : (float)(s32)v) : (sf ? (float)v : (float)(u32)v), -fb));
      return;
    }
    if (op == 0x18 || op == 0x19) {
      const double x = type ? c.v[n].g[0] : (double)c.v[n].f[0];
      setX(c, d, to_int(x, op == 0x18, sf, rZero, fb), sf);
      return;
    }
    undefined(c, i);
  }
  if (bits(i, 15, 10) == 0) {  // conversion between integers and floating point
    const u32 rmode = bits(i, 20, 19), op = bits(i, 18, 16);
    if (op == 2 || op == 3) {
      if (rmode || type > 1) undefined(c, i);
      const u64 v = X(c, n);
      if (type) setG(c, d, op == 2 ? (sf ? (double)(s64)v : (double)(s32)v) : (sf ? (double)v : (double)(u32)v));
      else setF(c, d, op == 2 ? (sf ? (float)(s64)v : (float)(s32)v) : (sf ? (float)v : (float)(u32)v));
      return;
    }
    if (op == 6 || op == 7) {
      if (rmode == 1 && type == 2) {  // fmov of the upper half
        if (op == 6) setX(c, d, c.v[n].d[1], true);
        else c.v[d].d[1] = X(c, n);
        return;
      }
      if (rmode || (type != 0 && type != 1)) undefined(c, i);
      if (op == 6) setX(c, d, type ? c.v[n].d[0] : c.v[n].w[0], sf);
      else { Vec v; v.d[1] = 0; v.d[0] = type ? X(c, n) : (u32)X(c, n); c.v[d] = v; }
      return;
    }
    if (type > 1) undefined(c, i);
    const double x = type ? c.v[n].g[0] : (double)c.v[n].f[0];
    if (op == 4 || op == 5) { if (rmode) undefined(c, i); setX(c, d, to_int(x, op == 4, sf, rAway), sf); return; }
    static const Round modes[] = {rNearestEven, rPlus, rMinus, rZero};
    setX(c, d, to_int(x, op == 0, sf, modes[rmode]), sf);
    return;
  }
  if (bits(i, 31, 24) != 0x1e) undefined(c, i);
  if (type == 0) fp_scalar<float>(c, i, getF, setF);
  else if (type == 1) fp_scalar<double>(c, i, getG, setG);
  else if (type == 3 && bits(i, 14, 10) == 0x10 && bits(i, 20, 15) == 4) setF(c, d, half_to_float(c.v[n].h[0]));
  else undefined(c, i);
}
// ---------------------------------------------------------------- Advanced SIMD
inline u64 lane(const Vec& v, int size, int k) {
  switch (size) { case 0: return v.b[k]; case 1: return v.h[k]; case 2: return v.w[k]; default: return v.d[k]; }
}
inline s64 slane(const Vec& v, int size, int k) {
  switch (size) { case 0: return v.sb[k]; case 1: return v.sh[k]; case 2: return v.sw[k]; default: return v.sd[k]; }
}
inline void set_lane(Vec& v, int size, int k, u64 x) {
  switch (size) { case 0: v.b[k] = (u8)x; break; case 1: v.h[k] = (u16)x; break; case 2: v.w[k] = (u32)x; break; default: v.d[k] = x; }
}
inline int lanes(int q, int size) { return (q ? 16 : 8) >> size; }
inline Vec zero() { Vec v; v.d[0] = v.d[1] = 0; return v; }
u64 sat(__int128 v, int size, bool u) {
  const int n = 8 << size;
  const __int128 lo = u ? 0 : -((__int128)1 << (n - 1)), hi = u ? ((__int128)1 << n) - 1 : ((__int128)1 << (n - 1)) - 1;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return (u64)v;
}
u64 shl_var(const Vec& a, const Vec& b, int size, int k, bool u, bool round, bool saturate) {
  const int sh = b.sb[k << size];
  const int n = 8 << size;
  const __int128 v = u ? (__int128)lane(a, size, k) : (__int128)slane(a, size, k);
  if (sh >= 0) {
    if (saturate) {
      if (sh >= n) return v == 0 ? 0 : sat(v > 0 ? ((__int128)1 << 100) : -((__int128)1 << 100), size, u);
      return sat(v << sh, size, u);
    }
    return sh >= n ? 0 : (u64)(v << sh);
  }
  const int r = -sh;
  __int128 w = r > 100 ? (v < 0 && !round ? -1 : 0) : ((v + (round ? (__int128)1 << (r - 1) : 0)) >> r);
  return saturate ? sat(w, size, u) : (u64)w;
}
template <class F> bool fp_three(u32 key, F a, F b, F d, F* out, bool* mask, bool* is_mask) {
  // key: U, bit 23, opcode
  *is_mask = false;
  switch (key) {
    case 0x1a: *out = a + b; return true;           // fadd
    case 0x3a: *out = a - b; return true;           // fsub
    case 0x5b: *out = a * b; return true;           // fmul
    case 0x1b: *out = a * b; return true;           // fmulx (without the 0*inf case)
    case 0x5f: *out = a / b; return true;           // fdiv
    case 0x19: *out = std::fma(a, b, d); return true;   // fmla
    case 0x39: *out = std::fma(-a, b, d); return true;  // fmls
    case 0x1e: *out = fmaxn(a, b, false, false); return true;
    case 0x3e: *out = fmaxn(a, b, true, false); return true;
    case 0x18: *out = fmaxn(a, b, false, true); return true;
    case 0x38: *out = fmaxn(a, b, true, true); return true;
    case 0x7a: *out = std::fabs(a - b); return true;
    case 0x1c: *is_mask = true; *mask = a == b; return true;
    case 0x5c: *is_mask = true; *mask = a >= b; return true;
    case 0x7c: *is_mask = true; *mask = a > b; return true;
    case 0x5d: *is_mask = true; *mask = std::fabs(a) >= std::fabs(b); return true;
    case 0x7d: *is_mask = true; *mask = std::fabs(a) > std::fabs(b); return true;
    default: return false;
  }
}
void three_same(Cpu& c, u32 i, bool scalar) {
  const int q = scalar ? 1 : bit(i, 30), u = bit(i, 29), size = bits(i, 23, 22), op = bits(i, 15, 11);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16);
  const Vec a = c.v[n], b = c.v[m], old = c.v[d];
  Vec r = zero();
  if (op == 3) {  // logic
    if (scalar) undefined(c, i);
    for (int k = 0; k < (q ? 2 : 1); k++) {
      const u64 x = a.d[k], y = b.d[k], z = old.d[k];
      if (!u) r.d[k] = size == 0 ? x & y : size == 1 ? x & ~y : size == 2 ? x | y : x | ~y;
      else r.d[k] = size == 0 ? x ^ y : size == 1 ? (z & x) | (~z & y) : size == 2 ? (z & ~y) | (x & y) : (z & y) | (x & ~y);
    }
    c.v[d] = r;
    return;
  }
  if (op >= 0x18) {  // floating point
    const bool dbl = size & 1;
    const u32 key = (u32)u << 6 | (u32)(size >> 1) << 5 | op;
    const int cnt = scalar ? 1 : dbl ? 2 : q ? 4 : 2;
    if (dbl && !q) undefined(c, i);
    const bool pair = u && (op == 0x1a || op == 0x1e || op == 0x18) && !(op == 0x1a && (size >> 1));
    for (int k = 0; k < cnt; k++) {
      bool mask = false, is_mask = false, ok;
      if (dbl) {
        double o = 0;
        if (pair) { const Vec& s = k < cnt / 2 ? a : b; const int j = 2 * (k % (cnt / 2)); ok = fp_three<double>(key & ~0x40u, s.g[j], s.g[j + 1], 0, &o, &mask, &is_mask); }
        else ok = fp_three<double>(key, a.g[k], b.g[k], old.g[k], &o, &mask, &is_mask);
        if (is_mask) r.d[k] = mask ? ~(u64)0 : 0; else r.g[k] = o;
      } else {
        float o = 0;
        if (pair) { const Vec& s = k < cnt / 2 ? a : b; const int j = 2 * (k % (cnt / 2)); ok = fp_three<float>(key & ~0x40u, s.f[j], s.f[j + 1], 0, &o, &mask, &is_mask); }
        else ok = fp_three<float>(key, a.f[k], b.f[k], old.f[k], &o, &mask, &is_mask);
        if (is_mask) r.w[k] = mask ? ~0u : 0; else r.f[k] = o;
      }
      if (!ok) undefined(c, i);
    }
    c.v[d] = r;
    return;
  }
  const int cnt = scalar ? 1 : lanes(q, size);
  if (scalar && size != 3 && op != 1 && op != 5 && op != 9 && op != 11 && op != 0x16) undefined(c, i);
  for (int k = 0; k < cnt; k++) {
    const u64 x = lane(a, size, k), y = lane(b, size, k), z = lane(old, size, k);
    const s64 sx = slane(a, size, k), sy = slane(b, size, k);
    u64 o;
    auto paired = [&](auto f) {
      const Vec& s = k < cnt / 2 ? a : b;
      const int j = 2 * (k % (cnt / 2));
      return f(s, j);
    };
    switch (op) {
      case 0: o = u ? (x + y) >> 1 : (u64)((sx + sy) >> 1); break;
      case 1: o = u ? sat((__int128)x + y, size, true) : sat((__int128)sx + sy, size, false); break;
      case 2: o = u ? (x + y + 1) >> 1 : (u64)((sx + sy + 1) >> 1); break;
      case 4: o = u ? (u64)(((s64)x - (s64)y) >> 1) : (u64)((sx - sy) >> 1); break;
      case 5: o = u ? sat((__int128)x - (__int128)y, size, true) : sat((__int128)sx - sy, size, false); break;
      case 6: o = (u ? x > y : sx > sy) ? ~(u64)0 : 0; break;
      case 7: o = (u ? x >= y : sx >= sy) ? ~(u64)0 : 0; break;
      case 8: o = shl_var(a, b, size, k, u, false, false); break;
      case 9: o = shl_var(a, b, size, k, u, false, true); break;
      case 10: o = shl_var(a, b, size, k, u, true, false); break;
      case 11: o = shl_var(a, b, size, k, u, true, true); break;
      case 12: o = u ? (x > y ? x : y) : (u64)(sx > sy ? sx : sy); break;
      case 13: o = u ? (x < y ? x : y) : (u64)(sx < sy ? sx : sy); break;
      case 14: o = u ? (x > y ? x - y : y - x) : (u64)(sx > sy ? sx - sy : sy - sx); break;
      case 15: o = z + (u ? (x > y ? x - y : y - x) : (u64)(sx > sy ? sx - sy : sy - sx)); break;
      case 16: o = u ? x - y : x + y; break;
      case 17: o = u ? (x == y ? ~(u64)0 : 0) : ((x & y) ? ~(u64)0 : 0); break;
      case 18: o = u ? z - x * y : z + x * y; break;
      case 19:
        if (u) { if (size) undefined(c, i); o = 0; for (int t = 0; t < 8; t++) if (y & (1u << t)) o ^= x << t; }
        else o = x * y;
        break;
      case 20: o = paired([&](const Vec& s, int j) -> u64 { return u ? (lane(s, size, j) > lane(s, size, j + 1) ? lane(s, size, j) : lane(s, size, j + 1))
                                                                      : (u64)(slane(s, size, j) > slane(s, size, j + 1) ? slane(s, size, j) : slane(s, size, j + 1)); }); break;
      case 21: o = paired([&](const Vec& s, int j) -> u64 { return u ? (lane(s, size, j) < lane(s, size, j + 1) ? lane(s, size, j) : lane(s, size, j + 1))
                                                                      : (u64)(slane(s, size, j) < slane(s, size, j + 1) ? slane(s, size, j) : slane(s, size, j + 1)); }); break;
      case 22: {
        if (size != 1 && size != 2) undefined(c, i);
        const __int128 p = (__int128)2 * sx * sy + (u ? (__int128)1 << ((8 << size) - 1) : 0);
        o = sat(p >> (8 << size), size, false);
        break;
      }
      case 23: if (u) undefined(c, i); o = paired([&](const Vec& s, int j) { return lane(s, size, j) + lane(s, size, j + 1); }); break;
      default: undefined(c, i);
    }
    set_lane(r, size, k, o);
  }
  c.v[d] = r;
}
void three_different(Cpu& c, u32 i) {
  const int q = bit(i, 30), u = bit(i, 29), size = bits(i, 23, 22), op = bits(i, 15, 12);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16);
  const Vec a = c.v[n], b = c.v[m], old = c.v[d];
  Vec r = zero();
  if (size == 3 && op != 14) undefined(c, i);
  const int cnt = 8 >> size, off = q ? cnt : 0;
  if (op == 4 || op == 6) {  // (r)addhn, (r)subhn
    const int w = 8 << size;
    if (q) r.d[0] = old.d[0];
    for (int k = 0; k < cnt; k++) {
      u64 s = op == 4 ? lane(a, size + 1, k) + lane(b, size + 1, k) : lane(a, size + 1, k) - lane(b, size + 1, k);
      if (u) s += (u64)1 << (w - 1);
      set_lane(r, size, off + k, s >> w);
    }
    c.v[d] = r;
    return;
  }
  if (op == 14) {  // polynomial
    if (size != 0) undefined(c, i);
    for (int k = 0; k < 8; k++) { u32 o = 0; for (int t = 0; t < 8; t++) if (b.b[off + k] & (1u << t)) o ^= (u32)a.b[off + k] << t; r.h[k] = (u16)o; }
    c.v[d] = r;
    return;
  }
  for (int k = 0; k < cnt; k++) {
    const bool wide = op == 1 || op == 3;
    const __int128 x = wide ? (u ? (__int128)lane(a, size + 1, k) : (__int128)slane(a, size + 1, k)) : (u ? (__int128)lane(a, size, off + k) : (__int128)slane(a, size, off + k));
    const __int128 y = u ? (__int128)lane(b, size, off + k) : (__int128)slane(b, size, off + k);
    const u64 z = lane(old, size + 1, k);
    u64 o;
    switch (op) {
      case 0: case 1: o = (u64)(x + y); break;
      case 2: case 3: o = (u64)(x - y); break;
      case 5: o = z + (u64)(x > y ? x - y : y - x); break;
      case 7: o = (u64)(x > y ? x - y : y - x); break;
      case 8: o = z + (u64)(x * y); break;
      case 10: o = z - (u64)(x * y); break;
      case 12: o = (u64)(x * y); break;
      case 9: case 11: case 13: {
        if (u || size == 0) undefined(c, i);
        const u64 p = sat(2 * x * y, size + 1, false);
        const s64 ps = size == 1 ? (s64)(s32)p : (s64)p;
        o = op == 13 ? p : sat((__int128)slane(old, size + 1, k) + (op == 9 ? (__int128)ps : -(__int128)ps), size + 1, false);
        break;
      }
      default: undefined(c, i);
    }
    set_lane(r, size + 1, k, o);
  }
  c.v[d] = r;
}
void two_misc(Cpu& c, u32 i, bool scalar) {
  const int q = scalar ? 1 : bit(i, 30), u = bit(i, 29), size = bits(i, 23, 22), op = bits(i, 16, 12);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  const Vec a = c.v[n], old = c.v[d];
  Vec r = zero();
  const int cnt = scalar ? 1 : lanes(q, size);
  auto each = [&](auto f) { for (int k = 0; k < cnt; k++) set_lane(r, size, k, f(k)); };
  switch (op) {
    case 0: case 1: {  // rev64, rev32, rev16
      if (scalar) undefined(c, i);
      const int group = (op == 1 ? 2 : u ? 4 : 8) >> size;
      if (group < 1) undefined(c, i);
      each([&](int k) { return lane(a, size, k / group * group + group - 1 - k % group); });
      break;
    }
    case 2: case 6: {  // (s|u)addlp, (s|u)adalp
      if (scalar || size == 3) undefined(c, i);
      for (int k = 0; k < cnt / 2; k++) {
        const u64 s = u ? lane(a, size, 2 * k) + lane(a, size, 2 * k + 1) : (u64)(slane(a, size, 2 * k) + slane(a, size, 2 * k + 1));
        set_lane(r, size + 1, k, op == 6 ? lane(old, size + 1, k) + s : s);
      }
      break;
    }
    case 3:
      each([&](int k) -> u64 { return u ? sat((__int128)lane(old, size, k) + slane(a, size, k), size, true) : sat((__int128)slane(old, size, k) + lane(a, size, k), size, false); });
      break;
    case 4:  // cls, clz
      each([&](int k) -> u64 {
        const int w = 8 << size;
        if (u) { const u64 x = lane(a, size, k); return x ? (u64)(__builtin_clzll(x) - (64 - w)) : (u64)w; }
        const s64 x = slane(a, size, k);
        const u64 y = (u64)(x < 0 ? ~x : x);
        return (y ? (u64)(__builtin_clzll(y) - (64 - w)) : (u64)w) - 1;
      });
      break;
    case 5:
      if (scalar) undefined(c, i);
      for (int k = 0; k < (q ? 16 : 8); k++) {
        if (!u) { if (size) undefined(c, i); r.b[k] = (u8)__builtin_popcount(a.b[k]); }
        else if (size == 0) r.b[k] = (u8)~a.b[k];
        else { u8 x = a.b[k], y = 0; for (int t = 0; t < 8; t++) if (x & (1 << t)) y |= (u8)(0x80 >> t); r.b[k] = y; }
      }
      break;
    case 7:
      each([&](int k) { const __int128 x = slane(a, size, k); return sat(u ? -x : x < 0 ? -x : x, size, false); });
      break;
    case 8: each([&](int k) -> u64 { const s64 x = slane(a, size, k); return (u ? x >= 0 : x > 0) ? ~(u64)0 : 0; }); break;
    case 9: each([&](int k) -> u64 { const s64 x = slane(a, size, k); return (u ? x <= 0 : x == 0) ? ~(u64)0 : 0; }); break;
    case 10: if (u) undefined(c, i); each([&](int k) -> u64 { return slane(a, size, k) < 0 ? ~(u64)0 : 0; }); break;
    case 11: each([&](int k) -> u64 { const s64 x = slane(a, size, k); return u ? 0 - (u64)x : x < 0 ? 0 - (u64)x : (u64)x; }); break;
    case 0x12: case 0x14: {  // xtn, sqxtun, sqxtn, uqxtn
      if (size == 3) undefined(c, i);
      const int m = scalar ? 1 : 8 >> size, off = !scalar && q ? m : 0;
      if (!scalar && q) r.d[0] = old.d[0];
      for (int k = 0; k < m; k++) {
        u64 o;
        if (op == 0x12) o = u ? sat(slane(a, size + 1, k), size, true) : lane(a, size + 1, k);
        else o = u ? sat((__int128)lane(a, size + 1, k), size, true) : sat(slane(a, size + 1, k), size, false);
        set_lane(r, size, off + k, o);
      }
      break;
    }
    case 0x13: {  // shll
      if (!u || size == 3) undefined(c, i);
      const int m = 8 >> size, off = q ? m : 0;
      for (int k = 0; k < m; k++) set_lane(r, size + 1, k, lane(a, size, off + k) << (8 << size));
      break;
    }
    case 0x17:  // fcvtl
      if (u || scalar) undefined(c, i);
      if (size & 1) for (int k = 0; k < 2; k++) r.g[k] = (double)a.f[(q ? 2 : 0) + k];
      else for (int k = 0; k < 4; k++) r.f[k] = half_to_float(a.h[(q ? 4 : 0) + k]);
      break;
    case 0x16:  // fcvtn
      if (u || scalar || !(size & 1)) undefined(c, i);
      if (q) r.d[0] = old.d[0];
      for (int k = 0; k < 2; k++) r.f[(q ? 2 : 0) + k] = (float)a.g[k];
      break;
    default: {
      const bool dbl = size & 1, hi = size & 2;
      const int m = scalar ? 1 : dbl ? 2 : q ? 4 : 2;
      if (dbl && !q) undefined(c, i);
      for (int k = 0; k < m; k++) {
        const double x = dbl ? a.g[k] : (double)a.f[k];
        auto put = [&](double v) { if (dbl) r.g[k] = v; else r.f[k] = (float)v; };
        auto mask = [&](bool b) { if (dbl) r.d[k] = b ? ~(u64)0 : 0; else r.w[k] = b ? ~0u : 0; };
        auto integer = [&](Round w) { const u64 v = to_int(x, !u, dbl, w); if (dbl) r.d[k] = v; else r.w[k] = (u32)v; };
        switch (op) {
          case 0x0c: if (!hi) undefined(c, i); mask(u ? x >= 0 : x > 0); break;
          case 0x0d: if (!hi) undefined(c, i); mask(u ? x <= 0 : x == 0); break;
          case 0x0e: if (!hi || u) undefined(c, i); mask(x < 0); break;
          case 0x0f: if (!hi) undefined(c, i); put(u ? -x : std::fabs(x)); break;
          case 0x18: put(round_to(x, hi ? u ? rNearestEven : rPlus : u ? rAway : rNearestEven)); break;
          case 0x19: put(round_to(x, hi ? rZero : u ? rNearestEven : rMinus)); if (hi && u) put(round_to(x, rNearestEven)); break;
          case 0x1a: integer(hi ? rPlus : rNearestEven); break;
          case 0x1b: integer(hi ? rZero : rMinus); break;
          case 0x1c: if (hi) undefined(c, i); integer(rAway); break;
          case 0x1d:
            if (hi) undefined(c, i);
            if (dbl) r.g[k] = u ? (double)a.d[k] : (double)a.sd[k];
            else r.f[k] = u ? (float)a.w[k] : (float)a.sw[k];
            break;
          case 0x1f:
            if (!hi || !u) undefined(c, i);
            if (dbl) r.g[k] = std::sqrt(a.g[k]); else r.f[k] = std::sqrt(a.f[k]);
            break;
          default: undefined(c, i);
        }
      }
    }
  }
  c.v[d] = r;
}
void across(Cpu& c, u32 i) {
  const int q = bit(i, 30), u = bit(i, 29), size = bits(i, 23, 22), op = bits(i, 16, 12);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  const Vec a = c.v[n];
  Vec r = zero();
  const int cnt = lanes(q, size);
  if (op == 0x0c || op == 0x0f) {  // fmaxv and relatives
    if (!u || (size & 1) || !q) undefined(c, i);
    const bool mn = size & 2;
    float x = fmaxn(a.f[0], a.f[1], mn, op == 0x0c), y = fmaxn(a.f[2], a.f[3], mn, op == 0x0c);
    r.f[0] = fmaxn(x, y, mn, op == 0x0c);
    c.v[d] = r;
    return;
  }
  u64 acc = lane(a, size, 0);
  s64 sacc = slane(a, size, 0);
  if (size == 3) undefined(c, i);
  for (int k = 1; k < cnt; k++) {
    const u64 x = lane(a, size, k);
    const s64 s = slane(a, size, k);
    switch (op) {
      case 3: case 0x1b: acc += x; sacc += s; break;
      case 0x0a: if (x > acc) acc = x; if (s > sacc) sacc = s; break;
      case 0x1a: if (x < acc) acc = x; if (s < sacc) sacc = s; break;
      default: undefined(c, i);
    }
  }
  const u64 o = op == 0x1b ? acc : u ? acc : (u64)sacc;
  set_lane(r, op == 3 ? size + 1 : size, 0, o);
  c.v[d] = r;
}
void copy(Cpu& c, u32 i, bool scalar) {
  const int q = bit(i, 30), op = bit(i, 29), imm5 = bits(i, 20, 16), imm4 = bits(i, 14, 11);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  if (!(imm5 & 15)) undefined(c, i);
  const int size = __builtin_ctz(imm5), idx = imm5 >> (size + 1);
  if (scalar) { Vec r = zero(); set_lane(r, size, 0, lane(c.v[n], size, idx)); c.v[d] = r; return; }
  if (op) { set_lane(c.v[d], size, idx, lane(c.v[n], size, imm4 >> size)); return; }
  switch (imm4) {
    case 0: case 1: {
      const u64 x = imm4 ? X(c, n) : lane(c.v[n], size, idx);
      Vec r = zero();
      for (int k = 0; k < lanes(q, size); k++) set_lane(r, size, k, x);
      c.v[d] = r;
      return;
    }
    case 3: set_lane(c.v[d], size, idx, X(c, n)); return;
    case 5: setX(c, d, (u64)slane(c.v[n], size, idx), q); return;
    case 7: setX(c, d, lane(c.v[n], size, idx), q); return;
    default: undefined(c, i);
  }
}
void shift_imm(Cpu& c, u32 i, bool scalar) {
  const int q = scalar ? 1 : bit(i, 30), u = bit(i, 29), immh = bits(i, 22, 19), imm = bits(i, 22, 16), op = bits(i, 15, 11);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  const int size = 31 - __builtin_clz(immh), w = 8 << size;
  const Vec a = c.v[n], old = c.v[d];
  Vec r = zero();
  const int right = 2 * w - imm, left = imm - w;
  const int cnt = scalar ? 1 : lanes(q, size);
  if (op <= 0x0e) {
    for (int k = 0; k < cnt; k++) {
      const u64 x = lane(a, size, k), z = lane(old, size, k);
      const __int128 y = u ? (__int128)x : (__int128)slane(a, size, k);
      const u64 full = size == 3 ? ~(u64)0 : ((u64)1 << w) - 1;
      u64 o;
      switch (op) {
        case 0: o = (u64)(y >> right); break;
        case 2: o = z + (u64)(y >> right); break;
        case 4: o = (u64)((y + ((__int128)1 << (right - 1))) >> right); break;
        case 6: o = z + (u64)((y + ((__int128)1 << (right - 1))) >> right); break;
        case 8: { if (!u) undefined(c, i); const u64 m = right >= w ? 0 : full >> right; o = (z & ~m) | ((right >= 64 ? 0 : x >> right) & m); break; }  // sri
        case 10: {
          if (!u) { o = left >= 64 ? 0 : x << left; break; }
          const u64 m = (full << left) & full;
          o = (z & ~m) | (x << left);
          break;
        }
        case 12: o = sat((__int128)slane(a, size, k) << left, size, true); break;  // sqshlu
        case 14: o = sat(y << left, size, u); break;
        default: undefined(c, i);
      }
      set_lane(r, size, k, o);
    }
    c.v[d] = r;
    return;
  }
  if (op >= 0x10 && op <= 0x13) {  // narrowing
    if (size == 3) undefined(c, i);
    const int m = scalar ? 1 : 8 >> size, off = !scalar && q ? m : 0;
    if (!scalar && q) r.d[0] = old.d[0];
    for (int k = 0; k < m; k++) {
      const bool rnd = op & 1;
      u64 o;
      if (op < 0x12) {
        const __int128 x = u ? (__int128)slane(a, size + 1, k) : (__int128)lane(a, size + 1, k);
        const __int128 y = (x + (rnd ? (__int128)1 << (right - 1) : 0)) >> right;
        o = u ? sat(y, size, true) : (u64)y;
      } else {
        const __int128 x = u ? (__int128)lane(a, size + 1, k) : (__int128)slane(a, size + 1, k);
        o = sat((x + (rnd ? (__int128)1 << (right - 1) : 0)) >> right, size, u);
      }
      set_lane(r, size, off + k, o);
    }
    c.v[d] = r;
    return;
  }
  if (op == 0x14) {  // sshll, ushll
    if (size == 3 || scalar) undefined(c, i);
    const int m = 8 >> size, off = q ? m : 0;
    for (int k = 0; k < m; k++) set_lane(r, size + 1, k, (u ? lane(a, size, off + k) : (u64)slane(a, size, off + k)) << left);
    c.v[d] = r;
    return;
  }
  if ((op == 0x1c || op == 0x1f) && size >= 2) {  // fixed-point conversions
    for (int k = 0; k < cnt; k++) {
      if (op == 0x1c) {
        if (size == 3) r.g[k] = std::ldexp(u ? (double)a.d[k] : (double)a.sd[k], -right);
        else r.f[k] = std::ldexp(u ? (float)a.w[k] : (float)a.sw[k], -right);
      } else set_lane(r, size, k, to_int(size == 3 ? a.g[k] : (double)a.f[k], !u, size == 3, rZero, right));
    }
    c.v[d] = r;
    return;
  }
  undefined(c, i);
}
void modified_imm(Cpu& c, u32 i) {
  const int q = bit(i, 30), op = bit(i, 29), cmode = bits(i, 15, 12), d = bits(i, 4, 0);
  const u64 imm8 = bits(i, 18, 16) << 5 | bits(i, 9, 5);
  if (bit(i, 11)) undefined(c, i);
  u64 v = 0;
  bool invert = op, combine = false;
  auto rep = [](u64 x, int w) { u64 r = 0; for (int p = 0; p < 64; p += w) r |= x << p; return r; };
  if (cmode < 8) { v = rep(imm8 << (8 * (cmode >> 1)), 32); combine = cmode & 1; }
  else if (cmode < 12) { v = rep(imm8 << (8 * ((cmode >> 1) & 1)), 16); combine = cmode & 1; }
  else if (cmode == 12) v = rep(imm8 << 8 | 0xff, 32);
  else if (cmode == 13) v = rep(imm8 << 16 | 0xffff, 32);
  else if (cmode == 14) {
    if (!op) v = rep(imm8, 8);
    else { for (int k = 0; k < 8; k++) if (imm8 & (1u << k)) v |= (u64)0xff << (8 * k); }
    invert = false;
  } else {
    v = op ? fp_imm((u32)imm8, true) : rep(fp_imm((u32)imm8, false), 32);
    if (op && !q) undefined(c, i);
    invert = false;
  }
  Vec& t = c.v[d];
  if (combine) { for (int k = 0; k < 2; k++) t.d[k] = k && !q ? 0 : op ? t.d[k] & ~v : t.d[k] | v; return; }
  if (invert) v = ~v;
  t.d[0] = v;
  t.d[1] = q ? v : 0;
}
void by_element(Cpu& c, u32 i, bool scalar) {
  const int q = scalar ? 1 : bit(i, 30), u = bit(i, 29), size = bits(i, 23, 22), op = bits(i, 15, 12);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  const int h = bit(i, 11), l = bit(i, 21), mm = bit(i, 20), rm = bits(i, 19, 16);
  const Vec a = c.v[n], old = c.v[d];
  Vec r = zero();
  if (op == 1 || op == 5 || op == 9) {  // fmla, fmls, fmul
    if (size < 2) undefined(c, i);
    const bool dbl = size == 3;
    const int m = mm << 4 | rm;
    const int idx = dbl ? h : h << 1 | l;
    const int cnt = scalar ? 1 : dbl ? 2 : q ? 4 : 2;
    for (int k = 0; k < cnt; k++) {
      if (dbl) { const double y = c.v[m].g[idx]; r.g[k] = op == 9 ? a.g[k] * y : std::fma(op == 5 ? -a.g[k] : a.g[k], y, old.g[k]); }
      else { const float y = c.v[m].f[idx]; r.f[k] = op == 9 ? a.f[k] * y : std::fma(op == 5 ? -a.f[k] : a.f[k], y, old.f[k]); }
    }
    c.v[d] = r;
    return;
  }
  if ((op == 14) && size == 2) {  // sdot, udot
    const int m = mm << 4 | rm, idx = h << 1 | l;
    for (int k = 0; k < (q ? 4 : 2); k++) {
      u32 s = old.w[k];
      for (int t = 0; t < 4; t++) s += u ? (u32)a.b[4 * k + t] * c.v[m].b[4 * idx + t] : (u32)((s32)a.sb[4 * k + t] * c.v[m].sb[4 * idx + t]);
      r.w[k] = s;
    }
    c.v[d] = r;
    return;
  }
  if (size != 1 && size != 2) undefined(c, i);
  const int m = size == 1 ? rm : mm << 4 | rm, idx = size == 1 ? h << 2 | l << 1 | mm : h << 1 | l;
  const bool longer = op == 2 || op == 6 || op == 10 || op == 3 || op == 7 || op == 11;
  const __int128 y = (op == 2 || op == 6 || op == 10) && u ? (__int128)lane(c.v[m], size, idx) : (__int128)slane(c.v[m], size, idx);
  const int cnt = scalar ? 1 : longer ? 8 >> size : lanes(q, size), off = longer && q && !scalar ? 8 >> size : 0;
  for (int k = 0; k < cnt; k++) {
    const __int128 x = (op == 2 || op == 6 || op == 10) && u ? (__int128)lane(a, size, off + k) : (__int128)slane(a, size, off + k);
    u64 o;
    switch (op) {
      case 0: if (!u) undefined(c, i); o = lane(old, size, k) + (u64)(x * y); break;
      case 4: if (!u) undefined(c, i); o = lane(old, size, k) - (u64)(x * y); break;
      case 8: if (u) undefined(c, i); o = (u64)(x * y); break;
      case 2: o = lane(old, size + 1, k) + (u64)(x * y); break;
      case 6: o = lane(old, size + 1, k) - (u64)(x * y); break;
      case 10: o = (u64)(x * y); break;
      case 12: case 13:
        if (u) undefined(c, i);
        o = sat((2 * x * y + (op == 13 ? (__int128)1 << ((8 << size) - 1) : 0)) >> (8 << size), size, false);
        break;
      case 11: if (u) undefined(c, i); o = sat(2 * x * y, size + 1, false); break;
      case 3: case 7: {
        if (u) undefined(c, i);
        const u64 p = sat(2 * x * y, size + 1, false);
        const s64 ps = size == 1 ? (s64)(s32)p : (s64)p;
        o = sat((__int128)slane(old, size + 1, k) + (op == 3 ? (__int128)ps : -(__int128)ps), size + 1, false);
        break;
      }
      default: undefined(c, i);
    }
    set_lane(r, longer ? size + 1 : size, k, o);
  }
  c.v[d] = r;
}
void simd(Cpu& c, u32 i) {
  const bool scalar = bit(i, 28);
  if (scalar && !bit(i, 30)) undefined(c, i);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16), q = bit(i, 30);
  if (!bit(i, 24)) {  // x1110
    if (bit(i, 21)) {
      if (bit(i, 10)) return three_same(c, i, scalar);
      if (bits(i, 11, 10) == 0) {
        if (scalar) undefined(c, i);
        return three_different(c, i);
      }
      if (bits(i, 20, 17) == 0) return two_misc(c, i, scalar);
      if (bits(i, 20, 17) == 8) {
        if (!scalar) return across(c, i);
        const int op = bits(i, 16, 12), size = bits(i, 23, 22);  // scalar pairwise
        const Vec a = c.v[n];
        Vec r = zero();
        if (op == 0x1b && !bit(i, 29) && size == 3) r.d[0] = a.d[0] + a.d[1];
        else if (bit(i, 29) && op == 0x0d && !(size & 2)) { if (size & 1) r.g[0] = a.g[0] + a.g[1]; else r.f[0] = a.f[0] + a.f[1]; }
        else if (bit(i, 29) && (op == 0x0c || op == 0x0f)) {
          const bool mn = size & 2, num = op == 0x0c;
          if (size & 1) r.g[0] = fmaxn(a.g[0], a.g[1], mn, num); else r.f[0] = fmaxn(a.f[0], a.f[1], mn, num);
        } else undefined(c, i);
        c.v[d] = r;
        return;
      }
      undefined(c, i);
    }
    if (bit(i, 15)) {  // three same, extra
      if (bit(i, 10) && !scalar && bits(i, 14, 11) == 2 && bits(i, 23, 22) == 2) {
        Vec r = zero();
        const bool u = bit(i, 29);
        for (int k = 0; k < (q ? 4 : 2); k++) {
          u32 s = c.v[d].w[k];
          for (int t = 0; t < 4; t++) s += u ? (u32)c.v[n].b[4 * k + t] * c.v[m].b[4 * k + t] : (u32)((s32)c.v[n].sb[4 * k + t] * c.v[m].sb[4 * k + t]);
          r.w[k] = s;
        }
        c.v[d] = r;
        return;
      }
      undefined(c, i);
    }
    if (bit(i, 29) && !bit(i, 10) && bits(i, 23, 22) == 0 && !scalar) {  // ext
      const int pos = bits(i, 14, 11), w = q ? 16 : 8;
      Vec r = zero();
      for (int k = 0; k < w; k++) r.b[k] = pos + k < w ? c.v[n].b[pos + k] : c.v[m].b[pos + k - w];
      c.v[d] = r;
      return;
    }
    if (bit(i, 10)) {
      if (bits(i, 23, 21) == 0) return copy(c, i, scalar);
      undefined(c, i);
    }
    if (scalar || bit(i, 29)) undefined(c, i);
    if (bits(i, 11, 10) == 0 && bits(i, 23, 22) == 0) {  // tbl, tbx
      const int len = bits(i, 14, 13) + 1, w = q ? 16 : 8;
      Vec r = zero();
      for (int k = 0; k < w; k++) {
        const int idx = c.v[m].b[k];
        r.b[k] = idx < 16 * len ? c.v[(n + idx / 16) % 32].b[idx % 16] : bit(i, 12) ? c.v[d].b[k] : 0;
      }
      c.v[d] = r;
      return;
    }
    if (bits(i, 11, 10) == 2) {  // permutations
      const int size = bits(i, 23, 22), op = bits(i, 14, 12), cnt = lanes(q, size);
      const Vec a = c.v[n], b = c.v[m];
      Vec r = zero();
      const int part = op >> 2;
      for (int k = 0; k < cnt; k++) {
        u64 o;
        switch (op & 3) {
          case 1: { const int j = 2 * k + part; o = j < cnt ? lane(a, size, j) : lane(b, size, j - cnt); break; }
          case 2: o = lane(k & 1 ? b : a, size, (k & ~1) + part); break;
          case 3: o = lane(k & 1 ? b : a, size, k / 2 + part * (cnt / 2)); break;
          default: undefined(c, i);
        }
        set_lane(r, size, k, o);
      }
      c.v[d] = r;
      return;
    }
    undefined(c, i);
  }
  if (bit(i, 10)) {
    if (bit(i, 23)) undefined(c, i);
    if (bits(i, 22, 19) == 0) { if (scalar) undefined(c, i); return modified_imm(c, i); }
    return shift_imm(c, i, scalar);
  }
  by_element(c, i, scalar);
}
void simd_memory(Cpu& c, u32 i) {
  const int q = bit(i, 30), load_ = bit(i, 22), t = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16);
  const bool post = bit(i, 23), single = bit(i, 24);
  u64 a = c.x[n];
  const u64 start = a;
  if (!single) {
    const int op = bits(i, 15, 12), size = bits(i, 11, 10);
    int rpt, sel;
    switch (op) {
      case 0: rpt = 1; sel = 4; break;
      case 2: rpt = 4; sel = 1; break;
      case 4: rpt = 1; sel = 3; break;
      case 6: rpt = 3; sel = 1; break;
      case 7: rpt = 1; sel = 1; break;
      case 8: rpt = 1; sel = 2; break;
      case 10: rpt = 2; sel = 1; break;
      default: undefined(c, i);
    }
    if (sel == 1) {
      for (int k = 0; k < rpt; k++, a += q ? 16 : 8)
        if (load_) vload(c, (t + k) % 32, a, q ? 4 : 3); else vstore(c, (t + k) % 32, a, q ? 4 : 3);
    } else {
      if (load_) for (int s = 0; s < sel; s++) c.v[(t + s) % 32] = zero();
      for (int e = 0; e < lanes(q, size); e++)
        for (int s = 0; s < sel; s++, a += 1u << size) {
          if (load_) set_lane(c.v[(t + s) % 32], size, e, load(a, size));
          else store(a, size, lane(c.v[(t + s) % 32], size, e));
        }
    }
  } else {
    const int op = bits(i, 15, 13), s = bit(i, 12), size = bits(i, 11, 10), r = bit(i, 21);
    const int sel = ((op & 1) << 1 | r) + 1;
    int scale = op >> 1, idx = 0;
    if (scale == 3) {
      if (!load_ || s) undefined(c, i);
      for (int k = 0; k < sel; k++, a += 1u << size) {
        const u64 v = load(a, size);
        Vec w = zero();
        for (int e = 0; e < lanes(q, size); e++) set_lane(w, size, e, v);
        c.v[(t + k) % 32] = w;
      }
    } else {
      if (scale == 0) idx = q << 3 | s << 2 | size;
      else if (scale == 1) idx = q << 2 | s << 1 | size >> 1;
      else if (size & 1) { scale = 3; idx = q; }
      else idx = q << 1 | s;
      for (int k = 0; k < sel; k++, a += 1u << scale) {
        if (load_) set_lane(c.v[(t + k) % 32], scale, idx, load(a, scale));
        else store(a, scale, lane(c.v[(t + k) % 32], scale, idx));
      }
    }
  }
  if (post) c.x[n] = start + (m == 31 ? a - start : c.x[m]);
}
void memory(Cpu& c, u32 i) {
  const int t = bits(i, 4, 0), n = bits(i, 9, 5);
  const u32 g = bits(i, 29, 27);
  const bool vec = bit(i, 26);
  if (g == 1 && vec) {
    if (bit(i, 31)) undefined(c, i);
    return simd_memory(c, i);
  }
  if (g == 1) {  // exclusive and ordered
    if (bit(i, 24)) undefined(c, i);
    const int size = bits(i, 31, 30), o2 = bit(i, 23), l = bit(i, 22), o1 = bit(i, 21), s = bits(i, 20, 16);
    const u64 a = c.x[n];
    if (o1) undefined(c, i);
    if (o2) { if (l) setX(c, t, load(a, size), true); else store(a, size, X(c, t)); return; }
    if (l) { setX(c, t, load(a, size), true); c.excl = a; c.excl_size = size + 1; return; }
    const bool ok = c.excl_size == size + 1 && c.excl == a;
    if (ok) store(a, size, X(c, t));
    c.excl_size = 0;
    setX(c, s, ok ? 0 : 1, false);
    return;
  }
  if (g == 3) {  // literal
    if (bit(i, 24)) undefined(c, i);
    const u64 a = c.pc + (u64)(sext(bits(i, 23, 5), 19) * 4);
    const int opc = bits(i, 31, 30);
    if (vec) { if (opc == 3) undefined(c, i); vload(c, t, a, opc + 2); return; }
    if (opc == 0) setX(c, t, ld<u32>(a), false);
    else if (opc == 1) setX(c, t, ld<u64>(a), true);
    else if (opc == 2) setX(c, t, (u64)(s64)(s32)ld<u32>(a), true);
    return;
  }
  if (g == 5) {  // pairs
    const int opc = bits(i, 31, 30), mode = bits(i, 24, 23), l = bit(i, 22), t2 = bits(i, 14, 10);
    const int lg = vec ? opc + 2 : (opc & 2) ? 3 : 2;
    if (opc == 3 || (opc == 1 && !vec && (!l || mode == 0))) undefined(c, i);
    const s64 off = sext(bits(i, 21, 15), 7) << lg;
    const u64 base = c.x[n];
    const u64 a = mode == 1 ? base : base + (u64)off;
    if (vec) {
      if (l) { vload(c, t, a, lg); vload(c, t2, a + (1u << lg), lg); }
      else { vstore(c, t, a, lg); vstore(c, t2, a + (1u << lg), lg); }
    } else if (l) {
      u64 p = load(a, lg), q = load(a + (1u << lg), lg);
      if (opc == 1) { p = (u64)(s64)(s32)p; q = (u64)(s64)(s32)q; }
      setX(c, t, p, true);
      setX(c, t2, q, true);
    } else {
      store(a, lg, X(c, t));
      store(a + (1u << lg), lg, X(c, t2));
    }
    if (mode == 1 || mode == 3) c.x[n] = base + (u64)off;
    return;
  }
  if (g == 7) {
    const int size = bits(i, 31, 30), opc = bits(i, 23, 22);
    const int lg = vec ? (opc & 2) << 1 | size : size;
    if (vec && lg > 4) undefined(c, i);
    u64 base = c.x[n], a = base, wb = base;
    bool write_back = false;
    if (bit(i, 24)) a = base + ((u64)bits(i, 21, 10) << lg);
    else if (!bit(i, 21)) {
      const s64 off = sext(bits(i, 20, 12), 9);
      switch (bits(i, 11, 10)) {
        case 0: case 2: a = base + (u64)off; break;
        case 1: wb = base + (u64)off; write_back = true; break;
        case 3: a = wb = base + (u64)off; write_back = true; break;
      }
    } else {
      if (bits(i, 11, 10) != 2) {
        if (vec || bits(i, 11, 10) != 0) undefined(c, i);
        // atomic memory operations
        const int s = bits(i, 20, 16), op = bits(i, 14, 12);
        const u64 old = load(a, size), x = X(c, s);
        u64 v;
        if (bit(i, 15)) { if (op) undefined(c, i); v = x; }
        else switch (op) {
          case 0: v = old + x; break;
          case 1: v = old & ~x; break;
          case 2: v = old ^ x; break;
          case 3: v = old | x; break;
          default: undefined(c, i);
        }
        store(a, size, v);
        setX(c, t, old, true);
        return;
      }
      a = base + extended(X(c, bits(i, 20, 16)), bits(i, 15, 13), bit(i, 12) ? lg : 0);
    }
    if (vec) {
      if (opc & 1) vload(c, t, a, lg); else vstore(c, t, a, lg);
    } else {
      switch (opc) {
        case 0: store(a, size, X(c, t)); break;
        case 1: setX(c, t, load(a, size), true); break;
        case 2:
          if (size == 3) break;  // prefetch
          setX(c, t, (u64)sext(load(a, size), 8 << size), true);
          break;
        default:
          if (size >= 2) undefined(c, i);
          setX(c, t, (u64)sext(load(a, size), 8 << size), false);
      }
    }
    if (write_back) c.x[n] = wb;
    return;
  }
  undefined(c, i);
}
void dp_imm(Cpu& c, u32 i) {
  const bool sf = bit(i, 31);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5);
  switch (bits(i, 25, 23)) {
    case 0: case 1: {
      const s64 imm = sext((u64)bits(i, 23, 5) << 2 | bits(i, 30, 29), 21);
      setX(c, d, sf ? (c.pc & ~(u64)4095) + (u64)(imm * 4096) : c.pc + (u64)imm, true);
      return;
    }
    case 2: {
      u64 imm = bits(i, 21, 10);
      if (bit(i, 22)) imm <<= 12;
      const bool s = bit(i, 29), sub = bit(i, 30);
      const u64 r = sub ? add_flags(c, c.x[n], ~imm, true, sf, s) : add_flags(c, c.x[n], imm, false, sf, s);
      if (s) setX(c, d, r, sf); else setXsp(c, d, r, sf);
      return;
    }
    case 4: {
      u64 w, t;
      if (!bit_masks(bit(i, 22), bits(i, 15, 10), bits(i, 21, 16), sf, &w, &t)) undefined(c, i);
      const u64 a = X(c, n);
      const int op = bits(i, 30, 29);
      u64 r = op == 0 || op == 3 ? a & w : op == 1 ? a | w : a ^ w;
      if (!sf) r = (u32)r;
      if (op == 3) { c.n = sf ? r >> 63 : (r >> 31) & 1; c.z = r == 0; c.c = c.o = false; setX(c, d, r, sf); }
      else setXsp(c, d, r, sf);
      return;
    }
    case 5: {
      const int hw = bits(i, 22, 21) * 16, op = bits(i, 30, 29);
      const u64 imm = (u64)bits(i, 20, 5) << hw;
      if (op == 0) setX(c, d, ~imm, sf);
      else if (op == 2) setX(c, d, imm, sf);
      else if (op == 3) setX(c, d, (X(c, d) & ~((u64)0xffff << hw)) | imm, sf);
      else undefined(c, i);
      return;
    }
    case 6: {
      const int immr = bits(i, 21, 16), imms = bits(i, 15, 10), op = bits(i, 30, 29);
      u64 w, t;
      if (op == 3 || !bit_masks(bit(i, 22), imms, immr, sf, &w, &t)) undefined(c, i);
      const u64 src = sf ? X(c, n) : (u32)X(c, n);
      const u64 ror = shifted(src, 3, immr, sf);
      const u64 dst = op == 1 ? X(c, d) : 0;
      const u64 bot = (dst & ~w) | (ror & w);
      const u64 top = op == 0 ? (((src >> imms) & 1) ? ~(u64)0 : 0) : dst;
      setX(c, d, (top & ~t) | (bot & t), sf);
      return;
    }
    case 7: {
      const int lsb = bits(i, 15, 10), m = bits(i, 20, 16);
      const u64 hi = X(c, n), lo = X(c, m);
      if (sf) setX(c, d, lsb ? (lo >> lsb) | (hi << (64 - lsb)) : lo, true);
      else setX(c, d, lsb ? ((u32)lo >> lsb) | ((u32)hi << (32 - lsb)) : (u32)lo, false);
      return;
    }
    default: undefined(c, i);
  }
}
void dp_reg(Cpu& c, u32 i) {
  const bool sf = bit(i, 31);
  const int d = bits(i, 4, 0), n = bits(i, 9, 5), m = bits(i, 20, 16);
  const u32 g = bits(i, 28, 24);
  if (g == 0x0a) {
    u64 b = shifted(X(c, m), bits(i, 23, 22), bits(i, 15, 10), sf);
    if (bit(i, 21)) b = ~b;
    const u64 a = X(c, n);
    const int op = bits(i, 30, 29);
    u64 r = op == 0 || op == 3 ? a & b : op == 1 ? a | b : a ^ b;
    if (!sf) r = (u32)r;
    if (op == 3) { c.n = sf ? r >> 63 : (r >> 31) & 1; c.z = r == 0; c.c = c.o = false; }
    setX(c, d, r, sf);
    return;
  }
  if (g == 0x0b) {
    const bool sub = bit(i, 30), s = bit(i, 29), ext = bit(i, 21);
    const u64 a = ext ? c.x[n] : X(c, n);
    const u64 b = ext ? extended(X(c, m), bits(i, 15, 13), bits(i, 12, 10)) : shifted(X(c, m), bits(i, 23, 22), bits(i, 15, 10), sf);
    const u64 r = sub ? add_flags(c, a, ~b, true, sf, s) : add_flags(c, a, b, false, sf, s);
    if (ext && !s) setXsp(c, d, r, sf); else setX(c, d, r, sf);
    return;
  }
  if (g == 0x1b) {
    const int a = bits(i, 14, 10), op = bits(i, 23, 21);
    const bool o0 = bit(i, 15);
    u64 r;
    switch (op) {
      case 0: r = X(c, n) * X(c, m); r = o0 ? X(c, a) - r : X(c, a) + r; setX(c, d, r, sf); return;
      case 1: r = (u64)((s64)(s32)X(c, n) * (s64)(s32)X(c, m)); break;
      case 5: r = (u64)(u32)X(c, n) * (u32)X(c, m); break;
      case 2: setX(c, d, (u64)(((__int128)(s64)X(c, n) * (s64)X(c, m)) >> 64), true); return;
      case 6: setX(c, d, (u64)(((unsigned __int128)X(c, n) * X(c, m)) >> 64), true); return;
      default: undefined(c, i);
    }
    setX(c, d, o0 ? X(c, a) - r : X(c, a) + r, true);
    return;
  }
  if (g != 0x1a) undefined(c, i);
  switch (bits(i, 23, 21)) {
    case 0: {
      if (bits(i, 15, 10)) undefined(c, i);
      const bool sub = bit(i, 30), s = bit(i, 29);
      setX(c, d, add_flags(c, X(c, n), sub ? ~X(c, m) : X(c, m), c.c, sf, s), sf);
      return;
    }
    case 2: {
      const u64 b = bit(i, 11) ? (u64)m : X(c, m);
      if (cond(c, bits(i, 15, 12))) {
        if (bit(i, 30)) add_flags(c, X(c, n), ~b, true, sf, true); else add_flags(c, X(c, n), b, false, sf, true);
      } else { c.n = bit(i, 3); c.z = bit(i, 2); c.c = bit(i, 1); c.o = bit(i, 0); }
      return;
    }
    case 4: {
      u64 r;
      if (cond(c, bits(i, 15, 12))) r = X(c, n);
      else {
        r = X(c, m);
        if (bit(i, 30)) r = ~r;
        if (bit(i, 10)) r += 1;
      }
      setX(c, d, r, sf);
      return;
    }
    case 6: {
      const u64 a = X(c, n);
      if (bit(i, 30)) {  // one source
        const int op = bits(i, 15, 10);
        const u64 v = sf ? a : (u32)a;
        u64 r = 0;
        const int w = sf ? 64 : 32;
        switch (op) {
          case 0: for (int k = 0; k < w; k++) if ((v >> k) & 1) r |= (u64)1 << (w - 1 - k); break;
          case 1: r = ((v & 0xff00ff00ff00ff00ull) >> 8) | ((v & 0x00ff00ff00ff00ffull) << 8); break;
          case 2: r = sf ? (u64)__builtin_bswap32((u32)v) | (u64)__builtin_bswap32((u32)(v >> 32)) << 32 : __builtin_bswap32((u32)v); break;
          case 3: if (!sf) undefined(c, i); r = __builtin_bswap64(v); break;
          case 4: r = v ? (u64)(__builtin_clzll(v) - (64 - w)) : (u64)w; break;
          case 5: { const s64 s = sf ? (s64)v : (s64)(s32)v; const u64 y = (u64)(s < 0 ? ~s : s); r = (y ? (u64)(__builtin_clzll(y) - (64 - w)) : (u64)w) - 1; break; }
          default: undefined(c, i);
        }
        setX(c, d, r, sf);
        return;
      }
      const u64 b = X(c, m);
      switch (bits(i, 15, 10)) {
        case 2: setX(c, d, sf ? (b ? a / b : 0) : ((u32)b ? (u32)a / (u32)b : 0), sf); return;
        case 3:
          if (sf) setX(c, d, !b ? 0 : b == ~(u64)0 ? 0 - a : (u64)((s64)a / (s64)b), true);
          else setX(c, d, !(u32)b ? 0 : (u32)b == ~0u ? 0 - (u32)a : (u32)((s32)a / (s32)b), false);
          return;
        case 8: setX(c, d, shifted(a, 0, (int)(b & (sf ? 63 : 31)), sf), sf); return;
        case 9: setX(c, d, shifted(a, 1, (int)(b & (sf ? 63 : 31)), sf), sf); return;
        case 10: setX(c, d, shifted(a, 2, (int)(b & (sf ? 63 : 31)), sf), sf); return;
        case 11: setX(c, d, shifted(a, 3, (int)(b & (sf ? 63 : 31)), sf), sf); return;
        default: undefined(c, i);
      }
    }
    default: undefined(c, i);
  }
}
bool branch(Cpu& c, u32 i) {  // true: the program counter was set
  if (bits(i, 30, 26) == 5) {
    if (bit(i, 31)) c.x[30] = c.pc + 4;
    c.pc += (u64)(sext(bits(i, 25, 0), 26) * 4);
    return true;
  }
  if (bits(i, 30, 25) == 0x1a) {
    const u64 v = bit(i, 31) ? X(c, bits(i, 4, 0)) : (u32)X(c, bits(i, 4, 0));
    if ((v == 0) != (bool)bit(i, 24)) { c.pc += (u64)(sext(bits(i, 23, 5), 19) * 4); return true; }
    return false;
  }
  if (bits(i, 30, 25) == 0x1b) {
    const int b = bit(i, 31) << 5 | bits(i, 23, 19);
    if (((X(c, bits(i, 4, 0)) >> b) & 1) == bit(i, 24)) { c.pc += (u64)(sext(bits(i, 18, 5), 14) * 4); return true; }
    return false;
  }
  if (bits(i, 31, 24) == 0x54) {
    if (bit(i, 4)) undefined(c, i);
    if (cond(c, bits(i, 3, 0))) { c.pc += (u64)(sext(bits(i, 23, 5), 19) * 4); return true; }
    return false;
  }
  if (bits(i, 31, 25) == 0x6b) {
    const int n = bits(i, 9, 5), op = bits(i, 24, 21);
    if (bits(i, 20, 16) != 31 || bits(i, 15, 10)) undefined(c, i);
    const u64 to = X(c, n);
    if (op > 2) undefined(c, i);
    if (op == 1) c.x[30] = c.pc + 4;
    c.pc = to;
    return true;
  }
  if (bits(i, 31, 24) == 0xd4) g_hooks.stop("the code stopped itself (brk)", c.pc, i, false);
  if (bits(i, 31, 12) == 0xd5032 || bits(i, 31, 12) == 0xd5033) return false;  // hints and barriers
  undefined(c, i);
}
}  // namespace
void step(Cpu& c) {
  u32 i;
  memcpy(&i, (const void*)c.pc, 4);
  c.steps++;
  switch (bits(i, 28, 25)) {
    case 8: case 9: dp_imm(c, i); break;
    case 10: case 11: if (branch(c, i)) return; break;
    case 4: case 6: case 12: case 14: memory(c, i); break;
    case 5: case 13: dp_reg(c, i); break;
    case 7: case 15:
      if (bits(i, 28, 24) == 0x1e || bits(i, 28, 24) == 0x1f) {
        // scalar floating point has bit 30 clear, scalar SIMD has it set
        if (!bit(i, 30) && !bit(i, 29)) { fp(c, i); break; }
      }
      if (bit(i, 31)) undefined(c, i);
      simd(c, i);
      break;
    default: undefined(c, i);
  }
  c.pc += 4;
}
}  // namespace armsim
