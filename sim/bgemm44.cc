// Products through the 4x4 packing routine that the Arm kernels share: the
// packing code, layouts and driver are real, only the kernel layout is chosen
// here, so that the portable kernel consumes what the 4x4 routine packed.
#include <string.h>
#include <vector>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#include "larq_compute_engine/core/bgemm/bgemm.h"
#include "world.h"
namespace lcesim {
namespace {
using compute_engine::core::TBitpacked;
using compute_engine::core::bconv2d::OutputTransform;
template <class Dst, int LhsCols>
struct Params44 {
  using AccumScalar = std::int32_t;
  using DstScalar = Dst;
  OutputTransform<Dst> output_transform;
  using StandardCppKernelLhsLayout = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, LhsCols>;
  using StandardCppKernelRhsLayout = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>;
};
std::vector<TBitpacked> words(std::size_t n, Rng& r) {
  std::vector<TBitpacked> v(n);
  const int style = (int)r.below(3);
  for (auto& x : v) x = style == 0 ? (TBitpacked)r.next() : style == 1 ? (TBitpacked)(r.next() & r.next()) : (TBitpacked)(r.next() | r.next());
  return v;
}
template <class Dst, int LhsCols>
void product(const TBitpacked* lhs, const TBitpacked* rhs, int rows, int cols, int depth, Dst* dst, int dst_rows,
             const OutputTransform<Dst>& t, ruy::Ctx* ctx, bool cache) {
  ruy::Mat<TBitpacked> l, r;
  ruy::Mat<Dst> d;
  l.layout.rows = rows; l.layout.cols = depth; l.layout.stride = depth; l.layout.order = ruy::Order::kRowMajor;
  l.data = lhs;
  if (cache) l.cache_policy = ruy::CachePolicy::kAlwaysCache;
  r.layout.rows = depth; r.layout.cols = cols; r.layout.stride = depth; r.layout.order = ruy::Order::kColMajor;
  r.data = rhs;
  d.layout.rows = dst_rows; d.layout.cols = cols; d.layout.stride = dst_rows; d.layout.order = ruy::Order::kColMajor;
  d.data = dst;
  Params44<Dst, LhsCols> mp;
  mp.output_transform = t;
  ruy::TrMulParams p;
  compute_engine::core::bgemm::PopulateBGemmTrMulParams<ruy::Path::kStandardCpp>(ruy::Transpose(l), r, d, mp, &p);
  ruy::PreparePackedMatrices(ctx, &p);
  ruy::TrMul(ctx, &p);
  ctx->GetMainAllocator()->FreeAll();
}
}  // namespace
void direct_products(Rng& r) {
  const int rows = r.range(1, 70), cols = r.range(1, 40), depth = r.range(1, 23);
  std::vector<TBitpacked> lv = words((std::size_t)rows * depth, r), rv = words((std::size_t)cols * depth, r);
  auto place = [&](const std::vector<TBitpacked>& v) {
    char* p = arena_alloc(v.size() * 4, r);
    memcpy(p, v.data(), v.size() * 4);
    return (TBitpacked*)p;
  };
  TBitpacked* lhs = place(lv);
  TBitpacked* rhs = place(rv);
  std::vector<std::int32_t> acc((std::size_t)rows * cols);
  for (int j = 0; j < cols; j++)
    for (int i = 0; i < rows; i++) {
      int a = 0;
      for (int k = 0; k < depth; k++) a += __builtin_popcount((std::uint32_t)(lv[(std::size_t)i * depth + k] ^ rv[(std::size_t)j * depth + k]));
      acc[(std::size_t)j * rows + i] = a;
    }
  ruy::Context context;
  context.set_max_num_threads(r.pick({1, 2, 3, 4, 8}));
  ruy::Ctx* ctx = ruy::get_ctx(&context);
  const bool cache = r.chance(1, 2);
  const bool bits = r.chance(1, 2);
  const int opw = (rows + 31) / 32;
  const std::size_t out_bytes = bits ? (std::size_t)cols * opw * 4 : (std::size_t)rows * cols * 4;
  OpScope sc;
  sc.op = "BGemm(4x4)";
  char* first = nullptr;
  for (int round = 0; round < 2; round++) {
    char* out = arena_alloc(out_bytes, r);
    sc.ranges = {{(std::uintptr_t)lhs, (std::uintptr_t)lhs + lv.size() * 4, kR, 0},
                 {(std::uintptr_t)rhs, (std::uintptr_t)rhs + rv.size() * 4, kR, 1},
                 {(std::uintptr_t)out, (std::uintptr_t)out + out_bytes, kR | kW, 2}};
    if (bits) {
      std::vector<std::int32_t> thr(rows + 4);
      for (auto& t : thr) t = depth * 16 + r.range(-6, 6);
      OutputTransform<TBitpacked> t;
      t.thresholds = thr.data();
      {
        OpSection op(&sc);
        product<TBitpacked, 32>(lhs, rhs, rows, cols, depth, (TBitpacked*)out, rows, t, ctx, cache);
      }
      for (int j = 0; j < cols; j++)
        for (int w = 0; w < opw; w++) {
          std::uint32_t want = 0;
          for (int b = 0; b < 32 && w * 32 + b < rows; b++) want |= (std::uint32_t)(acc[(std::size_t)j * rows + w * 32 + b] > thr[w * 32 + b]) << b;
          if (((std::uint32_t*)out)[(std::size_t)j * opw + w] != want)
            violation("direct 4x4 product: word %d of column %d is %08x instead of %08x (%dx%dx%d)", w, j, ((std::uint32_t*)out)[(std::size_t)j * opw + w], want, rows, depth, cols);
        }
    } else {
      std::vector<float> mul(rows + 4), bias(rows + 4);
      for (auto& m : mul) m = r.range(-16, 16) / 8.0f;
      for (auto& b : bias) b = r.range(-100, 100) / 4.0f;
      OutputTransform<float> t;
      t.clamp_min = INT32_MIN;
      t.clamp_max = INT32_MAX;
      t.multiplier = mul.data();
      t.bias = bias.data();
      {
        OpSection op(&sc);
        product<float, 4>(lhs, rhs, rows, cols, depth, (float*)out, rows, t, ctx, cache);
      }
      for (int j = 0; j < cols; j++)
        for (int i = 0; i < rows; i++) {
          const float want = (float)(acc[(std::size_t)j * rows + i] << 1) * mul[i] + bias[i];
          if (((float*)out)[(std::size_t)j * rows + i] != want)
            violation("direct 4x4 product: element (%d,%d) is %g instead of %g (%dx%dx%d)", i, j, (double)((float*)out)[(std::size_t)j * rows + i], (double)want, rows, depth, cols);
        }
    }
    count(cDirectProducts);
    first = out;
  }
  (void)first;
}
}  // namespace lcesim
