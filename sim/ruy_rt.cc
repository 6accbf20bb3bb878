// Simulated ruy runtime: allocator, prepacked cache, thread pool and the
// blocked matrix-multiplication driver.  Blocks, task counts and their order
// come from the run's seed; the packing and kernel functions are the real ones.
#include <algorithm>
#include <memory>
#include <new>
#include <vector>
#include "lcesim.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/create_trmul_params.h"
#include "ruy/ctx.h"
#include "ruy/prepare_packed_matrices.h"
#include "ruy/trmul.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
using namespace lcesim;
namespace ruy {
Allocator::~Allocator() { FreeAll(); }
void* Allocator::AllocateBytes(std::ptrdiff_t n) {
  SimSection s;
  long& f = g_st.faults.ruy_in;
  if (f >= 0 && f-- == 0) {
    g_st.faults.fired = true;
    count(cFaultRuyAlloc);
    trace("  fault: ruy allocation of %ld bytes fails", (long)n);
    throw std::bad_alloc();
  }
  void* p = heap_alloc(n, 1);
  blocks_.push_back(p);
  return p;
}
void Allocator::FreeAll() {
  SimSection s;
  for (void* p : blocks_) heap_free(p);
  blocks_.clear();
}
PrepackedCache::~PrepackedCache() { Clear(); }
void PrepackedCache::Eject(std::list<Entry>::iterator it) {
  heap_free(it->packed.data);
  heap_free(it->packed.sums);
  bytes_ -= it->bytes;
  entries_.erase(it);
}
void PrepackedCache::Clear() {
  SimSection s;
  while (!entries_.empty()) Eject(entries_.begin());
}
void PrepackedCache::EjectSome(std::uint64_t pick) {
  SimSection s;
  if (entries_.empty()) return;
  auto it = entries_.begin();
  std::advance(it, pick % entries_.size());
  Eject(it);
  count(cCacheEvictions);
}
PrepackedCache::Action PrepackedCache::Get(const void* src, PEMat* packed) {
  stamp_++;
  for (auto& e : entries_)
    if (e.src == src && e.packed.layout == packed->layout && e.packed.zero_point == packed->zero_point) {
      packed->data = e.packed.data;
      packed->sums = e.packed.sums;
      e.stamp = stamp_;
      return Action::kGotExistingEntry;
    }
  const std::size_t bytes = DataBytes(*packed) + SumsBytes(*packed);
  while (!entries_.empty() && bytes_ + bytes > max_bytes_) {
    auto lru = entries_.begin();
    for (auto it = entries_.begin(); it != entries_.end(); ++it)
      if (it->stamp < lru->stamp) lru = it;
    Eject(lru);
    count(cCacheEvictions);
  }
  packed->data = heap_alloc(DataBytes(*packed), 2);
  packed->sums = heap_alloc(SumsBytes(*packed), 2);
  bytes_ += bytes;
  entries_.push_back(Entry{src, *packed, stamp_, bytes});
  return Action::kInsertedNewEntry;
}
Ctx::Ctx() : cache_(g_st.knobs.cache_bytes ? g_st.knobs.cache_bytes : (std::size_t)1 << 28) {}
Ctx::~Ctx() {}
Context::Context() : impl_(new Ctx) {}
Context::~Context() { delete impl_; }
int Context::max_num_threads() const { return impl_->max_num_threads(); }
void Context::set_max_num_threads(int v) { impl_->set_max_num_threads(v); }
void Context::ClearPrepackedCache() { impl_->ClearPrepackedCache(); }
int lcesim_packed_stride(int rows, int kernel_rows, int size) {
  if (((std::size_t)rows * size) % 1024 == 0) return rows + 64 / size;
  const int sel = mix(g_cfg.seed, rows) % 4;
  return sel == 0 ? rows + kernel_rows * 4 : rows;
}
static void run_pack(TrMulParams* p, Side side, int start, int end) {
  count(side == Side::kLhs ? cPacksLhs : cPacksRhs);
  OpSection op(self()->scope);
  p->RunPack(side, Tuning::kAuto, start, end);
}
static void run_kernel(TrMulParams* p, int r0, int r1, int c0, int c1) {
  count(cBlocks);
  OpSection op(self()->scope);
  p->RunKernel(Tuning::kAuto, SidePair<int>(r0, c0), SidePair<int>(r1, c1));
}
void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
  SimSection s;
  for (Side side : {Side::kLhs, Side::kRhs}) {
    PEMat& packed = params->packed_matrix[side];
    if (params->src[side].cache_policy != CachePolicy::kNeverCache) {
      if (side == Side::kRhs) violation("caching: the activations are offered to the packed-matrix cache");
      if (g_st.knobs.evict_permille && g_st.ruy.chance(g_st.knobs.evict_permille, 1000))
        ctx->GetPrepackedCache()->EjectSome(g_st.ruy.next());
      if (ctx->GetPrepackedCache()->Get(params->src[side].data, &packed) == PrepackedCache::Action::kInsertedNewEntry)
        run_pack(params, side, 0, packed.layout.cols);
      else
        count(cCacheHits);
      params->is_prepacked[side] = true;
      continue;
    }
    packed.data = ctx->GetMainAllocator()->AllocateBytes(DataBytes(packed));
    packed.sums = ctx->GetMainAllocator()->AllocateBytes(SumsBytes(packed));
  }
}
namespace {
struct Shared {
  TrMulParams* p;
  std::vector<int> rows, cols;            // block boundaries
  std::vector<char> packed[2];            // 0 not started, 1 in progress, 2 done
  std::vector<int> order;
  std::size_t next = 0;
};
std::vector<int> cuts(int total, int unit, Rng& r) {
  std::vector<int> v{0};
  const int n = total / unit;
  const int mode = (int)r.below(4);
  int at = 0;
  const int fixed = 1 + (int)r.below(4);
  while (at < n) {
    int step = mode == 0 ? n : mode == 1 ? 1 : mode == 2 ? fixed : 1 + (int)r.below(n);
    at = std::min(n, at + step);
    v.push_back(at * unit);
    if (v.size() > 40) { if (at < n) v.push_back(n * unit); break; }
  }
  return v;
}
void ensure_packed(Shared& s, Side side, int b) {
  auto& st = s.packed[(int)side];
  if (s.p->is_prepacked[side] || st[b] == 2) return;
  if (st[b] == 1) {
    wait_until([&st, b] { return st[b] == 2; });
    return;
  }
  st[b] = 1;
  const std::vector<int>& cut = side == Side::kLhs ? s.rows : s.cols;
  run_pack(s.p, side, cut[b], cut[b + 1]);
  st[b] = 2;
  yield_now();
}
void work(Shared& s, bool rhs_first) {
  const int nc = (int)s.cols.size() - 1;
  while (s.next < s.order.size()) {
    const int blk = s.order[s.next++];
    yield_now();
    const int br = blk / nc, bc = blk % nc;
    if (rhs_first) { ensure_packed(s, Side::kRhs, bc); ensure_packed(s, Side::kLhs, br); }
    else { ensure_packed(s, Side::kLhs, br); ensure_packed(s, Side::kRhs, bc); }
    run_kernel(s.p, s.rows[br], s.rows[br + 1], s.cols[bc], s.cols[bc + 1]);
    yield_now();
  }
}
}  // namespace
void TrMul(Ctx* ctx, TrMulParams* params) {
  SimSection sec;
  count(cTrMuls);
  Rng& r = g_st.ruy;
  const int rows = params->packed_matrix[Side::kLhs].layout.cols;
  const int cols = params->packed_matrix[Side::kRhs].layout.cols;
  int threads = std::max(1, ctx->max_num_threads());
  if (g_st.knobs.single_block || (threads == 1 && r.chance(1, 2))) {
    for (Side side : {Side::kLhs, Side::kRhs})
      if (!params->is_prepacked[side]) run_pack(params, side, 0, params->packed_matrix[side].layout.cols);
    run_kernel(params, 0, rows, 0, cols);
    return;
  }
  Shared s;
  s.p = params;
  s.rows = cuts(rows, params->packed_matrix[Side::kLhs].layout.kernel.cols, r);
  s.cols = cuts(cols, params->packed_matrix[Side::kRhs].layout.kernel.cols, r);
  const int nb = ((int)s.rows.size() - 1) * ((int)s.cols.size() - 1);
  s.packed[0].assign(s.rows.size(), 0);
  s.packed[1].assign(s.cols.size(), 0);
  for (int i = 0; i < nb; i++) s.order.push_back(i);
  const int mode = (int)r.below(3);
  if (mode == 1) std::reverse(s.order.begin(), s.order.end());
  if (mode == 2) for (int i = nb - 1; i > 0; i--) std::swap(s.order[i], s.order[r.below(i + 1)]);
  threads = std::min(threads, nb);
  if (threads > 1) count(cThreadedTrMuls);
  const bool rhs_first = r.chance(1, 2);
  if (threads <= 1 || !g_st.knobs.threads_os) { work(s, rhs_first); return; }
  std::vector<int> ids;
  for (int i = 1; i < threads; i++) ids.push_back(spawn([&s, i, rhs_first] { work(s, rhs_first ^ (i & 1)); }));
  work(s, rhs_first);
  for (int id : ids) join(id);
}
}  // namespace ruy

namespace tflite {
CpuBackendContext::CpuBackendContext() : ruy_context_(new ruy::Context) {}
CpuBackendContext::~CpuBackendContext() {}
void CpuBackendContext::SetMaxNumThreads(int n) {
  const int target = n > -1 ? n : 1;
  max_num_threads_ = target;
  ruy_context_->set_max_num_threads(target);
}
static TfLiteStatus RefreshExternal(TfLiteContext* context) {
  auto* e = static_cast<ExternalCpuBackendContext*>(context->GetExternalContext(context, kTfLiteCpuBackendContext));
  if (e && e->internal_backend_context() && context->recommended_num_threads != -1)
    e->internal_backend_context()->SetMaxNumThreads(context->recommended_num_threads);
  return kTfLiteOk;
}
ExternalCpuBackendContext::ExternalCpuBackendContext() {
  this->type = kTfLiteCpuBackendContext;
  this->Refresh = RefreshExternal;
}
CpuBackendContext* CpuBackendContext::GetFromContext(TfLiteContext* context) {
  SimSection s;
  auto* e = static_cast<ExternalCpuBackendContext*>(context->GetExternalContext(context, kTfLiteCpuBackendContext));
  if (!e) violation("crash: no external backend context in the TfLiteContext the operator passed");
  auto* c = static_cast<CpuBackendContext*>(e->internal_backend_context());
  if (!c) {
    c = new CpuBackendContext();
    c->SetMaxNumThreads(context->recommended_num_threads);
    e->set_internal_backend_context(std::unique_ptr<TfLiteInternalBackendContext>(c));
  }
  return c;
}
}  // namespace tflite
