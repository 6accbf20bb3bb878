// The services of the simulator for one Python process: memory, faults and
// counters of the simulated TFLite runtime below the real extension, the model
// file reader, and an operator for tensors of any type.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>

#include "../sim/lcesim.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/interpreter.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/tools/logging.h"

namespace lcesim {
const char* const kCounterNames[cNumCounters] = {};
static Result result;
Result* g_res = &result;
Config g_cfg;
State g_st;
static Task task;
static int mode = 0;  // 0: the extension, 1: the runtime, 2: an operator
static char* message = nullptr;
static size_t message_size = 0;

Task* self() { return &task; }
void hash_in(u64) {}
void hash_bytes(const void*, std::size_t) {}
void trace(const char* fmt, ...) {
  if (!g_cfg.verbose) return;
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  dprintf(2, "      runtime: %s\n", b);
}
void violation(const char* fmt, ...) {
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (message) snprintf(message, message_size, "%s", b);
  trace("VIOLATION %s", b);
  _exit(77);
}
void finish_ok() { _exit(78); }

static char* pool = nullptr;
static size_t pool_next = 0;
constexpr size_t kPool = (size_t)1 << 34;
static u64 dirt = 0x1234567;
static size_t live = 0, live_bytes = 0;
struct Block {
  u64 magic;
  size_t bytes;
  size_t pages;  // 0: shares its pages
  u64 pad;
};
static char* take(size_t n, size_t align) {
  if (!pool) {
    pool = (char*)mmap(nullptr, kPool, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pool == MAP_FAILED) _exit(79);
  }
  pool_next = (pool_next + align - 1) / align * align;
  if (pool_next + n > kPool) _exit(79);
  char* p = pool + pool_next;
  pool_next += n;
  return p;
}
void init_pools() {}
void set_dirt(u64 s) { dirt = mix64(s) | 1; }
void dirty(void* p, std::size_t n) {
  unsigned char* c = (unsigned char*)p;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) dirt ^= dirt << 13, dirt ^= dirt >> 7, dirt ^= dirt << 17;
    c[i] = (unsigned char)(dirt >> (i % 8 * 8));
  }
}
char* arena_alloc(std::size_t bytes, Rng& rng) {
  take(64 * rng.below(64), 64);
  char* p = take(bytes + 192, 64);
  dirty(p, bytes + 192);
  return p;
}
char* const_alloc(std::size_t bytes) { return take(bytes, 64); }
std::size_t const_mark() { return 0; }
void const_reset(std::size_t) {}
bool in_heap(const void* p) { return pool && (char*)p >= pool && (char*)p < pool + kPool; }
void* heap_alloc(std::size_t bytes, int owner) {
  Block* b;
  if (owner == 6) {  // the tensor array: using an old one crashes
    size_t n = (sizeof(Block) + bytes + 4095) / 4096 * 4096;
    b = (Block*)take(n, 4096);
    b->pages = n;
  } else {
    b = (Block*)take(sizeof(Block) + bytes + 32, 64);
    b->pages = 0;
  }
  b->magic = 0x11feb10c;
  b->bytes = bytes;
  dirty(b + 1, bytes);
  live++;
  live_bytes += bytes;
  return b + 1;
}
void heap_free(void* p) {
  if (!p) return;
  Block* b = (Block*)p - 1;
  if (!in_heap(p) || b->magic != 0x11feb10c) violation("crash: memory of the runtime is freed twice");
  b->magic = 0;
  live--;
  live_bytes -= b->bytes;
  dirty(p, b->bytes);
  if (b->pages) mprotect(b, b->pages, PROT_NONE);
}
std::size_t heap_live_blocks() { return live; }
std::size_t heap_live_bytes() { return live_bytes; }
int spawn(std::function<void()> fn) {
  fn();
  return 0;
}
void yield_now() {}
void wait_until(std::function<bool()> pred) {
  if (!pred()) violation("harness: waiting in a single thread");
}
void join(int) {}
void run_main(std::function<void()> fn) { fn(); }
void wake_spinners() {}
bool multi() { return false; }
OpSection::OpSection(OpScope* s) : prev_(nullptr) {
  prev_in_ = mode;
  mode = 2;
}
OpSection::~OpSection() { mode = prev_in_; }
SimSection::SimSection() {
  prev_in_ = mode;
  mode = 1;
}
SimSection::~SimSection() { mode = prev_in_; }

// ---- operator new of the extension
static long new_in = -1;
static bool fire_new() {
  if (mode == 1 || new_in < 0 || new_in-- != 0) return false;
  g_st.faults.fired = true;
  count(cFaultNew);
  trace("operator new fails");
  return true;
}
}  // namespace lcesim
using namespace lcesim;

void* operator new(std::size_t n) {
  if (fire_new()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, 0xa5, n);
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  if (fire_new()) return nullptr;
  return malloc(n ? n : 1);
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t n) noexcept {
  memset(p, 0x5a, p ? n : 0);
  free(p);
}
void operator delete[](void* p, std::size_t n) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

extern "C" {
void __real___cxa_throw(void*, void*, void (*)(void*));
__attribute__((noreturn)) void __wrap___cxa_throw(void* e, void* t, void (*d)(void*)) {
  new_in = -1;  // reporting a failure does not fail as well
  __real___cxa_throw(e, t, d);
  abort();
}
void lcesim_check_failed(const char* file, int line, const char* cond) {
  const char* b = strrchr(file, '/');
  violation("crash: an internal check failed at %s:%d: %s", b ? b + 1 : file, line, cond);
}
void lcesim_log(int, const char* text) { trace("log: %s", text); }
}

// ---- model files
namespace {
struct Reader {
  const unsigned char* b;
  size_t n;
  bool bad = false;
  template <class T>
  T get(size_t at) {
    T v{};
    if (at + sizeof(T) > n) bad = true;
    else memcpy(&v, b + at, sizeof v);
    return v;
  }
  size_t ref(size_t at) { return at ? at + get<uint32_t>(at) : 0; }
  size_t field(size_t table, int f) {  // 0: absent
    if (!table) return 0;
    size_t vt = table - get<int32_t>(table);
    uint16_t size = get<uint16_t>(vt);
    if (4 + 2 * f + 2 > size) return 0;
    uint16_t off = get<uint16_t>(vt + 4 + 2 * f);
    return off ? table + off : 0;
  }
  template <class T>
  T scalar(size_t table, int f, T d) {
    size_t at = field(table, f);
    return at ? get<T>(at) : d;
  }
  size_t sub(size_t table, int f) { return ref(field(table, f)); }
  size_t count(size_t vec) { return vec ? get<uint32_t>(vec) : 0; }
  template <class T>
  std::vector<T> vec(size_t v) {
    std::vector<T> r;
    size_t k = count(v);
    for (size_t i = 0; i < k && !bad; i++) r.push_back(get<T>(v + 4 + i * sizeof(T)));
    return r;
  }
  std::string str(size_t v) {
    std::string s;
    for (char c : vec<char>(v)) s += c;
    return s;
  }
};
TfLiteType FromSchema(int t) {
  static const TfLiteType m[] = {kTfLiteFloat32, kTfLiteFloat16, kTfLiteInt32, kTfLiteUInt8, kTfLiteInt64, kTfLiteString, kTfLiteBool, kTfLiteInt16, kTfLiteComplex64, kTfLiteInt8, kTfLiteFloat64, kTfLiteComplex128, kTfLiteUInt64, kTfLiteResource, kTfLiteVariant, kTfLiteUInt32, kTfLiteUInt16, kTfLiteInt4};
  return t >= 0 && t < 18 ? m[t] : kTfLiteNoType;
}
struct Last {
  int threads = 0;
  int default_delegates = 0;
  tflite::Interpreter* it = nullptr;
} last;
}  // namespace

namespace tflite {
std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromBuffer(const char* data, size_t size, ErrorReporter*) {
  SimSection s;
  if (size < 8 || memcmp(data + 4, "TFL3", 4)) return nullptr;
  Reader r{(const unsigned char*)data, size};
  auto m = std::unique_ptr<FlatBufferModel>(new FlatBufferModel);
  Graph& g = m->graph_;
  size_t model = r.get<uint32_t>(0);
  size_t codes = r.sub(model, 1), graphs = r.sub(model, 2), buffers = r.sub(model, 4);
  if (!r.count(graphs)) violation("harness: model without graph");
  auto at = [&](size_t v, size_t i) { return r.ref(v + 4 + 4 * i); };
  size_t sg = at(graphs, 0);
  size_t tensors = r.sub(sg, 0), ops = r.sub(sg, 3);
  for (size_t i = 0; i < r.count(tensors); i++) {
    size_t t = at(tensors, i);
    GraphTensor x;
    x.dims = r.vec<int>(r.sub(t, 0));
    x.type = FromSchema(r.scalar<int8_t>(t, 1, 0));
    x.name = r.str(r.sub(t, 3));
    size_t b = at(buffers, r.scalar<uint32_t>(t, 2, 0)), d = r.sub(b, 0);
    if (d && r.count(d)) {
      x.const_data = data + d + 4;
      x.const_bytes = r.count(d);
    }
    size_t q = r.sub(t, 4);
    auto scale = r.vec<float>(r.sub(q, 2));
    if (!scale.empty()) {
      x.quantized = true;
      x.scales = scale;
      for (int64_t z : r.vec<int64_t>(r.sub(q, 3))) x.zero_points.push_back((int)z);
      x.zero_points.resize(scale.size());
    }
    g.tensors.push_back(x);
  }
  g.inputs = r.vec<int>(r.sub(sg, 1));
  g.outputs = r.vec<int>(r.sub(sg, 2));
  for (size_t i = 0; i < r.count(ops); i++) {
    size_t o = at(ops, i), c = at(codes, r.scalar<uint32_t>(o, 0, 0));
    GraphNode n;
    n.builtin = std::max<int>(r.scalar<int8_t>(c, 0, 0), r.scalar<int32_t>(c, 3, 0));
    if (n.builtin == BuiltinOperator_CUSTOM) n.custom_name = r.str(r.sub(c, 1));
    n.inputs = r.vec<int>(r.sub(o, 1));
    n.outputs = r.vec<int>(r.sub(o, 2));
    size_t co = r.sub(o, 5);
    if (co) {
      n.options = data + co + 4;
      n.options_size = r.count(co);
    }
    g.nodes.push_back(n);
  }
  if (r.bad) violation("harness: the model cannot be read");
  return m;
}

namespace {
// Every output is a function of all input bytes.  Options: seed, dynamic.
struct MixData {
  unsigned seed = 0;
  int dynamic = 0;
};
uint32_t Crc(uint32_t c, const unsigned char* p, size_t n) {
  c = ~c;
  for (size_t i = 0; i < n; i++) {
    c ^= p[i];
    for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0);
  }
  return ~c;
}
void* MixInit(TfLiteContext*, const char* b, size_t n) {
  auto* d = new MixData;
  if (n >= 8) {
    memcpy(&d->seed, b, 4);
    memcpy(&d->dynamic, b + 4, 4);
  }
  return d;
}
void MixFree(TfLiteContext*, void* p) { delete (MixData*)p; }
TfLiteStatus MixPrepare(TfLiteContext* c, TfLiteNode* n) {
  auto* d = (MixData*)n->user_data;
  for (int i = 0; i < n->outputs->size; i++) {
    TfLiteTensor* t = &c->tensors[n->outputs->data[i]];
    if (d->dynamic) {
      SimSection s;
      if (t->allocation_type != kTfLiteDynamic) {
        t->allocation_type = kTfLiteDynamic;
        t->data.raw = nullptr;
      }
    } else if (c->ResizeTensor(c, t, TfLiteIntArrayCopy(t->dims)) != kTfLiteOk) {
      return kTfLiteError;
    }
  }
  return kTfLiteOk;
}
TfLiteStatus MixEval(TfLiteContext* c, TfLiteNode* n) {
  auto* d = (MixData*)n->user_data;
  uint32_t state = d->seed;
  for (int i = 0; i < n->inputs->size; i++) {
    TfLiteTensor* t = &c->tensors[n->inputs->data[i]];
    state = Crc(state, (unsigned char*)t->data.raw, t->bytes);
  }
  for (int i = 0; i < n->outputs->size; i++) {
    if (d->dynamic) {
      TfLiteTensor* t = &c->tensors[n->outputs->data[i]];
      TfLiteIntArray* dims = TfLiteIntArrayCopy(t->dims);
      if (dims->size) dims->data[0] = 1 + (state >> 8) % 3;
      if (c->ResizeTensor(c, t, dims) != kTfLiteOk) return kTfLiteError;
    }
    TfLiteTensor* t = &c->tensors[n->outputs->data[i]];
    uint32_t x = state + 977 * i;
    unsigned char* p = (unsigned char*)t->data.raw;
    for (size_t k = 0; k < t->bytes; k++) {
      uint32_t y = (x + (uint32_t)k * 0x9e3779b9u) * 0x85ebca6bu;
      y ^= y >> 13;
      p[k] = (unsigned char)(y >> 8);
      if (t->type == kTfLiteBool) p[k] &= 1;
    }
  }
  return kTfLiteOk;
}
TfLiteRegistration mix_registration = [] {
  TfLiteRegistration r{};
  r.init = MixInit;
  r.free = MixFree;
  r.prepare = MixPrepare;
  r.invoke = MixEval;
  return r;
}();
}  // namespace
namespace ops {
namespace builtin {
BuiltinOpResolver::BuiltinOpResolver() { AddCustom("SimMix", &mix_registration); }
}  // namespace builtin
}  // namespace ops
}  // namespace tflite

// called by the simulated runtime, once construction is complete
static u64 built = 0;
void lcesim_built(tflite::Interpreter* it, int threads, const tflite::OpResolver& r) {
  built++;
  last.it = it;
  last.threads = threads;
  last.default_delegates = dynamic_cast<const tflite::ops::builtin::BuiltinOpResolverWithoutDefaultDelegates*>(&r) == nullptr;
}
void lcesim_allocated() { new_in = -1; }

// ---- control, from Python
extern "C" {
__attribute__((visibility("default"))) void ctl_begin(u64 seed, int verbose, char* buf, size_t n) {
  message = buf;
  message_size = n;
  g_cfg.seed = seed;
  g_cfg.verbose = verbose;
  g_st = State();
  g_st.place = Rng(mix(seed, 1));
  g_st.ruy = Rng(mix(seed, 2));
  g_st.sched = Rng(mix(seed, 3));
  g_st.knobs.relocate_tensors = true;
  g_st.knobs.threads_os = false;
  set_dirt(seed);
}
// kind: 0 none, 1 ResizeTensor, 2 AddTensors, 3 ruy allocation, 4 arena, 5 cancel, 6 operator new
__attribute__((visibility("default"))) void ctl_fault(int kind, long n) {
  g_st.faults.clear();
  new_in = -1;
  switch (kind) {
    case 1: g_st.faults.resize_in = n; break;
    case 2: g_st.faults.add_in = n; break;
    case 3: g_st.faults.ruy_in = n; break;
    case 4: g_st.faults.arena_in = n; break;
    case 5: g_st.faults.cancel_in = n; break;
    case 6: new_in = n; break;
  }
}
__attribute__((visibility("default"))) int ctl_fired() { return g_st.faults.fired; }
__attribute__((visibility("default"))) u64 ctl_counter(int c) { return g_res->counters[c]; }
__attribute__((visibility("default"))) u64 ctl_live() { return heap_live_blocks(); }
__attribute__((visibility("default"))) int ctl_interpreters() { return (int)(built - g_res->counters[cDestroys]); }
// what the most recently built interpreter runs with
__attribute__((visibility("default"))) int ctl_threads() { return last.threads; }
__attribute__((visibility("default"))) int ctl_default_delegates() { return last.default_delegates; }
__attribute__((visibility("default"))) int ctl_kernel() {  // of the first convolution: 0 none, 1 optimized, 2 reference, 3 indirect
  if (!last.it) return -1;
  for (size_t i = 0; i < last.it->nodes_size(); i++) {
    auto& n = last.it->sim_node((int)i);
    if (n.name != "LceBconv2d") continue;
    if (n.reg->invoke == compute_engine::tflite::Register_BCONV_2D()->invoke && n.reg->prepare == compute_engine::tflite::Register_BCONV_2D()->prepare) return 1;
    if (n.reg->invoke == compute_engine::tflite::Register_BCONV_2D_REF()->invoke && n.reg->prepare == compute_engine::tflite::Register_BCONV_2D_REF()->prepare) return 2;
    if (n.reg->invoke == compute_engine::tflite::Register_BCONV_2D_OPT_INDIRECT_BGEMM()->invoke) return 3;
    return -2;
  }
  return 0;
}
}
