// Simulated TFLite runtime: C API arrays, interpreter, arena.
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <new>
#include "lcesim.h"
#include "tensorflow/lite/interpreter.h"
#include "tensorflow/lite/kernels/register.h"
using namespace lcesim;
extern "C" {
size_t TfLiteIntArrayGetSizeInBytes(int size) { return sizeof(TfLiteIntArray) + sizeof(int) * (size_t)(size < 0 ? 0 : size); }
TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  if (size < 0) return nullptr;
  SimSection s;
  auto* a = (TfLiteIntArray*)heap_alloc(TfLiteIntArrayGetSizeInBytes(size), 3);
  a->size = size;
  return a;
}
int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int n, const int b[]) {
  if (!a) return n == 0;
  if (a->size != n) return 0;
  for (int i = 0; i < n; i++) if (a->data[i] != b[i]) return 0;
  return 1;
}
int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b) return 0;
  return TfLiteIntArrayEqualsArray(a, b->size, b->data);
}
TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src) {
  if (!src) return nullptr;
  SimSection s;
  TfLiteIntArray* r = TfLiteIntArrayCreate(src->size);
  memcpy(r->data, src->data, sizeof(int) * src->size);
  return r;
}
void TfLiteIntArrayFree(TfLiteIntArray* a) { SimSection s; heap_free(a); }
TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  SimSection s;
  auto* a = (TfLiteFloatArray*)heap_alloc(sizeof(TfLiteFloatArray) + sizeof(float) * size, 3);
  a->size = size;
  return a;
}
void TfLiteFloatArrayFree(TfLiteFloatArray* a) { SimSection s; heap_free(a); }
const char* TfLiteTypeGetName(TfLiteType t) {
  switch (t) {
    case kTfLiteNoType: return "NOTYPE";
    case kTfLiteFloat32: return "FLOAT32";
    case kTfLiteInt32: return "INT32";
    case kTfLiteUInt8: return "UINT8";
    case kTfLiteInt64: return "INT64";
    case kTfLiteBool: return "BOOL";
    case kTfLiteInt16: return "INT16";
    case kTfLiteInt8: return "INT8";
    case kTfLiteString: return "STRING";
    default: return "other type";
  }
}
}
namespace tflite {
}
#ifdef LCESIM_BOUNDARY
void lcesim_built(tflite::Interpreter*, int, const tflite::OpResolver&);
void lcesim_allocated();
#else
static void lcesim_built(tflite::Interpreter*, int, const tflite::OpResolver&) {}
static void lcesim_allocated() {}
#endif
namespace tflite {
#ifndef LCESIM_BOUNDARY
namespace ops { namespace builtin { BuiltinOpResolver::BuiltinOpResolver() {} } }
#endif
static size_t type_size(TfLiteType t) {
  switch (t) {
    case kTfLiteInt8: case kTfLiteUInt8: case kTfLiteBool: return 1;
    case kTfLiteInt16: case kTfLiteUInt16: case kTfLiteFloat16: return 2;
    case kTfLiteInt64: case kTfLiteUInt64: case kTfLiteFloat64: case kTfLiteComplex64: return 8;
    case kTfLiteComplex128: return 16;
    default: return 4;
  }
}
static bool bytes_of(TfLiteType t, const int* d, int n, size_t* out) {
  size_t b = type_size(t);
  for (int i = 0; i < n; i++) {
    if (d[i] < 0) return false;
    b *= (size_t)d[i];
    if (b > ((size_t)1 << 26)) return false;
  }
  *out = b;
  return true;
}
static int g_next_id = 1;

struct InterpreterOps {
  static Interpreter* Get(TfLiteContext* c) { return (Interpreter*)c->impl_; }
  static TfLiteStatus ResizeTensor(TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* ns) {
    SimSection s;
    if (t->data.raw != nullptr && TfLiteIntArrayEqual(t->dims, ns)) {
      if (ns != t->dims) { TfLiteIntArrayFree(t->dims); t->dims = ns; }
      return kTfLiteOk;
    }
    long& f = g_st.faults.resize_in;
    if (f >= 0 && f-- == 0) {
      g_st.faults.fired = true;
      count(cFaultResize);
      trace("  fault: ResizeTensor fails");
      if (ns != t->dims) TfLiteIntArrayFree(ns);
      return kTfLiteError;
    }
    return Get(c)->ResizeTensorImpl(t, ns);
  }
  static TfLiteStatus AddTensors(TfLiteContext* c, int n, int* first) {
    SimSection s;
    return Get(c)->AddTensorsImpl(n, first);
  }
  static void Report(TfLiteContext* c, const char* msg, ...) {
    SimSection s;
    char buf[1024];
    va_list ap;
    va_start(ap, msg);
    vsnprintf(buf, sizeof buf, msg, ap);
    va_end(ap);
    Get(c)->errors.push_back(buf);
    trace("  error reported: %s", buf);
  }
  static TfLiteExternalContext* GetExt(TfLiteContext* c, TfLiteExternalContextType t) {
    SimSection s;
    return t == kTfLiteCpuBackendContext ? Get(c)->ext_ : nullptr;
  }
  static void SetExt(TfLiteContext*, TfLiteExternalContextType, TfLiteExternalContext*) {}
  static TfLiteStatus Plan(TfLiteContext*, TfLiteIntArray**) { return kTfLiteError; }
  static TfLiteStatus NodeReg(TfLiteContext* c, int i, TfLiteNode** n, TfLiteRegistration** r) {
    SimSection s;
    Interpreter* it = Get(c);
    if (i < 0 || i >= (int)it->nodes_.size()) return kTfLiteError;
    *n = it->nodes_[i].node;
    *r = const_cast<TfLiteRegistration*>(it->nodes_[i].reg);
    return kTfLiteOk;
  }
};

static TfLiteIntArray* make_array(const std::vector<int>& v) {
  TfLiteIntArray* a = TfLiteIntArrayCreate((int)v.size());
  for (size_t i = 0; i < v.size(); i++) a->data[i] = v[i];
  return a;
}
Interpreter::Interpreter(const Graph& g, const OpResolver& resolver, int num_threads, ExternalCpuBackendContext* shared) {
  id_ = g_next_id++;
  count(cInterpreters);
  ext_ = shared;
  if (!ext_) { own_ext_.reset(new ExternalCpuBackendContext); ext_ = own_ext_.get(); }
  context_.impl_ = this;
  context_.GetExecutionPlan = InterpreterOps::Plan;
  context_.ResizeTensor = InterpreterOps::ResizeTensor;
  context_.ReportError = InterpreterOps::Report;
  context_.AddTensors = InterpreterOps::AddTensors;
  context_.GetNodeAndRegistration = InterpreterOps::NodeReg;
  context_.recommended_num_threads = num_threads;
  context_.GetExternalContext = InterpreterOps::GetExt;
  context_.SetExternalContext = InterpreterOps::SetExt;
  inputs_ = g.inputs;
  outputs_ = g.outputs;
  context_.tensors = nullptr;
  context_.tensors_size = 0;
  Relocate(g.tensors.size());
  for (size_t i = 0; i < g.tensors.size(); i++) {
    const GraphTensor& s = g.tensors[i];
    TfLiteTensor& t = context_.tensors[i];
    t.type = s.type;
    t.dims = make_array(s.dims);
    t.name = s.name.c_str();
    bytes_of(s.type, s.dims.data(), (int)s.dims.size(), &t.bytes);
    if (s.const_data) {
      t.allocation_type = kTfLiteMmapRo;
      t.data.raw_const = s.const_data;
      t.bytes = s.const_bytes;
    } else {
      t.allocation_type = kTfLiteArenaRw;
    }
    if (s.quantized) {
      auto* q = (TfLiteAffineQuantization*)heap_alloc(sizeof(TfLiteAffineQuantization), 4);
      q->scale = TfLiteFloatArrayCreate((int)s.scales.size());
      q->zero_point = TfLiteIntArrayCreate((int)s.zero_points.size());
      for (size_t k = 0; k < s.scales.size(); k++) q->scale->data[k] = s.scales[k];
      for (size_t k = 0; k < s.zero_points.size(); k++) q->zero_point->data[k] = s.zero_points[k];
      q->quantized_dimension = 0;
      t.quantization.type = kTfLiteAffineQuantization;
      t.quantization.params = q;
      if (s.scales.size() == 1) { t.params.scale = s.scales[0]; t.params.zero_point = s.zero_points.empty() ? 0 : s.zero_points[0]; }
      quants_.push_back(q);
    }
  }
  ok_ = true;
  nodes_.reserve(g.nodes.size());
  for (const GraphNode& gn : g.nodes) {
    Node n;
    n.name = gn.custom_name;
    n.reg = gn.custom_name.empty() ? resolver.FindOp((BuiltinOperator)gn.builtin, 1) : resolver.FindOp(gn.custom_name.c_str(), 1);
    if (!n.reg) { errors.push_back("op not registered: " + gn.custom_name); ok_ = false; break; }
    n.node = (TfLiteNode*)heap_alloc(sizeof(TfLiteNode), 5);
    memset(n.node, 0, sizeof(TfLiteNode));
    n.node->inputs = make_array(gn.inputs);
    n.node->outputs = make_array(gn.outputs);
    n.node->intermediates = TfLiteIntArrayCreate(0);
    n.node->temporaries = TfLiteIntArrayCreate(0);
    n.node->custom_initial_data = gn.options;
    n.node->custom_initial_data_size = (int)gn.options_size;
    n.inited = true;
    nodes_.push_back(n);
    Node& nn = nodes_.back();
    if (nn.reg->init) {
      OpScope sc;
      sc.op = nn.name.c_str();
      sc.ranges.push_back({(std::uintptr_t)gn.options, (std::uintptr_t)gn.options + gn.options_size, kR, -2});
      try {
        OpSection op(&sc);
        nn.node->user_data = nn.reg->init(&context_, gn.options, gn.options_size);
      } catch (...) {
        Teardown();
        throw;
      }
    }
  }
}
void Interpreter::Teardown() {
  for (Node& n : nodes_) {
    if (n.reg->free) {
      OpScope sc;
      sc.op = n.name.c_str();
      OpSection op(&sc);
      n.reg->free(&context_, n.node->user_data);
    }
    TfLiteIntArrayFree(n.node->inputs);
    TfLiteIntArrayFree(n.node->outputs);
    TfLiteIntArrayFree(n.node->intermediates);
    TfLiteIntArrayFree(n.node->temporaries);
    heap_free(n.node);
  }
  nodes_.clear();
  for (size_t i = 0; i < context_.tensors_size; i++) {
    TfLiteTensor& t = context_.tensors[i];
    if (t.allocation_type == kTfLiteDynamic) heap_free(t.data.raw);
    TfLiteIntArrayFree(t.dims);
  }
  heap_free(context_.tensors);
  context_.tensors = nullptr;
  context_.tensors_size = 0;
  for (auto* q : quants_) {
    TfLiteFloatArrayFree(q->scale);
    TfLiteIntArrayFree(q->zero_point);
    heap_free(q);
  }
  quants_.clear();
}
Interpreter::~Interpreter() {
  SimSection s;
  if (has_arena_) dirty(arena_, placed_bytes_);
  Teardown();
  count(cDestroys);
}
void Interpreter::Relocate(size_t new_count) {
  // A vector that grows: a new block, the old one gone.
  const size_t cap = new_count + 16;
  auto* nt = (TfLiteTensor*)heap_alloc(cap * sizeof(TfLiteTensor), 6);
  memset(nt, 0, cap * sizeof(TfLiteTensor));
  if (context_.tensors) {
    memcpy(nt, context_.tensors, context_.tensors_size * sizeof(TfLiteTensor));
    heap_free(context_.tensors);
    count(cTensorMoves);
  }
  context_.tensors = nt;
  context_.tensors_size = new_count;
  capacity_ = cap;
}
void Interpreter::MaybeRelocate() {
  if (capacity_ < context_.tensors_size + 16 || (g_st.knobs.relocate_tensors && g_st.place.chance(1, 5)))
    Relocate(context_.tensors_size);
}
TfLiteStatus Interpreter::AddTensorsImpl(int n, int* first) {
  long& f = g_st.faults.add_in;
  if (f >= 0 && f-- == 0) {
    g_st.faults.fired = true;
    count(cFaultAddTensors);
    trace("  fault: AddTensors fails");
    return kTfLiteError;
  }
  if (context_.tensors_size + n > capacity_) violation("harness: tensor headroom exhausted");
  *first = (int)context_.tensors_size;
  for (int i = 0; i < n; i++) {
    TfLiteTensor& t = context_.tensors[context_.tensors_size++];
    memset(&t, 0, sizeof t);
    t.dims = TfLiteIntArrayCreate(0);
  }
  return kTfLiteOk;
}
TfLiteStatus Interpreter::ResizeTensorImpl(TfLiteTensor* t, TfLiteIntArray* ns) {
  if (t->allocation_type == kTfLiteMmapRo || t->allocation_type == kTfLiteMemNone) {
    TfLiteIntArrayFree(ns);
    errors.push_back("Attempting to resize a fixed-size tensor.");
    return kTfLiteError;
  }
  resized_ |= !TfLiteIntArrayEqual(t->dims, ns);
  size_t b = 0;
  if (!bytes_of(t->type, ns->data, ns->size, &b)) {
    TfLiteIntArrayFree(ns);
    errors.push_back("BytesRequired number of bytes overflowed.");
    return kTfLiteError;
  }
  if (t->allocation_type == kTfLiteDynamic) {
    char* old = t->data.raw;
    t->data.raw = (char*)heap_alloc(b + 16, 7);
    if (old) memcpy(t->data.raw, old, std::min(t->bytes, b));
    heap_free(old);
  }
  t->bytes = b;
  if (t->dims && t->dims != ns) TfLiteIntArrayFree(t->dims);
  t->dims = ns;
  if (t->allocation_type == kTfLiteArenaRw) t->data.raw = nullptr;
  return kTfLiteOk;
}
TfLiteStatus Interpreter::ResizeInputTensor(int i, const std::vector<int>& dims) {
  TfLiteTensor* t = tensor(i);
  if (t->data.raw != nullptr && TfLiteIntArrayEqualsArray(t->dims, (int)dims.size(), dims.data())) return kTfLiteOk;
  state_ok_ = false;
  return ResizeTensorImpl(t, make_array(dims));
}
bool Interpreter::HasDynamicOutputs(const Node& n) {
  for (int k = 0; k < n.node->outputs->size; k++) {
    TfLiteTensor* t = tensor(n.node->outputs->data[k]);
    if (t && t->allocation_type == kTfLiteDynamic) return true;
  }
  return false;
}
static void add_range(OpScope& sc, TfLiteTensor* t, int idx, unsigned flags) {
  if (!t || !t->data.raw) return;
  sc.ranges.push_back({(std::uintptr_t)t->data.raw, (std::uintptr_t)t->data.raw + t->bytes, flags, idx});
}
static void fill_scope(Interpreter* it, TfLiteNode* n, OpScope& sc, bool eval) {
  for (int k = 0; k < n->inputs->size; k++) add_range(sc, it->tensor(n->inputs->data[k]), n->inputs->data[k], kR);
  if (eval) {
    for (int k = 0; k < n->outputs->size; k++) add_range(sc, it->tensor(n->outputs->data[k]), n->outputs->data[k], kR | kW);
    for (int k = 0; k < n->temporaries->size; k++) add_range(sc, it->tensor(n->temporaries->data[k]), n->temporaries->data[k], kR | kW);
  }
  sc.ranges.push_back({(std::uintptr_t)n->custom_initial_data, (std::uintptr_t)n->custom_initial_data + n->custom_initial_data_size, kR, -2});
  if (n->inputs->size == 5) {
    TfLiteTensor* f = it->tensor(n->inputs->data[1]);
    if (f && f->data.raw) { sc.filter_lo = (std::uintptr_t)f->data.raw; sc.filter_hi = sc.filter_lo + f->bytes; }
  }
}
// Prepares operators until one has an output whose size is known only at run
// time, then places the tensors planned so far.
TfLiteStatus Interpreter::PrepareFrom() {
  last_prepared_ = next_prepare_ - 1;
  for (int i = next_prepare_; i < (int)nodes_.size(); i++) {
    Node& n = nodes_[i];
    MaybeRelocate();
    count(cPrepares);
    n.prepares++;
    if (n.reg->prepare) {
      OpScope sc;
      sc.op = n.name.c_str();
      fill_scope(this, n.node, sc, false);
      TfLiteStatus st;
      {
        OpSection op(&sc);
        st = n.reg->prepare(&context_, n.node);
      }
      if (st != kTfLiteOk) {
        trace("  node %d (%s) failed to prepare", i, n.name.c_str());
        return st;
      }
    }
    n.evals_since_prepare = 0;
    last_prepared_ = i;
    if (HasDynamicOutputs(n)) break;
  }
  next_prepare_ = last_prepared_ + 1;
  return PlanArena();
}
struct Use { int first, last; };
TfLiteStatus Interpreter::PlanArena() {
  const int T = (int)context_.tensors_size;
  const int N = (int)nodes_.size();
  std::vector<Use> use(T, Use{1 << 20, -1});
  auto touch = [&](int t, int at) {
    if (t < 0 || t >= T) return;
    use[t].first = std::min(use[t].first, at);
    use[t].last = std::max(use[t].last, at);
  };
  for (int t : inputs_) { touch(t, -1); touch(t, N); }
  for (int t : outputs_) touch(t, N);
  for (int i = 0; i < N; i++) {
    for (int k = 0; k < nodes_[i].node->inputs->size; k++) touch(nodes_[i].node->inputs->data[k], i);
    for (int k = 0; k < nodes_[i].node->outputs->size; k++) touch(nodes_[i].node->outputs->data[k], i);
    if (i <= last_prepared_) for (int k = 0; k < nodes_[i].node->temporaries->size; k++) touch(nodes_[i].node->temporaries->data[k], i);
  }
  const bool fresh = offsets_.empty();
  offsets_.resize(T, (size_t)-1);
  std::vector<int> todo;
  for (int t = 0; t < T; t++) {
    TfLiteTensor& x = context_.tensors[t];
    if (x.allocation_type != kTfLiteArenaRw || use[t].last < 0) { offsets_[t] = (size_t)-1; continue; }
    // first prepared producer decides whether the size is known
    if (x.data.raw == nullptr || offsets_[t] == (size_t)-1) {
      bool known = false;
      for (int u : inputs_) known |= u == t;
      for (int i = 0; i <= last_prepared_ && !known; i++) {
        for (int k = 0; k < nodes_[i].node->outputs->size; k++) known |= nodes_[i].node->outputs->data[k] == t;
        for (int k = 0; k < nodes_[i].node->temporaries->size; k++) known |= nodes_[i].node->temporaries->data[k] == t;
      }
      if (!known) { offsets_[t] = (size_t)-1; continue; }
      todo.push_back(t);
    }
  }
  Rng& r = g_st.place;
  for (int i = (int)todo.size() - 1; i > 0; i--) std::swap(todo[i], todo[r.below(i + 1)]);
  const int style = (int)r.below(3);  // tight, loose, random
  std::vector<char> done(T, 0);
  for (int t = 0; t < T; t++) done[t] = offsets_[t] != (size_t)-1;
  for (int t : todo) done[t] = 0;
  for (int t : todo) {
    const size_t sz = context_.tensors[t].bytes;
    auto clash = [&](size_t off) -> size_t {
      for (int u = 0; u < T; u++)
        if (done[u] && u != t && use[u].first <= use[t].last && use[t].first <= use[u].last) {
          size_t a = offsets_[u], b = a + std::max<size_t>(context_.tensors[u].bytes, 1);
          if (off < b && a < off + std::max<size_t>(sz, 1)) return (b + 63) & ~(size_t)63;
        }
      return 0;
    };
    size_t off = 0;
    if (style == 2) off = 64 * r.below(1 + (arena_bytes_ + sz) / 64 + 2);
    for (size_t c; (c = clash(off)) != 0;) off = c;
    if (style == 1) off += 64 * r.below(3);
    for (size_t c; (c = clash(off)) != 0;) off = c;
    offsets_[t] = off;
    done[t] = 1;
    arena_bytes_ = std::max(arena_bytes_, off + sz);
  }
  long& f = g_st.faults.arena_in;
  if (f >= 0 && f-- == 0) {
    g_st.faults.fired = true;
    count(cFaultArena);
    trace("  fault: the arena cannot be allocated");
    errors.push_back("arena allocation failed");
    for (int t : todo) offsets_[t] = (size_t)-1;
    return kTfLiteError;
  }
  (void)fresh;
  PlaceArena();
  return kTfLiteOk;
}
void Interpreter::PlaceArena() {
  char* old = arena_;
  const bool had = has_arena_;
  char* base = arena_alloc(arena_bytes_ + 64, g_st.place);
  for (size_t t = 0; t < offsets_.size() && t < context_.tensors_size; t++) {
    if (offsets_[t] == (size_t)-1) continue;
    TfLiteTensor& x = context_.tensors[t];
    if (x.allocation_type != kTfLiteArenaRw) continue;
    if (had && x.data.raw == old + offsets_[t]) memmove(base + offsets_[t], x.data.raw, x.bytes);
    x.data.raw = base + offsets_[t];
  }
  if (had) { dirty(old, placed_bytes_); count(cArenaMoves); }
  arena_ = base;
  placed_bytes_ = arena_bytes_;
  has_arena_ = true;
}
void Interpreter::DropArena() {
  if (has_arena_) dirty(arena_, placed_bytes_);
  has_arena_ = false;
  for (size_t t = 0; t < context_.tensors_size; t++)
    if (context_.tensors[t].allocation_type == kTfLiteArenaRw) context_.tensors[t].data.raw = nullptr;
}
TfLiteStatus Interpreter::AllocateTensors() {
  SimSection s;
  if (state_ok_) {
    if (!has_arena_) PlaceArena();
    for (auto& c : custom_) {
      TfLiteTensor* t = tensor(c.first);
      if (c.second.bytes < t->bytes) { errors.push_back("custom allocation too small"); return kTfLiteError; }
    }
    return kTfLiteOk;
  }
  DropArena();
  offsets_.clear();
  arena_bytes_ = 0;
  next_prepare_ = 0;
  TfLiteStatus st = PrepareFrom();
  if (st != kTfLiteOk) { DropArena(); return st; }
  for (auto& c : custom_) {
    TfLiteTensor* t = tensor(c.first);
    if (c.second.bytes < t->bytes) { errors.push_back("custom allocation too small"); return kTfLiteError; }
  }
  state_ok_ = true;
  lcesim_allocated();
  return kTfLiteOk;
}
TfLiteStatus Interpreter::ReleaseNonPersistentMemory() {
  count(cReleases);
  DropArena();
  return kTfLiteOk;
}
TfLiteStatus Interpreter::SetCustomAllocationForTensor(int i, const TfLiteCustomAllocation& a) {
  TfLiteTensor* t = tensor(i);
  if (t->allocation_type != kTfLiteArenaRw && t->allocation_type != kTfLiteCustom) return kTfLiteError;
  if (!a.data || (std::uintptr_t)a.data % 64) return kTfLiteError;
  custom_[i] = a;
  if (i < (int)offsets_.size()) offsets_[i] = (size_t)-1;
  t->allocation_type = kTfLiteCustom;
  t->data.data = a.data;
  count(cCustomMoves);
  return kTfLiteOk;
}
TfLiteStatus Interpreter::SetNumThreads(int n) {
  context_.recommended_num_threads = n;
  ext_->Refresh(&context_);
  count(cThreadChanges);
  return kTfLiteOk;
}
TfLiteStatus Interpreter::Invoke() {
  SimSection s;
  if (!state_ok_ || !has_arena_) { errors.push_back("Invoke called on model that is not ready."); return kTfLiteError; }
  count(cInvokes);
  for (int i = 0; i < (int)nodes_.size(); i++) {
    if (i == next_prepare_) {
      TfLiteStatus st = PrepareFrom();
      if (st != kTfLiteOk) return st;
      count(cDynamicResizes);
    }
    Node& n = nodes_[i];
    for (int k = 0; k < n.node->inputs->size; k++) {
      TfLiteTensor* t = tensor(n.node->inputs->data[k]);
      if (t && !t->data.raw && t->bytes > 0) { errors.push_back("Input tensor lacks data"); return kTfLiteError; }
    }
    long& f = g_st.faults.cancel_in;
    if (f >= 0 && f-- == 0) {
      count(cCancels);
      g_st.faults.fired = true;
      trace("  fault: cancelled before node %d", i);
      return kTfLiteCancelled;
    }
    MaybeRelocate();
    resized_ = false;
    OpScope sc;
    sc.op = n.name.c_str();
    fill_scope(this, n.node, sc, true);
    TfLiteStatus st;
    {
      OpSection op(&sc);
      st = n.reg->invoke(&context_, n.node);
    }
    if (st != kTfLiteOk) return st;
    n.filter_reads = sc.filter_reads;
    n.evals_since_prepare++;
    if (after_op) after_op(this, i);
    if (resized_ && HasDynamicOutputs(n)) {
      next_prepare_ = i + 1;
      // whatever is planned after this point is planned again
      for (int j = i + 1; j < (int)nodes_.size(); j++) {
        for (int k = 0; k < nodes_[j].node->outputs->size; k++) {
          int t = nodes_[j].node->outputs->data[k];
          if (t >= 0 && context_.tensors[t].allocation_type == kTfLiteArenaRw) { offsets_[t] = (size_t)-1; context_.tensors[t].data.raw = nullptr; }
        }
        for (int k = 0; k < nodes_[j].node->temporaries->size; k++) {
          int t = nodes_[j].node->temporaries->data[k];
          if (t >= 0 && context_.tensors[t].allocation_type == kTfLiteArenaRw) { if (t < (int)offsets_.size()) offsets_[t] = (size_t)-1; context_.tensors[t].data.raw = nullptr; }
        }
      }
    }
    yield_now();
  }
  return kTfLiteOk;
}
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* out, int threads) {
  SimSection s;
  if (threads < -1) { out->reset(); return kTfLiteError; }
  out->reset(new Interpreter(graph_, resolver_, threads));
  lcesim_built(out->get(), threads, resolver_);
  if (!(*out)->ok()) { out->reset(); return kTfLiteError; }
  return kTfLiteOk;
}
}  // namespace tflite
