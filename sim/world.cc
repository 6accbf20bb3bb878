// Clients of interpreters: seeded histories of what an application may do, the
// faults that may hit it, and the checks after every inference.
#include "world.h"
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <set>
#include "net.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
namespace lcesim {
namespace {
enum Kind {
  eInvoke, eResize, eAllocate, eRelease, eCustom, eRecreate, eDestroy, eThreads, eClear, eEvict, eCancel, eFault, eDirect, eNumKinds
};
const char* const kKindNames[] = {"invoke", "resize", "allocate", "release", "custom-memory", "recreate", "destroy",
                                  "threads", "clear-cache", "evict", "cancel", "fault", "direct-product"};
struct Profile {
  int weights[eNumKinds];
  GenOptions gen;
  std::vector<int> impls;  // implementation choices of sessions (masks of kImplRef|kImplInd, kImplOpt for the default)
  int models = 1, sessions = 1;
  int lo = 6, hi = 24;
  bool arithmetic = true, padding = false, fresh = true, network = false, pack_once = false, faults = false, outputs = false;
  bool shared_contexts = false;
  bool tasks = false;  // sessions run concurrently
};
struct Record {  // an inference of a concurrent session, judged afterwards
  std::vector<int> dims;
  std::vector<char> input;
  std::vector<std::vector<char>> outputs;
  std::vector<std::vector<int>> shapes;
  int event;
};
struct Session {
  int id = 0;
  Model* m = nullptr;
  int impl = kImplOpt, threads = 1;
  tflite::ExternalCpuBackendContext* shared = nullptr;
  std::unique_ptr<tflite::Interpreter> it;
  std::vector<int> dims;
  std::vector<char> input;
  bool resized = false, allocated = false, written = false;
  std::map<int, std::pair<char*, std::size_t>> custom;
  std::vector<u64> packed_at;  // per node: eviction count + 1 when its weights were last known packed
  std::vector<Record> records;
};
struct World {
  Profile p;
  std::vector<std::unique_ptr<Model>> models;
  std::vector<std::unique_ptr<Session>> sessions;
  std::vector<std::unique_ptr<tflite::ExternalCpuBackendContext>> contexts;
  std::unique_ptr<tflite::MutableOpResolver> resolver[8];
};
World* W = nullptr;

tflite::MutableOpResolver* resolver_of(int impl) {
  auto& r = W->resolver[impl & 7];
  if (!r) {
    r.reset(new tflite::MutableOpResolver);
    register_ops(r.get(), impl & kImplRef, impl & kImplInd);
  }
  return r.get();
}
const char* impl_name(int impl) {
  return impl & kImplRef ? impl & kImplInd ? "reference+indirect" : "reference" : impl & kImplInd ? "indirect" : "default";
}
std::string dims_str(const std::vector<int>& d) {
  std::string s = "[";
  for (int x : d) s += std::to_string(x) + ",";
  s.back() = ']';
  return s;
}
u64 evictions() { return g_res->counters[cCacheEvictions] + g_res->counters[cCacheClears]; }

// Runs one client call; an operator may only fail it when a service failed.
template <class F>
TfLiteStatus attempt(Session& s, const char* what, F f) {
  TfLiteStatus st = kTfLiteError;
  const char* how = "an error status";
  try {
    st = f();
  } catch (const std::bad_alloc&) {
    how = "std::bad_alloc";
    if (s.it) s.it->errors.push_back("std::bad_alloc");
  } catch (const std::exception& e) {
    violation("crash: %s of session %d (%s) ended with an exception: %s", what, s.id, impl_name(s.impl), e.what());
  }
  if (st != kTfLiteOk && !g_st.faults.fired)
    violation("%s of session %d (%s) failed with %s although no service failed: %s", what, s.id, impl_name(s.impl), how,
              s.it && !s.it->errors.empty() ? s.it->errors.back().c_str() : "");
  if (st != kTfLiteOk) trace("  %s reported %s", what, how);
  if (st == kTfLiteOk && g_st.faults.fired) count(cAbsorbedFaults);
  return st;
}
bool create(Session& s) {
  if (s.it) return true;
  TfLiteStatus st = attempt(s, "construction", [&] {
    s.it.reset(new tflite::Interpreter(s.m->graph, *resolver_of(s.impl), s.threads, s.shared));
    return s.it->ok() ? kTfLiteOk : kTfLiteError;
  });
  if (st != kTfLiteOk) { s.it.reset(); return false; }
  if (s.impl == (kImplRef | kImplInd)) count(cPrecedence);
  s.allocated = s.written = false;
  s.custom.clear();
  s.packed_at.assign(s.m->net.nodes.size(), 0);
  s.resized = s.dims != s.m->net.in_dims;
  s.it->after_op = [&s](tflite::Interpreter* it, int node) {
    const NodeSpec& n = s.m->net.nodes[node];
    char what[96];
    snprintf(what, sizeof what, "session %d (%s)", s.id, impl_name(s.impl));
    check_node(*s.m, it, node, what, W->p.arithmetic, W->p.padding);
    if (W->p.pack_once && n.kind == OpConv && !(s.impl & kImplRef)) {
      const auto& sn = it->sim_node(node);
      u64& at = s.packed_at[node];
      if (sn.evals_since_prepare <= 1) at = 0;
      if (at == evictions() + 1) {
        count(cPackChecks);
        if (sn.filter_reads)
          violation("caching: %s read its weights again in node %d (%llu accesses) although they were packed since the last "
                    "preparation and nothing was evicted", what, node, sn.filter_reads);
      }
      at = evictions() + 1;
    }
  };
  return true;
}
// Memory the application provides has to be large enough before allocation.
void fit_custom(Session& s, Rng& r, bool move) {
  Shapes sh;
  shapes_of(s.m->net, s.dims, 0, &sh);
  for (auto& c : s.custom) {
    const int t = c.first;
    const TensorSpec& ts = s.m->net.t[t];
    const std::size_t px = (std::size_t)sh[t][0] * sh[t][1] * sh[t][2];
    const std::size_t need = px * (ts.packed ? (ts.channels + 31) / 32 * 4 : ts.channels * (ts.type == kTfLiteFloat32 ? 4 : 1));
    if (!move && c.second.second >= need) continue;
    const std::size_t cap = need + 64 * r.below(4);
    TfLiteCustomAllocation a;
    a.data = arena_alloc(cap, r);
    a.bytes = cap;
    c.second = {(char*)a.data, cap};
    if (s.it->SetCustomAllocationForTensor(t, a) != kTfLiteOk) violation("harness: custom allocation refused");
    s.written = false;
    s.allocated = false;
  }
}
bool allocate(Session& s, Rng& r) {
  if (!create(s)) return false;
  if (s.resized) {
    std::vector<int> d = s.dims;
    const TensorSpec& t = s.m->net.t[s.m->net.input];
    d.push_back(t.packed ? (t.channels + 31) / 32 : t.channels);
    trace("  resize input to %s", dims_str(d).c_str());
    if (attempt(s, "ResizeInputTensor", [&] { return s.it->ResizeInputTensor(s.m->net.input, d); }) != kTfLiteOk) return false;
    s.resized = false;
    s.allocated = s.written = false;
    count(cResizes);
  }
  fit_custom(s, r, false);
  if (!s.allocated) {
    s.written = false;
    if (attempt(s, "AllocateTensors", [&] { return s.it->AllocateTensors(); }) != kTfLiteOk) return false;
    s.allocated = true;
  }
  return true;
}
void verify(Session& s, int ev);
bool invoke(Session& s, Rng& r, int ev, int fresh_input) {
  if (!allocate(s, r)) return false;
  NetSpec& n = s.m->net;
  if (fresh_input || s.input.size() != input_bytes(n, s.dims)) {
    s.input = gen_input(n, s.dims, r, !n.exact);
    s.written = false;
  }
  if (!s.written) {
    memcpy(s.it->tensor(n.input)->data.raw, s.input.data(), s.input.size());
    s.written = true;
  }
  if (attempt(s, "Invoke", [&] { return s.it->Invoke(); }) != kTfLiteOk) {
    s.written = false;
    // TFLite leaves a graph with run-time sizes unspecified after a failure in its middle: start over
    if (n.has_crop) { s.it.reset(); s.custom.clear(); }
    return false;
  }
  verify(s, ev);
  return true;
}
std::vector<char> bytes_of_tensor(tflite::Interpreter* it, int t) {
  TfLiteTensor* x = it->tensor(t);
  return std::vector<char>(x->data.raw, x->data.raw + x->bytes);
}
std::vector<int> dims_of_tensor(tflite::Interpreter* it, int t) {
  TfLiteIntArray* a = it->tensor(t)->dims;
  return std::vector<int>(a->data, a->data + a->size);
}
// The same inference in an interpreter made for it alone.
void compare_fresh(Session& s, const Record& rec, const char* when) {
  count(cFreshCompares);
  const Faults f = g_st.faults;
  const Knobs k = g_st.knobs;
  g_st.faults.clear();
  g_st.knobs.preempt_mean = 0;
  g_st.knobs.preempt_globals = false;
  g_st.knobs.threads_os = false;
  g_st.knobs.single_block = true;
  g_st.knobs.evict_permille = 0;
  g_st.knobs.cache_bytes = 0;
  NetSpec& n = s.m->net;
  {
    Session z;
    z.id = 1000 + s.id;
    z.m = s.m;
    z.impl = s.impl;
    z.dims = rec.dims;
    TfLiteStatus st = attempt(z, "fresh interpreter", [&] {
      z.it.reset(new tflite::Interpreter(z.m->graph, *resolver_of(z.impl), 1));
      if (!z.it->ok()) return kTfLiteError;
      if (z.dims != n.in_dims) {
        std::vector<int> d = z.dims;
        const TensorSpec& t = n.t[n.input];
        d.push_back(t.packed ? (t.channels + 31) / 32 : t.channels);
        TF_LITE_ENSURE_STATUS(z.it->ResizeInputTensor(n.input, d));
      }
      TF_LITE_ENSURE_STATUS(z.it->AllocateTensors());
      memcpy(z.it->tensor(n.input)->data.raw, rec.input.data(), rec.input.size());
      return z.it->Invoke();
    });
    (void)st;
    for (std::size_t i = 0; i < n.outputs.size(); i++) {
      const int t = n.outputs[i];
      if (dims_of_tensor(z.it.get(), t) != rec.shapes[i])
        violation("%s session %d (%s, event %d): output %d has shape %s, a fresh interpreter gives %s", when, s.id,
                  impl_name(s.impl), rec.event, t, dims_str(rec.shapes[i]).c_str(), dims_str(dims_of_tensor(z.it.get(), t)).c_str());
      std::vector<char> want = bytes_of_tensor(z.it.get(), t);
      if (want != rec.outputs[i]) {
        std::size_t at = 0;
        while (at < want.size() && want[at] == rec.outputs[i][at]) at++;
        violation("%s session %d (%s, event %d): output %d differs from a fresh interpreter's at byte %zu of %zu", when, s.id,
                  impl_name(s.impl), rec.event, t, at, want.size());
      }
    }
  }
  g_st.faults = f;
  g_st.knobs = k;
}
void verify(Session& s, int ev) {
  NetSpec& n = s.m->net;
  Record rec;
  rec.dims = s.dims;
  rec.input = s.input;
  rec.event = ev;
  for (int t : n.outputs) {
    rec.outputs.push_back(bytes_of_tensor(s.it.get(), t));
    rec.shapes.push_back(dims_of_tensor(s.it.get(), t));
    hash_bytes(rec.outputs.back().data(), rec.outputs.back().size());
    u64 h = g_res->out_hash;
    for (char c : rec.outputs.back()) h = (h ^ (unsigned char)c) * 0x100000001b3ull;
    g_res->out_hash = mix64(h);
  }
  if (W->p.network && !n.has_crop) {
    char what[96];
    snprintf(what, sizeof what, "session %d (%s)", s.id, impl_name(s.impl));
    check_network(*s.m, s.it.get(), s.dims, s.input, what);
  }
  if (W->p.tasks) { s.records.push_back(std::move(rec)); return; }
  if (W->p.fresh) compare_fresh(s, rec, "after its history,");
}
void pick_dims(Session& s, Rng& r) {
  NetSpec& n = s.m->net;
  for (int i = 0; i < 30; i++) {
    std::vector<int> d = n.in_dims;
    switch (r.below(5)) {
      case 0: d = {r.range(1, 3), d[1], d[2]}; break;
      case 1: d = {s.dims[0], s.dims[2], s.dims[1]}; break;
      case 2: d = {s.dims[0], r.range(1, 10), r.range(1, 10)}; break;
      case 3: d = {r.range(1, 3), r.range(1, 10), r.range(1, 10)}; break;
      default: break;
    }
    if (shape_ok(n, d) && (long)d[0] * d[1] * d[2] <= 4l * n.in_dims[0] * n.in_dims[1] * n.in_dims[2] + 16) { s.dims = d; s.resized = true; return; }
  }
}
void seed_event(u64 sub) {
  g_st.place = Rng(mix(sub, 11));
  g_st.ruy = Rng(mix(sub, 12));
}
void exec(Session& s, int kind, u64 sub, int ev) {
  Rng r(sub);
  if (!W->p.tasks) seed_event(sub);
  count(cEvents);
  NetSpec& n = s.m->net;
  hash_in(kind * 131 + s.id);
  trace("[%d] session %d: %s", ev, s.id, kKindNames[kind]);
  switch (kind) {
    case eInvoke: invoke(s, r, ev, !r.chance(1, 4)); break;
    case eResize:
      if (n.fixed_shape) { invoke(s, r, ev, 1); break; }
      pick_dims(s, r);
      if (r.chance(3, 4)) invoke(s, r, ev, 1);
      break;
    case eAllocate:
      if (s.it) { s.allocated = false; s.written = s.written && s.it->has_memory() && s.it->prepared(); const bool w = s.written && !s.resized; allocate(s, r); s.written = w; }
      break;
    case eRelease:
      if (!s.it) break;
      s.it->ReleaseNonPersistentMemory();
      s.allocated = s.written = false;
      if (r.chance(2, 3)) invoke(s, r, ev, r.chance(1, 2));
      break;
    case eCustom: {
      if (n.has_crop || !create(s)) break;
      const int t = r.chance(2, 3) ? n.input : r.pick(n.outputs);
      if (n.has_crop && t != n.input) break;
      s.custom.emplace(t, std::make_pair((char*)nullptr, (std::size_t)0));
      if (s.resized) break;
      std::map<int, std::pair<char*, std::size_t>> all, one;
      one[t] = s.custom[t];
      all.swap(s.custom);
      s.custom = one;
      fit_custom(s, r, true);
      all[t] = s.custom[t];
      s.custom = all;
      s.allocated = s.written = false;
      if (r.chance(2, 3)) invoke(s, r, ev, r.chance(1, 2));
      break;
    }
    case eRecreate:
    case eDestroy:
      s.it.reset();
      s.custom.clear();
      if (kind == eRecreate) {
        s.threads = r.pick({1, 1, 2, 3, 4});
        if (r.chance(1, 3)) { s.dims = n.in_dims; }
        create(s);
      }
      break;
    case eThreads:
      if (s.it) { s.threads = r.pick({1, 2, 3, 4, 6, 8}); s.it->SetNumThreads(s.threads); }
      break;
    case eClear:
      if (s.it && s.it->backend()->internal_backend_context()) {
        s.it->backend()->internal_backend_context()->ClearCaches();
        count(cCacheClears);
      }
      break;
    case eEvict:
      if (s.it && s.it->backend()->internal_backend_context()) {
        auto* c = static_cast<tflite::CpuBackendContext*>(s.it->backend()->internal_backend_context());
        ruy::get_ctx(c->ruy_context())->GetPrepackedCache()->EjectSome(r.next());
      }
      break;
    case eCancel:
      g_st.faults.cancel_in = r.below(n.nodes.size());
      invoke(s, r, ev, 1);
      g_st.faults.clear();
      invoke(s, r, ev, r.chance(1, 2));
      break;
    case eFault: {
      const int seam = (int)r.below(6);
      const bool rebuild = r.chance(1, 3);
      if (rebuild) { s.it.reset(); s.custom.clear(); s.resized = true; }
      else if (r.chance(1, 2) && !n.fixed_shape) pick_dims(s, r);
      else if (r.chance(1, 3) && s.it) { s.it->ReleaseNonPersistentMemory(); s.allocated = s.written = false; }
      switch (seam) {
        case 0: g_st.faults.resize_in = r.below(2 * n.nodes.size()); break;
        case 1: g_st.faults.add_in = r.below(3); break;
        case 2: case 5: g_st.faults.new_in = r.chance(1, 3) ? r.below(40) : r.below(8); break;
        case 3: g_st.faults.ruy_in = r.below(6); break;
        case 4: g_st.faults.arena_in = r.below(2); break;
      }
      const bool ok = invoke(s, r, ev, 1);
      const bool fired = g_st.faults.fired;
      g_st.faults.clear();
      if (!ok && fired) {
        // the same call again, another call, or the end of the interpreter
        const int next = (int)r.below(6);
        if (next == 0) { s.it.reset(); s.custom.clear(); break; }
        if (next == 1 && !n.fixed_shape) pick_dims(s, r);
        if (next == 2 && s.it) { s.it->ReleaseNonPersistentMemory(); s.allocated = s.written = false; }
        if (invoke(s, r, ev, r.chance(1, 2))) count(cRecoveries);
      }
      break;
    }
    case eDirect: direct_products(r); break;
  }
}
Profile profile_of(const std::string& name, Rng& r) {
  Profile p;
  //                 inv res all rel cus rec des thr clr evi can flt dir
  auto w = [&](std::initializer_list<int> v) { std::copy(v.begin(), v.end(), p.weights); };
  Knobs& k = g_st.knobs;
  k.relocate_tensors = r.chance(3, 4);
  k.heap_reuse = r.chance(1, 2);
  const bool threaded = r.chance(1, 3);
  k.threads_os = threaded;
  k.preempt_mean = threaded ? (u64)1 << r.range(3, 12) : 0;
  p.gen.max_layers = r.range(1, 5);
  p.gen.work = 1500l << r.below(5);
  p.gen.small = r.chance(1, 3);
  p.gen.exact = r.chance(1, 2);
  p.impls = {kImplRef, kImplOpt, kImplInd};
  if (name == "C01") {
    w({10, 3, 0, 1, 1, 1, 0, 3, 0, 0, 0, 0, 2});
    p.impls = {kImplOpt};
    p.gen.want_impls = kImplOpt;
    p.gen.work = 4000l << r.below(4);
    k.threads_os = true;
    k.preempt_mean = (u64)1 << r.range(1, 11);
    p.lo = 4; p.hi = 14;
  } else if (name == "C02") {
    w({8, 6, 2, 4, 4, 1, 1, 1, 1, 0, 2, 0, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, kImplInd, 7});
    p.gen.crop = p.gen.want_impls != kImplInd && p.gen.want_impls != 7 && r.chance(1, 4);
    p.sessions = r.range(1, 2);
    p.arithmetic = r.chance(1, 2);
  } else if (name == "C03") {
    w({9, 4, 0, 3, 3, 1, 1, 1, 1, 0, 1, 0, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, kImplInd, kImplOpt, 7});
    p.gen.odd_channels = r.chance(1, 2);
    p.sessions = r.range(1, 2);
    p.arithmetic = p.fresh = false;
    k.scope_checks = true;
    p.lo = 4; p.hi = 16;
  } else if (name == "C04") {
    w({9, 4, 1, 2, 3, 1, 1, 1, 1, 1, 1, 0, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, 7});
    p.gen.odd_channels = true;
    p.sessions = 1;
    p.arithmetic = p.fresh = false;
    p.padding = true;
  } else if (name == "C05") {
    w({9, 4, 1, 2, 2, 2, 1, 1, 1, 0, 0, 0, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, 7, 7});
    p.sessions = r.range(2, 4);
    p.models = r.range(1, 2);
    p.tasks = true;
    p.gen.work = 1000l << r.below(3);
    k.preempt_mean = (u64)1 << r.range(3, 12);
    k.preempt_globals = r.chance(2, 3);
    k.threads_os = r.chance(1, 2);
    p.lo = 3; p.hi = 9;
  } else if (name == "C06") {
    w({5, 3, 0, 1, 1, 1, 1, 1, 1, 1, 2, 14, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, kImplOpt, kImplInd, 7});
    p.faults = true;
    k.scope_checks = true;
    p.gen.work = 1000l << r.below(4);
    p.gen.crop = p.gen.want_impls != kImplInd && p.gen.want_impls != 7 && r.chance(1, 6);
    p.lo = 3; p.hi = 14;
  } else if (name == "C08") {
    w({10, 3, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0});
    p.gen.want_impls = r.pick({kImplRef, kImplOpt, kImplInd, 7, 7, 7});
    p.gen.exact = r.chance(3, 4);
    p.sessions = r.range(1, 3);
    p.gen.work = 3000l << r.below(4);
    p.fresh = false;
    p.network = true;
    p.lo = 3; p.hi = 10;
  } else if (name == "C09") {
    w({12, 2, 1, 2, 2, 1, 1, 1, 2, 3, 1, 0, 0});
    p.gen.want_impls = r.pick({kImplOpt, kImplOpt, kImplInd, kImplOpt | kImplInd});
    p.gen.max_layers = r.range(2, 6);
    p.gen.share_filters = r.chance(1, 2);
    p.impls = {kImplOpt, kImplInd};
    p.models = r.range(1, 3);
    p.sessions = r.range(1, 4);
    p.shared_contexts = true;
    p.pack_once = true;
    k.cache_bytes = r.chance(1, 2) ? 0 : (std::size_t)64 << r.below(8);
    k.evict_permille = r.chance(1, 2) ? 0 : r.pick({20, 200, 600});
  } else if (name == "C23") {
    w({10, 4, 1, 2, 2, 1, 1, 2, 1, 1, 1, 0, 0});
    p.gen.want_impls = r.pick({kImplOpt, kImplOpt, kImplInd, kImplInd, kImplRef, kImplOpt | kImplInd, 7});
    p.gen.words = true;
    p.gen.odd_channels = r.chance(1, 6);
    p.gen.max_layers = r.range(1, 4);
    p.gen.work = 3000l << r.below(5);
    p.gen.exact = r.chance(1, 3);
    p.sessions = r.range(1, 2);
    p.arithmetic = p.padding = true;
    k.scope_checks = r.chance(1, 2);
    p.lo = 2; p.hi = 8;
  } else {
    fprintf(stderr, "unknown profile %s\n", name.c_str());
    _exit(2);
  }
  return p;
}
void session_plan(Session& s, u64 seed, int lo, int hi, std::vector<std::pair<int, u64>>* plan) {
  Rng r(seed);
  int total = 0;
  for (int x : W->p.weights) total += x;
  const int n = r.range(lo, hi);
  for (int i = 0; i < n; i++) {
    int x = (int)r.below(total), k = 0;
    while (x >= W->p.weights[k]) x -= W->p.weights[k++];
    plan->push_back({k, r.next()});
  }
  (void)s;
}
bool dropped(int i) { return std::find(g_cfg.dropped.begin(), g_cfg.dropped.end(), i) != g_cfg.dropped.end(); }

void one_world(u64 seed) {
  Rng r(mix(seed, 77));
  World world;
  W = &world;
  g_st.place = Rng(mix(seed, 1));
  g_st.ruy = Rng(mix(seed, 2));
  g_st.sched = Rng(mix(seed, 3));
  g_st.faults.clear();
  world.p = profile_of(g_cfg.profile, r);
  Profile& p = world.p;
  u64 shape = 0;
  for (int i = 0; i < p.models; i++) {
    world.models.emplace_back(new Model);
    Model& m = *world.models.back();
    m.net = gen_net(r, p.gen);
    build_graph(&m, r);
    for (auto& n : m.net.nodes) shape = mix(shape, n.kind * 1000003u + n.cin * 131 + n.cout * 7 + n.fh * 3 + n.fw + n.sh * 11 + n.dh * 17 + n.groups * 29 + n.same * 37 + n.pad_value * 41 + n.act * 43);
    for (int x : m.net.in_dims) shape = mix(shape, x);
  }
  g_res->shape_hash = shape;
  std::vector<int> impls;
  for (int i : p.impls) if (p.gen.want_impls & i) impls.push_back(i);
  if ((p.gen.want_impls & kImplRef) && g_cfg.profile == "C08") impls.push_back(kImplRef | kImplInd);
  const int nctx = p.shared_contexts ? r.range(1, 2) : 0;
  for (int i = 0; i < nctx; i++) world.contexts.emplace_back(new tflite::ExternalCpuBackendContext);
  for (int i = 0; i < p.sessions; i++) {
    world.sessions.emplace_back(new Session);
    Session& s = *world.sessions.back();
    s.id = i;
    s.m = world.models[r.below(world.models.size())].get();
    s.impl = r.pick(impls);
    if (p.network && p.sessions > 1) { s.m = world.models[0].get(); s.impl = impls[(i + r.below(2)) % impls.size()]; }
    s.threads = p.impls.size() == 1 ? r.pick({2, 3, 4, 8, 1, 2}) : r.pick({1, 2, 3, 4, -1});
    s.dims = s.m->net.in_dims;
    if (nctx && r.chance(3, 4)) s.shared = world.contexts[r.below(nctx)].get();
    trace("session %d: %s convolution, %d threads, input %s, %zu nodes", i, impl_name(s.impl), s.threads, dims_str(s.dims).c_str(), s.m->net.nodes.size());
  }
  if (!p.tasks) {
    std::vector<std::pair<int, u64>> plan;
    session_plan(*world.sessions[0], r.next(), p.lo, p.hi, &plan);
    for (int i = 0; i < (int)plan.size(); i++) {
      const int who = (int)(mix(plan[i].second, 5) % world.sessions.size());
      if (!dropped(i)) exec(*world.sessions[who], plan[i].first, plan[i].second, i);
    }
    int i = (int)plan.size();
    for (auto& s : world.sessions) {
      if (!dropped(i)) exec(*s, eInvoke, mix(seed, 900 + i), i);
      i++;
    }
  } else {
    std::vector<int> ids;
    int base = 0;
    for (auto& sp : world.sessions) {
      Session* s = sp.get();
      std::vector<std::pair<int, u64>> plan;
      session_plan(*s, r.next(), p.lo, p.hi, &plan);
      const int b = base;
      base += 64;
      ids.push_back(spawn([s, plan, b] {
        for (int i = 0; i < (int)plan.size(); i++) {
          if (!dropped(b + i)) exec(*s, plan[i].first, plan[i].second, b + i);
          yield_now();
        }
        if (!dropped(b + (int)plan.size())) exec(*s, eInvoke, mix(plan[0].second, 4), b + (int)plan.size());
        if (s->id % 2) s->it.reset();
      }));
    }
    for (int id : ids) join(id);
    for (auto& s : world.sessions)
      for (auto& rec : s->records) compare_fresh(*s, rec, "alone,");
  }
  world.sessions.clear();
  world.contexts.clear();
}
}  // namespace

void run_profile() {
  init_pools();
  set_dirt(g_cfg.dirt);
  run_main([] {
    if (g_cfg.profile == "C07") { run_invalid_descriptions(); finish_ok(); }
    if (g_cfg.profile == "C06") {
      // the same life three times: memory in use must not keep growing
      std::size_t live[3], bytes[3];
      for (int i = 0; i < 3; i++) {
        const std::size_t mark = const_mark();
        one_world(g_cfg.seed);
        const_reset(mark);
        live[i] = heap_live_blocks();
        bytes[i] = heap_live_bytes();
        if (i == 1 && live[1] <= live[0]) break;
        if (i == 2 && live[2] > live[1])
          violation("leak: %zu blocks (%zu bytes) more are in use after each repetition of the same closed history", live[2] - live[1], bytes[2] - bytes[1]);
      }
      count(cLeakChecks);
      finish_ok();
    }
    one_world(g_cfg.seed);
    finish_ok();
  });
}
}  // namespace lcesim
