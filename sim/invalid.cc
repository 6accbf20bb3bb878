// Profile C07: descriptions of operators that break their documented
// signature in one seeded way, between valid ones, in one process.
#include <string.h>
#include <algorithm>
#include <memory>
#include "net.h"
#include "world.h"
namespace lcesim {
namespace {
struct Case {
  Model m;
  int impl = kImplOpt;
  std::string what;  // empty: valid
};
const char* impl_name(int impl) { return impl & kImplRef ? "reference" : impl & kImplInd ? "indirect" : "default"; }
const char* put(const void* p, std::size_t n) {
  char* d = const_alloc(n + 1);
  memcpy(d, p, n);
  return d;
}
void set_options(tflite::GraphNode& g, const std::vector<Opt>& o, Rng& r) {
  std::string b = write_flexbuffer(o, r.chance(1, 4) ? 3 : 2);
  g.options = put(b.data(), b.size());
  g.options_size = b.size();
}
int clone(tflite::Graph& g, int t) {
  g.tensors.push_back(tflite::GraphTensor(g.tensors[t]));
  return (int)g.tensors.size() - 1;
}
int constant(tflite::Graph& g, TfLiteType type, std::vector<int> dims, std::size_t bytes) {
  tflite::GraphTensor t;
  t.type = type;
  t.dims = dims;
  t.name = "bad";
  std::vector<char> z(bytes + 64, 0);
  t.const_data = put(z.data(), z.size());
  t.const_bytes = bytes;
  g.tensors.push_back(t);
  return (int)g.tensors.size() - 1;
}
// One seeded way to break node j; false when it does not apply.
bool break_node(Case* c, int j, Rng& r) {
  tflite::Graph& g = c->m.graph;
  NodeSpec& s = c->m.net.nodes[j];
  tflite::GraphNode& n = g.nodes[j];
  const bool conv = s.kind == OpConv, pool = s.kind == OpPool, quant = s.kind == OpQuantize;
  std::string& w = c->what;
  std::vector<Opt> o = node_options(c->m.net, s);
  auto opt = [&](const char* name) -> Opt& { for (auto& x : o) if (x.name == name) return x; violation("harness: no option %s", name); };
  auto wrong_rank = [&](int which, bool output) {
    int& slot = output ? n.outputs[which] : n.inputs[which];
    const int t = clone(g, slot);
    auto& d = g.tensors[t].dims;
    if (r.chance(1, 2)) d.push_back(1); else d.insert(d.begin(), 1);
    if (r.chance(1, 3)) { d = g.tensors[slot].dims; if (d.size() > 1) { d[1] *= d[0]; d.erase(d.begin()); } else d.clear(); }
    if (!output && g.tensors[t].const_data == nullptr && slot == g.inputs[0]) g.inputs[0] = t;
    slot = t;
  };
  auto types_except = [&](std::initializer_list<int> ok) {
    std::vector<int> v;
    for (int t : {kTfLiteFloat32, kTfLiteInt32, kTfLiteUInt8, kTfLiteInt64, kTfLiteBool, kTfLiteInt16, kTfLiteInt8, kTfLiteFloat16, kTfLiteFloat64, kTfLiteUInt32})
      if (std::find(ok.begin(), ok.end(), t) == ok.end()) v.push_back(t);
    return (TfLiteType)r.pick(v);
  };
  auto wrong_type = [&](int which, bool output, TfLiteType t) {
    int& slot = output ? n.outputs[which] : n.inputs[which];
    const int x = clone(g, slot);
    g.tensors[x].type = t;
    if (!output && slot == g.inputs[0]) g.inputs[0] = x;
    if (g.tensors[x].const_data) {  // the model has as many bytes as the type needs
      std::size_t b = 8;
      for (int k : g.tensors[x].dims) b *= k;
      std::vector<char> z(b, 0);
      g.tensors[x].const_data = put(z.data(), b);
    }
    slot = x;
  };
  const TfLiteType out = c->m.net.t[s.out].type;
  switch (r.below(conv ? 20 : pool ? 9 : 6)) {
    case 0:
      switch (r.below(6)) {
        case 0: n.inputs.push_back(n.inputs[0]); w = "one input too many"; break;
        case 1: n.inputs.pop_back(); w = "one input too few"; break;
        case 2: n.inputs.clear(); w = "no inputs"; break;
        case 3: n.outputs.clear(); w = "no outputs"; break;
        case 4: n.outputs.push_back(clone(g, n.outputs[0])); w = "two outputs"; break;
        default: n.inputs[0] = -1; w = "input tensor missing"; break;
      }
      return true;
    case 1:
      if (!conv && !pool) {
        // rank 0, or ranks that differ between input and output
        if (r.chance(1, 2)) {
          const int a = clone(g, n.inputs[0]), b = clone(g, n.outputs[0]);
          g.tensors[a].dims.clear();
          g.tensors[b].dims.clear();
          if (n.inputs[0] == g.inputs[0]) g.inputs[0] = a; else return false;
          n.inputs[0] = a;
          n.outputs[0] = b;
          w = "scalar tensors";
        } else { wrong_rank(0, true); w = "output of another rank"; }
        return true;
      }
      wrong_rank(0, false);
      w = "input of wrong rank";
      return true;
    case 2:
      if (quant) wrong_type(0, false, types_except({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}));
      else wrong_type(0, false, types_except({kTfLiteInt32}));
      w = "input of wrong type";
      return true;
    case 3:
      if (quant || pool) wrong_type(0, true, types_except({kTfLiteInt32}));
      else if (conv) wrong_type(0, true, types_except({kTfLiteInt32, kTfLiteInt8, kTfLiteFloat32}));
      else wrong_type(0, true, types_except({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}));
      w = "output of wrong type";
      return true;
    case 4:
      if (conv || pool) {
        const std::size_t k = r.below(o.size());
        w = "option " + o[k].name + " missing";
        o.erase(o.begin() + k);
        set_options(n, o, r);
        return true;
      }
      if (s.kind == OpDequantize) {
        const int t = clone(g, n.outputs[0]);
        auto& d = g.tensors[t].dims;
        const int k = (int)r.below(4);
        if (k == 3) d[3] += 32; else d[k] += 1;
        n.outputs[0] = t;
        w = "output shape does not match";
        return true;
      }
      return false;
    case 5:
      if (conv || pool) {
        opt("padding").value = r.pick({2, 3, -1, 7, 100});
        set_options(n, o, r);
        w = "unknown padding scheme";
        return true;
      }
      return false;
    case 6:
      if (pool) { opt(r.chance(1, 2) ? "stride_height" : "stride_width").value = 0; set_options(n, o, r); w = "stride 0"; return true; }
      opt("pad_values").value = r.pick({2, -1, 3, 255, -1000});
      set_options(n, o, r);
      w = "padding value other than 0 and 1";
      return true;
    case 7:
      if (pool) { opt(r.chance(1, 2) ? "filter_height" : "filter_width").value = 0; set_options(n, o, r); w = "filter size 0"; return true; }
      wrong_rank(1, false);
      w = "filter of wrong rank";
      return true;
    case 8:
      if (pool) { wrong_rank(0, false); w = "input of wrong rank"; return true; }
      wrong_type(1, false, types_except({kTfLiteInt32}));
      w = "filter of wrong type";
      return true;
    case 9:
      n.inputs[1] = -1;
      w = "filter missing";
      return true;
    case 10: case 11: case 12: {
      const int k = out == kTfLiteInt32 ? 4 : 2 + (int)r.below(2);
      const char* name = k == 4 ? "thresholds" : k == 2 ? "multiplier" : "bias";
      const TfLiteType good = k == 4 ? kTfLiteInt32 : kTfLiteFloat32;
      switch (r.below(6)) {
        case 0: n.inputs[k] = -1; w = std::string(name) + " missing"; break;
        case 1: n.inputs[k] = constant(g, good, {s.cout + r.pick({-1, 1, 7, 32})}, (s.cout + 32) * 4); w = std::string(name) + " of wrong length"; break;
        case 2: n.inputs[k] = constant(g, good, {1, s.cout}, s.cout * 4); w = std::string(name) + " of rank 2"; break;
        case 3: n.inputs[k] = constant(g, good, {}, 4); w = std::string(name) + " of rank 0"; break;
        case 4: n.inputs[k] = constant(g, types_except({good}), {s.cout}, s.cout * 8); w = std::string(name) + " of wrong type"; break;
        default: n.inputs[k] = constant(g, good, {0}, 0); w = std::string(name) + " empty"; break;
      }
      return true;
    }
    case 13:
      if (out != kTfLiteInt8) return false;
      {
        const int t = clone(g, n.outputs[0]);
        g.tensors[t].quantized = false;
        n.outputs[0] = t;
      }
      w = "int8 output without quantization";
      return true;
    case 14: {
      const int t = clone(g, n.inputs[1]);
      std::size_t b = 4;
      for (int k = 0; k < 3; k++) b *= g.tensors[t].dims[k];
      const int packed = (s.cin + 31) / 32;
      int d3 = r.pick({0, packed + 1, 2 * packed, 2 * packed + 1});
      if (d3 == 0) { const int z = constant(g, kTfLiteInt32, {s.cout, s.fh, s.fw, 0}, 0); n.inputs[1] = z; }
      else { n.inputs[1] = constant(g, kTfLiteInt32, {s.cout, s.fh, s.fw, d3}, b * d3); }
      w = "filter depth " + std::to_string(d3) + " for " + std::to_string(packed) + " packed channels";
      return true;
    }
    case 15: {
      // grouped: indivisible output channels, partial words per group, or a kernel without groups
      const int packed = (s.cin + 31) / 32;
      if (packed < 2) return false;
      int groups = 0;
      for (int k = packed; k >= 2; k--) if (packed % k == 0 && (!groups || r.chance(1, 2))) groups = k;
      if (!groups) return false;
      const bool words = s.cin / groups % 32 == 0;
      const bool divides = s.cout % groups == 0;
      if (words && divides && c->impl != kImplOpt) return false;  // that would be valid
      n.inputs[1] = constant(g, kTfLiteInt32, {s.cout, s.fh, s.fw, packed / groups}, (std::size_t)4 * s.cout * s.fh * s.fw * (packed / groups));
      w = "grouped filter that is not supported";
      return true;
    }
    case 16: {
      const bool refok = s.cin % 2 == 0, optok = out == kTfLiteFloat32 && s.act == 0;
      if (c->impl == kImplRef ? refok : optok) return false;
      opt("padding").value = 0;
      opt("pad_values").value = 0;
      set_options(n, o, r);
      w = "zero padding that is not supported";
      return true;
    }
    case 17: {
      // the stored channel count belongs to another number of packed words than input and filter
      const int packed = (s.cin + 31) / 32;
      if (s.groups != 1) return false;
      if (r.chance(1, 2)) {
        const int t = clone(g, n.inputs[0]);
        if (n.inputs[0] != g.inputs[0]) return false;
        g.tensors[t].dims[3] = r.chance(1, 2) && packed > 1 ? packed - 1 : packed + 1;
        n.inputs[0] = t;
        g.inputs[0] = t;
        w = "input with another number of channels";
      } else {
        opt("channels_in").value = s.cin + 32;
        set_options(n, o, r);
        n.inputs[1] = constant(g, kTfLiteInt32, {s.cout, s.fh, s.fw, packed + 1}, (std::size_t)4 * s.cout * s.fh * s.fw * (packed + 1));
        w = "channel count of the options and the input disagree";
      }
      return true;
    }
    case 18: {
      // several options at once
      for (int k = r.range(2, (int)o.size()); k > 0; k--) o.erase(o.begin() + r.below(o.size()));
      set_options(n, o, r);
      w = "several options missing";
      return true;
    }
    default: {
      const int k = out == kTfLiteInt32 ? 4 : 2;
      n.inputs[k] = clone(g, n.inputs[0]);
      w = "activations in place of a constant";
      if (g.tensors[n.inputs[k]].dims.size() == 1) return false;
      return true;
    }
  }
}
// Changes that leave a description valid.
void vary_valid(Case* c, Rng& r) {
  for (std::size_t j = 0; j < c->m.net.nodes.size(); j++) {
    NodeSpec& s = c->m.net.nodes[j];
    tflite::GraphNode& n = c->m.graph.nodes[j];
    if (s.kind == OpConv || s.kind == OpPool) {
      std::vector<Opt> o = node_options(c->m.net, s);
      if (r.chance(1, 3)) o.push_back({"a_future_option", (long)r.below(100)});
      if (r.chance(1, 4)) o.push_back({"zz", 1, true});
      set_options(n, o, r);
    }
    if (s.kind == OpConv) {
      const bool bits = c->m.net.t[s.out].type == kTfLiteInt32;
      // tensors the output type does not use may be left out or be anything
      if (r.chance(1, 2)) { if (bits) n.inputs[2] = n.inputs[3] = -1; else n.inputs[4] = -1; }
    }
  }
}
void use(Case& c, tflite::Interpreter* it, const std::vector<int>& dims, Rng& r) {
  std::vector<char> in = gen_input(c.m.net, dims, r, true);
  memcpy(it->tensor(c.m.graph.inputs[0])->data.raw, in.data(), in.size());
  it->after_op = [&c](tflite::Interpreter* i, int node) { check_node(c.m, i, node, "valid description", true, false); };
  if (it->Invoke() != kTfLiteOk) violation("a valid description (%s) was prepared but its inference failed: %s", impl_name(c.impl), it->errors.empty() ? "" : it->errors.back().c_str());
}
void one_case(u64 sub, int ev) {
  Rng r(sub);
  g_st.place = Rng(mix(sub, 1));
  g_st.ruy = Rng(mix(sub, 2));
  count(cEvents);
  Case c;
  c.impl = r.pick({kImplRef, kImplOpt, kImplInd});
  GenOptions o;
  o.want_impls = c.impl;
  o.max_layers = r.range(1, 3);
  o.small = r.chance(1, 2);
  o.work = 3000;
  c.m.net = gen_net(r, o);
  build_graph(&c.m, r);
  tflite::MutableOpResolver res;
  register_ops(&res, c.impl == kImplRef, c.impl == kImplInd);
  const bool valid = r.chance(1, 4);
  bool wrong_size = false;
  if (valid) vary_valid(&c, r);
  else if (r.chance(1, 10) && !c.m.net.fixed_shape && c.m.net.nodes[0].kind != OpQuantize) wrong_size = true;
  else {
    const int j = (int)r.below(c.m.net.nodes.size());
    if (!break_node(&c, j, r)) { vary_valid(&c, r); c.what.clear(); }
    else c.what = c.m.graph.nodes[j].custom_name + ": " + c.what;
  }
  trace("[%d] %s convolution, %s", ev, impl_name(c.impl), c.what.empty() ? wrong_size ? "valid, resized to a wrong rank" : "valid" : c.what.c_str());
  hash_in(mix(ev, c.what.size()));
  g_res->shape_hash = mix(g_res->shape_hash, std::hash<std::string>()(c.what));
  try {
    tflite::Interpreter it(c.m.graph, res, r.pick({1, 2, -1}));
    if (!it.ok()) violation("registered operators were not found: %s", it.errors.back().c_str());
    const TfLiteStatus st = it.AllocateTensors();
    if (c.what.empty()) {
      if (st != kTfLiteOk) violation("a valid description was rejected (%s): %s", impl_name(c.impl), it.errors.empty() ? "" : it.errors.back().c_str());
      count(cValidModels);
      use(c, &it, c.m.net.in_dims, r);
      if (wrong_size) {
        std::vector<int> d = c.m.graph.tensors[c.m.graph.inputs[0]].dims, bad = d;
        if (r.chance(1, 2)) bad.push_back(1); else bad.erase(bad.begin());
        it.ResizeInputTensor(c.m.graph.inputs[0], bad);
        if (it.AllocateTensors() == kTfLiteOk) violation("an input resized to rank %zu was accepted (%s)", bad.size(), impl_name(c.impl));
        count(cInvalidModels);
        if (it.Invoke() == kTfLiteOk) violation("an operator with an input of wrong rank was run");
        if (it.ResizeInputTensor(c.m.graph.inputs[0], d) != kTfLiteOk || it.AllocateTensors() != kTfLiteOk)
          violation("a valid preparation after a rejected one failed (%s): %s", impl_name(c.impl), it.errors.back().c_str());
        use(c, &it, c.m.net.in_dims, r);
        count(cRecoveries);
      }
      return;
    }
    count(cInvalidModels);
    if (st == kTfLiteOk) violation("an invalid description was accepted (%s): %s", impl_name(c.impl), c.what.c_str());
    if (it.errors.empty()) count(cRejected);
    if (it.Invoke() == kTfLiteOk) violation("an invalid operator was run (%s): %s", impl_name(c.impl), c.what.c_str());
    if (r.chance(1, 3) && it.AllocateTensors() == kTfLiteOk)
      violation("an invalid description was accepted at the second attempt (%s): %s", impl_name(c.impl), c.what.c_str());
    count(cRejected);
  } catch (const std::exception& e) {
    violation("crash: an exception (%s) escaped from an operator described as: %s (%s)", e.what(), c.what.c_str(), impl_name(c.impl));
  }
}
}  // namespace
void run_invalid_descriptions() {
  Rng r(mix(g_cfg.seed, 7));
  g_st.knobs.relocate_tensors = r.chance(1, 2);
  g_st.knobs.heap_reuse = r.chance(1, 2);
  const int n = r.range(4, 14);
  for (int i = 0; i < n; i++) {
    const u64 sub = r.next();
    if (std::find(g_cfg.dropped.begin(), g_cfg.dropped.end(), i) == g_cfg.dropped.end()) one_case(sub, i);
  }
}
}  // namespace lcesim
