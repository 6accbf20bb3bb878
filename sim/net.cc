#include "net.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/kernels/kernel_util.h"
namespace lcesim {
// Ordinary networks are small; some stretch one dimension far beyond that.
enum Stretch { kNone, kChannels, kFilters, kImage, kBatch, kSteps, kDepth, kDeep };
static int pick_channels(Rng& r, const GenOptions& o, Stretch st = kNone) {
  if (st == kChannels && r.chance(1, 2)) return r.pick({127, 128, 129, 130, 159, 160, 192, 223, 224, 225, 255, 256, 257, 260, 288, 320, 384, 512, 513, 544, 1024, 1025});
  if (o.words && r.chance(1, 2)) return 32 * r.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16}) - (r.chance(1, 4) ? r.range(1, 31) : 0);
  if (o.odd_channels && r.chance(3, 4)) return r.pick({1, 2, 3, 7, 8, 9, 15, 17, 20, 30, 31, 33, 34, 47, 48, 49, 63, 65, 66, 95, 97});
  if (o.small) return r.pick({1, 3, 8, 16, 31, 32, 33, 40});
  switch (r.below(4)) {
    case 0: return r.pick({31, 32, 33, 63, 64, 65, 96});
    case 1: return r.range(1, 40);
    case 2: return r.pick({32, 64, 16, 8, 4});
    default: return r.range(1, 100);
  }
}
static bool conv_ok(const NodeSpec& s, TfLiteType out, int impl) {
  if (s.groups > 1 && impl == kImplOpt) return false;
  if (s.same && s.pad_value == 0) {
    if (impl == kImplRef) return s.cin % 2 == 0;
    return out == kTfLiteFloat32 && s.act == 0;
  }
  return true;
}
static int out_size(bool same, int in, int f, int stride, int dil) {
  const int e = (f - 1) * dil + 1;
  return same ? (in + stride - 1) / stride : (in + stride - e) / stride;
}
static bool node_shape(const NodeSpec& s, const std::vector<int>& in, int crop, std::vector<int>* out) {
  *out = in;
  if (s.kind == OpCrop) { (*out)[1] -= crop; return (*out)[1] >= 1; }
  if (s.kind == OpPool || s.kind == OpConv) {
    const int eh = (s.fh - 1) * s.dh + 1, ew = (s.fw - 1) * s.dw + 1;
    if (!s.same && (in[1] < eh || in[2] < ew)) return false;
    (*out)[1] = out_size(s.same, in[1], s.fh, s.sh, s.dh);
    (*out)[2] = out_size(s.same, in[2], s.fw, s.sw, s.dw);
    return (*out)[1] >= 1 && (*out)[2] >= 1;
  }
  return true;
}
bool shapes_of(const NetSpec& n, const std::vector<int>& in, int crop, Shapes* out) {
  out->assign(n.t.size(), {});
  (*out)[n.input] = in;
  for (auto& s : n.nodes)
    if (!node_shape(s, (*out)[s.in], crop, &(*out)[s.out])) return false;
  return true;
}
bool shape_ok(const NetSpec& n, const std::vector<int>& in) {
  Shapes sh;
  if (!shapes_of(n, in, 0, &sh)) return false;
  for (auto& s : sh) if ((long)s[0] * s[1] * s[2] > 4000) return false;
  return !n.has_crop || shapes_of(n, in, 1, &sh);
}
static float act_of(int act, double v) {
  switch (act) {
    case 1: return (float)std::max(v, 0.0);
    case 2: return (float)std::min(1.0, std::max(-1.0, v));
    case 3: return (float)std::min(6.0, std::max(0.0, v));
    default: return (float)v;
  }
}
NetSpec gen_net(Rng& r, const GenOptions& o) {
  for (;;) {
    NetSpec n;
    n.exact = o.exact;
    n.impls = o.want_impls;
    const int ms = o.small ? 4 : 9;
    n.in_dims = {r.chance(2, 3) ? 1 : r.range(2, 3), r.range(1, ms), r.range(1, ms)};
    Stretch st = r.chance(1, 8) ? (Stretch)r.range(1, 6) : kNone;
    if (o.words && r.chance(1, 10)) st = kDeep;  // sums around what 16 bits hold
    struct { int f, ch; } deep = {1, 0};
    if (st == kDeep) {
      deep.f = r.pick({1, 3, 3, 4, 5, 5});
      const int full = 65536 / (deep.f * deep.f);
      deep.ch = r.chance(1, 2) ? full + r.range(-100, 60) : r.chance(1, 2) ? full / 2 + r.range(-40, 40) : full + full * r.range(0, 6) / 10;
      if (r.chance(1, 2)) deep.ch = (deep.ch + 31) / 32 * 32;
    }
    const long work_limit = st == kDeep ? 400000l : st == kNone ? o.work : std::max(o.work, 25000l);
    if (st == kImage) { n.in_dims[1] = r.range(1, 24); n.in_dims[2] = r.range(1, 24); if (r.chance(1, 3)) { n.in_dims[r.range(1, 2)] = 1; n.in_dims[r.range(1, 2)] = r.range(20, 140); } }
    if (st == kBatch) n.in_dims[0] = r.range(4, 17);
    if (st == kDepth || st == kDeep) n.in_dims = {1, r.range(1, st == kDeep ? 2 : 3), r.range(1, st == kDeep ? 2 : 3)};
    if (st == kDeep && r.chance(1, 3)) n.in_dims = {r.range(1, 2), deep.f, deep.f};
    auto add = [&](TfLiteType type, bool packed, int ch) {
      TensorSpec t;
      t.type = type;
      t.packed = packed;
      t.channels = ch;
      if (type == kTfLiteInt8) {
        t.scale = o.exact ? (float)(1 << r.below(4)) : (float)(0.02 + r.uniform() * (r.chance(1, 3) ? 8 : 1));
        t.zp = r.chance(1, 4) ? r.pick({-128, 127, 0, -127, 126}) : r.range(-128, 127);
      }
      n.t.push_back(t);
      return (int)n.t.size() - 1;
    };
    // The chain of tensors still open for consumers.
    const int kind = (int)r.below(8);
    int ch = st == kDeep ? deep.ch : st == kDepth ? r.pick({1024, 2048, 2080, 3680, 4096, 4100}) : pick_channels(r, o, st);
    int cur = kind <= 3 ? add(kTfLiteFloat32, false, ch) : kind <= 5 ? add(kTfLiteInt8, false, ch) : kind == 6 ? add(kTfLiteBool, false, ch) : add(kTfLiteInt32, true, ch);
    n.input = cur;
    std::vector<int> consumed;
    Shapes sh(1, n.in_dims);
    bool good = true;
    long work = 0;
    auto push = [&](NodeSpec s) {
      std::vector<int> os;
      if (!node_shape(s, sh[s.in], 0, &os)) { good = false; return; }
      sh.resize(n.t.size());
      sh[s.out] = os;
      consumed.push_back(s.in);
      n.nodes.push_back(std::move(s));
    };
    const int layers = r.range(1, o.max_layers);
    bool crop_left = o.crop;
    for (int l = 0; l < layers && good; l++) {
      if (crop_left && n.t[cur].type == kTfLiteFloat32 && r.chance(2, 3)) {
        NodeSpec s;
        s.kind = OpCrop;
        s.in = cur;
        s.out = add(kTfLiteFloat32, false, n.t[cur].channels);
        push(s);
        cur = s.out;
        crop_left = false;
        n.has_crop = true;
        if (!good) break;
      }
      if (!n.t[cur].packed) {
        NodeSpec s;
        s.kind = OpQuantize;
        s.in = cur;
        s.out = add(kTfLiteInt32, true, n.t[cur].channels);
        push(s);
        cur = s.out;
        continue;
      }
      const int what = (int)r.below(10);
      if (what <= 1) {
        NodeSpec s;
        s.kind = OpPool;
        s.in = cur;
        s.fh = r.range(1, 3); s.fw = r.range(1, 3); s.sh = r.range(1, 3); s.sw = r.range(1, 3);
        if (st == kFilters) { s.fh = r.range(1, 7); s.fw = r.range(1, 7); }
        if (st == kSteps) { s.sh = r.range(1, 7); s.sw = r.range(1, 7); }
        s.same = r.chance(1, 2);
        s.out = add(kTfLiteInt32, true, n.t[cur].channels);
        push(s);
        cur = s.out;
        continue;
      }
      NodeSpec s;
      s.kind = OpConv;
      s.in = cur;
      s.cin = n.t[cur].channels;
      s.fh = r.pick({1, 1, 2, 3, 3, 4}); s.fw = r.pick({1, 1, 2, 3, 3, 4});
      if (r.chance(1, 3)) s.fh = s.fw = 1;
      s.sh = r.pick({1, 1, 1, 2, 3}); s.sw = r.pick({1, 1, 1, 2, 3});
      if (r.chance(1, 5)) { s.dh = r.range(1, 2); s.dw = r.range(1, 3); }
      if (st == kFilters) { s.fh = r.range(1, 7); s.fw = r.range(1, 7); }
      if (st == kSteps) { s.sh = r.range(1, 6); s.sw = r.range(1, 6); s.dh = r.range(1, 5); s.dw = r.range(1, 5); }
      if (st == kDepth) { s.fh = s.fw = 3; }
      if (st == kDeep) { s.fh = s.fw = deep.f; s.sh = s.sw = s.dh = s.dw = 1; }
      int pad = (int)r.below(3);
      if (st == kDeep && r.chance(1, 3)) pad = 1;
      s.same = pad != 0;
      s.pad_value = pad == 2 ? 0 : 1;
      s.act = r.chance(1, 2) ? 0 : r.range(0, 3);
      s.cout = pick_channels(r, o, st);
      if (st == kDepth || st == kDeep) s.cout = r.range(1, 9);
      const int ot = (int)r.below(4);
      TfLiteType out = ot == 0 ? kTfLiteFloat32 : ot == 1 ? kTfLiteInt8 : kTfLiteInt32;
      if (s.same && s.pad_value == 0 && r.chance(2, 3)) { out = kTfLiteFloat32; s.act = 0; }
      if (o.words && s.cin % 32 == 0 && s.cin > 32 && r.chance(1, 2)) {
        const int words = s.cin / 32;
        s.groups = r.range(2, std::min(words, 64));
        while (words % s.groups) s.groups--;
        s.cout = s.groups * r.pick({1, 2, 3, 4, 5, 8, 9, 12, 16, 17});
        if (s.groups > 16) s.cout = s.groups;
      } else if (s.cin % 64 == 0 && r.chance(1, 2) && st != kDeep) { s.groups = s.cin / 32; s.cout = s.groups * r.pick({1, 2, 3, 4, 5, 8, 16, 17, 32}); }
      else if (s.cin == 96 && r.chance(1, 2)) { s.groups = 3; s.cout = 3 * r.range(1, 20); }
      bool ok = true;
      for (int i : {kImplRef, kImplOpt, kImplInd}) if ((o.want_impls & i) && !conv_ok(s, out, i)) ok = false;
      if (!ok) { l--; if (r.chance(1, 20)) good = false; continue; }
      // constants
      const int K = s.fh * s.fw * (s.cin / s.groups);
      s.filter.resize((std::size_t)s.cout * K);
      const int lean = o.words && r.chance(st == kDeep ? 3 : 1, 3) ? r.pick({1, 1, 20, 39}) : 20;  // of the filter towards one sign
      for (auto& f : s.filter) f = (lean == 20 ? r.chance(1, 2) : r.chance(lean, 40)) ? 1 : -1;
      s.mul.resize(s.cout);
      s.bias.resize(s.cout);
      s.thr.resize(s.cout);
      for (int c = 0; c < s.cout; c++) {
        if (o.exact) {
          int k = st == kDeep ? r.range(1, 8) : r.range(1, 64);
          if (out != kTfLiteInt32 && r.chance(1, 2)) k = -k;
          s.mul[c] = k / 8.0f;
          int span = std::max(4, K);
          s.bias[c] = r.range(-16 * span, 16 * span) / 16.0f + 1.0f / 32;
        } else {
          s.mul[c] = (float)((r.uniform() * 2 - 1) * (r.chance(1, 8) ? 20 : 1.5));
          s.bias[c] = (float)((r.uniform() * 2 - 1) * (r.chance(1, 8) ? 100 : 3));
        }
        if (out == kTfLiteInt32) {
          if (o.exact) {
            // bit set iff act(K - 2 accum) * mul + bias < 0, which is monotone
            int t = K;  // largest accum whose value is >= 0
            while (t >= 0 && act_of(s.act, K - 2.0 * t) * (double)s.mul[c] + s.bias[c] < 0) t--;
            s.thr[c] = t;
          } else {
            s.thr[c] = r.chance(1, 12) ? (int)r.pick({INT32_MIN, INT32_MAX, -1, 0, K, K - 1}) : r.range(-1, K) / 1;
            if (r.chance(1, 2)) s.thr[c] = K / 2 + r.range(-3, 3);
          }
        }
      }
      if (o.share_filters && r.chance(1, 2)) {
        for (int j = (int)n.nodes.size() - 1; j >= 0; j--)
          if (n.nodes[j].kind == OpConv && n.nodes[j].filter.size() == s.filter.size() && n.nodes[j].cout == s.cout &&
              n.nodes[j].cin / n.nodes[j].groups == s.cin / s.groups) {
            s.filter = n.nodes[j].filter;
            s.filter_of = j;
            s.fh = n.nodes[j].fh;  // may be laid out differently with as many taps
            s.fw = n.nodes[j].fw;
            if (s.fh != s.fw && r.chance(1, 2)) std::swap(s.fh, s.fw);
            break;
          }
      }
      s.out = add(out, out == kTfLiteInt32, s.cout);
      push(s);
      if (!good) break;
      auto& os = sh[s.out];
      work += (long)os[0] * os[1] * os[2] * s.cout * s.fh * s.fw * ((s.cin / s.groups + 31) / 32);
      if (o.branches && r.chance(1, 5)) continue;  // the old tensor stays open as well
      cur = s.out;
    }
    if (!good || n.nodes.empty() || work > work_limit) continue;
    if (n.t[cur].packed && o.dequantize && r.chance(1, 3) && !n.has_crop) {
      NodeSpec s;
      s.kind = OpDequantize;
      s.in = cur;
      const int k = (int)r.below(3);
      s.out = add(k == 0 ? kTfLiteFloat32 : k == 1 ? kTfLiteInt8 : kTfLiteBool, false, n.t[cur].channels);
      push(s);
      if (!good) continue;
      n.fixed_shape = true;
    }
    bool conv = false;
    for (auto& s : n.nodes) conv |= s.kind == OpConv;
    if (!conv && r.chance(3, 4)) continue;
    for (int t = 0; t < (int)n.t.size(); t++)
      if (t != n.input && std::find(consumed.begin(), consumed.end(), t) == consumed.end()) n.outputs.push_back(t);
    // sometimes an inner tensor is an output as well
    if (n.nodes.size() > 1 && r.chance(1, 6)) {
      int t = n.nodes[r.below(n.nodes.size() - 1)].out;
      if (std::find(n.outputs.begin(), n.outputs.end(), t) == n.outputs.end() && n.nodes[0].kind != OpCrop) n.outputs.push_back(t);
    }
    if (!shape_ok(n, n.in_dims)) continue;
    return n;
  }
}
std::string write_flexbuffer(std::vector<Opt> opts, int wl) {
  std::sort(opts.begin(), opts.end(), [](const Opt& a, const Opt& b) { return a.name < b.name; });
  const std::size_t w = (std::size_t)1 << wl;
  std::string b;
  std::vector<std::size_t> kp;
  for (auto& o : opts) { kp.push_back(b.size()); b += o.name; b.push_back(0); }
  auto align = [&] { while (b.size() % w) b.push_back(0); };
  auto put = [&](u64 v) { for (std::size_t i = 0; i < w; i++) b.push_back((char)(v >> (8 * i))); };
  align();
  put(opts.size());
  const std::size_t keys = b.size();
  for (std::size_t i = 0; i < opts.size(); i++) put(b.size() - kp[i]);
  put(b.size() - keys);
  put(w);
  put(opts.size());
  const std::size_t map = b.size();
  for (auto& o : opts) put((u64)(std::int64_t)o.value);
  for (auto& o : opts) b.push_back((char)(((o.is_bool ? 26 : 1) << 2) | wl));
  const std::size_t root = b.size();
  const std::size_t off = root - map;
  if (off < 256) { b.push_back((char)off); b.push_back((char)((9 << 2) | wl)); b.push_back(1); }
  else {
    while (b.size() % 2) b.push_back(0);
    const std::size_t o2 = b.size() - map;
    b.push_back((char)o2); b.push_back((char)(o2 >> 8)); b.push_back((char)((9 << 2) | wl)); b.push_back(2);
  }
  return b;
}
std::vector<Opt> node_options(const NetSpec& n, const NodeSpec& s) {
  std::vector<Opt> v;
  if (s.kind == OpConv) {
    v = {{"stride_height", s.sh}, {"stride_width", s.sw}, {"dilation_height_factor", s.dh}, {"dilation_width_factor", s.dw},
         {"padding", s.same ? 0 : 1}, {"pad_values", s.pad_value}, {"channels_in", s.cin}, {"fused_activation_function", s.act == 2 ? 2 : s.act}};
  } else if (s.kind == OpPool) {
    v = {{"filter_height", s.fh}, {"filter_width", s.fw}, {"stride_height", s.sh}, {"stride_width", s.sw}, {"padding", s.same ? 0 : 1}};
  }
  (void)n;
  return v;
}
static const char* put_const(const void* p, std::size_t n) {
  char* d = const_alloc(n);
  memcpy(d, p, n);
  return d;
}
void build_graph(Model* m, Rng& r) {
  NetSpec& n = m->net;
  tflite::Graph& g = m->graph;
  g = tflite::Graph();
  Shapes sh;
  shapes_of(n, n.in_dims, 0, &sh);
  for (std::size_t i = 0; i < n.t.size(); i++) {
    tflite::GraphTensor t;
    t.type = n.t[i].type;
    t.name = "t" + std::to_string(i);
    t.dims = sh[i];
    t.dims.push_back(n.t[i].packed ? (n.t[i].channels + 31) / 32 : n.t[i].channels);
    if (t.type == kTfLiteInt8) { t.quantized = true; t.scales = {n.t[i].scale}; t.zero_points = {n.t[i].zp}; }
    g.tensors.push_back(t);
  }
  g.inputs = {n.input};
  g.outputs = n.outputs;
  std::vector<int> filter_tensor(n.nodes.size(), -1);
  for (std::size_t j = 0; j < n.nodes.size(); j++) {
    NodeSpec& s = n.nodes[j];
    tflite::GraphNode gn;
    gn.inputs = {s.in};
    gn.outputs = {s.out};
    auto constant = [&](TfLiteType type, std::vector<int> dims, const void* p, std::size_t bytes) {
      tflite::GraphTensor t;
      t.type = type;
      t.dims = dims;
      t.name = "c";
      t.const_data = put_const(p, bytes);
      t.const_bytes = bytes;
      g.tensors.push_back(t);
      return (int)g.tensors.size() - 1;
    };
    switch (s.kind) {
      case OpQuantize: gn.custom_name = "LceQuantize"; break;
      case OpDequantize: gn.custom_name = "LceDequantize"; break;
      case OpPool: gn.custom_name = "LceBMaxPool2d"; break;
      case OpCrop: gn.custom_name = "SimDynCrop"; break;
      case OpConv: {
        gn.custom_name = "LceBconv2d";
        const int cg = s.cin / s.groups, pw = (cg + 31) / 32;
        int ft;
        if (s.filter_of >= 0) {
          // the same bytes of the model, possibly with another shape
          tflite::GraphTensor t = g.tensors[filter_tensor[s.filter_of]];
          t.dims = {s.cout, s.fh, s.fw, pw};
          g.tensors.push_back(t);
          ft = (int)g.tensors.size() - 1;
        } else {
          std::vector<std::int32_t> packed((std::size_t)s.cout * s.fh * s.fw * pw, 0);
          for (int o = 0; o < s.cout * s.fh * s.fw; o++)
            for (int c = 0; c < cg; c++)
              if (s.filter[(std::size_t)o * cg + c] < 0) packed[(std::size_t)o * pw + c / 32] |= (std::int32_t)(1u << (c % 32));
          ft = constant(kTfLiteInt32, {s.cout, s.fh, s.fw, pw}, packed.data(), packed.size() * 4);
        }
        filter_tensor[j] = ft;
        const bool bits = n.t[s.out].type == kTfLiteInt32;
        int mt = -1, bt = -1, tt = -1;
        if (!bits || r.chance(1, 4)) {
          mt = constant(kTfLiteFloat32, {s.cout}, s.mul.data(), s.mul.size() * 4);
          bt = constant(kTfLiteFloat32, {s.cout}, s.bias.data(), s.bias.size() * 4);
        }
        if (bits || r.chance(1, 4)) tt = constant(kTfLiteInt32, {s.cout}, s.thr.data(), s.thr.size() * 4);
        gn.inputs = {s.in, ft, mt, bt, tt};
        break;
      }
    }
    std::string opt = write_flexbuffer(node_options(n, s), r.chance(1, 4) ? 3 : 2);
    gn.options = put_const(opt.data(), opt.size());
    gn.options_size = opt.size();
    g.nodes.push_back(gn);
  }
}
std::size_t input_bytes(const NetSpec& n, const std::vector<int>& d) {
  const TensorSpec& t = n.t[n.input];
  const std::size_t px = (std::size_t)d[0] * d[1] * d[2];
  if (t.packed) return px * ((t.channels + 31) / 32) * 4;
  return px * t.channels * (t.type == kTfLiteFloat32 ? 4 : 1);
}
std::vector<char> gen_input(const NetSpec& n, const std::vector<int>& d, Rng& r, bool special) {
  const TensorSpec& t = n.t[n.input];
  std::vector<char> v(input_bytes(n, d));
  const std::size_t px = (std::size_t)d[0] * d[1] * d[2];
  const int bias = (int)r.below(5);
  auto neg = [&] { return bias == 0 ? r.chance(9, 10) : bias == 1 ? r.chance(1, 10) : r.chance(1, 2); };
  if (t.packed) {
    auto* w = (std::uint32_t*)v.data();
    const int pw = (t.channels + 31) / 32;
    for (std::size_t p = 0; p < px; p++)
      for (int c = 0; c < t.channels; c++) if (neg()) w[p * pw + c / 32] |= 1u << (c % 32);
  } else if (t.type == kTfLiteFloat32) {
    auto* f = (float*)v.data();
    for (std::size_t i = 0; i < px * t.channels; i++) {
      float x = (float)(r.uniform() * 3);
      if (special && r.chance(1, 8)) {
        static const float sp[] = {0.0f, 1e-45f, 1e-40f, 3e38f, INFINITY, 1.17549435e-38f};
        x = sp[r.below(6)];
      }
      f[i] = neg() ? -x : x;
    }
  } else if (t.type == kTfLiteInt8) {
    for (auto& c : v) {
      int x = r.chance(1, 3) ? t.zp + r.range(-2, 2) : r.range(-128, 127);
      c = (char)std::max(-128, std::min(127, x));
    }
  } else {
    for (auto& c : v) c = neg() ? 0 : 1;
  }
  return v;
}

// ------------------------------------------------------------------ oracles
static std::int64_t round_away(double v) { return (std::int64_t)(v < 0 ? -floor(-v + 0.5) : floor(v + 0.5)); }
static void* data_of(tflite::Interpreter* it, int t) { return it->tensor(t)->data.raw; }
static std::vector<int> dims_of(tflite::Interpreter* it, int t) {
  TfLiteIntArray* a = it->tensor(t)->dims;
  return std::vector<int>(a->data, a->data + a->size);
}
static bool bit_of(const std::uint32_t* w, std::size_t px, int pw, int c) { return (w[px * pw + c / 32] >> (c % 32)) & 1; }
static std::string dims_str(const std::vector<int>& d) {
  std::string s = "[";
  for (int x : d) s += std::to_string(x) + ",";
  s.back() = ']';
  return s;
}
// dot product over the window, -K..K, for one output position and channel
template <class Sign>
static int window(const NodeSpec& s, const std::vector<int>& in, int b, int oy, int ox, int oc, int ph, int pw, Sign sign, bool half_words) {
  const int cg = s.cin / s.groups, og = s.cout / s.groups, g = oc / og;
  int v = 0;
  for (int fy = 0; fy < s.fh; fy++)
    for (int fx = 0; fx < s.fw; fx++) {
      const int y = oy * s.sh - ph + fy * s.dh, x = ox * s.sw - pw + fx * s.dw;
      const signed char* f = &s.filter[(((std::size_t)oc * s.fh + fy) * s.fw + fx) * cg];
      const bool inside = y >= 0 && y < in[1] && x >= 0 && x < in[2];
      if (!inside && s.pad_value == 0 && s.same) continue;
      for (int c = 0; c < cg; c++) v += f[c] * (inside ? sign(((std::size_t)b * in[1] + y) * in[2] + x, g * cg + c) : 1);
    }
  (void)half_words;
  return v;
}
static int pad_of(bool same, int in, int f, int stride, int dil, int out) {
  if (!same) return 0;
  const int t = (out - 1) * stride + (f - 1) * dil + 1 - in;
  return t > 0 ? t / 2 : 0;
}
void check_node(const Model& m, tflite::Interpreter* it, int node, const char* what, bool arithmetic, bool check_padding) {
  const NetSpec& n = m.net;
  const NodeSpec& s = n.nodes[node];
  const TensorSpec& ti = n.t[s.in];
  const TensorSpec& to = n.t[s.out];
  const std::vector<int> in = dims_of(it, s.in), out = dims_of(it, s.out);
  const char* name = m.graph.nodes[node].custom_name.c_str();
  std::vector<int> eo;
  const int crop = s.kind == OpCrop ? in[1] - out[1] : 0;
  if (!node_shape(s, {in[0], in[1], in[2]}, crop, &eo)) return;
  eo.push_back(to.packed ? (to.channels + 31) / 32 : to.channels);
  if (out != eo) violation("%s: node %d (%s) produced shape %s, expected %s", what, node, name, dims_str(out).c_str(), dims_str(eo).c_str());
  if (s.kind == OpCrop) return;
  const std::size_t px = (std::size_t)out[0] * out[1] * out[2];
  const void* ip = data_of(it, s.in);
  const void* op = data_of(it, s.out);
  const int ipw = (ti.channels + 31) / 32, opw = (to.channels + 31) / 32;
  if (to.packed && check_padding) {
    count(cPadChecks);
    if (to.channels % 32)
      for (std::size_t p = 0; p < px; p++) {
        std::uint32_t w = ((const std::uint32_t*)op)[p * opw + opw - 1];
        if (w >> (to.channels % 32))
          violation("%s: node %d (%s) left nonzero padding bits (word %08x, %d channels) at pixel %zu", what, node, name, w, to.channels, p);
      }
  }
  if (!arithmetic) return;
  count(cOracleCompares);
  auto in_sign = [&](std::size_t p, int c) { return bit_of((const std::uint32_t*)ip, p, ipw, c) ? -1 : 1; };
  if (s.kind == OpQuantize) {
    for (std::size_t p = 0; p < px; p++)
      for (int c = 0; c < to.channels; c++) {
        const std::size_t i = p * ti.channels + c;
        bool neg = ti.type == kTfLiteFloat32 ? ((const float*)ip)[i] < 0 : ti.type == kTfLiteInt8 ? ((const std::int8_t*)ip)[i] < ti.zp : ((const unsigned char*)ip)[i] == 0;
        const bool got = bit_of((const std::uint32_t*)op, p, opw, c);
        if (neg != got && got && g_cfg.negative_zero && ti.type == kTfLiteFloat32 && ((const float*)ip)[i] == 0 && std::signbit(((const float*)ip)[i])) {
          count(cNegativeZero);
          continue;
        }
        if (neg != got)
          violation("%s: node %d (%s): wrong sign bit at pixel %zu channel %d", what, node, name, p, c);
      }
  } else if (s.kind == OpDequantize) {
    const int off = to.type == kTfLiteInt8 ? (int)round_away(1.0f / to.scale) : 0;
    for (std::size_t p = 0; p < px; p++)
      for (int c = 0; c < to.channels; c++) {
        const int sg = in_sign(p, c);
        const std::size_t i = p * to.channels + c;
        bool ok;
        if (to.type == kTfLiteFloat32) ok = ((const float*)op)[i] == (float)sg;
        else if (to.type == kTfLiteInt8) ok = ((const std::int8_t*)op)[i] == std::max(-128, std::min(127, to.zp + sg * off));
        else ok = ((const unsigned char*)op)[i] == (sg > 0 ? 1 : 0);
        if (!ok) violation("%s: node %d (%s): wrong value at pixel %zu channel %d", what, node, name, p, c);
      }
  } else if (s.kind == OpPool) {
    const int ph = pad_of(s.same, in[1], s.fh, s.sh, 1, out[1]), pw = pad_of(s.same, in[2], s.fw, s.sw, 1, out[2]);
    for (int b = 0; b < out[0]; b++) for (int y = 0; y < out[1]; y++) for (int x = 0; x < out[2]; x++)
      for (int c = 0; c < to.channels; c++) {
        int best = -1;
        for (int fy = 0; fy < s.fh; fy++) for (int fx = 0; fx < s.fw; fx++) {
          const int iy = y * s.sh - ph + fy, ix = x * s.sw - pw + fx;
          if (iy >= 0 && iy < in[1] && ix >= 0 && ix < in[2]) best = std::max(best, in_sign(((std::size_t)b * in[1] + iy) * in[2] + ix, c));
        }
        const std::size_t p = ((std::size_t)b * out[1] + y) * out[2] + x;
        if (bit_of((const std::uint32_t*)op, p, opw, c) != (best < 0))
          violation("%s: node %d (%s): wrong maximum at pixel %zu channel %d", what, node, name, p, c);
      }
  } else {
    const int ph = pad_of(s.same, in[1], s.fh, s.sh, s.dh, out[1]), pw = pad_of(s.same, in[2], s.fw, s.sw, s.dw, out[2]);
    const int K = s.fh * s.fw * (s.cin / s.groups);
    for (int b = 0; b < out[0]; b++) for (int y = 0; y < out[1]; y++) for (int x = 0; x < out[2]; x++) {
      const std::size_t p = ((std::size_t)b * out[1] + y) * out[2] + x;
      for (int c = 0; c < s.cout; c++) {
        const int v = window(s, in, b, y, x, c, ph, pw, in_sign, false);
        if (to.type == kTfLiteInt32) {
          const int accum = (K - v) / 2;
          if (bit_of((const std::uint32_t*)op, p, opw, c) != (accum > s.thr[c]))
            violation("%s: node %d (%s): wrong bit at pixel %zu channel %d (dot product %d of %d, threshold %d)", what, node, name, p, c, v, K, s.thr[c]);
          continue;
        }
        const double a = act_of(s.act, v);
        const double y0 = a * s.mul[c] + s.bias[c];
        const double tol = n.exact ? 0 : 4e-6 * (K * fabs(s.mul[c]) + fabs(s.bias[c]) + K) + 1e-6;
        const std::size_t i = p * s.cout + c;
        if (to.type == kTfLiteFloat32) {
          const double got = ((const float*)op)[i];
          if (!(fabs(got - y0) <= tol))
            violation("%s: node %d (%s): value %.9g instead of %.9g at pixel %zu channel %d (dot product %d of %d)", what, node, name, got, y0, p, c, v, K);
        } else {
          const double q = y0 / to.scale + to.zp;
          const int got = ((const std::int8_t*)op)[i];
          const double lo = std::max(-128.0, std::min(127.0, ceil(q - 0.5 - tol / to.scale - (n.exact ? 0 : 1e-4))));
          const double hi = std::max(-128.0, std::min(127.0, floor(q + 0.5 + tol / to.scale + (n.exact ? 0 : 1e-4))));
          if (got < lo || got > hi)
            violation("%s: node %d (%s): value %d instead of %.6g at pixel %zu channel %d (dot product %d of %d)", what, node, name, got, q, p, c, v, K);
        }
      }
    }
  }
}
void check_network(const Model& m, tflite::Interpreter* it, const std::vector<int>& dims, const std::vector<char>& input, const char* what) {
  const NetSpec& n = m.net;
  if (!n.exact || n.has_crop) return;
  Shapes sh;
  if (!shapes_of(n, dims, 0, &sh)) return;
  std::vector<std::vector<double>> val(n.t.size());
  auto px_of = [&](int t) { return (std::size_t)sh[t][0] * sh[t][1] * sh[t][2]; };
  {
    const TensorSpec& t = n.t[n.input];
    auto& v = val[n.input];
    v.resize(px_of(n.input) * t.channels);
    for (std::size_t p = 0; p < px_of(n.input); p++)
      for (int c = 0; c < t.channels; c++) {
        const std::size_t i = p * t.channels + c;
        if (t.packed) v[i] = bit_of((const std::uint32_t*)input.data(), p, (t.channels + 31) / 32, c) ? -1 : 1;
        else if (t.type == kTfLiteFloat32) v[i] = ((const float*)input.data())[i];
        else if (t.type == kTfLiteInt8) v[i] = (double)t.scale * (((const std::int8_t*)input.data())[i] - t.zp);
        else v[i] = input[i] ? 1 : -1;
      }
  }
  for (auto& s : n.nodes) {
    const std::vector<double>& iv = val[s.in];
    std::vector<double>& ov = val[s.out];
    const auto &in = sh[s.in], &out = sh[s.out];
    const int ich = n.t[s.in].channels, och = n.t[s.out].channels;
    ov.resize(px_of(s.out) * och);
    if (s.kind == OpQuantize || s.kind == OpDequantize) {
      for (std::size_t i = 0; i < ov.size(); i++) ov[i] = iv[i] >= 0 ? 1 : -1;
      continue;
    }
    const int ph = pad_of(s.same, in[1], s.fh, s.sh, s.dh, out[1]), pw = pad_of(s.same, in[2], s.fw, s.sw, s.dw, out[2]);
    for (int b = 0; b < out[0]; b++) for (int y = 0; y < out[1]; y++) for (int x = 0; x < out[2]; x++)
      for (int c = 0; c < och; c++) {
        const std::size_t o = (((std::size_t)b * out[1] + y) * out[2] + x) * och + c;
        if (s.kind == OpPool) {
          double best = -1e9;
          for (int fy = 0; fy < s.fh; fy++) for (int fx = 0; fx < s.fw; fx++) {
            const int iy = y * s.sh - ph + fy, ix = x * s.sw - pw + fx;
            if (iy >= 0 && iy < in[1] && ix >= 0 && ix < in[2]) best = std::max(best, iv[(((std::size_t)b * in[1] + iy) * in[2] + ix) * ich + c]);
          }
          ov[o] = best;
          continue;
        }
        const int v = window(s, in, b, y, x, c, ph, pw, [&](std::size_t p, int k) { return iv[p * ich + k] > 0 ? 1 : -1; }, false);
        double r = act_of(s.act, v) * (double)s.mul[c] + s.bias[c];
        const TensorSpec& to = n.t[s.out];
        if (to.type == kTfLiteInt32) r = r >= 0 ? 1 : -1;
        if (to.type == kTfLiteInt8) {
          double q = (double)round_away(r / to.scale + to.zp);
          q = std::max(-128.0, std::min(127.0, q));
          r = (q - to.zp) * to.scale;
        }
        ov[o] = r;
      }
  }
  count(cOracleCompares);
  for (int t : n.outputs) {
    const TensorSpec& ts = n.t[t];
    const void* p0 = data_of(it, t);
    for (std::size_t p = 0; p < px_of(t); p++)
      for (int c = 0; c < ts.channels; c++) {
        const std::size_t i = p * ts.channels + c;
        const double want = val[t][i];
        double got;
        bool dq = false;
        for (auto& s : n.nodes) dq |= s.out == t && s.kind == OpDequantize;
        if (ts.packed) got = bit_of((const std::uint32_t*)p0, p, (ts.channels + 31) / 32, c) ? -1 : 1;
        else if (ts.type == kTfLiteFloat32) got = ((const float*)p0)[i];
        else if (ts.type == kTfLiteBool) got = ((const unsigned char*)p0)[i] ? 1 : -1;
        else {
          const int q = ((const std::int8_t*)p0)[i];
          if (dq) {
            const int off = (int)round_away(1.0f / ts.scale);
            const int w = std::max(-128, std::min(127, ts.zp + (int)want * off));
            if (q != w) violation("%s: network output %d is %d instead of %d at pixel %zu channel %d", what, t, q, w, p, c);
            continue;
          }
          got = (double)ts.scale * (q - ts.zp);
        }
        if (got != want) violation("%s: network output %d is %.9g instead of %.9g at pixel %zu channel %d", what, t, got, want, p, c);
      }
  }
}

// ------------------------------------------------------------------ a dynamic operator of the host application
static TfLiteStatus CropPrepare(TfLiteContext* c, TfLiteNode* n) {
  TfLiteTensor* o = tflite::GetOutput(c, n, 0);
  if (o->allocation_type != kTfLiteDynamic) { o->allocation_type = kTfLiteDynamic; o->data.raw = nullptr; }
  return kTfLiteOk;
}
static TfLiteStatus CropInvoke(TfLiteContext* c, TfLiteNode* n) {
  const TfLiteTensor* i = tflite::GetInput(c, n, 0);
  SimSection sim;
  const int crop = i->data.f[0] < 0 && i->dims->data[1] > 1 ? 1 : 0;
  TfLiteIntArray* d = TfLiteIntArrayCopy(i->dims);
  d->data[1] -= crop;
  TfLiteTensor* o = tflite::GetOutput(c, n, 0);
  TfLiteStatus st = c->ResizeTensor(c, o, d);
  if (st != kTfLiteOk) return st;
  const std::size_t row = (std::size_t)i->dims->data[2] * i->dims->data[3] * 4;
  for (int b = 0; b < i->dims->data[0]; b++)
    memcpy(o->data.raw + b * o->dims->data[1] * row, i->data.raw + b * i->dims->data[1] * row, o->dims->data[1] * row);
  return kTfLiteOk;
}
TfLiteRegistration* crop_registration() {
  static TfLiteRegistration r = {nullptr, nullptr, CropPrepare, CropInvoke};
  return &r;
}
#ifdef LCESIM_ARM_HOST
void register_guest_ops(tflite::MutableOpResolver* r, bool ref, bool indirect);
#endif
void register_ops(tflite::MutableOpResolver* r, bool ref, bool indirect) {
#ifdef LCESIM_ARM_HOST
  register_guest_ops(r, ref, indirect);
#else
  compute_engine::tflite::RegisterLCECustomOps(r, ref, indirect);
#endif
  r->AddCustom("SimDynCrop", crop_registration());
}
}  // namespace lcesim
