#include "eval.h"
#include <cmath>
#include <cstring>
#include <functional>
#include "flatbuffers/flexbuffers.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"

using namespace mlir;
namespace ev {
thread_local void (*on_custom)(Operation*, const std::string&, const std::string&, const std::vector<const Tensor*>&, const Tensor&, void*) = nullptr;
thread_local void* on_custom_arg = nullptr;
namespace {
struct Stop {};
struct Machine {
  bool loose;
  Result& r;
  std::map<void*, Tensor> env;

  bool bad = false;
  void Fail(const std::string& m) {
    if (r.ok) r.error = m;
    r.ok = false;
    bad = true;
  }
  Tensor& Get(Value v) { return env[v.getAsOpaquePointer()]; }

  void Round(double& v, double& e, double magnitude) {
    if (loose) {
      e += 2e-6 * magnitude;
    } else if ((double)(float)v != v) {
      e += 1e-6 * magnitude;
    }
  }
  static double Act(const std::string& a, double v) {
    if (a == "RELU") return std::max(v, 0.0);
    if (a == "RELU6") return std::min(std::max(v, 0.0), 6.0);
    if (a == "RELU_N1_TO_1") return std::min(std::max(v, -1.0), 1.0);
    return v;
  }
  static void ActTensor(const std::string& a, Tensor& t) {
    for (size_t i = 0; i < t.v.size(); i++) {
      double lo = Act(a, t.v[i] - t.e[i]), hi = Act(a, t.v[i] + t.e[i]);
      if (t.e[i] == 0) t.v[i] = Act(a, t.v[i]);
      else t.v[i] = (lo + hi) / 2, t.e[i] = (hi - lo) / 2;
    }
  }
  static void Alloc(Tensor& t) {
    t.v.assign(t.size(), 0);
    t.e.assign(t.size(), 0);
    t.unk.assign(t.kind == INT ? t.size() : 0, 0);
  }
  std::string Str(Operation* op, StringRef n) {
    auto a = op->getAttrOfType<StringAttr>(n);
    return a ? a.getValue().str() : "";
  }
  int64_t Int(Operation* op, StringRef n) {
    auto a = op->getAttrOfType<IntegerAttr>(n);
    if (!a) {
      Fail(op->getName().getStringRef().str() + " has no attribute " + n.str());
      return 1;
    }
    return a.getInt();
  }
  int64_t At(Operation* op, StringRef n, int i) {
    auto a = op->getAttrOfType<ArrayAttr>(n);
    if (!a) return 1;
    return cast<IntegerAttr>(a[i]).getInt();
  }
  bool Const(Attribute attr, Tensor& t) {
    auto d = dyn_cast_or_null<DenseElementsAttr>(attr);
    if (!d) return false;
    bool ok = true;
    t = FromType(d.getType(), ok);
    if (!ok) return false;
    Alloc(t);
    size_t i = 0;
    if (d.getElementType().isF32()) {
      for (float x : d.getValues<float>()) t.v[i++] = x;
    } else if (isa<FloatType>(d.getElementType())) {
      for (APFloat x : d.getValues<APFloat>()) t.v[i++] = x.convertToDouble();
    } else {
      auto raw = d.getElementType();
      if (auto q = dyn_cast<quant::QuantizedType>(raw)) {
        if (q.getStorageTypeIntegralWidth() != 8 || !q.isSigned()) return false;
        auto bytes = d.getRawData();
        if (bytes.size() < (d.isSplat() ? 1 : t.v.size())) return false;
        for (; i < t.v.size(); i++) t.v[i] = (int8_t)bytes[d.isSplat() ? 0 : i];
        return true;
      }
      for (APInt x : d.getValues<APInt>()) t.v[i++] = raw.isInteger(1) ? (double)x.getBoolValue() : (double)x.getSExtValue();
    }
    return true;
  }
  static bool Broadcast(const std::vector<int64_t>& a, const std::vector<int64_t>& b, std::vector<int64_t>& o) {
    size_t n = std::max(a.size(), b.size());
    o.resize(n);
    for (size_t i = 0; i < n; i++) {
      int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n];
      if (x != y && x != 1 && y != 1) return false;
      o[i] = x == 1 ? y : x;
    }
    return true;
  }
  static int64_t Index(int64_t i, const std::vector<int64_t>& out, const std::vector<int64_t>& in) {
    int64_t k = 0, s = 1;
    int off = (int)out.size() - (int)in.size();
    for (int d = (int)out.size() - 1; d >= 0; d--) {
      int64_t c = i % out[d];
      i /= out[d];
      if (d >= off) {
        if (in[d - off] != 1) k += c * s;
        s *= in[d - off];
      }
    }
    return k;
  }
  Tensor Binary(const Tensor& a, const Tensor& b, int kind) {
    Tensor o;
    o.kind = a.kind;
    if (a.kind != b.kind || (a.kind != F32 && a.kind != INT)) Fail("element-wise operator on mixed tensors");
    if (!Broadcast(a.shape, b.shape, o.shape)) {
      Fail("operands that cannot be broadcast");
      return o;
    }
    Alloc(o);
    for (int64_t i = 0; i < (int64_t)o.v.size(); i++) {
      int64_t p = Index(i, o.shape, a.shape), q = Index(i, o.shape, b.shape);
      double x = a.v[p], y = b.v[q], ex = a.e[p], ey = b.e[q], &z = o.v[i], &e = o.e[i];
      switch (kind) {
        case 0: z = x + y, e = ex + ey; Round(z, e, std::fabs(x) + std::fabs(y)); break;
        case 1: z = x - y, e = ex + ey; Round(z, e, std::fabs(x) + std::fabs(y)); break;
        case 2: z = x * y, e = std::fabs(x) * ey + std::fabs(y) * ex + ex * ey; Round(z, e, std::fabs(z)); break;
        default:
          z = x / y;
          if (std::fabs(y) > ey) e = (ex + std::fabs(z) * ey) / (std::fabs(y) - ey);
          else e = HUGE_VAL;
          Round(z, e, std::fabs(z));
      }
    }
    return o;
  }
  Tensor Compare(const Tensor& a, const Tensor& b, int kind) {
    Tensor o;
    o.kind = BOOL;
    if (!Broadcast(a.shape, b.shape, o.shape)) {
      Fail("operands that cannot be broadcast");
      return o;
    }
    Alloc(o);
    for (int64_t i = 0; i < (int64_t)o.v.size(); i++) {
      int64_t p = Index(i, o.shape, a.shape), q = Index(i, o.shape, b.shape);
      double d = a.v[p] - b.v[q], e = a.e[p] + b.e[q];
      o.v[i] = kind == 0 ? d >= 0 : kind == 1 ? d <= 0 : kind == 2 ? d > 0 : d < 0;
      o.e[i] = e > 0 && std::fabs(d) <= e;
    }
    return o;
  }
  // the window positions of one dimension
  struct Dim {
    int64_t out, before;
  };
  static Dim Window(int64_t in, int64_t k, int64_t s, int64_t d, bool same) {
    int64_t ek = (k - 1) * d + 1;
    if (same) {
      int64_t out = (in + s - 1) / s, total = std::max<int64_t>(0, (out - 1) * s + ek - in);
      return {out, total / 2};
    }
    return {in < ek ? 0 : (in - ek) / s + 1, 0};
  }
  static double F(const Tensor& f, bool ohwi, int64_t y, int64_t x, int64_t i, int64_t o) {
    if (ohwi) return f.v[((o * f.shape[1] + y) * f.shape[2] + x) * f.shape[3] + i];
    return f.v[((y * f.shape[1] + x) * f.shape[2] + i) * f.shape[3] + o];
  }
  Tensor Conv(const Tensor& in, const Tensor& f, bool ohwi, int64_t sh, int64_t sw, int64_t dh, int64_t dw, bool same, bool slack) {
    Tensor o;
    if (in.shape.size() != 4 || f.shape.size() != 4) {
      Fail("convolution of tensors that are not of rank four");
      return o;
    }
    int64_t kh = ohwi ? f.shape[1] : f.shape[0], kw = ohwi ? f.shape[2] : f.shape[1], ci = ohwi ? f.shape[3] : f.shape[2], co = ohwi ? f.shape[0] : f.shape[3];
    if (!ci || in.shape[3] % ci) {
      Fail("convolution with the wrong number of channels");
      return o;
    }
    int64_t groups = in.shape[3] / ci;
    if (co % groups) {
      Fail("convolution with the wrong number of groups");
      return o;
    }
    Dim h = Window(in.shape[1], kh, sh, dh, same), w = Window(in.shape[2], kw, sw, dw, same);
    o.shape = {in.shape[0], h.out, w.out, co};
    Alloc(o);
    // a filter that is binary up to half a percent may be replaced by the exact one
    std::vector<double> ref(co, -1);
    if (slack)
      for (int64_t c = 0; c < co; c++) {
        double s = std::fabs(F(f, ohwi, 0, 0, 0, c)), worst = 0;
        for (int64_t y = 0; y < kh; y++)
          for (int64_t x = 0; x < kw; x++)
            for (int64_t i = 0; i < ci; i++) worst = std::max(worst, std::fabs(std::fabs(F(f, ohwi, y, x, i, c)) - s));
        if (s > 0 && worst < 0.0055 * s) ref[c] = s;
      }
    for (int64_t n = 0; n < o.shape[0]; n++)
      for (int64_t y = 0; y < h.out; y++)
        for (int64_t x = 0; x < w.out; x++)
          for (int64_t c = 0; c < co; c++) {
            int64_t base = c / (co / groups) * ci;
            double s = 0, e = 0, m = 0;
            for (int64_t fy = 0; fy < kh; fy++) {
              int64_t iy = y * sh - h.before + fy * dh;
              if (iy < 0 || iy >= in.shape[1]) continue;
              for (int64_t fx = 0; fx < kw; fx++) {
                int64_t ix = x * sw - w.before + fx * dw;
                if (ix < 0 || ix >= in.shape[2]) continue;
                const int64_t p = ((n * in.shape[1] + iy) * in.shape[2] + ix) * in.shape[3] + base;
                for (int64_t i = 0; i < ci; i++) {
                  double wv = F(f, ohwi, fy, fx, i, c), v = in.v[p + i];
                  s += wv * v;
                  m += std::fabs(wv * v);
                  e += std::fabs(wv) * in.e[p + i];
                  if (ref[c] >= 0) e += std::fabs(std::fabs(wv) - ref[c]) * std::fabs(v);
                }
              }
            }
            const int64_t k = ((n * h.out + y) * w.out + x) * co + c;
            Round(s, e, m);
            o.v[k] = s;
            o.e[k] = e;
          }
    return o;
  }
  Tensor Depthwise(const Tensor& in, const Tensor& f, int64_t sh, int64_t sw, int64_t dh, int64_t dw, bool same, int64_t mult) {
    Tensor o;
    if (in.shape.size() != 4 || f.shape.size() != 4 || f.shape[3] != in.shape[3] * mult) {
      Fail("depthwise convolution of wrong shapes");
      return o;
    }
    int64_t kh = f.shape[1], kw = f.shape[2], co = f.shape[3];
    Dim h = Window(in.shape[1], kh, sh, dh, same), w = Window(in.shape[2], kw, sw, dw, same);
    o.shape = {in.shape[0], h.out, w.out, co};
    Alloc(o);
    for (int64_t n = 0; n < o.shape[0]; n++)
      for (int64_t y = 0; y < h.out; y++)
        for (int64_t x = 0; x < w.out; x++)
          for (int64_t c = 0; c < co; c++) {
            double s = 0, e = 0, m = 0;
            for (int64_t fy = 0; fy < kh; fy++)
              for (int64_t fx = 0; fx < kw; fx++) {
                int64_t iy = y * sh - h.before + fy * dh, ix = x * sw - w.before + fx * dw;
                if (iy < 0 || iy >= in.shape[1] || ix < 0 || ix >= in.shape[2]) continue;
                double wv = f.v[(fy * kw + fx) * co + c];
                int64_t p = ((n * in.shape[1] + iy) * in.shape[2] + ix) * in.shape[3] + c / mult;
                s += wv * in.v[p];
                m += std::fabs(wv * in.v[p]);
                e += std::fabs(wv) * in.e[p];
              }
            int64_t k = ((n * h.out + y) * w.out + x) * co + c;
            Round(s, e, m);
            o.v[k] = s;
            o.e[k] = e;
          }
    return o;
  }
  Tensor MaxPool(const Tensor& in, int64_t kh, int64_t kw, int64_t sh, int64_t sw, bool same) {
    Tensor o;
    o.kind = in.kind;
    o.scale = in.scale;
    o.zp = in.zp;
    if (in.shape.size() != 4) {
      Fail("pooling of a tensor that is not of rank four");
      return o;
    }
    Dim h = Window(in.shape[1], kh, sh, 1, same), w = Window(in.shape[2], kw, sw, 1, same);
    o.shape = {in.shape[0], h.out, w.out, in.shape[3]};
    Alloc(o);
    for (int64_t n = 0; n < o.shape[0]; n++)
      for (int64_t y = 0; y < h.out; y++)
        for (int64_t x = 0; x < w.out; x++)
          for (int64_t c = 0; c < o.shape[3]; c++) {
            double lo = -HUGE_VAL, hi = -HUGE_VAL;
            uint32_t zero = 0, unk = 0;  // a bit known to be 0; an undetermined bit
            for (int64_t fy = 0; fy < kh; fy++)
              for (int64_t fx = 0; fx < kw; fx++) {
                int64_t iy = y * sh - h.before + fy, ix = x * sw - w.before + fx;
                if (iy < 0 || iy >= in.shape[1] || ix < 0 || ix >= in.shape[2]) continue;
                int64_t p = ((n * in.shape[1] + iy) * in.shape[2] + ix) * in.shape[3] + c;
                if (in.kind == INT) {
                  zero |= ~(uint32_t)(int32_t)in.v[p] & ~in.unk[p];
                  unk |= in.unk[p];
                } else {
                  lo = std::max(lo, in.v[p] - in.e[p]);
                  hi = std::max(hi, in.v[p] + in.e[p]);
                }
              }
            int64_t k = ((n * h.out + y) * w.out + x) * o.shape[3] + c;
            if (in.kind == INT) {
              o.v[k] = (int32_t)~zero;
              o.unk[k] = unk & ~zero;
            } else {
              o.v[k] = lo == hi ? lo : (lo + hi) / 2;
              o.e[k] = lo == hi ? 0 : (hi - lo) / 2;
            }
          }
    return o;
  }
  Tensor Quantize(const Tensor& in) {
    Tensor o;
    o.kind = INT;
    o.shape = in.shape;
    if (in.shape.empty()) {
      Fail("quantization of a scalar");
      return o;
    }
    int64_t ch = in.shape.back(), words = (ch + 31) / 32, rows = ch ? in.size() / ch : 0;
    o.shape.back() = words;
    Alloc(o);
    for (int64_t p = 0; p < rows; p++)
      for (int64_t w = 0; w < words; w++) {
        uint32_t b = 0, u = 0;
        for (int64_t c = w * 32; c < std::min(ch, w * 32 + 32); c++) {
          double v = in.v[p * ch + c], e = in.e[p * ch + c];
          bool bit, un;
          if (in.kind == BOOL) bit = !v, un = e != 0;
          else if (in.kind == QUANT) bit = v < in.zp, un = e > 0 && std::fabs(v - in.zp + 0.5) < e + 0.5;
          else bit = v < 0, un = e > 0 && std::fabs(v) <= e;
          b |= (uint32_t)bit << (c & 31);
          u |= (uint32_t)un << (c & 31);
          (un ? r.undecided_bits : r.decided_bits)++;
        }
        o.v[p * words + w] = (int32_t)b;
        o.unk[p * words + w] = u;
      }
    return o;
  }
  void Dequantize(const Tensor& in, Tensor& o) {  // o has its type
    if (o.shape.empty() || in.shape.empty() || in.kind != INT) return Fail("dequantization of wrong types");
    int64_t ch = o.shape.back(), words = (ch + 31) / 32, rows = ch ? o.size() / ch : 0;
    if (in.shape.back() != words || in.size() != rows * words) return Fail("dequantization to a wrong shape");
    Alloc(o);
    for (int64_t p = 0; p < rows; p++)
      for (int64_t c = 0; c < ch; c++) {
        uint32_t w = (uint32_t)(int32_t)in.v[p * words + c / 32];
        bool bit = w >> (c & 31) & 1, un = in.unk[p * words + c / 32] >> (c & 31) & 1;
        double a = 1, b = -1;
        if (o.kind == QUANT) {
          a = std::min(127.0, std::max(-128.0, o.zp + std::round(1.0 / o.scale)));
          b = std::min(127.0, std::max(-128.0, o.zp + std::round(-1.0 / o.scale)));
        } else if (o.kind == BOOL) {
          a = 1, b = 0;
        }
        o.v[p * ch + c] = bit ? b : a;
        o.e[p * ch + c] = un ? std::fabs(a - b) : 0;
      }
  }
  void ToQuant(double v, double e, const Tensor& t, double& q, double& qe) {
    auto f = [&](double x) { return std::min(127.0, std::max(-128.0, std::round(x / t.scale) + t.zp)); };
    double eps = e + 1e-7 * (std::fabs(v) + t.scale);
    double lo = f(v - eps), hi = f(v + eps);
    q = (lo + hi) / 2;
    qe = (hi - lo) / 2;
  }
  void Bconv(Operation* op, const Tensor& in, const Tensor& f, const Tensor& mult, const Tensor& bias, const Tensor& thr, Tensor& o, int64_t ch, int64_t dh, int64_t dw, const std::string& act, int64_t pad,
             bool same, int64_t sh, int64_t sw) {
    if (in.kind != INT || in.shape.size() != 4 || f.shape.size() != 4) return Fail("binary convolution of wrong types");
    int64_t words = in.shape[3], co = f.shape[0], kh = f.shape[1], kw = f.shape[2];
    if (words != (ch + 31) / 32) return Fail("binary convolution with channels_in " + std::to_string(ch) + " of an input with " + std::to_string(words) + " words");
    bool packed = f.kind == INT;
    int64_t fw = packed ? f.shape[3] : (f.shape[3] + 31) / 32;
    if (!fw || words % fw) return Fail("binary convolution with the wrong number of filter channels");
    int64_t groups = words / fw, ci = ch / groups;
    if (!packed && f.shape[3] != ci) return Fail("binary convolution with the wrong number of filter channels");
    if (groups > 1 && (ci % 32 || co % groups)) return Fail("binary convolution with the wrong groups");
    std::vector<uint32_t> fb(co * kh * kw * fw);
    for (int64_t k = 0; k < co * kh * kw; k++)
      for (int64_t i = 0; i < ci; i++) {
        bool bit;
        if (packed) bit = (uint32_t)(int32_t)f.v[k * fw + i / 32] >> (i & 31) & 1;
        else bit = f.v[k * f.shape[3] + i] < 0;
        fb[k * fw + i / 32] |= (uint32_t)bit << (i & 31);
      }
    Dim h = Window(in.shape[1], kh, sh, dh, same), w = Window(in.shape[2], kw, sw, dw, same);
    std::vector<int64_t> shape = {in.shape[0], h.out, w.out, o.kind == INT ? (co + 31) / 32 : co};
    if (o.shape != shape) return Fail("binary convolution with a wrong output shape");
    Alloc(o);
    if (o.kind == INT ? (int64_t)thr.v.size() != co : (int64_t)mult.v.size() != co || (int64_t)bias.v.size() != co)
      return Fail("binary convolution with wrong constants");
    if (o.kind == INT ? thr.shape.size() != 1 || thr.kind != INT : mult.shape.size() != 1 || bias.shape.size() != 1) return Fail("binary convolution with constants of a wrong shape");
    uint32_t last = ci % 32 ? (1u << ci % 32) - 1 : ~0u;
    for (int64_t n = 0; n < in.shape[0]; n++)
      for (int64_t y = 0; y < h.out; y++)
        for (int64_t x = 0; x < w.out; x++)
          for (int64_t c = 0; c < co; c++) {
            int64_t g = c / (co / groups);
            int64_t diff = 0, used = 0, unk = 0;
            for (int64_t fy = 0; fy < kh; fy++)
              for (int64_t fx = 0; fx < kw; fx++) {
                int64_t iy = y * sh - h.before + fy * dh, ix = x * sw - w.before + fx * dw;
                bool out = iy < 0 || iy >= in.shape[1] || ix < 0 || ix >= in.shape[2];
                if (out && !pad) continue;
                used += ci;
                for (int64_t i = 0; i < fw; i++) {
                  uint32_t a = 0, u = 0, m = i == fw - 1 ? last : ~0u;
                  if (!out) {
                    int64_t p = ((n * in.shape[1] + iy) * in.shape[2] + ix) * words + g * fw + i;
                    a = (uint32_t)(int32_t)in.v[p];
                    u = in.unk[p];
                  }
                  diff += __builtin_popcount((a ^ fb[((c * kh + fy) * kw + fx) * fw + i]) & m & ~u);
                  unk += __builtin_popcount(u & m);
                }
              }
            // used - 2 * diff, with diff in [diff, diff + unk]
            int64_t full = kh * kw * ci;
            if (o.kind == INT) {
              // the runtime counts over the whole window; values that are not there count half
              double lo = diff + (full - used) / 2.0, hi = lo + unk, t = thr.v[c];
              bool bit = lo > t, un = (hi > t) != bit;
              int64_t k = ((n * h.out + y) * w.out + x) * shape[3] + c / 32;
              o.v[k] = (int32_t)((uint32_t)(int32_t)o.v[k] | (uint32_t)bit << (c & 31));
              o.unk[k] |= (uint32_t)un << (c & 31);
              (un ? r.undecided_bits : r.decided_bits)++;
              continue;
            }
            double hi = Act(act, used - 2 * diff), lo = Act(act, used - 2 * (diff + unk));
            double a = (lo + hi) / 2, e = (hi - lo) / 2;
            double z = a * mult.v[c], ze = e * std::fabs(mult.v[c]) + std::fabs(a) * mult.e[c] + e * mult.e[c];
            Round(z, ze, std::fabs(z));
            double s = z + bias.v[c];
            ze += bias.e[c];
            Round(s, ze, std::fabs(z) + std::fabs(bias.v[c]));
            int64_t k = ((n * h.out + y) * w.out + x) * co + c;
            if (o.kind == QUANT) ToQuant(s, ze, o, o.v[k], o.e[k]);
            else o.v[k] = s, o.e[k] = ze;
          }
  }
  Tensor Pad(const Tensor& in, const Tensor& p, double value) {
    Tensor o;
    o.kind = in.kind;
    if (p.size() != (int64_t)in.shape.size() * 2) {
      Fail("padding of a wrong shape");
      return o;
    }
    o.shape = in.shape;
    for (size_t d = 0; d < in.shape.size(); d++) o.shape[d] += (int64_t)p.v[2 * d] + (int64_t)p.v[2 * d + 1];
    Alloc(o);
    for (auto& x : o.v) x = value;
    for (int64_t i = 0; i < in.size(); i++) {
      int64_t k = 0, s = 1, q = i;
      for (int d = (int)in.shape.size() - 1; d >= 0; d--) {
        k += (q % in.shape[d] + (int64_t)p.v[2 * d]) * s;
        q /= in.shape[d];
        s *= o.shape[d];
      }
      o.v[k] = in.v[i];
      o.e[k] = in.e[i];
    }
    return o;
  }
  Tensor Take(const Tensor& in, const std::vector<int64_t>& shape, std::function<int64_t(int64_t)> from) {
    Tensor o = in;
    o.shape = shape;
    Alloc(o);
    for (int64_t i = 0; i < (int64_t)o.v.size(); i++) {
      int64_t k = from(i);
      o.v[i] = in.v[k];
      o.e[i] = in.e[k];
      if (in.kind == INT) o.unk[i] = in.unk[k];
    }
    return o;
  }

  void One(Operation* op) {
    std::string name = op->getName().getStringRef().str();
    std::vector<Tensor*> in;
    for (Value v : op->getOperands()) in.push_back(&Get(v));
    std::vector<Tensor> outs;
    auto type = [&](int i) {
      bool ok = true;
      Tensor t = FromType(op->getResult(i).getType(), ok);
      if (!ok) Fail(name + " has a result type that is not defined");
      return t;
    };
    auto starts = [&](const char* s) { return name.rfind(s, 0) == 0; };
    std::string n = name.substr(name.find('.') + 1);
    bool tf = starts("tf."), tfl = starts("tfl."), lq = starts("lq.");
    auto out = [&](Tensor t) { outs.push_back(std::move(t)); };
    auto unary = [&](const std::string& act) {
      Tensor t = *in[0];
      ActTensor(act, t);
      out(std::move(t));
    };
    bool same = Str(op, "padding") == "SAME";
    if (name == "arith.constant" || name == "tf.Const") {
      Tensor t;
      if (!Const(op->getAttr("value"), t)) return Fail("a constant that cannot be read");
      out(std::move(t));
    } else if (name == "tfl.no_value") {
      Tensor t;
      t.kind = NONE;
      out(std::move(t));
    } else if (tf && (n == "Identity" || n == "Snapshot" || n == "StopGradient" || n == "PlaceholderWithDefault" || n == "CheckNumerics" || n == "IdentityN")) {
      for (auto* t : in) out(*t);
    } else if (name == "tf.Sign") {
      Tensor t = *in[0];
      for (size_t i = 0; i < t.v.size(); i++) {
        bool un = t.e[i] > 0 && std::fabs(t.v[i]) <= t.e[i];
        t.v[i] = t.v[i] > 0 ? 1 : t.v[i] < 0 ? -1 : 0;
        t.e[i] = un ? 2 : 0;
      }
      out(std::move(t));
    } else if (name == "tf.AddV2" || name == "tfl.add" || name == "tf.Sub" || name == "tfl.sub" || name == "tf.Mul" || name == "tfl.mul" || name == "tf.Div" || name == "tfl.div") {
      int k = name == "tf.AddV2" || name == "tfl.add" ? 0 : n == "Sub" || n == "sub" ? 1 : n == "Mul" || n == "mul" ? 2 : 3;
      Tensor t = Binary(*in[0], *in[1], k);
      if (tfl) ActTensor(Str(op, "fused_activation_function"), t);
      out(std::move(t));
    } else if (n == "GreaterEqual" || n == "greater_equal") {
      out(Compare(*in[0], *in[1], 0));
    } else if (n == "LessEqual" || n == "less_equal") {
      out(Compare(*in[0], *in[1], 1));
    } else if (n == "Greater" || n == "greater") {
      out(Compare(*in[0], *in[1], 2));
    } else if (n == "Less" || n == "less") {
      out(Compare(*in[0], *in[1], 3));
    } else if (n == "LogicalNot" || n == "logical_not") {
      Tensor t = *in[0];
      for (auto& v : t.v) v = !v;
      out(std::move(t));
    } else if (n == "Neg" || n == "neg") {
      Tensor t = *in[0];
      for (auto& v : t.v) v = -v;
      out(std::move(t));
    } else if (n == "Relu" || n == "relu") {
      unary("RELU");
    } else if (n == "Relu6" || n == "relu6") {
      unary("RELU6");
    } else if (n == "relu_n1_to_1") {
      unary("RELU_N1_TO_1");
    } else if (n == "Select" || n == "SelectV2" || n == "select_v2") {
      Tensor o;
      std::vector<int64_t> s;
      if (!Broadcast(in[1]->shape, in[2]->shape, s) || !Broadcast(s, in[0]->shape, o.shape)) return Fail("select of wrong shapes");
      o.kind = in[1]->kind;
      Alloc(o);
      for (int64_t i = 0; i < (int64_t)o.v.size(); i++) {
        int64_t c = Index(i, o.shape, in[0]->shape), a = Index(i, o.shape, in[1]->shape), b = Index(i, o.shape, in[2]->shape);
        bool x = in[0]->v[c] != 0;
        o.v[i] = x ? in[1]->v[a] : in[2]->v[b];
        o.e[i] = x ? in[1]->e[a] : in[2]->e[b];
        if (in[0]->e[c]) o.e[i] = std::max(in[1]->e[a], in[2]->e[b]) + std::fabs(in[1]->v[a] - in[2]->v[b]);
      }
      out(std::move(o));
    } else if (n == "BroadcastTo" || n == "broadcast_to") {
      std::vector<int64_t> s;
      for (double d : in[1]->v) s.push_back((int64_t)d);
      std::vector<int64_t> chk;
      if (!Broadcast(in[0]->shape, s, chk) || chk != s) return Fail("broadcast to a wrong shape");
      out(Take(*in[0], s, [&](int64_t i) { return Index(i, s, in[0]->shape); }));
    } else if (n == "Shape") {
      Tensor t = type(0);
      Alloc(t);
      if (t.v.size() != in[0]->shape.size()) return Fail("shape of a wrong rank");
      for (size_t i = 0; i < t.v.size(); i++) t.v[i] = in[0]->shape[i];
      out(std::move(t));
    } else if (n == "Transpose" || n == "transpose") {
      std::vector<int64_t> s, perm;
      for (double d : in[1]->v) perm.push_back((int64_t)d);
      if (perm.size() != in[0]->shape.size()) return Fail("transpose of a wrong rank");
      for (auto p : perm) s.push_back(in[0]->shape[p]);
      std::vector<int64_t> st(s.size(), 1);
      for (int i = (int)s.size() - 2; i >= 0; i--) st[i] = st[i + 1] * in[0]->shape[i + 1];
      out(Take(*in[0], s, [&](int64_t i) {
        int64_t k = 0;
        for (int d = (int)s.size() - 1; d >= 0; d--) {
          k += st[perm[d]] * (i % s[d]);
          i /= s[d];
        }
        return k;
      }));
    } else if (n == "Reshape" || n == "reshape") {
      Tensor t = *in[0];
      t.shape.clear();
      for (double d : in[1]->v) t.shape.push_back((int64_t)d);
      if (t.size() != in[0]->size()) return Fail("reshape to a wrong size");
      out(std::move(t));
    } else if (name == "tf.Conv2D") {
      out(Conv(*in[0], *in[1], false, At(op, "strides", 1), At(op, "strides", 2), At(op, "dilations", 1), At(op, "dilations", 2), same, true));
    } else if (name == "tfl.conv_2d" || name == "tfl.depthwise_conv_2d") {
      bool dep = n != "conv_2d";
      Tensor t = dep ? Depthwise(*in[0], *in[1], Int(op, "stride_h"), Int(op, "stride_w"), Int(op, "dilation_h_factor"), Int(op, "dilation_w_factor"), same, Int(op, "depth_multiplier"))
                     : Conv(*in[0], *in[1], true, Int(op, "stride_h"), Int(op, "stride_w"), Int(op, "dilation_h_factor"), Int(op, "dilation_w_factor"), same, true);
      if (in[2]->kind != NONE && r.ok) t = Binary(t, *in[2], 0);
      ActTensor(Str(op, "fused_activation_function"), t);
      out(std::move(t));
    } else if (name == "tf.MaxPool") {
      out(MaxPool(*in[0], At(op, "ksize", 1), At(op, "ksize", 2), At(op, "strides", 1), At(op, "strides", 2), same));
    } else if (name == "tfl.max_pool_2d") {
      Tensor t = MaxPool(*in[0], Int(op, "filter_height"), Int(op, "filter_width"), Int(op, "stride_h"), Int(op, "stride_w"), same);
      ActTensor(Str(op, "fused_activation_function"), t);
      out(std::move(t));
    } else if (n == "Pad" || n == "pad") {
      out(Pad(*in[0], *in[1], 0));
    } else if (n == "PadV2" || n == "padv2") {
      if (in[2]->v.size() != 1) return Fail("padding with more than one value");
      out(Pad(*in[0], *in[1], in[2]->v[0]));
    } else if (name == "tfl.quantize") {
      Tensor t = type(0);
      t.shape = in[0]->shape;
      Alloc(t);
      if (t.kind != QUANT || in[0]->kind != F32) return Fail("tfl.quantize of wrong types");
      for (size_t i = 0; i < t.v.size(); i++) ToQuant(in[0]->v[i], in[0]->e[i], t, t.v[i], t.e[i]);
      out(std::move(t));
    } else if (name == "tfl.dequantize") {
      Tensor t = *in[0];
      if (t.kind != QUANT) return Fail("tfl.dequantize of wrong types");
      t.kind = F32;
      for (size_t i = 0; i < t.v.size(); i++) {
        t.v[i] = t.scale * (t.v[i] - t.zp);
        t.e[i] *= t.scale;
      }
      out(std::move(t));
    } else if (name == "lq.Quantize" || (name == "tfl.custom" && Str(op, "custom_code") == "LceQuantize")) {
      if (in.size() != 1) return Fail("quantize with " + std::to_string(in.size()) + " inputs");
      out(Quantize(*in[0]));
    } else if (name == "lq.Dequantize" || (name == "tfl.custom" && Str(op, "custom_code") == "LceDequantize")) {
      if (in.size() != 1) return Fail("dequantize with " + std::to_string(in.size()) + " inputs");
      Tensor t = type(0);
      Dequantize(*in[0], t);
      out(std::move(t));
    } else if (name == "lq.Bconv2d") {
      if (in.size() != 5) return Fail("binary convolution with " + std::to_string(in.size()) + " inputs");
      Tensor t = type(0);
      auto pv = op->getAttrOfType<IntegerAttr>("pad_values");
      Bconv(op, *in[0], *in[1], *in[2], *in[3], *in[4], t, Int(op, "channels_in"), Int(op, "dilation_height_factor"), Int(op, "dilation_width_factor"), Str(op, "fused_activation_function"),
            pv ? pv.getInt() : 0, same, Int(op, "stride_height"), Int(op, "stride_width"));
      out(std::move(t));
    } else if (name == "lq.BMaxPool2d") {
      if (in[0]->kind != INT) return Fail("binary pooling of wrong types");
      out(MaxPool(*in[0], Int(op, "filter_height"), Int(op, "filter_width"), Int(op, "stride_height"), Int(op, "stride_width"), same));
    } else if (name == "tfl.custom" && (Str(op, "custom_code") == "LceBconv2d" || Str(op, "custom_code") == "LceBMaxPool2d")) {
      auto bytes = cast<TFL::ConstBytesAttr>(op->getAttr("custom_option")).getValue();
      auto map = flexbuffers::GetRoot((const uint8_t*)bytes.data(), bytes.size()).AsMap();
      auto get = [&](const char* k) -> int64_t {
        auto v = map[k];
        if (v.IsNull()) Fail(std::string("no option ") + k);
        return v.AsInt32();
      };
      if (Str(op, "custom_code") == "LceBconv2d") {
        if (in.size() != 5) return Fail("binary convolution with " + std::to_string(in.size()) + " inputs");
        static const char* acts[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
        int64_t a = get("fused_activation_function"), p = get("padding");
        if (a < 0 || a > 3 || p < 0 || p > 1) return Fail("options out of range");
        Tensor t = type(0);
        int64_t sh = get("stride_height"), sw = get("stride_width"), dh = get("dilation_height_factor"), dw = get("dilation_width_factor"), ch = get("channels_in"), pv = get("pad_values");
        if (!r.ok) return;
        Bconv(op, *in[0], *in[1], *in[2], *in[3], *in[4], t, ch, dh, dw, acts[a], pv, p == 0, sh, sw);
        out(std::move(t));
      } else {
        int64_t kh = get("filter_height"), kw = get("filter_width"), sh = get("stride_height"), sw = get("stride_width"), p = get("padding");
        if (!r.ok) return;
        out(MaxPool(*in[0], kh, kw, sh, sw, p == 0));
      }
    } else if (name == "tfl.custom" && Str(op, "custom_code") == "TFLite_Detection_PostProcess") {
      // some function of boxes, scores and anchors; the scores come out as they went in
      auto real = [&](const Tensor& t, size_t i) { return t.kind == QUANT ? t.scale * (t.v[i] - t.zp) : t.v[i]; };
      for (int k = 0; k < 4; k++) {
        Tensor t = type(k);
        Alloc(t);
        for (size_t i = 0; i < t.v.size(); i++) {
          size_t b = i % in[0]->v.size(), s = i % in[1]->v.size(), a = i % in[2]->v.size();
          if (k == 0) t.v[i] = std::floor(real(*in[0], b) * 8 + real(*in[2], a) * 64);
          if (k == 1) t.v[i] = std::floor(real(*in[1], s) * 4);
          if (k == 3) t.v[i] = in[1]->v.size();
          if (k == 2) {
            t.v[i] = in[1]->v[s];
            if (t.kind != in[1]->kind) {
              if (t.kind == QUANT || in[1]->kind == INT) return Fail("detection with wrong types");
              t.v[i] = real(*in[1], s);
            } else if (t.kind == QUANT && (t.scale != in[1]->scale || t.zp != in[1]->zp)) {
              return Fail("detection changes the scale of the scores");
            }
          }
        }
        out(std::move(t));
      }
    } else {
      return Fail("operator " + name + " that nothing defines");
    }
    if (!r.ok) return;
    if (name == "tfl.custom" && on_custom && outs.size() == 1)
      on_custom(op, Str(op, "custom_code"), cast<TFL::ConstBytesAttr>(op->getAttr("custom_option")).getValue().str(), std::vector<const Tensor*>(in.begin(), in.end()), outs[0], on_custom_arg);
    if (outs.size() != op->getNumResults()) return Fail(name + " with " + std::to_string(op->getNumResults()) + " results");
    for (size_t i = 0; i < outs.size(); i++) {
      if (outs[i].kind == NONE) {
        env[op->getResult(i).getAsOpaquePointer()] = outs[i];
        continue;
      }
      bool ok = true;
      Tensor t = FromType(op->getResult(i).getType(), ok);
      if (ok && t.shape != outs[i].shape) {
        std::string a, b;
        for (auto d : t.shape) a += std::to_string(d) + " ";
        for (auto d : outs[i].shape) b += std::to_string(d) + " ";
        return Fail(name + " is said to have the shape " + a + "but has the shape " + b);
      }
      if (ok && t.kind != outs[i].kind) return Fail(name + " with a wrong element type");
      env[op->getResult(i).getAsOpaquePointer()] = std::move(outs[i]);
    }
  }
};
}  // namespace

Tensor FromType(Type type, bool& ok) {
  Tensor t;
  if (isa<NoneType>(type)) {
    t.kind = NONE;
    return t;
  }
  auto r = dyn_cast<RankedTensorType>(type);
  if (!r || !r.hasStaticShape()) {
    ok = false;
    return t;
  }
  t.shape.assign(r.getShape().begin(), r.getShape().end());
  Type e = r.getElementType();
  if (e.isInteger(1)) t.kind = BOOL;
  else if (e.isInteger(32) || e.isInteger(64)) t.kind = INT;
  else if (auto q = dyn_cast<quant::UniformQuantizedType>(e)) t.kind = QUANT, t.scale = q.getScale(), t.zp = (int)q.getZeroPoint();
  else if (isa<FloatType>(e)) t.kind = F32;
  else ok = false;
  return t;
}

Result Run(func::FuncOp f, const std::vector<Tensor>& inputs, bool loose) {
  Result r;
  Machine m{loose, r};
  if (f.getBlocks().size() != 1) {
    r.ok = false;
    r.error = "a function with more than one block";
    return r;
  }
  Block& b = f.front();
  if (b.getNumArguments() != inputs.size()) {
    r.ok = false;
    r.error = "a function with a different number of inputs";
    return r;
  }
  for (size_t i = 0; i < inputs.size(); i++) m.env[b.getArgument(i).getAsOpaquePointer()] = inputs[i];
  for (Operation& op : b) {
    if (isa<func::ReturnOp>(op)) {
      for (Value v : op.getOperands()) r.outputs.push_back(m.Get(v));
      break;
    }
    m.One(&op);
    if (!r.ok) break;
  }
  return r;
}

std::string Compare(const Tensor& a, const Tensor& b) {
  if (a.kind != b.kind) return "has another element type";
  if (a.shape != b.shape) return "has another shape";
  if (a.kind == QUANT && (a.scale != b.scale || a.zp != b.zp)) return "has another scale or zero point";
  for (size_t i = 0; i < a.v.size(); i++) {
    char s[300];
    if (a.kind == INT) {
      uint32_t x = (uint32_t)(int32_t)a.v[i], y = (uint32_t)(int32_t)b.v[i], u = a.unk[i] | b.unk[i];
      if ((x ^ y) & ~u) {
        snprintf(s, sizeof s, "element %zu is %08x instead of %08x", i, y, x);
        return s;
      }
      continue;
    }
    double d = std::fabs(a.v[i] - b.v[i]), e = a.e[i] + b.e[i];
    if (a.v[i] == b.v[i]) continue;
    if (!std::isfinite(a.v[i]) || !std::isfinite(a.e[i])) continue;  // there is no number to keep
    if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
    if (!(d <= e + 1e-12 * std::fabs(a.v[i]))) {
      snprintf(s, sizeof s, "element %zu is %.9g instead of %.9g (rounding explains %.3g)", i, b.v[i], a.v[i], e);
      return s;
    }
  }
  return "";
}
}  // namespace ev
