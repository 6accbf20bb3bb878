#include "gen_model.h"

#include <cmath>
#include <functional>

#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

using namespace mlir;
namespace gen {
namespace {
constexpr int64_t kMaxMacs = 40000;
typedef std::vector<int64_t> Shape;

const char* kTfBlocks[] = {"binarize", "conv", "conv", "scale", "scale", "relu", "pool", "identity", "add", "binarize", "padconv", "where", "legacy", "multi"};
const char* kLiteBlocks[] = {"quantize", "bconv", "bconv", "arith", "arith", "act", "pool", "compare", "padconv", "requant", "dequantize", "bpool", "detection", "constq", "qweights", "quantize"};
template <size_t N>
const char* Pick(const char* (&a)[N], uint64_t s) {
  return a[Rng{s}.below(N)];
}

struct G {
  OpBuilder b;
  Location l;
  Rng r{0};
  const Func& f;
  struct Val {
    Value v;
    int64_t ch = 0;  // packed words of so many channels
  };
  std::vector<Val> vals;
  G(MLIRContext* c, const Func& f) : b(c), l(UnknownLoc::get(c)), f(f) {}

  Type f32() { return b.getF32Type(); }
  RankedTensorType Ty(Shape s, Type e) { return RankedTensorType::get(s, e); }
  RankedTensorType T(Value v) { return cast<RankedTensorType>(v.getType()); }
  Shape S(Value v) { return Shape(T(v).getShape().begin(), T(v).getShape().end()); }
  bool Is(const Val& v, int kind) {  // 0 f32, 1 packed, 2 int8, 3 bool
    Type e = T(v.v).getElementType();
    return kind == 0 ? e.isF32() : kind == 1 ? v.ch > 0 : kind == 2 ? isa<quant::QuantizedType>(e) : e.isInteger(1);
  }
  NamedAttribute A(const char* n, Attribute a) { return b.getNamedAttr(n, a); }
  NamedAttribute I(const char* n, int64_t v) { return A(n, b.getI32IntegerAttr((int32_t)v)); }
  NamedAttribute Str(const char* n, StringRef v) { return A(n, b.getStringAttr(v)); }
  Value Op(StringRef name, ArrayRef<Value> in, Type out, ArrayRef<NamedAttribute> a = {}) {
    OperationState s(l, name, in, {out}, a);
    return b.create(s)->getResult(0);
  }
  Value Const(DenseElementsAttr a) {
    if (f.level == kTf && r.chance(50)) return Op("tf.Const", {}, a.getType(), {A("value", a)});
    return b.create<arith::ConstantOp>(l, cast<TypedAttr>(a));
  }
  Value F(Shape s, std::function<float(int64_t)> g) {
    auto t = Ty(s, f32());
    std::vector<float> v(t.getNumElements());
    for (size_t i = 0; i < v.size(); i++) v[i] = g(i);
    return Const(DenseElementsAttr::get(t, ArrayRef<float>(v)));
  }
  Value Splat(Shape s, float x) { return F(s, [x](int64_t) { return x; }); }
  Value I32(std::vector<int32_t> v, Shape s) { return Const(DenseElementsAttr::get(Ty(s, b.getI32Type()), ArrayRef<int32_t>(v))); }
  float Num(bool zero = true) {
    if (f.exact) {
      int k = r.below(17) - 8;
      if (!k && !zero) k = 1;
      return std::ldexp((float)k, -r.below(3));
    }
    if (zero && r.chance(8)) return 0;
    float m = std::pow(10.0f, r.below(4) - 2);
    float x = (r.below(200001) - 100000) * 1e-5f * m;
    return zero ? x : x < 0 ? x - 0.01f * m : x + 0.01f * m;
  }
  float Pow2() { return std::ldexp(1.0f, r.below(5) - 2); }

  const Val* Find(std::function<bool(const Val&)> ok) {
    std::vector<const Val*> c;
    for (auto& v : vals)
      if (ok(v)) c.push_back(&v);
    if (c.empty()) return nullptr;
    return r.chance(75) ? c.back() : c[r.below(c.size())];
  }
  const Val* Float4() {
    return Find([&](const Val& v) { return Is(v, 0) && S(v.v).size() == 4; });
  }
  void Push(Value v, int64_t ch = 0) { vals.push_back({v, ch}); }
  bool Fits(Type t) {
    auto r = dyn_cast<RankedTensorType>(t);
    if (!r) return false;
    int64_t n = 1;
    for (auto d : r.getShape()) {
      if (d == 0) return false;
      n *= d < 0 ? 1 : d;
    }
    return n <= 6000;
  }
  int64_t Big() {
    static const int64_t b[] = {100, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 70000, 16777216, 16777217};
    return b[r.below(17)];
  }
  Type Conv(Value x, int64_t kh, int64_t kw, int64_t sh, int64_t sw, int64_t dh, int64_t dw, bool same, int64_t co, Type e) {
    auto s = S(x);
    return Ty({s[0], convsim::OutSize(s[1], kh, sh, dh, same), convsim::OutSize(s[2], kw, sw, dw, same), co}, e);
  }
  int64_t Channels() {
    static const int c[] = {1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64, 64, 96, 128};
    return c[r.below(14)];
  }
  // a filter whose elements are +-s for each of the last (HWIO) or first (OHWI) channels
  Value Filter(int64_t kh, int64_t kw, int64_t ci, int64_t co, bool binary) {
    std::vector<float> s(co);
    for (auto& x : s) x = f.exact ? Pow2() : std::fabs(Num(false)) + 0.01f;
    if (r.chance(40)) s.assign(co, 1);
    bool noise = !f.exact && r.chance(50);
    int spoil = binary ? -1 : r.below(5);
    int64_t at = r.below(kh * kw * ci * co), n = -1;
    if (spoil == 4) s[r.below(co)] = 0;
    Value v = F({kh, kw, ci, co}, [&](int64_t i) {
      n++;
      float x = s[i % co] * (r.chance(50) ? 1 : -1);
      if (noise) x *= 1 + (r.below(81) - 40) * 1e-4f;
      if (spoil == 0 && n == at) x *= 1.5f;
      if (spoil == 1 && n == at) x = 0;
      if (spoil == 2) x = Num();
      if (spoil == 3 && n == at) x *= 1.0625f;
      return x;
    });
    return v;
  }

  // ---- TensorFlow
  void Binarize() {
    auto* x = Find([&](const Val& v) { return Is(v, 0) && S(v.v).size() >= 1; });
    if (!x) return;
    Value v = x->v;
    Type bt = Ty(S(v), b.getI1Type());
    bool fullshape = T(v).hasStaticShape() && r.chance(30);
    int kind = r.below(10);
    Value t;
    int64_t ch = S(v).back();
    if (kind < 5) t = Splat(r.chance(50) ? Shape{} : r.chance(50) ? Shape{1} : Shape{ch}, 0);
    else if (kind < 6) t = Splat({}, Num());
    else if (kind < 8) t = F({ch}, [&](int64_t) { return Num(); });
    else if (kind < 9 && S(v).size() == 4) t = F({1, S(v)[1], S(v)[2], 1}, [&](int64_t) { return Num(); });
    else {
      auto* y = Find([&](const Val& w) { return w.v.getType() == v.getType() && w.v != v; });
      t = y ? y->v : Splat({}, 0);
    }
    static const char* cmp[] = {"tf.GreaterEqual", "tf.GreaterEqual", "tf.GreaterEqual", "tf.LessEqual", "tf.Greater", "tf.Less"};
    int c = r.below(6);
    bool swap = r.chance(c == 3 ? 70 : 15);
    Value cond = Op(cmp[c], swap ? ArrayRef<Value>{t, v} : ArrayRef<Value>{v, t}, bt);
    if (r.chance(10)) cond = Op("tf.LogicalNot", {cond}, bt);
    Where(cond, v.getType(), fullshape);
  }
  void Where(Value cond, Type type, bool full) {
    bool neg = r.chance(25);
    Shape cs = full ? S(cond) : r.chance(70) ? Shape{} : Shape{1};
    if (!full && r.chance(10)) cs = Shape{S(cond).back()};
    float p = 1, m = -1;
    if (r.chance(5)) p = 2;  // not a sign
    Value a = Splat(cs, neg ? m : p), c = Splat(cs, neg ? p : m);
    bool v2 = !full || r.chance(50);
    Push(Op(v2 ? "tf.SelectV2" : "tf.Select", {cond, a, c}, type));
  }
  void Condition() {  // a condition from elsewhere
    auto* x = Find([&](const Val& v) { return Is(v, 3); });
    if (!x) return Binarize();
    Value v = x->v;
    Where(v, Ty(S(v), f32()), T(v).hasStaticShape() && r.chance(30));
  }
  void Legacy() {
    auto* x = Float4();
    if (!x) return;
    Value v = x->v, s = Op("tf.Sign", {v}, v.getType());
    int k = r.below(10);
    float c = k < 7 ? 0.125f : k == 7 ? 0.5f : k == 8 ? -0.25f : 2.0f;
    Value k1 = r.chance(70) ? Splat({}, c) : Splat({S(v)[3]}, c);
    Value a = Op("tf.AddV2", r.chance(60) ? ArrayRef<Value>{s, k1} : ArrayRef<Value>{k1, s}, v.getType());
    Push(Op("tf.Sign", {a}, v.getType()));
  }
  struct ConvShape {
    int64_t kh, kw, ci, co, sh, sw, dh, dw;
  };
  bool Draw(Value v, ConvShape& c, bool lite) {
    auto s = S(v);
    for (int tries = 0; tries < 20; tries++) {
      static const int ks[] = {1, 1, 2, 3, 3, 5};
      c = {ks[r.below(6)], ks[r.below(6)], s[3], Channels(), 1, 1, 1, 1};
      if (r.chance(40)) c.kw = c.kh;
      if (r.chance(35)) c.sh = c.sw = 2;
      if (r.chance(22)) c.sh = 1 + r.below(3), c.sw = 1 + r.below(3);
      if (r.chance(15)) c.dh = 1 + r.below(2), c.dw = 1 + r.below(3);
      if (s[3] % 64 == 0 && r.chance(40)) c.ci = s[3] / 2;
      else if (s[3] > 1 && s[3] % 2 == 0 && r.chance(8) && !lite) c.ci = s[3] / 2;  // groups the runtime does not take
      int64_t groups = s[3] / c.ci;
      c.co = (c.co + groups - 1) / groups * groups;
      int64_t n = std::max<int64_t>(1, s[0]) * s[1] * s[2] * c.co * c.kh * c.kw * c.ci;
      if (n <= kMaxMacs) return true;
    }
    return false;
  }
  Value TfConv(Value v, const ConvShape& c, bool same, bool binary) {
    auto list = [&](int64_t h, int64_t w) { return b.getI64ArrayAttr({1, h, w, 1}); };
    Value w = Filter(c.kh, c.kw, c.ci, c.co, binary);
    Type t = Conv(v, c.kh, c.kw, c.sh, c.sw, c.dh, c.dw, same, c.co, f32());
    return Op("tf.Conv2D", {v, w}, t,
              {A("strides", list(c.sh, c.sw)), A("use_cudnn_on_gpu", b.getBoolAttr(true)), Str("padding", same ? "SAME" : "VALID"), A("explicit_paddings", b.getI64ArrayAttr({})), Str("data_format", "NHWC"),
               A("dilations", list(c.dh, c.dw))});
  }
  bool UseBinarized() { return r.chance(65); }
  const Val* ConvInput() {
    if (UseBinarized()) {
      auto* v = Find([&](const Val& v) { return Is(v, 0) && S(v.v).size() == 4 && v.v.getDefiningOp() && isa<TF::SelectOp, TF::SelectV2Op, TF::SignOp>(v.v.getDefiningOp()); });
      if (v) return v;
    }
    return Float4();
  }
  void TfConvBlock() {
    auto* x = ConvInput();
    ConvShape c;
    if (!x || !Draw(x->v, c, false)) return;
    Value v = x->v;
    bool same = r.chance(50);
    Type t = Conv(v, c.kh, c.kw, c.sh, c.sw, c.dh, c.dw, same, c.co, f32());
    if (!Fits(t)) return;
    Push(TfConv(v, c, same, r.chance(80)));
  }
  // paddings for a VALID convolution of this shape; false: not a padding to use
  std::vector<int32_t> Paddings(Value v, const ConvShape& c) {
    auto s = S(v);
    std::vector<int32_t> p(8, 0);
    bool other = c.sh != c.sw && r.chance(30);  // as many windows as with the other dimension's stride
    for (int d = 0; d < 2; d++) {
      int64_t in = s[1 + d], k = d ? c.kw : c.kh, st = d ? c.sw : c.sh, so = (d != 0) != other ? c.sw : c.sh, dl = d ? c.dw : c.dh, ek = (k - 1) * dl + 1, out = (in + so - 1) / so, total = std::max<int64_t>(0, (out - 1) * st + ek - in);
      p[2 + 2 * d] = total / 2, p[3 + 2 * d] = total - total / 2;
      if (r.chance(25)) p[2 + 2 * d] = ek / 2, p[3 + 2 * d] = ek / 2;
      if (r.chance(12)) p[2 + 2 * d + r.below(2)] += 1;
      if (r.chance(6)) std::swap(p[2 + 2 * d], p[3 + 2 * d]);
    }
    if (r.chance(4)) p[6] = 1;
    if (r.chance(3)) p[1] = 1;
    return p;
  }
  // the padding prepare takes for SAME although it is not (see known_findings.txt)
  bool KnownPadding(Value v, const ConvShape& c, const std::vector<int32_t>& p) {
    auto s = S(v);
    for (int d = 0; d < 2; d++) {
      int64_t in = s[1 + d], k = d ? c.kw : c.kh, st = d ? c.sw : c.sh, dl = d ? c.dw : c.dh, ek = (k - 1) * dl + 1, out = (in + st - 1) / st, total = std::max<int64_t>(0, (out - 1) * st + ek - in);
      int64_t pb = p[2 + 2 * d], pa = p[3 + 2 * d], pt = pb + pa;
      if (convsim::OutSize(in + pt, k, st, dl, false) == out && pb == pt / 2 && pa == (pt + 1) / 2 && pt != total) return true;
    }
    return false;
  }
  void TfPadConv() {
    auto* x = ConvInput();
    ConvShape c;
    if (!x || !Draw(x->v, c, false)) return;
    Value v = x->v;
    auto p = Paddings(v, c);
    bool v2 = r.chance(75);
    float value = !v2 ? 0 : r.chance(75) ? 1.0f : r.chance(50) ? 0.0f : r.chance(50) ? -1.0f : Num();
    if (v2 && value == 1.0f && KnownPadding(v, c, p)) return;
    auto s = S(v);
    if (p[1] && s[0] < 0) p[1] = 0;
    s[0] += p[0] + p[1];
    for (int d = 1; d < 4; d++) s[d] += p[2 * d] + p[2 * d + 1];
    if (s[3] % c.ci) return;
    Type pt = Ty(s, f32());
    if (!Fits(pt)) return;
    Value pads = I32(p, {4, 2});
    Value y = v2 ? Op("tf.PadV2", {v, pads, Splat({}, value)}, pt) : Op("tf.Pad", {v, pads}, pt);
    if (r.chance(15)) Push(y);
    Type t = Conv(y, c.kh, c.kw, c.sh, c.sw, c.dh, c.dw, false, c.co, f32());
    if (!Fits(t) || s[3] / c.ci * c.ci != s[3] || c.co % (s[3] / c.ci)) {
      Push(y);
      return;
    }
    Push(TfConv(y, c, false, r.chance(85)));
  }
  Shape ConstShape(Value v) {
    auto s = S(v);
    if (s.size() != 4) return r.chance(50) ? Shape{} : Shape{s.back()};
    switch (r.below(12)) {
      case 0: return {};
      case 1: return {1};
      case 2: return {1, 1, 1, s[3]};
      case 3: return {1, 1, s[3]};
      case 4: return {s[1], s[2], s[3]};
      case 5: return {1, s[1], s[2], 1};
      case 6: return {s[2], 1};
      default: return {s[3]};
    }
  }
  Value Operand(Value v, bool divisor) {
    Shape cs = ConstShape(v);
    bool same = r.chance(10);
    float one = divisor ? Pow2() : Num();
    return F(cs, [&](int64_t) {
      if (same) return one;
      if (!divisor) return Num();
      float x = f.exact ? Pow2() : Num(false);
      return r.chance(30) ? -x : x;
    });
  }
  void TfScale() {
    auto* x = Float4();
    if (!x) return;
    Value v = x->v;
    static const char* ops[] = {"tf.Mul", "tf.AddV2", "tf.Sub", "tf.Div"};
    int n = 1 + r.below(3);
    for (int i = 0; i < n; i++) {
      int k = r.below(4);
      Value c = Operand(v, k == 3);
      bool swap = k != 3 && r.chance(15);
      v = Op(ops[k], swap ? ArrayRef<Value>{c, v} : ArrayRef<Value>{v, c}, v.getType());
      if (r.chance(10)) Push(v);
    }
    Push(v);
  }
  void TfRelu() {
    auto* x = Float4();
    if (!x) return;
    Push(Op(r.chance(60) ? "tf.Relu" : r.chance(70) ? "tf.Relu6" : "tf.Neg", {x->v}, x->v.getType()));
  }
  void TfPool() {
    auto* x = Float4();
    if (!x) return;
    Value v = x->v;
    int64_t kh = 1 + r.below(3), kw = 1 + r.below(3), sh = 1 + r.below(3), sw = 1 + r.below(3);
    bool same = r.chance(50);
    Type t = Conv(v, kh, kw, sh, sw, 1, 1, same, S(v)[3], f32());
    if (!Fits(t)) return;
    auto list = [&](int64_t h, int64_t w) { return b.getI64ArrayAttr({1, h, w, 1}); };
    Push(Op("tf.MaxPool", {v}, t, {A("ksize", list(kh, kw)), A("strides", list(sh, sw)), Str("padding", same ? "SAME" : "VALID")}));
  }
  void TfIdentity() {
    auto* x = Find([&](const Val& v) { return !Is(v, 3); });
    if (!x) return;
    Value v = x->v;
    switch (r.below(6)) {
      case 0: v = Op("tf.Identity", {v}, v.getType()); break;
      case 1: v = Op("tf.Snapshot", {v}, v.getType()); break;
      case 2: v = Op("tf.StopGradient", {v}, v.getType()); break;
      case 3: v = Op("tf.PlaceholderWithDefault", {v}, v.getType()); break;
      case 4: v = Op("tf.CheckNumerics", {v}, v.getType(), {Str("message", "m")}); break;
      default: {
        Value w = vals[r.below(vals.size())].v;
        OperationState s(l, "tf.IdentityN", ValueRange{v, w}, {v.getType(), w.getType()});
        Operation* o = b.create(s);
        Push(o->getResult(1));
        v = o->getResult(0);
      }
    }
    Push(v);
  }
  void TfAdd() {
    auto* x = Float4();
    if (!x) return;
    Value v = x->v;
    auto* y = Find([&](const Val& w) { return w.v.getType() == v.getType() && w.v != v; });
    if (!y) return TfRelu();
    Push(Op(r.chance(70) ? "tf.AddV2" : r.chance(50) ? "tf.Sub" : "tf.Mul", {v, y->v}, v.getType()));
  }
  void Layer() {  // binarization, convolution, batch normalisation, activation
    Binarize();
    TfConvBlock();
    if (r.chance(50)) TfRelu();
    if (r.chance(80)) TfScale();
    if (r.chance(40)) TfPool();
  }

  // ---- TensorFlow Lite and Larq
  std::string Act() {
    static const char* a[] = {"NONE", "NONE", "NONE", "RELU", "RELU6", "RELU_N1_TO_1"};
    return a[r.below(6)];
  }
  Type QType() {
    return quant::UniformQuantizedType::get(1, b.getI8Type(), b.getF32Type(), std::ldexp(1.0, -r.below(5)), r.below(3) ? r.below(41) - 20 : r.below(2) ? -128 : 0, -128, 127);
  }
  Value Quant(Value v) {  // lq.Quantize
    auto s = S(v);
    s.back() = (s.back() + 31) / 32;
    return Op("lq.Quantize", {v}, Ty(s, b.getI32Type()));
  }
  void LiteQuantize() {
    auto* x = Find([&](const Val& v) { return (Is(v, 0) || Is(v, 2) || Is(v, 3)) && !S(v.v).empty(); });
    if (!x) return;
    int64_t ch = S(x->v).back();
    Value v = x->v;
    Push(Quant(v), ch);
  }
  void LiteDequantize() {
    auto* x = Find([&](const Val& v) { return Is(v, 1); });
    if (!x) return LiteQuantize();
    auto s = S(x->v);
    s.back() = x->ch;
    int k = r.below(5);
    Type e = k < 3 ? f32() : k == 3 ? QType() : (Type)b.getI1Type();
    Push(Op("lq.Dequantize", {x->v}, Ty(s, e)));
  }
  Value OHWI(int64_t co, int64_t kh, int64_t kw, int64_t ci) {
    return F({co, kh, kw, ci}, [&](int64_t) { return r.chance(50) ? 1.0f : -1.0f; });
  }
  Value None() { return b.create<TFL::NoValueOp>(l, b.getUnitAttr()); }
  void LiteBconv() {
    auto* x = Find([&](const Val& v) { return Is(v, 1) && S(v.v).size() == 4; });
    if (!x) {
      auto* y = Find([&](const Val& v) { return !Is(v, 1) && S(v.v).size() == 4; });
      if (!y) return;
      Value yv = y->v;
      Push(Quant(yv), S(yv)[3]);
      x = &vals.back();
    }
    Val in = *x;
    ConvShape c;
    auto s = S(in.v);
    for (int t = 0;; t++) {
      if (t == 20) return;
      static const int ks[] = {1, 1, 2, 3, 3, 5};
      c = {ks[r.below(6)], ks[r.below(6)], in.ch, Channels(), 1, 1, 1, 1};
      if (r.chance(30)) c.sh = 1 + r.below(3), c.sw = 1 + r.below(3);
      if (r.chance(15)) c.dh = 1 + r.below(2), c.dw = 1 + r.below(3);
      if (f.big && r.chance(60)) {
        // sizes that need wider numbers
        if (r.chance(60)) c.sh = Big();
        if (r.chance(60)) c.sw = Big();
        if (r.chance(40)) c.kh = 1, c.dh = Big();
        if (r.chance(40)) c.kw = 1, c.dw = Big();
      }
      if (in.ch % 64 == 0 && r.chance(50)) c.ci = in.ch / 2;
      int64_t groups = in.ch / c.ci;
      c.co = (c.co + groups - 1) / groups * groups;
      if (s[0] * s[1] * s[2] * c.co * c.kh * c.kw * c.ci <= kMaxMacs) break;
    }
    int pad = r.below(3);  // VALID, SAME with ones, SAME with zeros
    int out = r.below(10);  // 0..6 f32, 7 int8, 8.. packed
    if (pad == 2 && out >= 8) pad = 1;
    Type t = Conv(in.v, c.kh, c.kw, c.sh, c.sw, c.dh, c.dw, pad != 0, out >= 8 ? (c.co + 31) / 32 : c.co, out < 7 ? f32() : out == 7 ? QType() : (Type)b.getI32Type());
    if (!Fits(t)) return;
    std::string act = pad == 2 || r.chance(40) ? "NONE" : Act();
    Value w = OHWI(c.co, c.kh, c.kw, c.ci), mult, bias, thr;
    if (r.chance(15)) {  // already packed
      DenseElementsAttr d = cast<DenseElementsAttr>(w.getDefiningOp<arith::ConstantOp>().getValue());
      int64_t words = (c.ci + 31) / 32;
      std::vector<int32_t> p(c.co * c.kh * c.kw * words);
      int64_t i = 0;
      for (float q : d.getValues<float>()) {
        if (q < 0) p[i / c.ci * words + i % c.ci / 32] |= (int32_t)(1u << (i % c.ci % 32));
        i++;
      }
      w = I32(p, {c.co, c.kh, c.kw, words});
    }
    if (out >= 8) {
      int64_t n = c.kh * c.kw * c.ci;
      std::vector<int32_t> th(c.co);
      for (auto& z : th) z = r.chance(10) ? (r.chance(50) ? INT32_MIN : INT32_MAX) : r.below((int)n + 2) - 1;
      mult = None(), bias = None(), thr = I32(th, {c.co});
    } else {
      bool plain = r.chance(30);
      mult = F({c.co}, [&](int64_t) { return plain ? 1.0f : Num(); });
      bias = F({c.co}, [&](int64_t) { return plain ? 0.0f : Num(); });
      thr = None();
      if (r.chance(12)) {
        // through a fake quantization which represents them exactly
        auto q = [&](Value v) {
          DenseElementsAttr d = cast<DenseElementsAttr>(v.getDefiningOp<arith::ConstantOp>().getValue());
          for (float x : d.getValues<float>())
            if (std::fabs(x) > 15 || std::ldexp(x, 3) != std::floor(std::ldexp(x, 3))) return v;
          Type e = quant::UniformQuantizedType::get(1, b.getI8Type(), b.getF32Type(), 0.125, 0, -128, 127), qt = Ty(S(v), e);
          Value z = Op("tfl.quantize", {v}, qt, {A("qtype", TypeAttr::get(qt))});
          return Op("tfl.dequantize", {z}, v.getType());
        };
        mult = q(mult), bias = q(bias);
      }
    }
    bool ones = pad == 1 || (pad == 0 && r.chance(20));
    Push(Op("lq.Bconv2d", {in.v, w, mult, bias, thr}, t,
            {I("channels_in", in.ch), I("dilation_height_factor", c.dh), I("dilation_width_factor", c.dw), Str("fused_activation_function", act), I("pad_values", ones), Str("padding", pad ? "SAME" : "VALID"),
             I("stride_height", c.sh), I("stride_width", c.sw)}),
         out >= 8 ? c.co : 0);
  }
  void LiteArith() {
    auto* x = Find([&](const Val& v) { return Is(v, 0); });
    if (!x) return;
    Value v = x->v;
    static const char* ops[] = {"tfl.mul", "tfl.add", "tfl.sub", "tfl.div"};
    int n = 1 + r.below(2);
    for (int i = 0; i < n; i++) {
      int k = r.below(4);
      Value c;
      bool swap = false;
      auto* y = r.chance(10) ? Find([&](const Val& w) { return w.v.getType() == v.getType(); }) : nullptr;
      if (y && k < 3) c = y->v;
      else c = Operand(v, k == 3), swap = k != 3 && r.chance(15);
      v = Op(ops[k], swap ? ArrayRef<Value>{c, v} : ArrayRef<Value>{v, c}, v.getType(), {Str("fused_activation_function", r.chance(80) ? "NONE" : Act())});
    }
    Push(v);
  }
  void LiteAct() {
    auto* x = Find([&](const Val& v) { return Is(v, 0); });
    if (!x) return;
    static const char* a[] = {"tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1", "tfl.neg"};
    Push(Op(a[r.below(4)], {x->v}, x->v.getType()));
  }
  void LitePool() {
    auto* x = Find([&](const Val& v) { return (Is(v, 0) || Is(v, 2)) && S(v.v).size() == 4; });
    if (!x) return;
    Value v = x->v;
    int64_t kh = 1 + r.below(3), kw = 1 + r.below(3), sh = 1 + r.below(3), sw = 1 + r.below(3);
    bool same = r.chance(50);
    Type t = Conv(v, kh, kw, sh, sw, 1, 1, same, S(v)[3], T(v).getElementType());
    if (!Fits(t)) return;
    Push(Op("tfl.max_pool_2d", {v}, t,
            {Str("padding", same ? "SAME" : "VALID"), I("stride_w", sw), I("stride_h", sh), I("filter_width", kw), I("filter_height", kh),
             Str("fused_activation_function", Is({v}, 0) && r.chance(25) ? Act() : "NONE")}));
    if (r.chance(50)) LiteQuantize();
  }
  void LiteBpool() {
    auto* x = Find([&](const Val& v) { return Is(v, 1) && S(v.v).size() == 4; });
    if (!x) return LitePool();
    Val v = *x;
    int64_t kh = 1 + r.below(3), kw = 1 + r.below(3), sh = 1 + r.below(3), sw = 1 + r.below(3);
    bool same = r.chance(50);
    if (f.big && r.chance(60)) {
      if (r.chance(60)) sh = Big();
      if (r.chance(60)) sw = Big();
      if (r.chance(40)) kh = 1 + r.below(300), same = true;
      if (r.chance(40)) kw = 1 + r.below(300), same = true;
    }
    Type t = Conv(v.v, kh, kw, sh, sw, 1, 1, same, S(v.v)[3], b.getI32Type());
    if (!Fits(t)) return;
    Push(Op("lq.BMaxPool2d", {v.v}, t, {Str("padding", same ? "SAME" : "VALID"), I("stride_width", sw), I("stride_height", sh), I("filter_width", kw), I("filter_height", kh)}), v.ch);
  }
  void LiteCompare() {
    auto* x = Find([&](const Val& v) { return Is(v, 0) && !S(v.v).empty(); });
    if (!x) return;
    Value v = x->v, t;
    auto* y = r.chance(20) ? Find([&](const Val& w) { return w.v.getType() == v.getType() && w.v != v; }) : nullptr;
    Shape out = S(v);
    if (y) t = y->v;
    else if (r.chance(50)) t = Splat(ConstShape(v), 0);
    else t = F(ConstShape(v), [&](int64_t) { return Num(); });
    if (!y && r.chance(10)) {  // the constant is the larger one
      Shape s = out;
      if (s.size() == 4 && s[0] == 1 && Fits(Ty({2, s[1], s[2], s[3]}, f32()))) {
        s[0] = 2;
        t = r.chance(50) ? Splat(s, 0) : F(s, [&](int64_t) { return Num(); });
        out = s;
      }
    }
    static const char* c[] = {"tfl.greater_equal", "tfl.greater_equal", "tfl.less_equal", "tfl.less_equal", "tfl.greater", "tfl.less"};
    int k = r.below(6);
    bool swap = r.chance(k == 2 || k == 3 ? 60 : 15);
    Value z = Op(c[k], swap ? ArrayRef<Value>{t, v} : ArrayRef<Value>{v, t}, Ty(out, b.getI1Type()));
    if (r.chance(10)) z = Op("tfl.logical_not", {z}, z.getType());
    if (r.chance(25)) Push(z);
    if (r.chance(85)) Push(Quant(z), out.back());
  }
  void LitePadConv() {
    auto* x = Float4();
    ConvShape c;
    if (!x || !Draw(x->v, c, false)) return;
    Value v = x->v;
    bool dep = r.chance(40);
    int64_t mult = 1 + r.below(2);
    auto p = Paddings(v, c);
    auto s = S(v);
    for (int d = 0; d < 4; d++) s[d] += p[2 * d] + p[2 * d + 1];
    if (dep) c.ci = s[3], c.co = s[3] * mult;
    else if (s[3] % c.ci || c.co % (s[3] / c.ci)) return;
    Type pt = Ty(s, f32());
    if (!Fits(pt) || s[1] * s[2] * c.co * c.kh * c.kw * (dep ? 1 : c.ci) > kMaxMacs * 2) return;
    Value pads = I32(p, {4, 2}), y;
    int k = r.below(4);
    if (k < 2) y = Op("tfl.pad", {v, pads}, pt);
    else y = Op("tfl.padv2", {v, pads, Splat(r.chance(70) ? Shape{} : Shape{1}, k == 2 ? 0.0f : Num())}, pt);
    if (r.chance(10)) Push(y);
    bool same = r.chance(10);
    Type t = Conv(y, c.kh, c.kw, c.sh, c.sw, c.dh, c.dw, same, c.co, f32());
    if (!Fits(t)) return;
    Value w = dep ? F({1, c.kh, c.kw, c.co}, [&](int64_t) { return Num(); }) : F({c.co, c.kh, c.kw, c.ci}, [&](int64_t) { return Num(); });
    Value bias = r.chance(50) ? None() : F({c.co}, [&](int64_t) { return Num(); });
    std::vector<NamedAttribute> a = {I("dilation_h_factor", c.dh), I("dilation_w_factor", c.dw), Str("fused_activation_function", Act()), Str("padding", same ? "SAME" : "VALID"), I("stride_h", c.sh), I("stride_w", c.sw)};
    if (dep) a.push_back(I("depth_multiplier", mult));
    Push(Op(dep ? "tfl.depthwise_conv_2d" : "tfl.conv_2d", {y, w, bias}, t, a));
  }
  void LiteRequant() {
    auto* x = Find([&](const Val& v) { return (Is(v, 0) || Is(v, 2)) && !S(v.v).empty(); });
    if (!x) return;
    Value v = x->v;
    if (Is({v}, 2)) {
      Push(Op("tfl.dequantize", {v}, Ty(S(v), f32())));
      if (r.chance(60)) LiteQuantize();
    } else {
      Type t = Ty(S(v), QType());
      Push(Op("tfl.quantize", {v}, t, {A("qtype", TypeAttr::get(t))}));
    }
  }
  void LiteDetection() {
    auto* x = Find([&](const Val& v) { return Is(v, 2); });
    if (!x) return LiteRequant();
    Value in[3];
    for (auto& i : in) {
      auto* y = Find([&](const Val& v) { return Is(v, 2); });
      i = y->v;
      if (r.chance(90)) i = Op("tfl.dequantize", {i}, Ty(S(i), f32()));
      else i = Op("tfl.dequantize", {x->v}, Ty(S(x->v), f32()));
    }
    if (r.chance(10)) {
      auto* y = Find([&](const Val& v) { return Is(v, 0); });
      if (y) in[r.below(3)] = y->v;
    }
    int64_t n = 1 + r.below(4);
    Type i32 = b.getI32Type();
    int odd = r.below(12);
    Type t[4] = {Ty({1, n, 4}, odd == 0 ? f32() : i32), Ty({1, n}, odd == 1 ? f32() : i32), Ty({1, n}, f32()), Ty({1}, odd == 2 ? f32() : i32)};
    if (odd == 3) in[0] = in[1];
    auto bytes = TFL::ConstBytesAttr::get(b.getContext(), StringRef("\x01\x02\x00\x7f", 4));
    OperationState s(l, "tfl.custom", ValueRange(ArrayRef<Value>(in, 3)), TypeRange(ArrayRef<Type>(t, 4)), {Str("custom_code", odd == 4 ? "Other" : "TFLite_Detection_PostProcess"), A("custom_option", bytes)});
    if (odd == 4) return;
    Operation* o = b.create(s);
    for (int i = 0; i < 4; i++) Push(o->getResult(i));
    if (r.chance(30)) LiteRequant();
  }
  void LiteConstQ() {  // quantization of constants
    auto* like = Find([&](const Val& v) { return Is(v, 0) && S(v.v).size() == 4; });
    Shape s = like && r.chance(50) ? S(like->v) : Shape{1 + r.below(2), 1 + r.below(3), 1 + r.below(3), Channels()};
    if (!like && r.chance(0)) s = {4};
    while (s.size() > 1 && r.chance(12)) s.erase(s.begin());
    bool bits = r.chance(20);
    Value v = bits ? (Value)b.create<arith::ConstantOp>(l, cast<TypedAttr>(DenseElementsAttr::get(Ty(s, b.getI1Type()), r.chance(50)))) : F(s, [&](int64_t) { return Num(); });
    Value q = Quant(v);
    if (r.chance(40)) Push(Op("lq.Dequantize", {q}, Ty(s, r.chance(60) ? f32() : r.chance(60) ? QType() : (Type)b.getI1Type())));
    else Push(q, s.back());
  }
  void LiteQWeights() {
    auto* x = Float4();
    if (!x) return;
    LiteBconv();
    LiteRequant();
  }

  void Block(uint64_t seed) {
    r = Rng{seed};
    std::string n = f.level == kTf ? Pick(kTfBlocks, seed) : Pick(kLiteBlocks, seed);
    r.next();
    if (f.level == kTf) {
      if (n == "binarize") Binarize();
      else if (n == "conv") TfConvBlock();
      else if (n == "scale") TfScale();
      else if (n == "relu") TfRelu();
      else if (n == "pool") TfPool();
      else if (n == "identity") TfIdentity();
      else if (n == "add") TfAdd();
      else if (n == "padconv") TfPadConv();
      else if (n == "where") Condition();
      else if (n == "legacy") Legacy();
      else Layer();
    } else {
      if (n == "quantize") LiteQuantize();
      else if (n == "bconv") LiteBconv();
      else if (n == "arith") LiteArith();
      else if (n == "act") LiteAct();
      else if (n == "pool") LitePool();
      else if (n == "compare") LiteCompare();
      else if (n == "padconv") LitePadConv();
      else if (n == "requant") LiteRequant();
      else if (n == "dequantize") LiteDequantize();
      else if (n == "bpool") LiteBpool();
      else if (n == "detection") LiteDetection();
      else if (n == "constq") LiteConstQ();
      else LiteQWeights();
    }
  }
  // Every accumulator value of a binary convolution, through an activation, a
  // multiplier and a bias, to its sign: the filters of all channels are equal up
  // to their sign, and the positions of the input differ from them in 0, 1, ...
  void Sweep() {
    static const int ks[] = {1, 1, 1, 2, 3};
    int64_t kh = ks[r.below(5)], kw = ks[r.below(5)], ci = Channels(), groups = ci % 32 == 0 && r.chance(30) ? 2 : 1;
    while (kh * kw * ci > 640) kh = kw = 1;
    bool ones = kh * kw > 1 && r.chance(25);
    int64_t n = kh * kw * ci, positions = n + 1, co = (12 + r.below(9)) * groups;
    if (r.chance(20)) co = (30 + r.below(6)) * groups;
    // the positions lie side by side and do not overlap
    int64_t H = kh, W = kw * positions, C = ci * groups;
    std::vector<char> base(n);
    for (auto& x : base) x = r.chance(50);
    std::vector<float> in(H * W * C);
    std::vector<int> order(n);
    for (int64_t i = 0; i < n; i++) order[i] = i;
    for (int64_t g = 0; g < groups; g++)
      for (int64_t p = 0; p < positions; p++) {
        for (int64_t i = n - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
        std::vector<char> v = base;
        for (int64_t k = 0; k < p; k++) v[order[k]] ^= 1;
        for (int64_t y = 0; y < kh; y++)
          for (int64_t x = 0; x < kw; x++)
            for (int64_t i = 0; i < ci; i++) in[(y * W + p * kw + x) * C + g * ci + i] = v[(y * kw + x) * ci + i] ? -1 : 1;
      }
    Value src = b.create<arith::ConstantOp>(l, cast<TypedAttr>(DenseElementsAttr::get(Ty({1, H, W, C}, f32()), ArrayRef<float>(in))));
    // the data go through an argument so that nothing is folded
    Value arg = vals[0].v;
    (void)src;
    src.getDefiningOp()->erase();
    sweep = in;
    Value q = Quant(arg);
    std::vector<char> sign(co);
    for (auto& s : sign) s = r.chance(50);
    Value w = F({co, kh, kw, ci}, [&](int64_t i) { return (base[i % n] ^ sign[i / n]) ? -1.0f : 1.0f; });
    std::string act = Act();
    // multipliers and biases whose zero lies on or near a reachable value
    std::vector<float> m(co), bi(co);
    for (int64_t c = 0; c < co; c++) {
      float mult = f.exact ? std::ldexp((float)(1 + r.below(8)), r.below(6) - 3) : (1 + r.below(100000)) * std::pow(10.0f, r.below(9) - 9);
      if (r.chance(5)) mult = 0;
      if (r.chance(45)) mult = -mult;
      float at;  // the accumulator at which the output is zero
      int k = r.below(8);
      if (k < 3) at = r.below(2 * (int)n + 3) - (int)n - 1;
      else if (k == 3) at = r.below(2 * (int)n + 3) - (int)n - 0.5f;
      else if (k == 4) at = (r.chance(50) ? 1 : -1) * (n + 1 + r.below(1000));
      else if (k == 5) at = r.below(15) - 7;
      else if (k == 6) at = r.below(7) * (r.chance(50) ? 1 : -1);
      else at = 0;
      if (!f.exact && r.chance(40)) at += (r.below(2001) - 1000) * 1e-3f;
      m[c] = mult;
      bi[c] = -mult * at;
      if (mult == 0) bi[c] = r.below(3) - 1;
      if (r.chance(4)) bi[c] = Num();
    }
    Value mult = F({co}, [&](int64_t c) { return m[c]; }), bias = F({co}, [&](int64_t c) { return bi[c]; });
    int64_t oh = ones ? H : 1, ow = ones ? convsim::OutSize(W, kw, kw, 1, true) : positions;
    Type t = Ty({1, oh, ow, co}, f32());
    Value y = Op("lq.Bconv2d", {q, w, mult, bias, None()}, t,
                 {I("channels_in", C), I("dilation_height_factor", 1), I("dilation_width_factor", 1), Str("fused_activation_function", act), I("pad_values", ones), Str("padding", ones ? "SAME" : "VALID"), I("stride_height", 1),
                  I("stride_width", kw)});
    vals.clear();
    if (r.chance(20)) {  // as the pooling fusion leaves it
      Push(Quant(y), co);
    } else {
      Push(Quant(y), co);
    }
    if (r.chance(15)) Push(y);
  }
  std::vector<float> sweep;
};

Type InputType(G& g) {
  Rng& r = g.r;
  int64_t n = g.f.dynamic ? ShapedType::kDynamic : r.chance(80) ? 1 : 2;
  static const int hw[] = {1, 2, 3, 4, 4, 5, 6, 7, 8};
  Shape s = {n, hw[r.below(9)], hw[r.below(9)], g.Channels()};
  Type e = g.f32();
  if (r.chance(8)) e = g.b.getI1Type();
  else if (g.f.level == kLite && r.chance(15)) e = g.QType();
  return g.Ty(s, e);
}

// the shape of the sweep's input, drawn the same way as in Sweep()
Shape SweepShape(G& g) {
  Rng keep = g.r;
  static const int ks[] = {1, 1, 1, 2, 3};
  Rng& r = g.r;
  int64_t kh = ks[r.below(5)], kw = ks[r.below(5)], ci = g.Channels(), groups = ci % 32 == 0 && r.chance(30) ? 2 : 1;
  while (kh * kw * ci > 640) kh = kw = 1;
  g.r = keep;
  return {1, kh, kw * (kh * kw * ci + 1), ci * groups};
}
}  // namespace

std::string Name(const Func& f, uint64_t block) { return f.level == kSweep ? "sweep" : f.level == kTf ? Pick(kTfBlocks, block) : Pick(kLiteBlocks, block); }

void Build(ModuleOp m, const std::vector<Func>& funcs) {
  MLIRContext* c = m.getContext();
  int k = 0;
  for (auto& f : funcs) {
    G g(c, f);
    g.r = Rng{f.seed};
    std::vector<Type> in;
    if (f.level == kSweep) {
      g.r = Rng{f.blocks.empty() ? f.seed : f.blocks[0]};
      in = {g.Ty(SweepShape(g), g.f32())};
    } else {
      int n = 1 + g.r.below(2);
      in.push_back(InputType(g));
      if (!in.empty() && n > 1) in.push_back(g.r.chance(60) ? in[0] : InputType(g));
      if (f.level == kTf) in[0] = RankedTensorType::get(cast<RankedTensorType>(in[0]).getShape(), g.f32());
    }
    Rng outr{f.seed ^ 0x1234567};
    std::string name = "f" + std::to_string(k++);
    auto fn = func::FuncOp::create(g.l, name, FunctionType::get(c, in, {}));
    m.push_back(fn);
    if (f.fail) fn->setAttr("test.fail", UnitAttr::get(c));
    if (f.decl) {
      fn.setPrivate();
      continue;
    }
    Block* b = fn.addEntryBlock();
    g.b.setInsertionPointToEnd(b);
    for (auto a : b->getArguments()) g.vals.push_back({a});
    if (f.level == kSweep) {
      if (!f.blocks.empty()) g.Sweep();
    } else {
      for (uint64_t s : f.blocks) g.Block(s);
    }
    std::vector<Value> out = {g.vals.back().v};
    if (f.level == kSweep) {
      out.clear();
      for (auto& v : g.vals) out.push_back(v.v);
    } else {
      int extra = outr.below(3);
      for (int i = 0; i < extra; i++) out.push_back(g.vals[outr.below(g.vals.size())].v);
    }
    if (f.dynamic)  // models come with an identity before every output
      for (auto& v : out)
        if (isa<BlockArgument>(v)) v = g.b.create<TF::IdentityOp>(g.l, v.getType(), v);
    g.b.create<func::ReturnOp>(g.l, out);
    fn.setFunctionType(FunctionType::get(c, in, TypeRange(ValueRange(out))));
  }
}

std::vector<ev::Tensor> Inputs(func::FuncOp fn, const Func& f, uint64_t seed) {
  std::vector<ev::Tensor> r;
  Rng rng{seed};
  for (Type t : fn.getArgumentTypes()) {
    auto rt = cast<RankedTensorType>(t);
    std::vector<int64_t> s;
    for (auto d : rt.getShape()) s.push_back(d < 0 ? 1 : d);
    bool ok = true;
    ev::Tensor x = ev::FromType(RankedTensorType::get(s, rt.getElementType()), ok);
    x.v.resize(x.size());
    x.e.assign(x.size(), 0);
    for (auto& v : x.v) {
      if (x.kind == ev::BOOL) v = rng.below(2);
      else if (x.kind == ev::QUANT) v = rng.below(256) - 128;
      else if (f.exact) v = std::ldexp((double)(rng.below(17) - 8), -rng.below(3));
      else v = (float)((rng.below(200001) - 100000) * 1e-5 * std::pow(10.0, rng.below(3) - 1));
    }
    r.push_back(x);
  }
  if (f.level == kSweep && !f.blocks.empty()) {
    // the data the sweep was made for
    MLIRContext* c = fn.getContext();
    G g(c, f);
    g.r = Rng{f.blocks[0]};
    auto tmp = ModuleOp::create(UnknownLoc::get(c));
    auto fn2 = func::FuncOp::create(g.l, "x", FunctionType::get(c, fn.getArgumentTypes(), {}));
    tmp.push_back(fn2);
    Block* b = fn2.addEntryBlock();
    g.b.setInsertionPointToEnd(b);
    g.vals.push_back({b->getArgument(0)});
    g.Sweep();
    for (size_t i = 0; i < r[0].v.size() && i < g.sweep.size(); i++) r[0].v[i] = g.sweep[i];
    tmp.erase();
  }
  return r;
}
}  // namespace gen
