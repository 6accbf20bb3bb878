// The stand-ins for TensorFlow's and TensorFlow Lite's dialects: constants,
// shape rules and the folding the real dialects do.
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
#include <cmath>
#include <functional>

using namespace mlir;

namespace convsim {
Type WithElement(Type t, Type element) {
  if (auto r = dyn_cast<RankedTensorType>(t)) return RankedTensorType::get(r.getShape(), element);
  return UnrankedTensorType::get(element);
}
bool Broadcast(ArrayRef<int64_t> a, ArrayRef<int64_t> b, SmallVectorImpl<int64_t>& out) {
  size_t n = std::max(a.size(), b.size());
  out.resize(n);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n];
    if (x != y && x != 1 && y != 1) return false;
    out[i] = x == 1 ? y : x;
  }
  return true;
}
Type BroadcastType(Type a, Type b) {
  auto x = dyn_cast<RankedTensorType>(a), y = dyn_cast<RankedTensorType>(b);
  Type e = getElementTypeOrSelf(a);
  SmallVector<int64_t> s;
  if (!x || !y || !Broadcast(x.getShape(), y.getShape(), s)) return UnrankedTensorType::get(e);
  return RankedTensorType::get(s, e);
}
Type TransposeType(Type t, Value perm) {
  DenseIntElementsAttr p;
  auto r = dyn_cast<RankedTensorType>(t);
  if (!r || !matchPattern(perm, m_Constant(&p)) || p.getNumElements() != r.getRank()) return UnrankedTensorType::get(getElementTypeOrSelf(t));
  SmallVector<int64_t> s;
  for (APInt i : p.getValues<APInt>()) s.push_back(r.getShape()[i.getSExtValue()]);
  return RankedTensorType::get(s, r.getElementType());
}
SmallVector<int64_t> Strides(ArrayRef<int64_t> from, ArrayRef<int64_t> to) {
  SmallVector<int64_t> s(to.size(), 0);
  int64_t k = 1;
  for (int i = (int)from.size() - 1; i >= 0; i--) {
    s[i + to.size() - from.size()] = from[i] == 1 ? 0 : k;
    k *= from[i];
  }
  return s;
}
// element-wise over two constants
OpFoldResult FoldBinary(ArrayRef<Attribute> operands, Type result, std::function<float(float, float)> f, std::function<int64_t(int64_t, int64_t)> g) {
  auto a = dyn_cast_or_null<DenseElementsAttr>(operands[0]), b = dyn_cast_or_null<DenseElementsAttr>(operands[1]);
  if (!a || !b || a.getElementType() != b.getElementType()) return nullptr;
  SmallVector<int64_t> shape;
  if (!Broadcast(a.getType().getShape(), b.getType().getShape(), shape)) return nullptr;
  auto type = RankedTensorType::get(shape, a.getElementType());
  if (result && result != type) {
    auto r = dyn_cast<RankedTensorType>(result);
    if (r && r.hasStaticShape()) return nullptr;
  }
  auto sa = Strides(a.getType().getShape(), shape), sb = Strides(b.getType().getShape(), shape);
  int64_t n = type.getNumElements();
  auto index = [&](int64_t i, ArrayRef<int64_t> s) {
    int64_t k = 0;
    for (int d = (int)shape.size() - 1; d >= 0; d--) {
      k += s[d] * (i % shape[d]);
      i /= shape[d];
    }
    return k;
  };
  if (a.getElementType().isF32()) {
    auto x = a.getValues<float>(), y = b.getValues<float>();
    std::vector<float> out(n);
    for (int64_t i = 0; i < n; i++) out[i] = f(x[index(i, sa)], y[index(i, sb)]);
    return DenseElementsAttr::get(type, ArrayRef<float>(out));
  }
  if (a.getElementType().isInteger(32) && g) {
    auto x = a.getValues<int32_t>(), y = b.getValues<int32_t>();
    std::vector<int32_t> out(n);
    for (int64_t i = 0; i < n; i++) out[i] = (int32_t)g(x[index(i, sa)], y[index(i, sb)]);
    return DenseElementsAttr::get(type, ArrayRef<int32_t>(out));
  }
  return nullptr;
}
static float ActF(StringRef a, float v) {
  if (a == "RELU") return std::max(v, 0.0f);
  if (a == "RELU6") return std::min(std::max(v, 0.0f), 6.0f);
  if (a == "RELU_N1_TO_1") return std::min(std::max(v, -1.0f), 1.0f);
  return v;
}
}  // namespace convsim

namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesAttrStorage : AttributeStorage {
  using KeyTy = StringRef;
  explicit ConstBytesAttrStorage(StringRef v) : value(v) {}
  bool operator==(const KeyTy& k) const { return k == value; }
  static llvm::hash_code hashKey(const KeyTy& k) { return llvm::hash_value(k); }
  static ConstBytesAttrStorage* construct(AttributeStorageAllocator& a, const KeyTy& k) {
    StringRef c = k.empty() ? StringRef() : StringRef(a.copyInto(ArrayRef<char>(k.data(), k.size())).data(), k.size());
    return new (a.allocate<ConstBytesAttrStorage>()) ConstBytesAttrStorage(c);
  }
  StringRef value;
};
}  // namespace detail
ConstBytesAttr ConstBytesAttr::get(MLIRContext* c, StringRef v) { return Base::get(c, v); }
StringRef ConstBytesAttr::getValue() const { return getImpl()->value; }
void TensorFlowLiteDialect::initialize() {
  addAttributes<ConstBytesAttr>();
  addOperations<
#define GET_OP_LIST
#include "tfl_ops.cc.inc"
      >();
}
Attribute TensorFlowLiteDialect::parseAttribute(DialectAsmParser& p, Type) const {
  std::string v, bytes;
  if (p.parseKeyword("const_bytes") || p.parseColon() || p.parseString(&v) || v.compare(0, 2, "0x")) return nullptr;
  for (size_t i = 2; i + 1 < v.size(); i += 2) bytes.push_back((char)std::stoi(v.substr(i, 2), nullptr, 16));
  return ConstBytesAttr::get(p.getContext(), bytes);
}
void TensorFlowLiteDialect::printAttribute(Attribute a, DialectAsmPrinter& p) const {
  p << "const_bytes : \"0x";
  for (unsigned char c : cast<ConstBytesAttr>(a).getValue()) {
    static const char* h = "0123456789abcdef";
    p << h[c >> 4] << h[c & 15];
  }
  p << "\"";
}
Operation* TensorFlowLiteDialect::materializeConstant(OpBuilder& b, Attribute v, Type t, Location l) {
  if (isa<UnitAttr>(v) && isa<NoneType>(t)) return b.create<NoValueOp>(l, cast<UnitAttr>(v));
  if (arith::ConstantOp::isBuildableWith(v, t)) return b.create<arith::ConstantOp>(l, t, cast<TypedAttr>(v));
  return nullptr;
}
OpFoldResult NoValueOp::fold(FoldAdaptor) { return UnitAttr::get(getContext()); }
#define FOLD(OP, F, G)                                                                                             \
  OpFoldResult OP::fold(FoldAdaptor ad) {                                                                          \
    std::string act = getFusedActivationFunction().str();                                                         \
    return convsim::FoldBinary(ad.getOperands(), getType(), [&](float x, float y) { return convsim::ActF(act, F); }, G); \
  }
FOLD(AddOp, x + y, (act == "NONE" ? std::function<int64_t(int64_t, int64_t)>([](int64_t p, int64_t q) { return p + q; }) : nullptr))
FOLD(SubOp, x - y, (act == "NONE" ? std::function<int64_t(int64_t, int64_t)>([](int64_t p, int64_t q) { return p - q; }) : nullptr))
FOLD(MulOp, x * y, (act == "NONE" ? std::function<int64_t(int64_t, int64_t)>([](int64_t p, int64_t q) { return p * q; }) : nullptr))
FOLD(DivOp, x / y, nullptr)
}  // namespace TFL

namespace TF {
void TensorFlowDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "tf_ops.cc.inc"
      >();
}
Operation* TensorFlowDialect::materializeConstant(OpBuilder& b, Attribute v, Type t, Location l) {
  if (auto e = dyn_cast<ElementsAttr>(v)) return b.create<ConstOp>(l, t, e);
  return nullptr;
}
OpFoldResult ConstOp::fold(FoldAdaptor) { return getValueAttr(); }
#define TFOLD(OP, E, G) \
  OpFoldResult OP::fold(FoldAdaptor ad) { return convsim::FoldBinary(ad.getOperands(), getType(), [](float x, float y) { return E; }, G); }
TFOLD(AddV2Op, x + y, [](int64_t x, int64_t y) { return x + y; })
TFOLD(SubOp, x - y, [](int64_t x, int64_t y) { return x - y; })
TFOLD(MulOp, x * y, [](int64_t x, int64_t y) { return x * y; })
TFOLD(DivOp, x / y, nullptr)
OpFoldResult BroadcastToOp::fold(FoldAdaptor ad) {
  auto t = dyn_cast<RankedTensorType>(getInput().getType());
  if (t && t.hasStaticShape() && t == getType()) return getInput();
  return nullptr;
}
OpFoldResult ShapeOp::fold(FoldAdaptor ad) {
  auto t = dyn_cast<RankedTensorType>(getInput().getType());
  auto r = cast<RankedTensorType>(getType());
  if (!t || !t.hasStaticShape()) return nullptr;
  auto type = RankedTensorType::get({t.getRank()}, r.getElementType());
  if (r.getElementType().isInteger(32)) return DenseElementsAttr::get(type, ArrayRef<int32_t>(std::vector<int32_t>(t.getShape().begin(), t.getShape().end())));
  return DenseElementsAttr::get(type, t.getShape());
}
OpFoldResult TransposeOp::fold(FoldAdaptor ad) {
  auto x = dyn_cast_or_null<DenseElementsAttr>(ad.getOperands()[0]);
  auto p = dyn_cast_or_null<DenseIntElementsAttr>(ad.getOperands()[1]);
  if (!x || !p || p.getNumElements() != x.getType().getRank()) return nullptr;
  SmallVector<int64_t> perm, shape;
  for (APInt i : p.getValues<APInt>()) perm.push_back(i.getSExtValue());
  auto s = x.getType().getShape();
  for (auto i : perm) shape.push_back(s[i]);
  auto type = RankedTensorType::get(shape, x.getElementType());
  SmallVector<int64_t> stride(s.size(), 1);
  for (int i = (int)s.size() - 2; i >= 0; i--) stride[i] = stride[i + 1] * s[i + 1];
  std::vector<Attribute> out;
  auto v = x.getValues<Attribute>();
  int64_t n = type.getNumElements();
  for (int64_t i = 0; i < n; i++) {
    int64_t k = 0, r = i;
    for (int d = (int)shape.size() - 1; d >= 0; d--) {
      k += stride[perm[d]] * (r % shape[d]);
      r /= shape[d];
    }
    out.push_back(v[k]);
  }
  return DenseElementsAttr::get(type, out);
}
}  // namespace TF
}  // namespace mlir

#include "tf_dialect.cc.inc"
#include "tfl_dialect.cc.inc"
#define GET_OP_CLASSES
#include "tfl_ops.cc.inc"
#define GET_OP_CLASSES
#include "tf_ops.cc.inc"
