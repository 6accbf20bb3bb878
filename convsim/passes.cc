// The passes of TensorFlow that surround the converter's own: stand-ins that
// do the part of the job the converter relies on, or nothing.
#include "passes.h"

#include <map>

#include "../mlirsim/sched.h"
#include "convsim_passes.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/IR/Matchers.h"
#include "mlir/Transforms/Passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

using namespace mlir;

namespace convsim {
bool fail_now = false;
uint64_t failures = 0, stub_runs = 0;
bool (*on_pass)(const std::string& name, Operation* op) = nullptr;
void (*on_prepare_quantize)(const quant::QuantizationSpecs&) = nullptr;
void (*on_default_ranges)(double, double, bool) = nullptr;
void (*on_assets)(const std::string&) = nullptr;

int64_t OutSize(int64_t in, int64_t k, int64_t s, int64_t d, bool same) {
  if (in < 0) return in;
  int64_t ek = (k - 1) * d + 1;
  if (same) return (in + s - 1) / s;
  return in < ek ? 0 : (in - ek) / s + 1;
}
namespace {
int64_t I(Attribute a, int k) { return cast<IntegerAttr>(cast<ArrayAttr>(a)[k]).getInt(); }

// the types of TensorFlow operators after one of their inputs changed
Type Infer(Operation* op) {
  auto in = [&](int k) { return dyn_cast<RankedTensorType>(op->getOperand(k).getType()); };
  if (!op->getNumOperands() || op->getNumResults() != 1) return nullptr;
  auto x = in(0);
  if (!x) return nullptr;
  Type old = op->getResult(0).getType(), e = getElementTypeOrSelf(old);
  StringRef n = op->getName().getStringRef();
  if (isa<TF::IdentityOp, TF::SnapshotOp, TF::StopGradientOp, TF::PlaceholderWithDefaultOp, TF::SignOp, TF::LogicalNotOp, TF::ReluOp, TF::Relu6Op, TF::NegOp, TF::CheckNumericsOp>(op)) return x;
  if (isa<TF::AddV2Op, TF::SubOp, TF::MulOp, TF::DivOp, TF::GreaterEqualOp, TF::LessEqualOp, TF::GreaterOp, TF::LessOp>(op)) return WithElement(BroadcastType(x, op->getOperand(1).getType()), e);
  if (isa<TF::SelectOp, TF::SelectV2Op>(op)) return WithElement(BroadcastType(BroadcastType(x, op->getOperand(1).getType()), op->getOperand(2).getType()), e);
  if (auto c = dyn_cast<TF::Conv2DOp>(op)) {
    auto f = in(1);
    if (!f || x.getRank() != 4) return nullptr;
    bool same = c.getPadding() == "SAME";
    return RankedTensorType::get({x.getDimSize(0), OutSize(x.getDimSize(1), f.getDimSize(0), I(c.getStrides(), 1), I(c.getDilations(), 1), same),
                                  OutSize(x.getDimSize(2), f.getDimSize(1), I(c.getStrides(), 2), I(c.getDilations(), 2), same), f.getDimSize(3)}, e);
  }
  if (auto c = dyn_cast<TF::MaxPoolOp>(op)) {
    bool same = c.getPadding() == "SAME";
    return RankedTensorType::get({x.getDimSize(0), OutSize(x.getDimSize(1), I(c.getKsize(), 1), I(c.getStrides(), 1), 1, same), OutSize(x.getDimSize(2), I(c.getKsize(), 2), I(c.getStrides(), 2), 1, same), x.getDimSize(3)}, e);
  }
  if (isa<TF::PadOp, TF::PadV2Op>(op)) {
    DenseIntElementsAttr p;
    if (!matchPattern(op->getOperand(1), m_Constant(&p))) return nullptr;
    SmallVector<int64_t> s, v;
    for (APInt i : p.getValues<APInt>()) v.push_back(i.getSExtValue());
    for (int i = 0; i < x.getRank(); i++) s.push_back(x.isDynamicDim(i) ? x.getDimSize(i) : x.getDimSize(i) + v[2 * i] + v[2 * i + 1]);
    return RankedTensorType::get(s, e);
  }
  return nullptr;
}

struct Stub : PassWrapper<Stub, OperationPass<func::FuncOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Stub)
  std::string name;
  explicit Stub(std::string n) : name(std::move(n)) {}
  Stub(const Stub& o) : PassWrapper(o), name(o.name) {}
  StringRef getArgument() const final { return "test-stub"; }
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, arith::ArithDialect>(); }
  void runOnOperation() override {
    sched::Point();
    __atomic_fetch_add(&stub_runs, 1, __ATOMIC_RELAXED);
    if (on_pass && on_pass(name, getOperation())) {
      __atomic_fetch_add(&failures, 1, __ATOMIC_RELAXED);
      return signalPassFailure();
    }
    if (name == "legalize-tf") Legalize(getOperation());
    else if (name == "optimize") Fuse(getOperation());
    else if (name == "fail") {
      if (fail_now && getOperation()->hasAttr("test.fail")) {
        __atomic_fetch_add(&failures, 1, __ATOMIC_RELAXED);
        signalPassFailure();
      }
    } else {
      markAllAnalysesPreserved();
    }
  }
  static void Legalize(func::FuncOp f) {
    if (f.isExternal()) return;
    SmallVector<Operation*> ops;
    f.walk([&](Operation* op) { ops.push_back(op); });
    for (Operation* op : ops) {
      OpBuilder b(op);
      Location l = op->getLoc();
      StringAttr none = b.getStringAttr("NONE");
      auto constant = [&](Attribute a) -> Value { return b.create<arith::ConstantOp>(l, cast<TypedAttr>(a)); };
      auto replace = [&](Operation* n) {
        op->replaceAllUsesWith(n);
        op->erase();
      };
      // with the types of the original
      auto make = [&](StringRef name, ValueRange operands, ArrayRef<NamedAttribute> attrs = {}) {
        OperationState s(l, name, operands, op->getResultTypes(), attrs);
        replace(b.create(s));
      };
      auto named = [&](const char* k, Attribute a) { return b.getNamedAttr(k, a); };
      auto i32 = [&](int64_t v) { return b.getI32IntegerAttr((int32_t)v); };
      StringRef n = op->getName().getStringRef();
      if (!n.starts_with("tf.")) continue;
      if (auto c = dyn_cast<TF::ConstOp>(op)) {
        if (auto d = dyn_cast<DenseElementsAttr>(c.getValue())) replace(constant(d).getDefiningOp());
      } else if (isa<TF::IdentityOp, TF::SnapshotOp, TF::StopGradientOp, TF::PlaceholderWithDefaultOp, TF::IdentityNOp, TF::CheckNumericsOp>(op)) {
        op->replaceAllUsesWith(op->getOperands());
        op->erase();
      } else if (isa<TF::AddV2Op, TF::SubOp, TF::MulOp, TF::DivOp>(op)) {
        make(n == "tf.AddV2" ? "tfl.add" : n == "tf.Sub" ? "tfl.sub" : n == "tf.Mul" ? "tfl.mul" : "tfl.div", op->getOperands(), {named("fused_activation_function", none)});
      } else if (isa<TF::GreaterEqualOp, TF::LessEqualOp, TF::GreaterOp, TF::LessOp>(op)) {
        make(n == "tf.GreaterEqual" ? "tfl.greater_equal" : n == "tf.LessEqual" ? "tfl.less_equal" : n == "tf.Greater" ? "tfl.greater" : "tfl.less", op->getOperands());
      } else if (isa<TF::LogicalNotOp, TF::NegOp, TF::ReluOp, TF::Relu6Op>(op)) {
        make(n == "tf.LogicalNot" ? "tfl.logical_not" : n == "tf.Neg" ? "tfl.neg" : n == "tf.Relu" ? "tfl.relu" : "tfl.relu6", op->getOperands());
      } else if (isa<TF::SelectOp, TF::SelectV2Op>(op)) {
        make("tfl.select_v2", op->getOperands());
      } else if (isa<TF::SignOp>(op)) {
        Value x = op->getOperand(0), zero = constant(DenseElementsAttr::get(RankedTensorType::get({}, b.getF32Type()), 0.0f)), one = constant(DenseElementsAttr::get(RankedTensorType::get({}, b.getF32Type()), 1.0f)),
              minus = constant(DenseElementsAttr::get(RankedTensorType::get({}, b.getF32Type()), -1.0f));
        Type t = op->getResult(0).getType();
        Value neg = b.create<TFL::SelectV2Op>(l, t, b.create<TFL::LessOp>(l, x, zero), minus, zero);
        make("tfl.select_v2", {b.create<TFL::GreaterOp>(l, x, zero), one, neg});
      } else if (isa<TF::BroadcastToOp>(op)) {
        make("tfl.broadcast_to", op->getOperands());
      } else if (isa<TF::ShapeOp>(op)) {
        auto t = cast<RankedTensorType>(op->getOperand(0).getType());
        auto r = cast<RankedTensorType>(op->getResult(0).getType());
        if (!t.hasStaticShape()) continue;
        if (r.getElementType().isInteger(64)) replace(constant(DenseElementsAttr::get(r, t.getShape())).getDefiningOp());
        else replace(constant(DenseElementsAttr::get(r, ArrayRef<int32_t>(std::vector<int32_t>(t.getShape().begin(), t.getShape().end())))).getDefiningOp());
      } else if (isa<TF::TransposeOp>(op)) {
        make("tfl.transpose", op->getOperands());
      } else if (isa<TF::ReshapeOp>(op)) {
        make("tfl.reshape", op->getOperands());
      } else if (auto c = dyn_cast<TF::Conv2DOp>(op)) {
        DenseElementsAttr w;
        if (!matchPattern(op->getOperand(1), m_Constant(&w))) continue;
        auto s = w.getType().getShape();
        std::vector<float> v(w.getNumElements()), old(w.getNumElements());
        size_t k = 0;
        for (float x : w.getValues<float>()) old[k++] = x;
        for (int64_t y = 0; y < s[0]; y++)
          for (int64_t x = 0; x < s[1]; x++)
            for (int64_t i = 0; i < s[2]; i++)
              for (int64_t o = 0; o < s[3]; o++) v[((o * s[0] + y) * s[1] + x) * s[2] + i] = old[((y * s[1] + x) * s[2] + i) * s[3] + o];
        Value f = constant(DenseElementsAttr::get(RankedTensorType::get({s[3], s[0], s[1], s[2]}, b.getF32Type()), ArrayRef<float>(v)));
        Value bias = s[3] % 2 ? constant(DenseElementsAttr::get(RankedTensorType::get({s[3]}, b.getF32Type()), 0.0f)) : b.create<TFL::NoValueOp>(l, b.getUnitAttr()).getResult();
        make("tfl.conv_2d", {op->getOperand(0), f, bias},
             {named("dilation_h_factor", i32(I(c.getDilations(), 1))), named("dilation_w_factor", i32(I(c.getDilations(), 2))), named("fused_activation_function", none), named("padding", c.getPaddingAttr()),
              named("stride_h", i32(I(c.getStrides(), 1))), named("stride_w", i32(I(c.getStrides(), 2)))});
      } else if (auto c = dyn_cast<TF::MaxPoolOp>(op)) {
        make("tfl.max_pool_2d", op->getOperands(),
             {named("padding", c.getPaddingAttr()), named("stride_w", i32(I(c.getStrides(), 2))), named("stride_h", i32(I(c.getStrides(), 1))), named("filter_width", i32(I(c.getKsize(), 2))),
              named("filter_height", i32(I(c.getKsize(), 1))), named("fused_activation_function", none)});
      } else if (isa<TF::PadOp>(op)) {
        make("tfl.pad", op->getOperands());
      } else if (isa<TF::PadV2Op>(op)) {
        make("tfl.padv2", op->getOperands());
      }
    }
  }
  static void Fuse(func::FuncOp f) {
    if (f.isExternal()) return;
    SmallVector<Operation*> ops;
    f.walk([&](Operation* op) {
      if (isa<TFL::ReluOp, TFL::Relu6Op, TFL::Relu1Op>(op)) ops.push_back(op);
    });
    for (Operation* op : ops) {
      Operation* d = op->getOperand(0).getDefiningOp();
      if (!d || !isa<TFL::AddOp, TFL::SubOp, TFL::MulOp, TFL::DivOp, TFL::Conv2DOp, TFL::DepthwiseConv2DOp, TFL::MaxPool2DOp>(d) || !d->hasOneUse()) continue;
      auto a = d->getAttrOfType<StringAttr>("fused_activation_function");
      if (!a || a.getValue() != "NONE") continue;
      d->setAttr("fused_activation_function", StringAttr::get(op->getContext(), isa<TFL::ReluOp>(op) ? "RELU" : isa<TFL::Relu6Op>(op) ? "RELU6" : "RELU_N1_TO_1"));
      op->replaceAllUsesWith(d);
      op->erase();
    }
  }
};

struct ModStub : PassWrapper<ModStub, OperationPass<ModuleOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(ModStub)
  std::string name;
  explicit ModStub(std::string n) : name(std::move(n)) {}
  ModStub(const ModStub& o) : PassWrapper(o), name(o.name) {}
  StringRef getArgument() const final { return "test-module-stub"; }
  void runOnOperation() override {
    sched::Point();
    __atomic_fetch_add(&stub_runs, 1, __ATOMIC_RELAXED);
    if (on_pass && on_pass(name, getOperation())) {
      __atomic_fetch_add(&failures, 1, __ATOMIC_RELAXED);
      return signalPassFailure();
    }
    if (name != "shape-inference") return markAllAnalysesPreserved();
    for (auto f : getOperation().getOps<func::FuncOp>()) {
      if (f.isExternal()) continue;
      for (Operation& op : f.front()) {
        if (auto r = dyn_cast<func::ReturnOp>(op)) {
          f.setFunctionType(FunctionType::get(f.getContext(), f.front().getArgumentTypes(), r.getOperandTypes()));
          continue;
        }
        if (isa<TF::IdentityNOp>(op)) {
          for (unsigned i = 0; i < op.getNumOperands(); i++) op.getResult(i).setType(op.getOperand(i).getType());
          continue;
        }
        if (Type t = Infer(&op)) op.getResult(0).setType(t);
      }
    }
  }
};
}  // namespace

std::unique_ptr<OperationPass<func::FuncOp>> FuncStub(const char* name) { return std::make_unique<Stub>(name); }
std::unique_ptr<OperationPass<ModuleOp>> ModuleStub(const char* name) { return std::make_unique<ModStub>(name); }
}  // namespace convsim

namespace mlir {
namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) {
  pm.addNestedPass<func::FuncOp>(createCanonicalizerPass());
  pm.addPass(CreateTFShapeInferencePass());
}
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions&) { pm.addPass(convsim::FuncStub("layout")); }
}  // namespace TF
}  // namespace mlir
