// What surrounds the converter's entry points: Python's objects and lock, and
// TensorFlow's importer, exporter and statuses. Every step asks the simulation
// whether it fails.
#ifndef CONVSIM_ENTRY_H_
#define CONVSIM_ENTRY_H_
#include <any>
#include <array>
#include <cstring>
#include <iostream>
#include <sstream>
#include <tuple>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "llvm/ADT/PointerUnion.h"
#include "llvm/Support/raw_ostream.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"

// ---- Python
namespace convsim {
void NeedGil(const char* what);
void TakeGil();
void DropGil();
}  // namespace convsim
namespace convsim {
// what a Python object holds, as another type
template <typename T>
struct To {
  static bool From(const std::any& v, T* out) {
    if (auto* t = std::any_cast<T>(&v)) return *out = *t, true;
    return false;
  }
};
template <typename A, typename B>
struct To<std::pair<A, B>> {
  static bool From(const std::any& v, std::pair<A, B>* out) {
    auto* t = std::any_cast<std::pair<double, double>>(&v);
    if (t) *out = {(A)t->first, (B)t->second};
    return t;
  }
};
template <typename A, typename B>
struct To<std::tuple<A, B>> {
  static bool From(const std::any& v, std::tuple<A, B>* out) {
    auto* t = std::any_cast<std::pair<double, double>>(&v);
    if (t) *out = std::tuple<A, B>((A)t->first, (B)t->second);
    return t;
  }
};
template <typename A>
struct To<std::array<A, 2>> {
  static bool From(const std::any& v, std::array<A, 2>* out) {
    auto* t = std::any_cast<std::pair<double, double>>(&v);
    if (t) *out = {(A)t->first, (A)t->second};
    return t;
  }
};
template <typename A>
struct To<std::vector<A>> {
  static bool From(const std::any& v, std::vector<A>* out) {
    if (auto* t = std::any_cast<std::vector<A>>(&v)) return *out = *t, true;
    if constexpr (std::is_arithmetic_v<A>) {
      if (auto* t = std::any_cast<std::pair<double, double>>(&v)) return *out = {(A)t->first, (A)t->second}, true;
    }
    return false;
  }
};
template <typename A>
struct To<std::optional<A>> {
  static bool From(const std::any& v, std::optional<A>* out) {
    A a;
    if (!v.has_value()) return out->reset(), true;
    if (!To<A>::From(v, &a)) return false;
    return *out = a, true;
  }
};
}  // namespace convsim
namespace pybind11 {
struct error_already_set : std::runtime_error {
  using runtime_error::runtime_error;
};
struct cast_error : std::runtime_error {
  using runtime_error::runtime_error;
};
struct value_error : std::runtime_error {
  using runtime_error::runtime_error;
};
struct type_error : std::runtime_error {
  using runtime_error::runtime_error;
};
class object {
 public:
  object() = default;
  explicit object(std::any v) : v_(std::move(v)) {}
  bool is_none() const {
    convsim::NeedGil("a Python object is looked at");
    return !v_.has_value();
  }
  bool is(const object& o) const {
    convsim::NeedGil("a Python object is looked at");
    return v_.has_value() == o.v_.has_value() && (!v_.has_value() || this == &o);
  }
  explicit operator bool() const { return true; }
  template <typename T>
  T cast() const {
    convsim::NeedGil("a Python object is converted");
    T t{};
    if (convsim::To<T>::From(v_, &t)) return t;
    throw cast_error("Unable to cast Python instance");
  }
  const std::any& value() const { return v_; }

 protected:
  std::any v_;
};
using handle = object;
template <typename T>
T cast(const object& o) { return o.cast<T>(); }
class bytes : public object {
 public:
  bytes() : bytes(std::string()) {}
  bytes(const std::string& s) : object(std::any(s)) { convsim::NeedGil("a Python object is made"); }
  bytes(const char* s) : bytes(std::string(s)) {}
  bytes(const char* p, size_t n) : bytes(std::string(p, n)) {}
  template <typename T, std::enable_if_t<std::is_same_v<T, std::string_view>, int> = 0>
  explicit bytes(T s) : bytes(std::string(s)) {}
  operator std::string() const { return *std::any_cast<std::string>(&v_); }
  template <typename T, std::enable_if_t<std::is_same_v<T, std::string_view>, int> = 0>
  operator T() const { return *std::any_cast<std::string>(&v_); }
};
struct none : object {};
inline size_t len(const bytes& b) { return std::string(b).size(); }
struct gil_scoped_release {
  gil_scoped_release() { convsim::DropGil(); }
  ~gil_scoped_release() { convsim::TakeGil(); }
};
struct gil_scoped_acquire {
  gil_scoped_acquire() { convsim::TakeGil(); }
  ~gil_scoped_acquire() { convsim::DropGil(); }
};
template <typename...>
struct call_guard {};
struct arg {
  explicit arg(const char*) {}
  template <typename T>
  arg& operator=(T&&) { return *this; }
};
class module_ {
 public:
  using Call = std::function<bytes(const std::vector<std::any>&)>;
  std::map<std::string, Call> functions;
  template <typename F, typename... Extra>
  module_& def(const char* name, F f, const Extra&...) {
    Wrap(name, std::function{f}, (std::is_same_v<Extra, call_guard<gil_scoped_release>> || ... || false));
    return *this;
  }
  std::string& doc() { return doc_; }

 private:
  template <typename T>
  static T Arg(const std::any& a) {
    if (auto* t = std::any_cast<T>(&a)) return *t;
    T v{};
    if (auto* o = std::any_cast<object>(&a)) {
      if (convsim::To<T>::From(o->value(), &v)) return v;
      throw cast_error("incompatible function arguments");  // pybind11 raises TypeError
    }
    if constexpr (std::is_same_v<T, std::string>) {
      if (auto* b = std::any_cast<bytes>(&a)) return *b;
    }
    if constexpr (std::is_integral_v<T>) {
      if (auto* i = std::any_cast<int>(&a)) return *i;
    }
    if constexpr (std::is_same_v<T, std::unordered_set<std::string>> || std::is_same_v<T, std::set<std::string>>) {
      if (auto* l = std::any_cast<std::vector<std::string>>(&a)) return T(l->begin(), l->end());
    }
    throw std::bad_any_cast();
  }
  template <typename... A>
  void Wrap(const char* name, std::function<bytes(A...)> f, bool release) {
    functions[name] = [f, release](const std::vector<std::any>& a) { return Apply(f, a, release, std::index_sequence_for<A...>()); };
  }
  template <typename... A, size_t... I>
  static bytes Apply(const std::function<bytes(A...)>& f, const std::vector<std::any>& a, bool release, std::index_sequence<I...>) {
    std::tuple<std::decay_t<A>...> t{Arg<std::decay_t<A>>(a.at(I))...};
    std::unique_ptr<gil_scoped_release> r;
    if (release) r = std::make_unique<gil_scoped_release>();
    return f(std::get<I>(t)...);
  }
  std::string doc_;
};
}  // namespace pybind11
namespace py_export {
extern void (*init)(pybind11::module_&);
}
#define PYBIND11_MODULE(name, m)                     \
  static void init_##name(pybind11::module_&);       \
  namespace {                                        \
  struct Init##name {                                \
    Init##name() { py_export::init = init_##name; }  \
  } the_init_##name;                                 \
  }                                                  \
  static void init_##name(pybind11::module_& m)

// ---- TensorFlow
namespace tsl {
using Status = absl::Status;
template <typename T>
using StatusOr = absl::StatusOr<T>;
inline absl::Status OkStatus() { return absl::OkStatus(); }
}  // namespace tsl
namespace tensorflow {
using std::string;
using Status = absl::Status;
template <typename T>
using StatusOr = absl::StatusOr<T>;
inline Status OkStatus() { return absl::OkStatus(); }
namespace errors {
#define CONVSIM_ERROR(N)                 \
  template <typename... A>               \
  absl::Status N(const A&... a) {        \
    return absl::N##Error(absl::StrCat(a...)); \
  }
CONVSIM_ERROR(InvalidArgument)
CONVSIM_ERROR(Internal)
CONVSIM_ERROR(Unimplemented)
CONVSIM_ERROR(NotFound)
CONVSIM_ERROR(FailedPrecondition)
CONVSIM_ERROR(Unknown)
CONVSIM_ERROR(Aborted)
CONVSIM_ERROR(OutOfRange)
CONVSIM_ERROR(AlreadyExists)
CONVSIM_ERROR(Unavailable)
#undef CONVSIM_ERROR
}  // namespace errors
}  // namespace tensorflow
#define CONVSIM_JOIN2(a, b) a##b
#define CONVSIM_JOIN(a, b) CONVSIM_JOIN2(a, b)
#define TF_RETURN_IF_ERROR(e)          \
  do {                                 \
    absl::Status s_ = (e);             \
    if (!s_.ok()) return s_;           \
  } while (0)
#define CONVSIM_ASSIGN(v, lhs, e) \
  auto v = (e);                   \
  if (!v.ok()) return v.status(); \
  lhs = std::move(v).value()
#define TF_ASSIGN_OR_RETURN(lhs, e) CONVSIM_ASSIGN(CONVSIM_JOIN(v_, __LINE__), lhs, e)
namespace tensorflow {
class Session {
 public:
  uint64_t alive = 0x5e5510;
  ~Session() { alive = 0; }
};
class SavedModelBundle {
 public:
  std::unique_ptr<Session> session;
  Session* GetSession() const { return session.get(); }
};
class GraphDef {
 public:
  std::string bytes;
};
class GraphDebugInfo {};
struct GraphImportConfig {
  struct Input {
    std::string name, type;
    std::optional<std::vector<int>> shape;
  };
  using InputArrays = std::vector<Input>;
  std::string graph_func_name;
  InputArrays inputs;
  std::vector<std::string> outputs, control_outputs;
  bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false, restrict_functionalization_to_compiled_nodes = false, enable_shape_inference = true;
};
absl::Status LoadProtoFromBuffer(absl::string_view input, GraphDef* proto);
absl::Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& types, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::InputArrays* inputs);
absl::Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& graph, const GraphDebugInfo& debug_info, const GraphImportConfig& specs, mlir::MLIRContext* context);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> opdefs, absl::Span<std::string> names,
                                                                   const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext* context, std::unique_ptr<SavedModelBundle>* bundle);
namespace converter {
struct DebugOptions {
  std::string ir_dump_dir;
};
}  // namespace converter
inline void InitPassManager(mlir::PassManager&, const converter::DebugOptions&) {}
using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>;
class OpOrArgNameMapper {
 public:
  llvm::StringRef GetUniqueName(OpOrVal op_or_val);
  virtual ~OpOrArgNameMapper() = default;

 protected:
  virtual std::string GetName(OpOrVal op_or_val) = 0;

 private:
  std::map<const void*, std::string> names_;
  std::map<std::string, int> used_;
};
class OpOrArgLocNameMapper : public OpOrArgNameMapper {
 protected:
  std::string GetName(OpOrVal op_or_val) override;
};
}  // namespace tensorflow
namespace toco {
class TocoFlags {
 public:
  bool allow_custom_ops() const { return custom_; }
  bool force_select_tf_ops() const { return select_; }
  bool enable_select_tf_ops() const { return enable_select_; }
  void set_allow_custom_ops(bool v) { custom_ = v; }
  void set_force_select_tf_ops(bool v) { select_ = v; }
  void set_enable_select_tf_ops(bool v) { enable_select_ = v; }

 private:
  bool custom_ = false, select_ = false, enable_select_ = false;
};
}  // namespace toco
namespace tensorflow {
namespace internal {
absl::Status RegisterAllCustomOps(const toco::TocoFlags& flags);
}
}  // namespace tensorflow
namespace tflite {
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  std::map<std::string, std::string> metadata;
  tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& options, std::string* serialized_flatbuffer, bool serialize_stablehlo_ops = false);
namespace metrics {
struct ConverterErrorData {
  enum ErrorCode { UNKNOWN, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 };
};
}  // namespace metrics
}  // namespace tflite
namespace mlir {
class BaseScopedDiagnosticHandler : public ScopedDiagnosticHandler {
 public:
  explicit BaseScopedDiagnosticHandler(MLIRContext* context, bool propagate = false, bool filter_stack = false) : ScopedDiagnosticHandler(context), propagate_(propagate) {
    setHandler([this](Diagnostic& d) {
      if (d.getSeverity() == DiagnosticSeverity::Error) errors_ += d.str() + "\n";
      return failure(propagate_);
    });
  }
  bool ok() const { return errors_.empty(); }
  absl::Status ConsumeStatus() {
    if (errors_.empty()) return absl::OkStatus();
    absl::Status s = absl::UnknownError(errors_);
    errors_.clear();
    return s;
  }
  absl::Status Combine(absl::Status status) {
    if (status.ok()) return ConsumeStatus();
    if (errors_.empty()) return status;
    absl::Status s(status.code(), absl::StrCat(status.message(), "\n", errors_));
    errors_.clear();
    return s;
  }

 private:
  bool propagate_;
  std::string errors_;
};
using StatusScopedDiagnosticHandler = BaseScopedDiagnosticHandler;
namespace TFL {
class ErrorCollectorInstrumentation : public PassInstrumentation {
 public:
  explicit ErrorCollectorInstrumentation(MLIRContext*) {}
};
inline void AttachErrorCode(InFlightDiagnostic&& diag, int) { (void)LogicalResult(diag); }
}  // namespace TFL
namespace odml {
inline std::vector<std::string> GetAcceptedTFLiteDialects() { return {"tfl", "func", "arith"}; }
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string>);
}  // namespace odml
namespace tf_saved_model {
LogicalResult FreezeVariables(ModuleOp module, tensorflow::Session* session);
}
namespace tf_executor {
#define CONVSIM_EXECUTOR_OP(C, N)                                                     \
  class C : public Op<C, OpTrait::VariadicOperands, OpTrait::VariadicResults> {       \
   public:                                                                            \
    using Op::Op;                                                                     \
    static ::llvm::StringRef getOperationName() { return "tf_executor." N; }          \
    static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }     \
  };
CONVSIM_EXECUTOR_OP(SwitchOp, "Switch")
CONVSIM_EXECUTOR_OP(MergeOp, "Merge")
CONVSIM_EXECUTOR_OP(EnterOp, "Enter")
CONVSIM_EXECUTOR_OP(ExitOp, "Exit")
CONVSIM_EXECUTOR_OP(NextIterationSinkOp, "NextIteration.Sink")
CONVSIM_EXECUTOR_OP(NextIterationSourceOp, "NextIteration.Source")
#undef CONVSIM_EXECUTOR_OP
class TensorFlowExecutorDialect : public Dialect {
 public:
  explicit TensorFlowExecutorDialect(MLIRContext* c) : Dialect("tf_executor", c, TypeID::get<TensorFlowExecutorDialect>()) { addOperations<SwitchOp, MergeOp, EnterOp, ExitOp, NextIterationSinkOp, NextIterationSourceOp>(); }
  static ::llvm::StringRef getDialectNamespace() { return "tf_executor"; }
};
}  // namespace tf_executor
}  // namespace mlir
#endif
