#include "entry.h"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <set>

#include "../mlirsim/sched.h"
#include "convsim_entry.h"
#include "convsim_passes.h"
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "larq_compute_engine/mlir/tf_tfl_passes.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/Verifier.h"
#include "passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

void (*py_export::init)(pybind11::module_&) = nullptr;

// the number of processors MLIR sees
static int cpus = 0;
extern "C" int sched_getaffinity(pid_t pid, size_t size, cpu_set_t* set) {
  using F = int (*)(pid_t, size_t, cpu_set_t*);
  static F real = (F)dlsym(RTLD_NEXT, "sched_getaffinity");
  if (!cpus) return real(pid, size, set);
  memset(set, 0, size);
  for (int i = 0; i < cpus; i++) CPU_SET(i, set);
  return 0;
}

namespace entry {
const char* const names[kCounts] = {"conversions", "models_returned", "errors_raised", "saved_model_conversions", "conversions_compared_with_reference", "python_threads", "waits_for_python_lock", "conversion_blocks", "warnings_emitted",
                                    "fault_without_message", "fault_with_message", "fault_invalid_ir", "fault_caller_error", "fault_step_status", "fault_entry_function", "fault_control_flow_v1", "fault_pass_fails_in_conversion", "fault_freezing_fails",
                                    "fault_export_fails", "fault_module_invalid_at_end", "faults_not_reached"};
uint64_t counts[kCounts];
uint64_t out;
void (*fail)(const std::string&) = nullptr;
bool verbose = false;

namespace {
using gen::Rng;
using namespace mlir;
enum Step { kNone, kTarget, kNoNames, kUneven, kRange, kLoad, kParseIn, kParseOut, kRegister, kImport, kNoEntry, kTwoEntries, kNoInputs, kSwitch, kPre, kFreeze, kPost, kExport, kInvalid };
enum Manner { kQuiet, kLoud, kBroken };
const char* const kPreOnly[] = {"device-index", "to-regions", "decompose-resource", "to-functional"};
const char* const kPostOnly[] = {"composite", "tensor-list", "optimize-globals", "legalize-while", "freeze-globals", "reduce-while", "prepare-tf", "legalize-tf", "analyze-variables", "legalize-variables", "hash-tables", "optimize", "functional-ops", "split-merged", "call-once", "unfold-splat", "while-outline", "runtime-verify"};

struct Conversion {
  // what is asked for
  std::string who;
  bool saved = false, quantize = false;
  std::string bytes, target = "arm", dir;
  std::vector<std::string> names, types, outputs, tags, exported;
  std::vector<std::vector<int>> shapes;
  int version = 1;
  std::optional<std::pair<double, double>> range;
  bool bad_range = false;
  // the world it meets
  std::vector<gen::Func> funcs;
  int session = 0, inputs = 1, flow = 0, entry_at = 0;
  bool warns = false, reference = false;
  Step step = kNone;
  Manner manner = kQuiet;
  std::string at;
  int which = -1;
  absl::StatusCode code = absl::StatusCode::kInternal;
  std::string message;
  uint64_t names_seed = 0;
  // what happened
  bool fired = false, imported = false, pre = false, post = false, exported_ok = false;
  int freezes = 0, prepares = 0, assets = 0;
  tensorflow::Session* open = nullptr;
  std::vector<std::pair<double, double>> ranges;
  std::string text, written, got, error;
  bool model = false;
};
std::vector<std::vector<Conversion>> plan;
thread_local Conversion* cur = nullptr;
std::map<MLIRContext*, Conversion*> by_context;
pybind11::module_* module_object = nullptr;
bool registered = false;

void Bad(Conversion* c, const std::string& m) { fail(c->who + ": " + m); }
Conversion* Of(MLIRContext* context) {
  auto i = by_context.find(context);
  return i == by_context.end() ? nullptr : i->second;
}
bool Fires(Conversion* c, Step s) {
  if (!c || c->step != s) return false;
  c->fired = true;
  return true;
}
absl::Status Broken(Conversion* c) { return absl::Status(c->code, c->message); }
std::string Show(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : ",") + x;
  return "[" + s.substr(0, 200) + "]";
}
std::string Print(Operation* op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  OpPrintingFlags f;
  f.printGenericOpForm();
  op->print(os, f);
  return os.str();
}
std::string LocName(Location loc) {
  if (auto n = dyn_cast<NameLoc>(loc)) return n.getName().str();
  if (auto f = dyn_cast<FusedLoc>(loc)) {
    std::string s;
    for (Location l : f.getLocations()) {
      std::string x = LocName(l);
      if (!x.empty()) s += (s.empty() ? "" : ";") + x;
    }
    return s;
  }
  return "";
}

OwningOpRef<ModuleOp> Make(MLIRContext* context, Conversion* c) {
  context->loadDialect<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect, TFL::TensorFlowLiteDialect, lq::LarqDialect, tf_executor::TensorFlowExecutorDialect>();
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(context));
  gen::Build(*m, c->funcs);
  Rng r{c->names_seed};
  m->walk([&](Operation* op) {
    if (isa<ModuleOp, func::FuncOp>(op) || r.chance(30)) return;
    std::string s;
    for (int n = r.chance(50) ? r.below(30) : r.below(130); n >= 0; n--) s += (char)('a' + r.below(26));
    op->setLoc(NameLoc::get(StringAttr::get(context, s)));
  });
  int at = 0;
  for (auto f : m->getOps<func::FuncOp>()) {
    bool entry = at == c->entry_at % (int)c->funcs.size();
    if (c->step == kTwoEntries && at == (c->entry_at + 1) % (int)c->funcs.size()) entry = true;
    if (c->step == kNoEntry) entry = false;
    at++;
    if (!entry) continue;
    Builder b(context);
    std::string in;
    for (int i = 0; i < c->inputs; i++) in += (i ? ",in" : "in") + std::to_string(i);
    SmallVector<NamedAttribute> a;
    if (c->step != kNoInputs) a.push_back(b.getNamedAttr("inputs", b.getStringAttr(in)));
    a.push_back(b.getNamedAttr("outputs", b.getStringAttr("out0")));
    f->setAttr("tf.entry_function", b.getDictionaryAttr(a));
  }
  if (c->step == kSwitch) {
    static const char* const ops[] = {"Switch", "Merge", "Enter", "Exit", "NextIteration.Sink", "NextIteration.Source"};
    SmallVector<func::FuncOp> fs;
    for (auto f : m->getOps<func::FuncOp>())
      if (!f.isExternal()) fs.push_back(f);
    auto f = fs[c->flow / 6 % fs.size()];
    auto& block = f.front();
    auto it = block.begin();
    std::advance(it, c->flow / 36 % block.getOperations().size());
    OpBuilder b(&block, it);
    // in the body of another operator
    for (int n = c->flow / 1000 % 3; n > 0; n--) {
      OperationState s(b.getUnknownLoc(), "tf_executor.island");
      s.addRegion();
      auto* inner = b.create(s);
      b.setInsertionPointToStart(&inner->getRegion(0).emplaceBlock());
    }
    b.create(OperationState(b.getUnknownLoc(), std::string("tf_executor.") + ops[c->flow % 6]));
  }
  return m;
}

// one of TensorFlow's passes runs
bool OnPass(const std::string& name, Operation* op) {
  Conversion* c = Of(op->getContext());
  if (!c) return false;
  for (auto n : kPreOnly) c->pre |= name == n;
  for (auto n : kPostOnly) c->post |= name == n;
  if (c->warns && name == c->at) {
    counts[kWarnings]++;
    op->emitWarning("simulated warning");
  }
  if ((c->step != kPre && c->step != kPost) || name != c->at) return false;
  if (auto f = dyn_cast<func::FuncOp>(op)) {
    if (c->which >= 0 && f.getName() != "f" + std::to_string(c->which % c->funcs.size())) return false;
  }
  if (c->manner == kBroken) {
    if (auto f = dyn_cast<func::FuncOp>(op)) {
      if (f.isExternal()) return false;
      SmallVector<Type> in(f.getArgumentTypes());
      in.push_back(Float32Type::get(op->getContext()));
      f.setFunctionType(FunctionType::get(op->getContext(), in, f.getResultTypes()));
    } else {
      op->setAttr("broken", UnitAttr::get(op->getContext()));
    }
    c->fired = true;
    return false;
  }
  c->fired = true;
  if (c->manner == kLoud) op->emitError("simulated failure");
  return true;
}
void OnSpecs(const quant::QuantizationSpecs& s) {
  Conversion* c = cur;
  if (!c) return;
  c->prepares++;
  if (!c->quantize) Bad(c, "a model that is not to be quantized is");
  if (s.inference_type != tensorflow::DT_QINT8 || s.inference_input_type != tensorflow::DT_FLOAT) Bad(c, "the model is quantized for other types");
  if ((int)s.input_ranges.size() != c->inputs) Bad(c, "there are " + std::to_string(s.input_ranges.size()) + " input ranges for " + std::to_string(c->inputs) + " inputs");
  for (auto& r : s.input_ranges)
    if (r.first || r.second) Bad(c, "an input has a range nobody gave");
  bool given = s.default_ranges.first.has_value() || s.default_ranges.second.has_value();
  if (given != c->range.has_value()) Bad(c, given ? "default ranges are used that nobody gave" : "the default ranges are not used");
  if (given && (s.default_ranges.first != c->range->first || s.default_ranges.second != c->range->second)) Bad(c, "other default ranges are used");
  if (c->saved && given && !s.post_training_quantization) Bad(c, "a saved model with default ranges is not marked as quantized after training");
  if (!c->saved && s.post_training_quantization) Bad(c, "a graph is marked as quantized after training");
}
void OnRanges(double low, double high, bool is_signed) {
  if (!cur) return;
  if (!is_signed) Bad(cur, "the default ranges are for unsigned numbers");
  cur->ranges.push_back({low, high});
}
void OnAssets(const std::string& dir) {
  if (!cur) return;
  cur->assets++;
  if (dir != cur->dir) Bad(cur, "the assets of another folder are used");
}

// Python's lock
pthread_mutex_t gil = PTHREAD_MUTEX_INITIALIZER;
int holder = -1;

template <typename T>
std::any Any(const T& v) { return std::any(v); }

void One(Conversion* c) {
  cur = c;
  counts[kConversions]++;
  if (c->saved) counts[kSavedModels]++;
  if (verbose) dprintf(2, "    %s starts\n", c->who.c_str());
  pybind11::object ranges = c->bad_range ? pybind11::object(std::string("wide")) : c->range ? pybind11::object(*c->range) : pybind11::object();
  std::vector<std::any> a;
  if (c->saved) a = {Any(c->dir), Any(c->tags), Any(c->exported), Any(c->version), Any(c->target), Any(ranges)};
  else a = {Any(pybind11::bytes(c->bytes)), Any(c->names), Any(c->types), Any(c->shapes), Any(c->outputs), Any(c->quantize), Any(c->target), Any(ranges)};
  auto f = module_object->functions.find(c->saved ? "convert_saved_model_to_tflite_flatbuffer" : "convert_graphdef_to_tflite_flatbuffer");
  if (f == module_object->functions.end()) return Bad(c, "the entry point is gone");
  try {
    c->got = f->second(a);
    c->model = true;
  } catch (const std::bad_any_cast&) {
    dprintf(2, "the entry point takes other arguments\n");
    _exit(8);
  } catch (const std::exception& e) {
    c->error = e.what();
  } catch (...) {
    Bad(c, "something is thrown that Python cannot be told about");
  }
  convsim::NeedGil("Python goes on");
  cur = nullptr;
  if (verbose) dprintf(2, "    %s: %s\n", c->who.c_str(), c->model ? "a model" : c->error.c_str());
  bool user = c->step == kTarget || c->step == kNoNames || c->step == kUneven;
  if (c->step == kRange && c->quantize) user = true;
  if (c->model) {
    counts[kModels]++;
    std::string what = " (" + c->at + (c->manner == kQuiet ? ", without a message)" : c->manner == kLoud ? ", with a message)" : ")");
    if (user) Bad(c, "there is a model although what was asked for makes no sense");
    if (c->fired) Bad(c, "there is a model although a step of the conversion failed" + what);
    if (!c->exported_ok) Bad(c, "there is a model although none was written");
    if (c->got != c->written) Bad(c, "the model is not what was written: " + std::to_string(c->got.size()) + " bytes instead of " + std::to_string(c->written.size()));
    if (c->saved && (c->open ? c->freezes != 1 : c->freezes > 1)) Bad(c, "the variables were frozen " + std::to_string(c->freezes) + " times");
    if (c->quantize && (!c->prepares || (c->range.has_value() != !c->ranges.empty()))) Bad(c, "the model was not quantized as asked");
    for (auto& r : c->ranges)
      if (r != *c->range) Bad(c, "the default parameters come from another range");
    if (!c->dir.empty() && !c->assets) Bad(c, "the assets of the saved model are left out");
  } else {
    counts[kErrors]++;
    if (!c->fired && !user) Bad(c, "no step failed, but there is no model: " + c->error);
  }
  switch (c->step) {
    case kTarget: case kNoNames: case kUneven: case kRange: counts[kUserErrors]++; break;
    default:
      if (c->step == kNone) break;
      if (!c->fired) { counts[kNotReached]++; break; }
      counts[c->step == kSwitch ? kControlFlow : c->step == kPre || c->step == kPost ? kPassFails : c->step == kFreeze ? kFreezeFails : c->step == kExport ? kExportFails : c->step == kInvalid ? kInvalidModule
             : c->step == kNoEntry || c->step == kTwoEntries || c->step == kNoInputs ? kMissingEntry : kStatuses]++;
      if (c->step == kPre || c->step == kPost || c->step == kFreeze || c->step == kExport || c->step == kImport) counts[c->manner == kQuiet ? kSilent : c->manner == kLoud ? entry::kSays : entry::kBreaks]++;
  }
  for (unsigned char ch : c->got) out = (out ^ ch) * 0x100000001b3ull;
  out = (out ^ c->error.size()) * 0x100000001b3ull;
}

void* Thread(void* p) {
  convsim::TakeGil();
  for (auto& c : *(std::vector<Conversion>*)p) {
    One(&c);
    convsim::DropGil();  // other threads of Python go on
    sched::Point();
    convsim::TakeGil();
  }
  convsim::DropGil();
  return nullptr;
}
}  // namespace

void Draw(Rng& rng, const std::function<bool(const std::string&)>& event, const std::function<void(const std::string&)>& shape) {
  int threads = rng.chance(60) ? 1 : 2 + rng.below(2);
  static const int n[] = {1, 2, 2, 3, 4, 6};
  cpus = n[rng.below(6)];
  shape(std::to_string(cpus));
  auto word = [&](bool nul = false) {
    std::string s;
    for (int k = 1 + rng.below(12); k > 0; k--) s += nul && rng.chance(30) ? (char)rng.below(256) : (char)('a' + rng.below(26));
    return s;
  };
  auto words = [&](int lo, int hi) {
    std::vector<std::string> v;
    for (int k = lo + rng.below(hi - lo + 1); k > 0; k--) v.push_back(word());
    return v;
  };
  for (int t = 0; t < threads; t++) {
    plan.emplace_back();
    int conversions = 1 + rng.below(threads == 1 ? 4 : 3);
    for (int k = 0; k < conversions; k++) {
      Conversion c;
      c.who = (threads > 1 ? "thread " + std::to_string(t) + " " : "") + "conversion " + std::to_string(k);
      c.saved = rng.chance(50);
      c.inputs = 1 + rng.below(4);
      c.version = 1 + rng.below(2);
      c.target = rng.chance(65) ? "arm" : "xcore";
      c.quantize = c.saved || rng.chance(60);
      static const double lows[] = {-3.0, -6.0, 0.0, -0.5};
      if (rng.chance(50)) c.range = {lows[rng.below(4)], 1.0 + rng.below(6)};
      c.warns = rng.chance(20);
      c.reference = rng.chance(50);
      c.names_seed = rng.next();
      c.session = rng.below(3);
      c.entry_at = rng.below(3);
      if (c.saved) {
        c.dir = word();
        c.tags = words(0, 3);
        c.exported = words(1, 2);
      } else {
        for (int i = 0; i < c.inputs; i++) {
          c.names.push_back(word());
          c.types.push_back(rng.chance(80) ? "DT_FLOAT" : "DT_INT32");
          std::vector<int> s;
          for (int d = rng.below(5); d > 0; d--) s.push_back(1 + rng.below(9));
          c.shapes.push_back(s);
        }
        c.outputs = words(1, 3);
        c.bytes = word(true) + word(true);
      }
      int nf = 1 + rng.below(3);
      std::string what = c.who + (c.saved ? ": a saved model" : ": a graph") + (c.saved && c.session == 2 ? " with a session" : "") + ", " + c.target + (c.quantize ? ", quantized" : "") + (c.range ? ", default ranges" : "");
      bool wanted = event(what);
      for (int i = 0; i < nf; i++) {
        gen::Func f;
        f.seed = rng.next();
        f.level = gen::kTf;
        f.exact = rng.chance(80);
        f.dynamic = rng.chance(60);
        f.runnable = true;
        Rng br{rng.next()};
        int nb = 1 + rng.below(rng.chance(20) ? 6 : 3);
        for (int j = 0; j < nb; j++) {
          uint64_t b = br.next();
          if (event(c.who + " f" + std::to_string(i) + " block " + gen::Name(f, b)) && wanted) {
            f.blocks.push_back(b);
            counts[kBlocks]++;
            shape(gen::Name(f, b));
          }
        }
        c.funcs.push_back(f);
      }
      // what goes wrong
      static const absl::StatusCode codes[] = {absl::StatusCode::kInternal, absl::StatusCode::kInvalidArgument, absl::StatusCode::kNotFound, absl::StatusCode::kUnknown, absl::StatusCode::kUnimplemented, absl::StatusCode::kResourceExhausted};
      c.code = codes[rng.below(6)];
      c.message = rng.chance(70) ? word() : "";
      c.which = rng.chance(50) ? -1 : rng.below(3);
      c.flow = rng.below(9000);
      Manner manner = (Manner)rng.below(3);
      std::string pre = kPreOnly[rng.below(sizeof kPreOnly / sizeof *kPreOnly)], post = kPostOnly[rng.below(sizeof kPostOnly / sizeof *kPostOnly)];
      if (c.quantize && rng.chance(20)) post = rng.chance(50) || !c.range ? "prepare-quantize" : "default-quant";
      if (c.saved && rng.chance(5)) post = "freeze-assets";
      Step step = kNone;
      std::string how;
      if (rng.chance(60)) {
        static const Step graph[] = {kTarget, kUneven, kLoad, kParseIn, kParseOut, kImport, kSwitch, kPre, kPre, kPost, kPost, kPost, kExport, kExport, kInvalid, kRange};
        static const Step saved[] = {kTarget, kNoNames, kRegister, kImport, kNoEntry, kTwoEntries, kNoInputs, kSwitch, kPre, kPre, kFreeze, kFreeze, kPost, kPost, kPost, kExport, kExport, kInvalid, kRange};
        step = c.saved ? saved[rng.below(sizeof saved / sizeof *saved)] : graph[rng.below(sizeof graph / sizeof *graph)];
        if (step == kTwoEntries && nf < 2) step = kNoEntry;
      }
      if (step != kPre && step != kPost && manner == kBroken) manner = kQuiet;
      const char* m = manner == kQuiet ? " without a message" : manner == kLoud ? " with a message" : " by leaving an invalid graph";
      static const char* const targets[] = {"", "ARM", "arm ", "x86", "xcore2", "armxcore"};
      static const char* const text[] = {"", "an unknown target", "no exported names", "arrays of other lengths", "a range that is none", "loading the graph fails", "the input arrays are refused", "the output arrays are refused", "registering the operators fails", "the import fails", "there is no entry function", "there are two entry functions",
                                         "the entry function names no inputs", "the graph has control flow of version 1", "a pass fails", "freezing fails", "a pass fails", "writing fails", "the module becomes invalid when written"};
      c.at = step == kPre ? pre : step == kPost ? post : rng.chance(50) ? pre : post;
      std::string bad = targets[rng.below(6)];
      int uneven = rng.below(3);
      if (step != kNone && event(c.who + " fails: " + text[step] + (step == kPre || step == kPost ? " (" + c.at + ")" : "") + (step == kPre || step == kPost || step == kFreeze || step == kExport || step == kImport ? m : ""))) {
        c.step = step;
        c.manner = manner;
        if (step == kTarget) c.target = bad;
        if (step == kNoNames) c.exported.clear();
        if (step == kUneven) (uneven == 0 ? c.types.pop_back() : uneven == 1 ? c.shapes.pop_back() : c.names.push_back("more"));
        if (step == kRange) c.bad_range = true, c.range.reset();
      }
      shape(std::to_string(c.step) + c.at + std::to_string(c.manner) + std::to_string(c.saved) + std::to_string(c.quantize));
      if (wanted) plan.back().push_back(c);
    }
  }
}

bool Available() { return py_export::init; }
void Run() {
  convsim::on_pass = OnPass;
  convsim::on_prepare_quantize = OnSpecs;
  convsim::on_default_ranges = OnRanges;
  convsim::on_assets = OnAssets;
  out = 1469598103934665603ull;
  convsim::TakeGil();
  module_object = new pybind11::module_;
  py_export::init(*module_object);
  convsim::DropGil();
  counts[kPythonThreads] += plan.size();
  if (plan.size() == 1) {
    Thread(&plan[0]);
    return;
  }
  std::vector<pthread_t> ts(plan.size());
  for (size_t t = 0; t < plan.size(); t++) pthread_create(&ts[t], nullptr, Thread, &plan[t]);
  for (auto t : ts) pthread_join(t, nullptr);
}

void After() {
  cpus = 0;
  for (auto& t : plan)
    for (auto& c : t) {
      if (!c.model || !c.reference) continue;
      counts[kReferences]++;
      MLIRContext context(MLIRContext::Threading::DISABLED);
      auto m = Make(&context, &c);
      quant::QuantizationSpecs q;
      if (c.quantize) q.inference_type = tensorflow::DT_QINT8;
      if (c.quantize && c.range) q.default_ranges = {c.range->first, c.range->second};
      PassManager a(&context), b(&context);
      tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&a);
      tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses(c.dir, q, &b, c.target == "arm" ? ARM : XCORE);
      if (failed(a.run(*m)) || failed(b.run(*m))) Bad(&c, "what became a model cannot be converted otherwise");
      if (Print(*m) != c.text) Bad(&c, "what was written is not the converted graph: " + c.text.substr(0, 300) + " instead of " + Print(*m).substr(0, 300));
    }
}
}  // namespace entry

namespace convsim {
void NeedGil(const char* what) {
  if (entry::holder != sched::Self()) entry::fail(std::string("without Python's lock, ") + what);
}
void TakeGil() {
  if (entry::holder == sched::Self()) entry::fail("Python's lock is taken twice");
  if (entry::holder >= 0) entry::counts[entry::kGilWaits]++;
  pthread_mutex_lock(&entry::gil);
  entry::holder = sched::Self();
}
void DropGil() {
  NeedGil("it is released");
  entry::holder = -1;
  pthread_mutex_unlock(&entry::gil);
}
}  // namespace convsim

namespace tensorflow {
using namespace entry;
absl::Status LoadProtoFromBuffer(absl::string_view input, GraphDef* proto) {
  sched::Point();
  if (std::string(input) != cur->bytes) Bad(cur, "another graph is read");
  if (Fires(cur, kLoad)) return Broken(cur);
  proto->bytes = std::string(input);
  return absl::OkStatus();
}
absl::Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& types, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::InputArrays* inputs) {
  sched::Point();
  if (names != cur->names || types != cur->types) Bad(cur, "other input arrays are used: " + Show(names) + " of " + Show(types));
  if (Fires(cur, kParseIn)) return Broken(cur);
  if (names.size() != types.size() || names.size() != shapes.size()) {
    cur->fired = true;
    return absl::InvalidArgumentError("uneven");
  }
  for (size_t i = 0; i < names.size(); i++) inputs->push_back({names[i], types[i], shapes[i]});
  return absl::OkStatus();
}
absl::Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs) {
  sched::Point();
  if (names != cur->outputs) Bad(cur, "other output arrays are used: " + Show(names));
  if (Fires(cur, kParseOut)) return Broken(cur);
  outputs->insert(outputs->end(), names.begin(), names.end());
  return absl::OkStatus();
}
static absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> Import(mlir::MLIRContext* context) {
  Conversion* c = cur;
  sched::Point();
  if (c->imported) Bad(c, "it is imported twice");
  c->imported = true;
  by_context[context] = c;
  if (Fires(c, kImport)) {
    if (c->manner == kLoud) mlir::emitError(mlir::UnknownLoc::get(context), "simulated failure of the import");
    return Broken(c);
  }
  auto m = Make(context, c);
  if (c->step == kSwitch || (c->saved && (c->step == kNoEntry || c->step == kTwoEntries || c->step == kNoInputs))) c->fired = true;
  if (verbose && getenv("LCE_IR")) dprintf(2, "%s\n", Print(*m).c_str());
  return m;
}
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& graph, const GraphDebugInfo&, const GraphImportConfig& specs, mlir::MLIRContext* context) {
  Conversion* c = cur;
  if (c->saved) Bad(c, "a saved model is read as a graph");
  if (graph.bytes != c->bytes) Bad(c, "another graph is imported");
  if (!specs.prune_unused_nodes) Bad(c, "nodes that the outputs do not need are kept");
  if (!specs.convert_legacy_fed_inputs || !specs.upgrade_legacy) Bad(c, "legacy graphs are not upgraded");
  if (specs.graph_as_function) Bad(c, "the graph is taken for a function");
  if (specs.outputs != c->outputs) Bad(c, "the graph is imported up to " + Show(specs.outputs) + " instead of " + Show(c->outputs));
  if (specs.inputs.size() != c->names.size()) Bad(c, "the graph is imported with another number of inputs");
  for (size_t i = 0; i < specs.inputs.size(); i++) {
    auto& x = specs.inputs[i];
    if (x.name != c->names[i] || x.type != c->types[i]) Bad(c, "the graph is imported with other inputs");
    if (x.shape.has_value() != !c->shapes[i].empty()) Bad(c, x.shape ? "an input that may have any shape is given one" : "the shape of an input is lost");
    if (x.shape && *x.shape != c->shapes[i]) Bad(c, "an input has another shape");
  }
  return Import(context);
}
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> opdefs, absl::Span<std::string> names, const GraphImportConfig& specs, bool lifting,
                                                                   mlir::MLIRContext* context, std::unique_ptr<SavedModelBundle>* bundle) {
  Conversion* c = cur;
  if (!c->saved) Bad(c, "a graph is read as a saved model");
  if (dir != c->dir) Bad(c, "another saved model is read");
  if (version != c->version) Bad(c, "the saved model is read as one of another version");
  if (tags != std::unordered_set<std::string>(c->tags.begin(), c->tags.end())) Bad(c, "the saved model is read with other tags");
  if (std::vector<std::string>(names.begin(), names.end()) != c->exported) Bad(c, "the saved model is read for other exported names");
  if (!opdefs.empty()) Bad(c, "operators are defined that nobody gave");
  if (!specs.upgrade_legacy) Bad(c, "legacy graphs are not upgraded");
  if (!lifting) Bad(c, "the variables are not lifted");
  if (!registered) Bad(c, "the custom operators are not registered before the import");
  auto m = Import(context);
  if (!m.ok()) return m;
  if (!bundle || !*bundle) {
    if (bundle && c->session == 2) *bundle = std::make_unique<SavedModelBundle>();
  }
  if (c->session == 0 && bundle) bundle->reset();
  if (c->session == 2 && bundle) {
    (*bundle)->session = std::make_unique<Session>();
    c->open = (*bundle)->session.get();
  }
  return m;
}
namespace internal {
absl::Status RegisterAllCustomOps(const toco::TocoFlags&) {
  sched::Point();
  if (Fires(cur, kRegister)) return Broken(cur);
  registered = true;
  return absl::OkStatus();
}
}  // namespace internal
std::string OpOrArgLocNameMapper::GetName(OpOrVal x) {
  mlir::Location l = x.is<mlir::Operation*>() ? x.get<mlir::Operation*>()->getLoc() : x.get<mlir::Value>().getLoc();
  std::string s = LocName(l);
  if (!s.empty()) return s;
  return x.is<mlir::Operation*>() ? x.get<mlir::Operation*>()->getName().getStringRef().str() : "";
}
llvm::StringRef OpOrArgNameMapper::GetUniqueName(OpOrVal x) {
  std::string& n = names_[x.getOpaqueValue()];
  if (!n.empty()) return n;
  std::string s = GetName(x);
  int k = used_[s]++;
  n = k ? s + std::to_string(k) : s;
  return n;
}
}  // namespace tensorflow

namespace tflite {
using namespace entry;
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& o, std::string* serialized, bool stablehlo) {
  Conversion* c = Of(module.getContext());
  sched::Point();
  if (!c) fail("something is written that was not imported");
  if (c->fired) {
    // whatever comes of it, there must not be a model
    *serialized = "ruins";
    return true;
  }
  if (c != cur) Bad(c, "another thread's graph is written");
  if (!o.toco_flags.allow_custom_ops()) Bad(c, "the custom operators may not be written");
  if (o.toco_flags.force_select_tf_ops()) Bad(c, "TensorFlow's operators are forced into the model");
  if (stablehlo) Bad(c, "the model is written with other operators");
  if (o.saved_model_tags != std::unordered_set<std::string>(c->tags.begin(), c->tags.end())) Bad(c, "the model is written with other tags");
  if (c->open && !c->freezes) Bad(c, "the model is written before its variables are frozen");
  if (!c->pre || !c->post) Bad(c, "the graph is written before it is converted");
  if (auto* mapper = o.op_or_arg_name_mapper) {
    module.walk([&](mlir::Operation* op) {
      if (mlir::isa<mlir::ModuleOp, mlir::func::FuncOp>(op)) return;
      std::string full = LocName(op->getLoc()), n = mapper->GetUniqueName(op).str();
      if (full.empty()) return;
      if (n.size() > 58) Bad(c, "an operator has a name of " + std::to_string(n.size()) + " characters");
      size_t keep = std::min<size_t>(full.size(), 50);
      if (n.compare(0, keep, full, 0, keep)) Bad(c, "an operator named " + full + " is called " + n);
    });
  } else {
    Bad(c, "the names of the operators are lost");
  }
  c->text = Print(module);
  if (Fires(c, kExport)) {
    if (c->manner == kLoud) module.emitError("simulated failure to write");
    if (c->which >= 0) *serialized = c->text.substr(0, c->text.size() / (c->which + 1));
    return false;
  }
  std::string head("\x1c\0\0\0TFL3", 8);
  *serialized = c->written = head + c->text;
  c->exported_ok = true;
  if (Fires(c, kInvalid)) module->setAttr("broken", mlir::UnitAttr::get(module.getContext()));
  return true;
}
}  // namespace tflite

namespace mlir {
namespace tf_saved_model {
LogicalResult FreezeVariables(ModuleOp module, tensorflow::Session* session) {
  using namespace entry;
  Conversion* c = Of(module.getContext());
  sched::Point();
  if (!c->saved) Bad(c, "the variables of a graph are frozen");
  c->freezes++;
  if (!c->fired && !c->pre) Bad(c, "the variables are frozen before the early passes");
  if (c->post) Bad(c, "the variables are frozen after the late passes");
  if (session != c->open) Bad(c, session ? "the variables are frozen with another session" : "the variables are frozen without their session");
  if (session && session->alive != 0x5e5510) Bad(c, "the variables are frozen with a session that is gone");
  if (Fires(c, kFreeze)) {
    if (c->manner == kLoud) module.emitError("simulated failure to freeze");
    return failure();
  }
  return success();
}
}  // namespace tf_saved_model
namespace odml {
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string>) { return convsim::ModuleStub("op-stats"); }
}  // namespace odml
}  // namespace mlir
