// C20, C21, C22, C26 (and C27, see entry.h): the converter's passes inside the real MLIR pass manager
// under a seeded scheduler; every function is evaluated before and after, and
// what comes out is run by the runtime's real operators.
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "../mlirsim/sched.h"
#include "convsim_passes.h"
#include "entry.h"
#include "eval.h"
#include "gen_model.h"
#include "flatbuffers/flexbuffers.h"
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "larq_compute_engine/mlir/tf_tfl_passes.h"
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "llvm/Support/ThreadPool.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Transforms/Passes.h"
#include "passes.h"
#include "runtime.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

namespace {
constexpr int kMaxDrop = 512;
struct Request {
  uint64_t seed;
  uint64_t max_switches;
  int verbose;
  int profile;
  int num_drop;
  int drop[kMaxDrop];
};
enum Count { kRuns, kFunctions, kBlocks, kPipelineRuns, kPasses, kEvaluations, kDecided, kUndecided, kCustom, kKernels, kRefused, kBconvs, kBitpackedOut, kQuantizedOut, kGrouped, kOnePadded, kFusedAct, kBmaxpools, kRoundtrips, kFailures, kReused, kParallelClients, kThreads, kLocks, kContended, kSpurious, kAccesses, kSwitches, kSteps, kDisabled, kRestarts, kReferences, kDiagnostics, kFolded, kWhole, kEntry, kCounts = kEntry + entry::kCounts };
const char* kNames[] = {"simulated_runs", "functions", "blocks", "pipeline_runs", "passes", "functions_evaluated", "sign_bits_decided", "sign_bits_undecided", "lce_operators_emitted", "kernels_run", "kernels_refused", "binary_convolutions", "bitpacked_outputs", "int8_outputs", "grouped_convolutions", "one_padded_convolutions", "fused_activations", "binary_pools", "roundtrips", "fault_pass_fails", "reused_pipelines", "parallel_clients", "threads_created", "lock_operations", "contended_locks", "fault_spurious_wakeup", "pass_accesses", "task_switches", "simulated_steps", "single_threaded_runs", "contexts_recreated", "reference_runs", "diagnostics", "constants_folded", "whole_pipelines"};
static_assert(sizeof kNames / sizeof *kNames == kEntry);
const char* CountName(int k) { return k < kEntry ? kNames[k] : entry::names[k - kEntry]; }
struct Reply {
  uint64_t hash, schedule, shape, out;
  uint64_t switches;
  uint64_t counts[kCounts];
  int bad;
  char message[1500];
};
Reply* reply;  // shared with the process of the run
bool verbose;
using gen::Rng;
void Add(int k, uint64_t n = 1) { __atomic_fetch_add(&reply->counts[k], n, __ATOMIC_RELAXED); }

uint64_t Hash(uint64_t h, const std::string& s) {
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
  return h ^ (h >> 31);
}

[[noreturn]] void Fail(const std::string& m) {
  if (!reply->bad) {
    snprintf(reply->message, sizeof reply->message, "%s", m.c_str());
    reply->bad = 1;
  }
  _exit(1);
}

std::string Print(mlir::Operation* op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm();
  op->print(os, f);
  return os.str();
}

enum Profile { kC20, kC21, kC22, kC26, kC27 };
struct Pipeline {
  std::vector<std::string> passes;
  bool by_name = false, xcore = false, verify = true;
  int quant = 0;
  std::string text() const {
    std::string s;
    for (auto& p : passes) s += (s.empty() ? "" : " ") + p;
    return s + (xcore ? " (xcore)" : "") + (by_name ? " (by name)" : "");
  }
};
struct Plan {
  int threads = 0;  // 0: multithreading off
  std::vector<Pipeline> pipelines;
  struct Ev {
    int module, pipeline;
    bool rebuild, fail;
  };
  std::vector<Ev> events;
};
struct Function {
  gen::Func spec;
  uint64_t input_seed;
};
struct Module {
  std::vector<Function> funcs;
  mlir::OwningOpRef<mlir::ModuleOp> op;
  struct State {
    std::vector<ev::Tensor> inputs, outputs;
    std::string text;
  };
  std::vector<State> states;
  bool failed = false, whole = false;
};
struct Client {
  Profile profile;
  Plan plan;
  std::vector<Module> modules;
  uint64_t out = 1469598103934665603ull;
  bool reference = false;
  std::vector<Client> later;
};

void Build(mlir::PassManager& pm, const Pipeline& p) {
  using namespace mlir;
  pm.enableVerifier(p.verify);
  LCETarget target = p.xcore ? XCORE : ARM;
  std::string t = p.xcore ? "{target=xcore}" : "{target=arm}";
  for (auto& n : p.passes) {
    if (n == "pre") {
      tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pm);
      continue;
    }
    if (n == "post") {
      quant::QuantizationSpecs q;
      q.propagate = p.quant > 0;
      tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses("", q, &pm, target);
      continue;
    }
    auto& fm = pm.nest<func::FuncOp>();
    struct Known {
      const char* token;
      const char* name;
      std::function<std::unique_ptr<Pass>()> make;
    };
    const Known known[] = {{"op-removal", "lce-op-removal-tf", [] { return TFL::CreateOpRemovalPass(); }},
                           {"prepare", "tfl-prepare-lce", [&] { return TFL::CreatePrepareLCEPass(target); }},
                           {"optimize-lce", "tfl-optimize-lce", [&] { return TFL::CreateOptimizeLCEPass(target); }},
                           {"bitpack", "tfl-lce-bitpack-weights", [] { return TFL::CreateBitpackWeightsLCEPass(); }},
                           {"fuse-padding", "tfl-fuse-padding", [] { return TFL::CreateFusePaddingPass(); }},
                           {"quantize", "lce-quantize", [] { return TFL::CreateLCEQuantizePass(); }},
                           {"detection", "detection-postprocess-int", [] { return TFL::QuantizeDetectionPostProcessPass(); }},
                           {"legalize", "tfl-legalize-lce", [] { return TFL::CreateLegalizeLCEPass(); }},
                           {"translate", "lce-translate-tfl", [] { return TFL::CreateTranslateToLCEPass(); }},
                           {"batch", "mlir-setbatchsize", [] { return CreateSetBatchSizePass(); }},
                           {"canonicalize", nullptr, [] { return createCanonicalizerPass(); }},
                           {"cse", nullptr, [] { return createCSEPass(); }}};
    bool found = false;
    for (auto& k : known) {
      if (n != k.token) continue;
      found = true;
      if (p.by_name && k.name) {
        bool targeted = n == "prepare" || n == "optimize-lce";
        if (failed(parsePassPipeline(std::string(k.name) + (targeted ? t : ""), fm))) Fail("the pass " + std::string(k.name) + " is not registered under its name");
      } else {
        fm.addPass(k.make());
      }
    }
    if (!found) fm.addPass(convsim::FuncStub(n.c_str()));
  }
}

struct Kernels {
  bool must_accept, exact;
  std::string where;
};
void OnCustom(mlir::Operation* op, const std::string& code, const std::string& options, const std::vector<const ev::Tensor*>& in, const ev::Tensor& out, void* arg) {
  auto* k = (Kernels*)arg;
  if (code.rfind("Lce", 0) != 0) return;
  Add(kCustom);
  std::vector<bool> constant;
  for (mlir::Value v : op->getOperands()) constant.push_back(v.getDefiningOp() && v.getDefiningOp()->hasTrait<mlir::OpTrait::ConstantLike>());
  bool zeros = false, even = true;
  if (code == "LceBconv2d") {
    auto m = flexbuffers::GetRoot((const uint8_t*)options.data(), options.size()).AsMap();
    zeros = m["padding"].AsInt32() == 0 && m["pad_values"].AsInt32() == 0;
    even = m["channels_in"].AsInt32() % 2 == 0;
  }
  for (int kind = 0; kind < (code == "LceBconv2d" ? 2 : 1); kind++) {
    rt::Outcome o = rt::Run(code, options, in, constant, out, kind);
    if (!o.known) Fail(k->where + ": the runtime has no operator " + code);
    if (!o.accepted || !o.ran) {
      Add(kRefused);
      // padding with zeros is what only one of the implementations has: the
      // reference for even channels, the others for float outputs (the int8
      // outputs that no default operator takes are in known_findings.txt)
      bool optional = zeros && (kind == 0 ? !even : out.kind == ev::QUANT);
      if (k->must_accept && !optional) Fail(k->where + ": the runtime refuses " + Print(op).substr(0, 500) + ": " + o.log);
      continue;
    }
    Add(kKernels);
    ev::Tensor want = out;
    if (code == "LceBconv2d" && !k->exact && want.kind != ev::INT && in.size() > 3 && in[2]->v.size() == in[3]->v.size() && !in[2]->v.empty()) {
      // the kernels add the number of bits times the multiplier to the bias first
      size_t co = in[2]->v.size();
      double bits = 32;
      for (size_t d = 1; d < in[1]->shape.size(); d++) bits *= in[1]->shape[d];
      for (size_t i = 0; i < want.e.size(); i++) {
        double x = (bits * std::fabs(in[2]->v[i % co]) + std::fabs(in[3]->v[i % co])) * 2.5e-7;
        want.e[i] += want.kind == ev::QUANT ? (x > 0 ? 1 : 0) : x;
      }
    }
    std::string d = ev::Compare(want, o.output);
    if (!d.empty()) Fail(k->where + ": the runtime's operator (implementation " + std::to_string(kind) + ") disagrees about " + Print(op).substr(0, 500) + ": its output " + d);
  }
}

void Look(mlir::func::FuncOp f, bool initial) {
  f.walk([&](mlir::Operation* op) {
    if (auto c = mlir::dyn_cast<mlir::lq::Bconv2dOp>(op)) {
      Add(kBconvs);
      auto t = mlir::cast<mlir::RankedTensorType>(c->getResult(0).getType());
      auto w = mlir::cast<mlir::RankedTensorType>(c->getOperand(1).getType());
      if (t.getElementType().isInteger(32)) Add(kBitpackedOut);
      else if (!t.getElementType().isF32()) Add(kQuantizedOut);
      int64_t fc = w.getShape()[3], ic = c.getChannelsIn();
      if (w.getElementType().isInteger(32) ? fc != (ic + 31) / 32 : fc != ic) Add(kGrouped);
      if (c.getPadValues() && c.getPadding() == "SAME") Add(kOnePadded);
      if (c.getFusedActivationFunction() != "NONE") Add(kFusedAct);
    } else if (mlir::isa<mlir::lq::BMaxPool2dOp>(op)) {
      Add(kBmaxpools);
    }
  });
}

std::vector<std::string> Ops(mlir::func::FuncOp f) {
  std::vector<std::string> r;
  f.walk([&](mlir::Operation* op) {
    if (op->hasTrait<mlir::OpTrait::ConstantLike>() || mlir::isa<mlir::func::FuncOp>(op)) return;
    std::string s = op->getName().getStringRef().str();
    llvm::raw_string_ostream os(s);
    os << " " << op->getAttrDictionary() << " :";
    for (auto t : op->getOperandTypes()) os << " " << t;
    os << " ->";
    for (auto t : op->getResultTypes()) os << " " << t;
    r.push_back(os.str());
  });
  return r;
}

// what a finished model must be
void Legal(mlir::func::FuncOp f, const std::string& where) {
  auto fixed = [&](mlir::Type t) {
    if (mlir::isa<mlir::NoneType>(t)) return true;
    auto r = mlir::dyn_cast<mlir::RankedTensorType>(t);
    return r && r.hasStaticShape();
  };
  for (auto t : f.getArgumentTypes()) {
    auto r = mlir::dyn_cast<mlir::RankedTensorType>(t);
    if (!fixed(t)) Fail(where + ": an input is still of dynamic size");
    (void)r;
  }
  f.walk([&](mlir::Operation* op) {
    llvm::StringRef n = op->getName().getStringRef();
    if (!(n.starts_with("tfl.") || n == "arith.constant" || n.starts_with("func."))) Fail(where + ": the converted model has an operator " + n.str());
    for (auto t : op->getResultTypes())
      if (!fixed(t)) Fail(where + ": " + n.str() + " is still of dynamic size");
    if (n != "tfl.custom") return;
    auto code = op->getAttrOfType<mlir::StringAttr>("custom_code");
    static const std::set<std::string> lce = {"LceQuantize", "LceDequantize", "LceBconv2d", "LceBMaxPool2d", "TFLite_Detection_PostProcess"};
    if (!code || !lce.count(code.getValue().str())) Fail(where + ": a custom operator " + (code ? code.getValue().str() : "") + " that the runtime does not have");
    if (code.getValue() == "LceBconv2d") {
      if (op->getNumOperands() < 2) Fail(where + ": a binary convolution without a filter");
      auto w = mlir::dyn_cast<mlir::RankedTensorType>(op->getOperand(1).getType());
      if (!w || !w.getElementType().isInteger(32) || !op->getOperand(1).getDefiningOp() || !op->getOperand(1).getDefiningOp()->hasTrait<mlir::OpTrait::ConstantLike>())
        Fail(where + ": the filter of a binary convolution is not a bitpacked constant");
    }
  });
}

void CheckFunctions(Client* c, Module& m, const std::string& what, bool finished) {
  using namespace mlir;
  for (size_t k = 0; k < m.states.size(); k++) {
    Module::State& s = m.states[k];
    gen::Func& spec = m.funcs[k].spec;
    std::string where = "function " + std::to_string(k) + " after " + what;
    if (spec.decl) continue;  // nothing uses it: it may be removed
    auto f = m.op->lookupSymbol<func::FuncOp>("f" + std::to_string(k));
    if (!f) Fail(where + " is gone");
    std::string now = Print(f);
    if (now == s.text && !finished) continue;
    s.text = now;
    if (finished) Legal(f, where);
    Kernels ker{finished, spec.exact, where};
    ev::on_custom = OnCustom;
    ev::on_custom_arg = &ker;
    ev::Result r = ev::Run(f, s.inputs, !spec.exact);
    ev::on_custom = nullptr;
    Add(kEvaluations);
    Add(kDecided, r.decided_bits);
    Add(kUndecided, r.undecided_bits);
    if (!r.ok) Fail(where + " does not compute anything: " + r.error);
    if (r.outputs.size() != s.outputs.size()) Fail(where + " has another number of outputs");
    for (size_t i = 0; i < r.outputs.size(); i++) {
      std::string d = ev::Compare(s.outputs[i], r.outputs[i]);
      if (!d.empty()) Fail(where + " computes something else: output " + std::to_string(i) + " " + d);
    }
  }
}

void RunClient(Client* c, int id) {
  using namespace mlir;
  Plan& p = c->plan;
  DialectRegistry registry;
  registry.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect, TFL::TensorFlowLiteDialect, lq::LarqDialect>();
  MLIRContext context(registry, MLIRContext::Threading::DISABLED);
  context.loadAllAvailableDialects();
  std::unique_ptr<llvm::ThreadPool> pool;
  context.getDiagEngine().registerHandler([](Diagnostic& d) {
    Add(kDiagnostics);
    if (verbose) dprintf(2, "    diagnostic: %s\n", d.str().c_str());
    return success();
  });
  for (auto& m : c->modules) {
    m.op = ModuleOp::create(UnknownLoc::get(&context));
    std::vector<gen::Func> specs;
    for (auto& f : m.funcs) specs.push_back(f.spec);
    gen::Build(*m.op, specs);
    if (failed(verify(*m.op))) {
      dprintf(2, "generated a module that is not valid\n");
      _exit(8);
    }
    m.states.clear();
    int k = 0;
    for (auto f : m.op->getOps<func::FuncOp>()) {
      m.states.emplace_back();
      auto& s = m.states.back();
      s.text = Print(f);
      if (verbose) dprintf(2, "%s\n", s.text.substr(0, 20000).c_str());
      gen::Func& spec = m.funcs[k].spec;
      if (!spec.decl) {
        s.inputs = gen::Inputs(f, spec, m.funcs[k].input_seed);
        ev::Result r = ev::Run(f, s.inputs, !spec.exact);
        if (!r.ok) {
          dprintf(2, "generated a function that cannot be evaluated: %s\n%s\n", r.error.c_str(), s.text.c_str());
          _exit(8);
        }
        s.outputs = r.outputs;
      }
      k++;
    }
  }
  if (p.threads) {
    pool = std::make_unique<llvm::ThreadPool>(llvm::hardware_concurrency(p.threads));
    context.setThreadPool(*pool);
  }
  std::vector<std::unique_ptr<PassManager>> pms(p.pipelines.size());
  for (auto& e : p.events) {
    Module& m = c->modules[e.module];
    Pipeline& pl = p.pipelines[e.pipeline];
    auto& pm = pms[e.pipeline];
    if (!pm || e.rebuild) {
      pm = std::make_unique<PassManager>(&context);
      Build(*pm, pl);
    } else {
      Add(kReused);
    }
    convsim::fail_now = e.fail;
    bool can_fail = false, whole = false;
    for (auto& n : pl.passes) can_fail |= n == "fail", whole |= n == "post";
    bool has = false;
    for (auto& f : m.funcs) has |= f.spec.fail;
    bool expect_fail = e.fail && can_fail && has;
    std::vector<std::vector<std::string>> before;
    bool roundtrip = c->profile == kC22 && pl.passes.size() == 2 && pl.passes[0] == "legalize" && pl.passes[1] == "translate";
    if (roundtrip)
      for (auto f : m.op->getOps<func::FuncOp>()) before.push_back(Ops(f));
    bool ok = succeeded(pm->run(*m.op));
    Add(kPipelineRuns);
    Add(kPasses, pl.passes.size());
    if (!p.threads) Add(kDisabled);
    if (verbose) dprintf(2, "    client %d: module %d, %s: %s\n", id, e.module, pl.text().c_str(), ok ? "done" : "failed");
    if (verbose && getenv("LCE_IR")) dprintf(2, "%s\n", Print(*m.op).c_str());
    if (ok == expect_fail) Fail(ok ? "the pipeline succeeded although a pass failed" : "the pipeline " + pl.text() + " failed");
    if (failed(verify(*m.op))) Fail("the module is not valid after " + pl.text());
    if (!ok) m.failed = true;
    if (ok && whole) m.whole = true, Add(kWhole);
    CheckFunctions(c, m, pl.text(), ok && whole);
    if (roundtrip && ok) {
      int k = 0;
      for (auto f : m.op->getOps<func::FuncOp>()) {
        auto now = Ops(f);
        bool written = false;  // already before
        for (auto& o : before[k]) written |= o.find("custom_code = \"Lce") != std::string::npos;
        if (!written && now != before[k]) {
          size_t i = 0;
          while (i < now.size() && i < before[k].size() && now[i] == before[k][i]) i++;
          Fail("function " + std::to_string(k) + ": what was written as an operator of the runtime is read back as " + (i < now.size() ? now[i] : "nothing") + " instead of " + (i < before[k].size() ? before[k][i] : "nothing"));
        }
        k++;
      }
      Add(kRoundtrips);
    }
    for (auto f : m.op->getOps<func::FuncOp>()) Look(f, false);
  }
  for (auto& pm : pms) pm.reset();
  for (auto& m : c->modules) {
    for (auto& s : m.states) {
      if (!m.failed) c->out = Hash(c->out, s.text);
    }
    m.op = nullptr;
  }
}

void RunSessions(Client* c, int id) {
  RunClient(c, id);
  if (c->reference) {
    // the same history, one thread
    Client r;
    r.profile = c->profile;
    r.plan = c->plan;
    r.plan.threads = 0;
    for (auto& m : c->modules) {
      r.modules.emplace_back();
      r.modules.back().funcs = m.funcs;
    }
    RunClient(&r, id);
    Add(kReferences);
    for (size_t i = 0; i < c->modules.size(); i++) {
      if (c->modules[i].failed || r.modules[i].failed) continue;
      for (size_t k = 0; k < c->modules[i].states.size(); k++)
        if (c->modules[i].states[k].text != r.modules[i].states[k].text)
          Fail("function " + std::to_string(k) + " of module " + std::to_string(i) + " became another one than without other threads: " + c->modules[i].states[k].text.substr(0, 600));
    }
  }
  for (auto& l : c->later) {
    Add(kRestarts);
    if (verbose) dprintf(2, "    client %d: a new context\n", id);
    RunClient(&l, id);
    c->out = c->out * 31 + l.out;
  }
}

void* ClientThread(void* p) {
  auto* a = (std::pair<Client*, int>*)p;
  RunSessions(a->first, a->second);
  return nullptr;
}

void OnCrash(int sig) {
  if (verbose) {
    void* at[60];
    backtrace_symbols_fd(at, backtrace(at, 60), 2);
  }
  if (!reply->bad) {
    snprintf(reply->message, sizeof reply->message, "the process crashed with signal %d while a pass ran", sig);
    reply->bad = 1;
  }
  _exit(1);
}

void OnDeadlock(const char* m) { Fail(std::string("the pipeline does not end: ") + m); }


Pipeline DrawPipeline(Rng& r, Profile prof, gen::Level level) {
  Pipeline p;
  p.by_name = r.chance(40);
  p.xcore = r.chance(30);
  p.verify = r.chance(85);
  auto add = [&](const char* n, int percent = 100) {
    if (r.chance(percent)) p.passes.push_back(n);
    if (r.chance(4)) p.passes.push_back(n);
  };
  static const char* all[] = {"op-removal", "prepare", "optimize-lce", "bitpack", "fuse-padding", "quantize", "detection", "legalize", "translate", "canonicalize", "cse", "optimize-lce", "prepare"};
  int kind = r.below(10);
  if (prof == kC22) {
    if (kind < 5) p.passes = {"legalize", "translate"};
    else if (kind < 7) p.passes = {"legalize"};
    else if (kind < 8) p.passes = {"bitpack", "legalize"};
    else p.passes = {"translate"};
    return p;
  }
  if (prof == kC21) {
    add("canonicalize", 20);
    add("optimize-lce");
    add("bitpack", 60);
    add("canonicalize", 20);
    add("optimize-lce", 20);
    add("legalize", 40);
    return p;
  }
  if (level == gen::kTf && kind < 7) {
    // in the order of the converter
    add("op-removal", 90);
    add("canonicalize", 50);
    add("cse", 20);
    add("prepare", 97);
    add("canonicalize", 85);
    add("legalize-tf");
    add("optimize-lce", 95);
    add("optimize", 60);
    add("optimize-lce", 90);
    add("bitpack", 70);
    add("canonicalize", 40);
    add("cse", 30);
    add("fuse-padding", 60);
    add("quantize", 20);
    add("legalize", 40);
    add("translate", 15);
  } else if (kind < 9 && level == gen::kLite) {
    add("canonicalize", 20);
    add("fuse-padding", 40);
    add("quantize", 50);
    add("optimize-lce", 80);
    add("detection", 50);
    add("quantize", 50);
    add("bitpack", 50);
    add("fuse-padding", 30);
    add("legalize", 40);
    add("translate", 20);
  } else {
    int n = 1 + r.below(5);
    for (int i = 0; i < n; i++) p.passes.push_back(all[r.below(sizeof all / sizeof *all)]);
  }
  if (p.passes.empty()) p.passes.push_back("optimize-lce");
  return p;
}

void OneRun(const Request& q) {
  verbose = q.verbose;
  Profile prof = (Profile)q.profile;
  Rng rng{q.seed * 0x9e3779b97f4a7c15ull + 77};
  uint64_t history = 1469598103934665603ull, shape = history;
  int next_event = 0;
  auto event = [&](const std::string& text) {
    int k = next_event++;
    for (int i = 0; i < q.num_drop; i++)
      if (q.drop[i] == k) return false;
    history = Hash(history, std::to_string(k) + text);
    if (verbose) dprintf(2, "[%d] %s\n", k, text.c_str());
    return true;
  };
  int nclients = rng.chance(15) ? 2 : 1;
  if (prof == kC27) {
    nclients = 0;
    entry::fail = [](const std::string& m) { Fail(m); };
    entry::verbose = verbose;
    entry::Draw(rng, event, [&](const std::string& s) { shape = Hash(shape, s); });
  }
  std::vector<Client> clients(nclients);
  auto plan = [&](Client& cl, int c) {
    Plan& p = cl.plan;
    cl.profile = prof;
    static const int th[] = {0, 1, 2, 2, 3, 4, 8};
    p.threads = th[rng.below(7)];
    std::string who = "client " + std::to_string(c) + " ";
    int nm = rng.chance(20) ? 2 : 1;
    bool failing = nclients == 1 && rng.chance(20);
    for (int i = 0; i < nm; i++) {
      cl.modules.emplace_back();
      Module& m = cl.modules.back();
      gen::Level level = prof == kC21 ? (rng.chance(90) ? gen::kSweep : gen::kLite) : prof == kC22 ? (rng.chance(85) ? gen::kLite : gen::kSweep) : prof == kC26 ? gen::kTf : rng.chance(55) ? gen::kTf : gen::kLite;
      int nf = 1 + rng.below(rng.chance(20) ? 6 : 3);
      for (int k = 0; k < nf; k++) {
        Function fn;
        gen::Func& s = fn.spec;
        s.seed = rng.next();
        s.level = level;
        s.exact = rng.chance(level == gen::kSweep ? 60 : 80);
        s.dynamic = prof == kC26 ? rng.chance(70) : false;
        s.big = prof == kC22 && rng.chance(40);
        s.runnable = prof == kC26;
        s.fail = failing && rng.chance(40);
        s.decl = rng.chance(4) && !s.fail;
        fn.input_seed = rng.next();
        int nb = level == gen::kSweep ? 1 : 1 + rng.below(rng.chance(30) ? 12 : 6);
        std::string fname = who + "module " + std::to_string(i) + " f" + std::to_string(k);
        Rng br{rng.next()};
        if (!event(fname + (s.exact ? ", exact numbers" : ", arbitrary numbers") + (s.dynamic ? ", dynamic batch" : "") + (s.fail ? ", fails" : "") + (s.decl ? ", declaration" : ""))) {
          next_event += nb;
          continue;
        }
        for (int j = 0; j < nb; j++) {
          uint64_t b = br.next();
          if (event(fname + " block " + gen::Name(s, b))) {
            s.blocks.push_back(b);
            Add(kBlocks);
            shape = Hash(shape, gen::Name(s, b));
          }
        }
        Add(kFunctions);
        history = Hash(history, std::to_string(s.seed) + "," + std::to_string(fn.input_seed));
        m.funcs.push_back(fn);
      }
      if (prof == kC22) {
        // dead and foldable operators are gone before anything is compared
        Pipeline first;
        first.passes = {"translate"};
        p.pipelines.push_back(first);
        p.events.push_back({i, (int)p.pipelines.size() - 1, true, false});
      }
      int ne = prof == kC26 ? 1 : 1 + rng.below(4);
      for (int e = 0; e < ne; e++) {
        Plan::Ev ev{i, 0, rng.chance(30), failing && rng.chance(60)};
        Pipeline pl;
        if (prof == kC26) {
          pl.by_name = false;
          pl.xcore = rng.chance(35);
          pl.verify = rng.chance(85);
          pl.quant = rng.below(2);
          pl.passes = {"pre", "post"};
        } else {
          pl = DrawPipeline(rng, prof, level);
        }
        if (failing) pl.passes.insert(pl.passes.begin() + rng.below(pl.passes.size() + 1), "fail");
        bool reuse = !p.pipelines.empty() && rng.chance(25) && prof != kC26;
        int again = reuse ? rng.below(p.pipelines.size()) : -1;
        if (!event(who + "runs on module " + std::to_string(i) + " with " + std::to_string(p.threads) + " threads: " + (reuse ? p.pipelines[again].text() + " (again)" : pl.text()) + (ev.fail ? ", failing functions fail" : ""))) continue;
        if (reuse) {
          ev.pipeline = again;
        } else {
          p.pipelines.push_back(pl);
          ev.pipeline = (int)p.pipelines.size() - 1;
        }
        p.events.push_back(ev);
        shape = Hash(shape, pl.text());
        if (prof == kC26 && ev.fail) {
          // goes on from where the failure left it: the early part again is harmless
          ev.fail = false;
          ev.rebuild = rng.chance(50);
          if (event(who + "tries again")) p.events.push_back(ev);
        }
      }
    }
    cl.reference = rng.chance(20);
    shape = Hash(shape, std::to_string(p.threads));
  };
  for (int c = 0; c < nclients; c++) {
    plan(clients[c], c);
    if (rng.chance(15)) {
      clients[c].later.emplace_back();
      if (event("client " + std::to_string(c) + " goes on with a new context")) plan(clients[c].later.back(), c);
      else clients[c].later.pop_back();
    }
  }
  sched::Config k{};
  k.seed = rng.next();
  static const unsigned rates[] = {20, 100, 600, 3000};
  k.rate = rates[rng.below(4)];
  k.spurious = rng.chance(50) ? 3000 : 0;
  k.max_switches = q.max_switches;
  k.max_steps = 400000000;
  k.verbose = verbose;
  sched::on_deadlock = OnDeadlock;
  sched::Start(k);
  if (prof == kC27) {
    entry::Run();
  } else if (nclients == 1) {
    RunSessions(&clients[0], 0);
  } else {
    Add(kParallelClients);
    std::vector<pthread_t> ts(nclients);
    std::vector<std::pair<Client*, int>> args;
    for (int c = 0; c < nclients; c++) args.push_back({&clients[c], c});
    for (int c = 0; c < nclients; c++) pthread_create(&ts[c], nullptr, ClientThread, &args[c]);
    for (int c = 0; c < nclients; c++) pthread_join(ts[c], nullptr);
  }
  sched::Stop();
  uint64_t out = 7;
  for (auto& c : clients) out = out * 31 + c.out;
  if (prof == kC27) {
    entry::After();
    out = entry::out;
    for (int i = 0; i < entry::kCounts; i++) Add(kEntry + i, entry::counts[i]);
  }
  auto& s = sched::stats;
  Add(kFailures, convsim::failures);
  Add(kThreads, s.threads);
  Add(kLocks, s.locks);
  Add(kContended, s.contended);
  Add(kSpurious, s.spurious);
  Add(kAccesses, s.accesses);
  Add(kSwitches, s.switches);
  Add(kSteps, s.steps);
  reply->switches = s.switches;
  reply->schedule = s.threads ? s.schedule : 0;
  reply->shape = shape;
  reply->out = out;
  reply->hash = history ^ (s.schedule * 3) ^ (out * 5) ^ s.steps;
}

void Zygote(int in, int out) {
  Request q;
  for (;;) {
    size_t got = 0;
    while (got < sizeof q) {
      ssize_t n = read(in, (char*)&q + got, sizeof q - got);
      if (n <= 0) _exit(0);
      got += n;
    }
    memset(reply, 0, sizeof *reply);
    pid_t pid = fork();
    if (pid == 0) {
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, OnCrash);
      alarm(120);
      OneRun(q);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
    if (WIFSIGNALED(st) && !reply->bad) {
      reply->bad = 1;
      snprintf(reply->message, sizeof reply->message, WTERMSIG(st) == SIGALRM ? "the passes do not end" : "the process was ended by signal %d while a pass ran", WTERMSIG(st));
      rc = 1;
    }
    if (write(out, &rc, sizeof rc) != sizeof rc) _exit(0);
  }
}

// Defects that are recorded and not repaired: the inputs of known_findings.txt
int Known(const std::string& property) {
  using namespace mlir;
  struct Finding {
    const char *property, *tag, *text;
    std::vector<std::string> passes;
  };
  const Finding all[] = {
      {"C20", "same-one-padding", R"(
func.func @f0(%a: tensor<1x4x4x2xi1>) -> tensor<1x2x2x1xf32> {
  %w = arith.constant dense<1.0> : tensor<3x3x2x1xf32>
  %one = arith.constant dense<1.0> : tensor<f32>
  %p = arith.constant dense<[[0, 0], [1, 1], [1, 1], [0, 0]]> : tensor<4x2xi32>
  %q = "lq.Quantize"(%a) : (tensor<1x4x4x2xi1>) -> tensor<1x4x4x1xi32>
  %x = "lq.Dequantize"(%q) : (tensor<1x4x4x1xi32>) -> tensor<1x4x4x2xf32>
  %y = "tf.PadV2"(%x, %p, %one) : (tensor<1x4x4x2xf32>, tensor<4x2xi32>, tensor<f32>) -> tensor<1x6x6x2xf32>
  %z = "tf.Conv2D"(%y, %w) {padding = "VALID", strides = [1, 2, 2, 1]} : (tensor<1x6x6x2xf32>, tensor<3x3x2x1xf32>) -> tensor<1x2x2x1xf32>
  return %z : tensor<1x2x2x1xf32>
})", {"prepare"}},
      {"C26", "int8-zero-padding", R"(
func.func @f0(%a: tensor<1x3x3x3xf32>) -> tensor<1x3x3x1x!quant.uniform<i8:f32, 0.5>> {
  %w = arith.constant dense<1.0> : tensor<1x3x3x3xf32>
  %m = arith.constant dense<1.0> : tensor<1xf32>
  %b = arith.constant dense<0.0> : tensor<1xf32>
  %n = "tfl.no_value"() {value} : () -> none
  %q = "lq.Quantize"(%a) : (tensor<1x3x3x3xf32>) -> tensor<1x3x3x1xi32>
  %c = "lq.Bconv2d"(%q, %w, %m, %b, %n) {channels_in = 3 : i32, dilation_height_factor = 1 : i32, dilation_width_factor = 1 : i32, fused_activation_function = "NONE", pad_values = 0 : i32, padding = "SAME", stride_height = 1 : i32, stride_width = 1 : i32} : (tensor<1x3x3x1xi32>, tensor<1x3x3x3xf32>, tensor<1xf32>, tensor<1xf32>, none) -> tensor<1x3x3x1xf32>
  %z = "tfl.quantize"(%c) {qtype = tensor<1x3x3x1x!quant.uniform<i8:f32, 0.5>>} : (tensor<1x3x3x1xf32>) -> tensor<1x3x3x1x!quant.uniform<i8:f32, 0.5>>
  return %z : tensor<1x3x3x1x!quant.uniform<i8:f32, 0.5>>
})", {"bitpack", "quantize", "legalize"}}};
  for (auto& f : all) {
    if (property != f.property) continue;
    DialectRegistry registry;
    registry.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect, TFL::TensorFlowLiteDialect, lq::LarqDialect>();
    MLIRContext context(registry, MLIRContext::Threading::DISABLED);
    context.loadAllAvailableDialects();
    auto m = parseSourceString<ModuleOp>(f.text, ParserConfig(&context));
    if (!m) {
      printf("TROUBLE the input of %s is not valid\n", f.tag);
      return 4;
    }
    auto fn = m->lookupSymbol<func::FuncOp>("f0");
    std::vector<ev::Tensor> in;
    for (Type t : fn.getArgumentTypes()) {
      bool ok = true;
      in.push_back(ev::FromType(cast<RankedTensorType>(t), ok));
      auto& x = in.back();
      x.v.assign(x.size(), 0);  // minus one as data of a quantizer
      x.e.assign(x.size(), 0);
    }
    ev::Result a = ev::Run(fn, in, false);
    Pipeline pl;
    pl.passes = f.passes;
    PassManager pm(&context);
    Build(pm, pl);
    bool ok = succeeded(pm.run(*m));
    static bool refused;
    refused = false;
    ev::on_custom = [](Operation* op, const std::string& code, const std::string& options, const std::vector<const ev::Tensor*>& in, const ev::Tensor& out, void*) {
      std::vector<bool> constant;
      for (Value v : op->getOperands()) constant.push_back(v.getDefiningOp() && v.getDefiningOp()->hasTrait<OpTrait::ConstantLike>());
      if (!rt::Run(code, options, in, constant, out, 1).accepted) refused = true;
    };
    ev::Result b = ok ? ev::Run(fn, in, false) : ev::Result();
    ev::on_custom = nullptr;
    bool fails = !ok || !a.ok || !b.ok || refused || a.outputs.size() != b.outputs.size();
    std::string why = !ok ? "the pass failed" : !a.ok ? a.error : !b.ok ? b.error : refused ? "refused" : "";
    for (size_t i = 0; !fails && i < a.outputs.size(); i++) why = ev::Compare(a.outputs[i], b.outputs[i]), fails = !why.empty();
    fprintf(stderr, "%s: %s\n", f.tag, why.c_str());
    printf("KNOWN %s %s\n", f.tag, fails ? "fails" : "holds");
  }
  return 0;
}

// One module from a file, some passes, some data
int File(int argc, char** argv) {
  using namespace mlir;
  std::string text, passes;
  int seeds = 3;
  bool exact = true, accept = false, legal = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--file") {
      FILE* f = fopen(argv[++i], "r");
      if (!f) return 4;
      char b[4096];
      for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) text.append(b, n);
      fclose(f);
    } else if (a == "--passes") passes = argv[++i];
    else if (a == "--data") seeds = atoi(argv[++i]);
    else if (a == "--accept") accept = true;
    else if (a == "--legal") legal = true;
    else if (a == "--rounding") exact = false;
  }
  DialectRegistry registry;
  registry.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect, TFL::TensorFlowLiteDialect, lq::LarqDialect>();
  MLIRContext context(registry, MLIRContext::Threading::DISABLED);
  context.loadAllAvailableDialects();
  auto m = parseSourceString<ModuleOp>(text, ParserConfig(&context));
  if (!m) return 4;
  struct One {
    std::string name;
    std::vector<std::vector<ev::Tensor>> in, out;
  };
  std::vector<One> all;
  for (auto f : m->getOps<func::FuncOp>()) {
    One o;
    o.name = f.getName().str();
    for (int s = 0; s < seeds; s++) {
      gen::Func spec;
      spec.exact = exact;
      spec.level = gen::kLite;
      o.in.push_back(gen::Inputs(f, spec, s + 1));
      ev::Result r = ev::Run(f, o.in.back(), !exact);
      if (!r.ok) {
        printf("cannot be evaluated: %s\n", r.error.c_str());
        return 4;
      }
      o.out.push_back(r.outputs);
    }
    all.push_back(o);
  }
  Pipeline pl;
  for (size_t at = 0; at < passes.size();) {
    size_t end = std::min(passes.find(',', at), passes.size());
    pl.passes.push_back(passes.substr(at, end - at));
    at = end + 1;
  }
  if (!pl.passes.empty() && pl.passes[0] == "xcore") pl.xcore = true, pl.passes.erase(pl.passes.begin());
  PassManager pm(&context);
  Build(pm, pl);
  if (failed(pm.run(*m))) {
    printf("the passes failed\n");
    return 1;
  }
  printf("%s\n", Print(*m).c_str());
  for (auto& o : all) {
    auto f = m->lookupSymbol<func::FuncOp>(o.name);
    if (legal) Legal(f, o.name);
    for (size_t s = 0; s < o.in.size(); s++) {
      Kernels k{accept, exact, o.name};
      ev::on_custom = OnCustom;
      ev::on_custom_arg = &k;
      ev::Result r = ev::Run(f, o.in[s], !exact);
      ev::on_custom = nullptr;
      std::string d = r.ok ? "" : r.error;
      for (size_t i = 0; r.ok && i < o.out[s].size(); i++)
        if (d.empty()) d = ev::Compare(o.out[s][i], r.outputs[i]);
      if (!d.empty()) {
        printf("%s: %s\n", o.name.c_str(), d.c_str());
        return 1;
      }
    }
  }
  return 0;
}

volatile sig_atomic_t stop = 0;
void OnTerm(int) { stop = 1; }

void Warm() {
  // what the libraries set up once is done before the first run
  Client c;
  c.profile = kC26;
  c.modules.emplace_back();
  for (int k = 0; k < 3; k++) {
    Function f;
    f.spec.seed = 5 + k;
    f.spec.level = k == 2 ? gen::kLite : gen::kTf;
    for (int b = 0; b < 12; b++) f.spec.blocks.push_back(100 * k + b);
    f.input_seed = 3;
    c.modules.back().funcs.push_back(f);
  }
  Pipeline p;
  p.passes = {"op-removal", "canonicalize", "prepare", "canonicalize", "legalize-tf", "optimize-lce", "optimize"};
  Pipeline n;
  n.by_name = true;
  n.passes = {"optimize-lce", "bitpack", "fuse-padding", "quantize", "detection", "legalize", "cse"};
  c.plan.pipelines = {p, n};
  c.plan.events = {{0, 0, true, false}, {0, 1, true, false}};
  reply->bad = 0;
  pid_t pid = fork();  // a violation here is for the runs to report
  if (pid == 0) {
    RunClient(&c, 0);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) RunClient(&c, 0);
  memset(reply, 0, sizeof *reply);
}
}  // namespace

int main(int argc, char** argv) {
  if (!getenv("LCE_ASLR") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("LCE_ASLR", "0", 1);
    setenv("LD_BIND_NOW", "1", 1);
    execv("/proc/self/exe", argv);
  }
  reply = (Reply*)mmap(nullptr, sizeof(Reply), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return 4;
  for (int i = 1; i < argc; i++)
    if (!strcmp(argv[i], "--file")) {
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, OnCrash);
      int r = File(argc, argv);
      if (reply->bad) printf("%s\n", reply->message);
      fflush(stdout);
      _exit(r);
    } else if (!strcmp(argv[i], "--known")) {
      int r = Known(argc > 2 && !strcmp(argv[1], "--profile") ? argv[2] : "");
      fflush(stdout);
      _exit(r);
    }
  Warm();
  pid_t z = fork();
  if (z == 0) {
    close(a[1]);
    close(b[0]);
    Zygote(a[0], b[1]);
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  std::map<std::string, std::string> o = {{"profile", ""}, {"seed", "1"}, {"count", "1"}, {"stride", "1"}, {"time", "0"}, {"drop", ""}, {"max-switches", ""}, {"hashfile", ""}};
  std::set<std::string> flags;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i] + 2;
    if (k == "verbose" || k == "dump" || k == "hashes" || k == "aslr") flags.insert(k);
    else if (i + 1 < argc) o[k] = argv[++i];
  }
  signal(SIGTERM, OnTerm);
  signal(SIGPIPE, SIG_IGN);
  FILE* hf = o["hashfile"].empty() ? nullptr : fopen(o["hashfile"].c_str(), "wb");
  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), count = strtoull(o["count"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10);
  double limit = atof(o["time"].c_str());
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto now = [&] {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    return (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
  };
  std::string prof = o["profile"];
  uint64_t counts[kCounts] = {}, runs = 0;
  int rc = 0;
  Request q{};
  for (const char* p = o["drop"].c_str(); *p && q.num_drop < kMaxDrop;) {
    q.drop[q.num_drop++] = strtol(p, (char**)&p, 10);
    if (*p == ',') p++;
  }
  q.profile = prof == "C21" ? kC21 : prof == "C22" ? kC22 : prof == "C26" ? kC26 : prof == "C27" ? kC27 : kC20;
  if (prof == "C27" && !entry::Available()) {
    dprintf(2, "the entry points could not be built\n");
    return 8;
  }
  q.verbose = flags.count("verbose");
  q.max_switches = o["max-switches"].empty() ? ~0ull : strtoull(o["max-switches"].c_str(), 0, 10);
  while (runs < count && !stop && (limit == 0 || now() < limit)) {
    q.seed = seed;
    int r = 0;
    if (write(a[1], &q, sizeof q) != sizeof q) return 4;
    size_t got = 0;
    while (got < sizeof r) {
      ssize_t n = read(b[0], (char*)&r + got, sizeof r - got);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) return 4;
      got += n;
    }
    if (r > 1 && !reply->bad) {
      printf("TROUBLE seed %llu: the run ended with %d\n", (unsigned long long)seed, r);
      fflush(stdout);
      return 4;
    }
    runs++;
    for (int i = 0; i < kCounts; i++) counts[i] += reply->counts[i];
    if (hf) {
      uint64_t h[3] = {reply->hash, reply->schedule, reply->shape};
      fwrite(h, 8, 3, hf);
    }
    char line[200];
    snprintf(line, sizeof line, "%llu %016llx %016llx %016llx %016llx %llu", (unsigned long long)seed, (unsigned long long)reply->hash, (unsigned long long)reply->schedule,
             (unsigned long long)reply->shape, (unsigned long long)reply->out, (unsigned long long)reply->switches);
    if (reply->bad) {
      std::string m = reply->message;
      for (auto& ch : m)
        if (ch == '\n') ch = ' ';
      printf("VIOL %s %s\n", line, m.c_str());
      rc = 1;
      if (!flags.count("hashes")) break;
    } else if (flags.count("hashes")) {
      printf("OK %s\n", line);
    }
    seed += stride;
  }
  if (hf) fclose(hf);
  counts[kRuns] = runs;
  if (flags.count("dump"))
    for (int i = 0; i < kCounts; i++) printf("COUNT %s %llu\n", CountName(i), (unsigned long long)counts[i]);
  printf("SUMMARY runs %llu seconds %.3f\n", (unsigned long long)runs, now());
  fflush(stdout);
  close(a[1]);
  kill(z, SIGKILL);
  _exit(rc);
}
