// C14: the batch-size pass inside the real MLIR pass manager under a seeded
// scheduler, against a model computed from the generated text.
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "larq_compute_engine/mlir/transforms/passes.h"
#include "llvm/Support/ThreadPool.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "sched.h"

namespace {
constexpr int kMaxDrop = 512;
struct Request {
  uint64_t seed;
  uint64_t max_switches;
  int verbose;
  int num_drop;
  int drop[kMaxDrop];
};
enum Count { kRuns, kFunctions, kInputsChanged, kInputsKept, kRunsOfPipeline, kFailures, kRepeats, kReused, kParallelClients, kThreads, kLocks, kContended, kSpurious, kAccesses, kSwitches, kSteps, kDeclarations, kDisabled, kRestarts, kCounts };
const char* kNames[] = {"simulated_runs", "functions", "inputs_changed", "inputs_kept", "pipeline_runs", "fault_pass_fails", "repeated_runs", "reused_pipelines", "parallel_clients", "threads_created", "lock_operations", "contended_locks", "fault_spurious_wakeup", "pass_accesses", "task_switches", "simulated_steps", "declarations", "single_threaded_runs", "contexts_recreated"};
struct Reply {
  uint64_t hash, schedule, shape, out;
  uint64_t switches;
  uint64_t counts[kCounts];
  int bad;
  char message[1500];
};
Reply* reply;  // shared with the process of the run
bool verbose;

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return (int)(next() % n); }
  bool chance(int percent) { return below(100) < percent; }
};

uint64_t Hash(uint64_t h, const std::string& s) {
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
  return h ^ (h >> 31);
}

[[noreturn]] void Fail(const std::string& m) {
  if (!reply->bad) {
    snprintf(reply->message, sizeof reply->message, "%s", m.c_str());
    reply->bad = 1;
  }
  _exit(1);
}

// ---- generated modules
struct Ty {
  std::string before, after;  // as an input of a function
  bool changed;
};

struct Gen {
  Rng rng;
  int twist = 0;  // the same module with other element types
  std::string elem() {
    static const char* e[] = {"f32", "f32", "f32", "i8", "i1", "i32", "f16", "index", "complex<f32>", "vector<4xf32>", "!quant.uniform<i8:f32, 5.000000e-01:3>", "!tf_type.resource<tensor<?x6xf32>>", "!quant.uniform<i8<-127:127>:f32, 2.500000e-01>"};
    return e[(rng.below(sizeof e / sizeof *e) + twist) % (sizeof e / sizeof *e)];
  }
  std::string enc() {
    static const char* e[] = {", \"enc\"", ", 7 : i64", ", {a = \"x\"}", ", #foo.layout", ", [1, 2]"};
    return rng.chance(20) ? e[rng.below(5)] : "";
  }
  std::string dims(std::vector<int>& d) {
    std::string s;
    for (int x : d) s += (x < 0 ? "?" : std::to_string(x)) + "x";
    return s;
  }
  Ty input() {
    int k = rng.below(20);
    if (k < 14) {
      int rank = rng.below(10) < 1 ? 0 : 1 + rng.below(4);
      std::vector<int> d;
      for (int i = 0; i < rank; i++) {
        int x = rng.below(10);
        d.push_back(x < (i == 0 ? 6 : 3) ? -1 : x == 9 ? 0 : 1 + rng.below(7));
      }
      std::string e = elem(), n = enc();
      std::vector<int> a = d;
      bool changed = rank > 0 && d[0] < 0;
      if (changed) a[0] = 1;
      return {"tensor<" + dims(d) + e + n + ">", "tensor<" + dims(a) + e + n + ">", changed};
    }
    static const char* other[] = {"tensor<*xf32>", "memref<?x3xf32>", "memref<*xf32>", "i32", "vector<4xf32>", "tuple<tensor<?x2xf32>, i8>", "(tensor<?x2xf32>) -> tensor<?xf32>", "none", "!foo.bar<\"tensor<?x2>\">", "index", "f64", "complex<f64>", "memref<?xi8, strided<[?], offset: ?>>", "vector<2x[4]xf32>"};
    std::string s = other[rng.below(sizeof other / sizeof *other)];
    return {s, s, false};
  }
  std::string attr() {
    static const char* a[] = {"tf_saved_model.index_path = [\"x\"]", "foo.a = tensor<?x2xf32>", "foo.b = 1 : i32", "foo.c = dense<[1, 2]> : tensor<2xi32>", "foo.d", "foo.e = @sym", "foo.f = (tensor<?xf32>) -> tensor<?xf32>"};
    return a[rng.below(sizeof a / sizeof *a)];
  }
  std::string result() { return input().before; }

  struct Func {
    std::string name, before, after;
    int changed = 0, kept = 0;
    bool decl = false;
  };
  Func func(int k, bool fail) {
    Func f;
    f.name = "f" + std::to_string(k);
    int nargs = rng.below(12) == 0 ? 0 : 1 + rng.below(rng.chance(10) ? 12 : 4), nres = rng.below(3);
    std::vector<Ty> args;
    std::vector<std::string> res;
    for (int i = 0; i < nargs; i++) {
      args.push_back(rng.chance(15) && i ? args[rng.below(i)] : input());
      args.back().changed ? f.changed++ : f.kept++;
    }
    for (int i = 0; i < nres; i++) res.push_back(rng.chance(40) && nargs ? args[rng.below(nargs)].before : result());
    f.decl = rng.chance(12);
    std::string attrs = "{", sep;
    auto list = [&](const char* key, int n) {
      if (!n || !rng.chance(40)) return std::string();
      std::string s = std::string(key) + " = [";
      for (int i = 0; i < n; i++) s += std::string(i ? ", " : "") + (rng.chance(50) ? "{" + attr() + "}" : "{}");
      return s + "]";
    };
    std::string vis = f.decl || rng.chance(30) ? ", sym_visibility = \"private\"" : "";
    std::string aa = list("arg_attrs", nargs), ra = list("res_attrs", nres), extra = rng.chance(50) ? "tf.entry_function = {inputs = \"a:0\", outputs = \"b\"}, tf_saved_model.exported_names = [\"serving_default\"]" : "";
    std::string discard;
    if (!extra.empty()) discard += extra;
    if (fail) discard += std::string(discard.empty() ? "" : ", ") + "test.fail";
    auto body = rng;  // both texts draw the same body
    auto text = [&](bool after) {
      Rng save = rng;
      rng = body;
      auto ty = [&](const Ty& t) { return after ? t.after : t.before; };
      std::string sig = "(";
      for (int i = 0; i < nargs; i++) sig += (i ? ", " : "") + ty(args[i]);
      sig += ") -> ";
      std::string r;
      for (int i = 0; i < nres; i++) r += (i ? ", " : "") + res[i];
      bool plain_single = nres == 1 && res[0][0] != '(';
      sig += plain_single ? r : "(" + r + ")";
      std::string s = "\"func.func\"() <{function_type = " + sig + ", sym_name = \"" + f.name + "\"" + vis;
      if (!aa.empty()) s += ", " + aa;
      if (!ra.empty()) s += ", " + ra;
      s += "}> ({\n";
      if (!f.decl) {
        if (nargs) {
          s += "^bb0(";
          for (int i = 0; i < nargs; i++) s += std::string(i ? ", " : "") + "%a" + std::to_string(i) + ": " + ty(args[i]);
          s += "):\n";
        } else {
          s += "^bb0:\n";
        }
        struct Val { std::string name, type; };
        std::vector<Val> vals;
        for (int i = 0; i < nargs; i++) vals.push_back({"%a" + std::to_string(i), ty(args[i])});
        int nops = rng.below(5);
        for (int o = 0; o < nops; o++) {
          int n = vals.empty() ? 0 : rng.below(std::min<int>(3, vals.size()) + 1);
          std::string in, it;
          for (int i = 0; i < n; i++) {
            Val v = vals[rng.below(vals.size())];
            in += (i ? ", " : "") + v.name;
            it += (i ? ", " : "") + v.type;
          }
          std::string nm = "%v" + std::to_string(o), rt = "tensor<?x" + std::to_string(1 + rng.below(4)) + "xf32>", region;
          int kind = rng.below(4);
          if (kind == 0) region = " ({\n^bb0(%x" + std::to_string(o) + ": tensor<?x2xf32>, %y" + std::to_string(o) + ": i32):\n  \"test.yield\"(%x" + std::to_string(o) + ") : (tensor<?x2xf32>) -> ()\n})";
          std::string at = kind == 1 ? " {t = tensor<?x2xf32>, v = \"?\"}" : "";
          s += "  " + nm + " = \"test.op\"(" + in + ")" + region + at + " : (" + it + ") -> " + rt + "\n";
          vals.push_back({nm, rt});
        }
        if (rng.chance(25)) s += "  \"test.br\"()[^bb1] : () -> ()\n^bb1:\n";
        if (rng.chance(20)) s += "  %c0 = \"test.const\"() : () -> tensor<?x5xi8>\n  \"test.br\"(%c0)[^bb2] : (tensor<?x5xi8>) -> ()\n^bb2:\n";
        std::string rn, rt;
        for (int i = 0; i < nres; i++) {
          s += "  %r" + std::to_string(i) + " = \"test.result\"() : () -> " + (res[i][0] == '(' ? "(" + res[i] + ")" : res[i]) + "\n";
          rn += (i ? ", " : "") + std::string("%r") + std::to_string(i);
          rt += (i ? ", " : "") + res[i];
        }
        s += "  \"func.return\"(" + rn + ") : (" + rt + ") -> ()\n";
      }
      rng = save;
      return s + "}) " + (discard.empty() ? "" : "{" + discard + "} ") + ": () -> () loc(\"" + f.name + ".py\":3:4)\n";
    };
    f.before = text(false);
    f.after = text(true);
    for (int i = 0; i < 64; i++) rng.next();
    return f;
  }
};

struct Module {
  std::vector<Gen::Func> funcs;
  std::vector<std::string> before, after;  // printed functions
  std::string all_before, all_after;
  mlir::OwningOpRef<mlir::ModuleOp> op;
  int runs = 0;
  bool has_failing = false;
};

std::string Print(mlir::Operation* op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  mlir::OpPrintingFlags f;
  f.printGenericOpForm().enableDebugInfo(true, false);
  op->print(os, f);
  return os.str();
}

std::string Text(const Module& m, bool after) {
  std::string s = "\"builtin.module\"() ({\n^bb0:\n";
  for (auto& f : m.funcs) s += after ? f.after : f.before;
  return s + "}) {foo.m = tensor<?x2xf32>} : () -> ()\n";
}

bool fail_now = false;
struct FailPass : mlir::PassWrapper<FailPass, mlir::OperationPass<mlir::func::FuncOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(FailPass)
  llvm::StringRef getArgument() const final { return "test-fail"; }
  void runOnOperation() override {
    sched::Point();
    if (fail_now && getOperation()->hasAttr("test.fail")) {
      __atomic_fetch_add(&reply->counts[kFailures], 1, __ATOMIC_RELAXED);
      signalPassFailure();
    }
  }
};

struct Plan {
  int threads;  // 0: multithreading off
  bool verify;
  bool by_name;
  int fail_place;  // 0 none, 1 before, 2 after
  struct Ev {
    int module;
    bool rebuild, fail;
    bool run;
  };
  std::vector<Ev> events;
};

struct Client {
  Plan plan;
  std::vector<Module> modules;
  uint64_t out = 1469598103934665603ull;
  std::vector<Client> later;  // what the client does with a context created after the first one is gone
};

void Build(mlir::PassManager& pm, const Plan& p) {
  pm.enableVerifier(p.verify);
  auto& fm = pm.nest<mlir::func::FuncOp>();
  if (p.fail_place == 1) fm.addPass(std::make_unique<FailPass>());
  if (p.by_name) {
    if (mlir::failed(mlir::parsePassPipeline("mlir-setbatchsize", fm))) Fail("the pass is not registered under its name");
  } else {
    fm.addPass(mlir::CreateSetBatchSizePass());
  }
  if (p.fail_place == 2) fm.addPass(std::make_unique<FailPass>());
}

void RunClient(Client* c, int id) {
  Plan& p = c->plan;
  mlir::DialectRegistry registry;
  registry.insert<mlir::arith::ArithDialect, mlir::func::FuncDialect, mlir::quant::QuantizationDialect>();
  mlir::MLIRContext context(registry, mlir::MLIRContext::Threading::DISABLED);
  context.allowUnregisteredDialects();
  context.loadAllAvailableDialects();
  std::unique_ptr<llvm::ThreadPool> pool;
  context.getDiagEngine().registerHandler([](mlir::Diagnostic&) { return mlir::success(); });
  for (auto& m : c->modules) {
    for (int k = 0; k < 2; k++) {
      std::string t = Text(m, k);
      auto op = mlir::parseSourceString<mlir::ModuleOp>(t, &context);
      if (!op) {
        dprintf(2, "%s\n", t.c_str());
        _exit(8);
      }
      auto& list = k ? m.after : m.before;
      for (auto& f : *op->getBody()) list.push_back(Print(&f));
      (k ? m.all_after : m.all_before) = Print(*op);
      if (!k) m.op = std::move(op);
    }
  }
  if (p.threads) {
    pool = std::make_unique<llvm::ThreadPool>(llvm::hardware_concurrency(p.threads));
    context.setThreadPool(*pool);
  }
  std::unique_ptr<mlir::PassManager> pm;
  int used = 0;
  for (auto& e : p.events) {
    if (!e.run) continue;
    Module& m = c->modules[e.module];
    if (!pm || e.rebuild) {
      pm = std::make_unique<mlir::PassManager>(&context);
      Build(*pm, p);
      used = 0;
    }
    fail_now = e.fail;
    bool expect_fail = e.fail && m.has_failing && p.fail_place;
    bool ok = mlir::succeeded(pm->run(*m.op));
    reply->counts[kRunsOfPipeline]++;
    if (m.runs) reply->counts[kRepeats]++;
    if (used++) reply->counts[kReused]++;
    if (!p.threads) reply->counts[kDisabled]++;
    if (ok == expect_fail) Fail(ok ? "the pipeline succeeded although a pass failed" : "the pipeline failed on module " + std::to_string(e.module));
    m.runs++;
    std::string now = Print(*m.op);
    if (verbose) dprintf(2, "    client %d: module %d %s\n", id, e.module, ok ? "processed" : "failed");
    if (ok) {
      if (now != m.all_after) {
        int k = 0;
        for (auto& f : *m.op->getBody()) {
          std::string s = Print(&f);
          if (k < (int)m.after.size() && s != m.after[k]) Fail("function " + std::to_string(k) + " of " + std::to_string(m.after.size()) + " is " + s.substr(0, 400) + " instead of " + m.after[k].substr(0, 400));
          k++;
        }
        Fail("the module changed beyond its functions");
      }
    } else {
      // each function is as it was or processed, never in between
      int k = 0;
      for (auto& f : *m.op->getBody()) {
        std::string s = Print(&f);
        if (s != m.after[k] && s != m.before[k]) Fail("after a failed pipeline function " + std::to_string(k) + " is neither unprocessed nor processed: " + s.substr(0, 400));
        k++;
      }
    }
    if (mlir::failed(mlir::verify(*m.op))) Fail("the module is not valid after the pass");
    // the order in which functions are processed before a failure is not an outcome
    c->out = Hash(c->out, ok ? now : "failed");
  }
  pm.reset();
  for (auto& m : c->modules) m.op = nullptr;
}

void RunSessions(Client* c, int id) {
  RunClient(c, id);
  for (auto& l : c->later) {
    reply->counts[kRestarts]++;
    if (verbose) dprintf(2, "    client %d: a new context\n", id);
    RunClient(&l, id);
    c->out = c->out * 31 + l.out;
  }
}

void* ClientThread(void* p) {
  auto* a = (std::pair<Client*, int>*)p;
  RunSessions(a->first, a->second);
  return nullptr;
}

void OnCrash(int sig) {
  if (!reply->bad) {
    snprintf(reply->message, sizeof reply->message, "the process crashed with signal %d while the pass ran", sig);
    reply->bad = 1;
  }
  _exit(1);
}

void OnDeadlock(const char* m) { Fail(std::string("the pipeline does not end: ") + m); }

void OneRun(const Request& q) {
  verbose = q.verbose;
  Rng rng{q.seed * 0x9e3779b97f4a7c15ull + 77};
  uint64_t history = 1469598103934665603ull, shape = history;
  int next_event = 0;
  auto event = [&](const std::string& text) {
    int k = next_event++;
    for (int i = 0; i < q.num_drop; i++)
      if (q.drop[i] == k) return false;
    history = Hash(history, std::to_string(k) + text);
    if (verbose) dprintf(2, "[%d] %s\n", k, text.c_str());
    return true;
  };
  int nclients = rng.chance(25) ? 2 : 1;
  std::vector<Client> clients(nclients);
  auto plan = [&](Client& cl, int c, std::vector<uint64_t>& module_seeds, int twist) {
    Plan& p = cl.plan;
    static const int th[] = {0, 1, 2, 2, 3, 4, 8};
    p.threads = th[rng.below(7)];
    p.verify = rng.chance(70);
    p.by_name = rng.chance(50);
    p.fail_place = rng.chance(30) && nclients == 1 ? 1 + rng.below(2) : 0;
    int nm = 1 + rng.below(2);
    for (int i = 0; i < nm; i++) {
      cl.modules.emplace_back();
      Module& m = cl.modules.back();
      uint64_t own = rng.next();
      if ((int)module_seeds.size() <= i) module_seeds.push_back(own);
      Gen g{{module_seeds[i]}};
      g.twist = twist;
      int nf = g.rng.chance(5) ? 0 : 1 + g.rng.below(g.rng.chance(30) ? 10 : 4);
      std::string d;
      for (int f = 0; f < nf; f++) {
        bool fail = p.fail_place && rng.chance(30);
        m.has_failing |= fail;
        Gen::Func fn = g.func(f, fail);
        if (event("client " + std::to_string(c) + " module " + std::to_string(i) + " function f" + std::to_string(f) + " with " + std::to_string(fn.changed) + " inputs to change, " + std::to_string(fn.kept) + " others" + (fn.decl ? ", declaration" : "") + (fail ? ", fails" : ""))) {
          reply->counts[kFunctions]++;
          reply->counts[kInputsChanged] += fn.changed;
          reply->counts[kInputsKept] += fn.kept;
          reply->counts[kDeclarations] += fn.decl;
          history = Hash(history, fn.before);
          shape = Hash(shape, fn.before);
          m.funcs.push_back(fn);
        } else if (fail) {
          // the remaining functions decide whether the pipeline fails
        }
      }
      m.has_failing = false;
      for (auto& f : m.funcs) m.has_failing |= f.before.find("test.fail") != std::string::npos;
    }
    int ne = 1 + rng.below(4);
    for (int i = 0; i < ne; i++) {
      Plan::Ev e{rng.below(nm), rng.chance(30), p.fail_place && rng.chance(60), true};
      e.run = event("client " + std::to_string(c) + " runs the pass on module " + std::to_string(e.module) + ", " + std::to_string(p.threads) + " threads" + (e.rebuild ? ", new pipeline" : "") + (e.fail ? ", failing functions fail" : ""));
      p.events.push_back(e);
    }
    shape = Hash(shape, std::to_string(p.threads) + "/" + std::to_string(p.fail_place) + "/" + std::to_string(ne));
  };
  for (int c = 0; c < nclients; c++) {
    std::vector<uint64_t> module_seeds;
    plan(clients[c], c, module_seeds, 0);
    int sessions = rng.chance(25) ? 1 + rng.below(3) : 0;
    for (int k = 0; k < sessions; k++) {
      if (!rng.chance(60)) module_seeds.clear();
      clients[c].later.emplace_back();
      if (event("client " + std::to_string(c) + " goes on with a new context")) {
        plan(clients[c].later.back(), c, module_seeds, 1 + rng.below(5));
      } else {
        clients[c].later.pop_back();
        break;
      }
    }
  }
  sched::Config k{};
  k.seed = rng.next();
  static const unsigned rates[] = {60, 600, 3000, 12000};
  k.rate = rates[rng.below(4)];
  k.spurious = rng.chance(50) ? 3000 : 0;
  k.max_switches = q.max_switches;
  k.max_steps = 20000000;
  k.verbose = verbose;
  sched::on_deadlock = OnDeadlock;
  sched::Start(k);
  if (nclients == 1) {
    RunSessions(&clients[0], 0);
  } else {
    reply->counts[kParallelClients]++;
    std::vector<pthread_t> ts(nclients);
    std::vector<std::pair<Client*, int>> args;
    for (int c = 0; c < nclients; c++) args.push_back({&clients[c], c});
    for (int c = 0; c < nclients; c++) pthread_create(&ts[c], nullptr, ClientThread, &args[c]);
    for (int c = 0; c < nclients; c++) pthread_join(ts[c], nullptr);
  }
  sched::Stop();
  uint64_t out = 7;
  for (auto& c : clients) out = out * 31 + c.out;
  auto& s = sched::stats;
  reply->counts[kThreads] += s.threads;
  reply->counts[kLocks] += s.locks;
  reply->counts[kContended] += s.contended;
  reply->counts[kSpurious] += s.spurious;
  reply->counts[kAccesses] += s.accesses;
  reply->counts[kSwitches] += s.switches;
  reply->counts[kSteps] += s.steps;
  reply->switches = s.switches;
  reply->schedule = s.threads ? s.schedule : 0;
  reply->shape = shape;
  reply->out = out;
  reply->hash = history ^ (s.schedule * 3) ^ (out * 5) ^ s.steps;
}

void Zygote(int in, int out) {
  Request q;
  for (;;) {
    size_t got = 0;
    while (got < sizeof q) {
      ssize_t n = read(in, (char*)&q + got, sizeof q - got);
      if (n <= 0) _exit(0);
      got += n;
    }
    memset(reply, 0, sizeof *reply);
    pid_t pid = fork();
    if (pid == 0) {
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, OnCrash);
      alarm(60);
      OneRun(q);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
    if (WIFSIGNALED(st) && !reply->bad) {
      reply->bad = 1;
      snprintf(reply->message, sizeof reply->message, WTERMSIG(st) == SIGALRM ? "the pass does not end" : "the process was ended by signal %d while the pass ran", WTERMSIG(st));
      rc = 1;
    }
    if (write(out, &rc, sizeof rc) != sizeof rc) _exit(0);
  }
}

volatile sig_atomic_t stop = 0;
void OnTerm(int) { stop = 1; }

void Warm() {
  // what the libraries set up once is done before the first run
  mlir::DialectRegistry registry;
  registry.insert<mlir::arith::ArithDialect, mlir::func::FuncDialect, mlir::quant::QuantizationDialect>();
  mlir::MLIRContext context(registry, mlir::MLIRContext::Threading::DISABLED);
  context.allowUnregisteredDialects();
  context.loadAllAvailableDialects();
  auto op = mlir::parseSourceString<mlir::ModuleOp>("func.func private @f(tensor<?x!quant.uniform<i8:f32, 0.5>>)\n", &context);
  Print(*op);
}
}  // namespace

int main(int argc, char** argv) {
  if (!getenv("LCE_ASLR") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("LCE_ASLR", "0", 1);
    setenv("LD_BIND_NOW", "1", 1);
    execv("/proc/self/exe", argv);
  }
  reply = (Reply*)mmap(nullptr, sizeof(Reply), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return 4;
  Warm();
  pid_t z = fork();
  if (z == 0) {
    close(a[1]);
    close(b[0]);
    Zygote(a[0], b[1]);
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  std::map<std::string, std::string> o = {{"profile", ""}, {"seed", "1"}, {"count", "1"}, {"stride", "1"}, {"time", "0"}, {"drop", ""}, {"max-switches", ""}, {"hashfile", ""}};
  std::set<std::string> flags;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i] + 2;
    if (k == "verbose" || k == "dump" || k == "hashes" || k == "aslr") flags.insert(k);
    else if (i + 1 < argc) o[k] = argv[++i];
  }
  signal(SIGTERM, OnTerm);
  signal(SIGPIPE, SIG_IGN);
  FILE* hf = o["hashfile"].empty() ? nullptr : fopen(o["hashfile"].c_str(), "wb");
  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), count = strtoull(o["count"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10);
  double limit = atof(o["time"].c_str());
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto now = [&] {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    return (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
  };
  uint64_t counts[kCounts] = {}, runs = 0;
  int rc = 0;
  Request q{};
  for (const char* p = o["drop"].c_str(); *p && q.num_drop < kMaxDrop;) {
    q.drop[q.num_drop++] = strtol(p, (char**)&p, 10);
    if (*p == ',') p++;
  }
  q.verbose = flags.count("verbose");
  q.max_switches = o["max-switches"].empty() ? ~0ull : strtoull(o["max-switches"].c_str(), 0, 10);
  while (runs < count && !stop && (limit == 0 || now() < limit)) {
    q.seed = seed;
    int r = 0;
    if (write(a[1], &q, sizeof q) != sizeof q) return 4;
    size_t got = 0;
    while (got < sizeof r) {
      ssize_t n = read(b[0], (char*)&r + got, sizeof r - got);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) return 4;
      got += n;
    }
    if (r > 1 && !reply->bad) {
      printf("TROUBLE seed %llu: the run ended with %d\n", (unsigned long long)seed, r);
      fflush(stdout);
      return 4;
    }
    runs++;
    for (int i = 0; i < kCounts; i++) counts[i] += reply->counts[i];
    if (hf) {
      uint64_t h[3] = {reply->hash, reply->schedule, reply->shape};
      fwrite(h, 8, 3, hf);
    }
    char line[200];
    snprintf(line, sizeof line, "%llu %016llx %016llx %016llx %016llx %llu", (unsigned long long)seed, (unsigned long long)reply->hash, (unsigned long long)reply->schedule,
             (unsigned long long)reply->shape, (unsigned long long)reply->out, (unsigned long long)reply->switches);
    if (reply->bad) {
      std::string m = reply->message;
      for (auto& ch : m)
        if (ch == '\n') ch = ' ';
      printf("VIOL %s %s\n", line, m.c_str());
      rc = 1;
      if (!flags.count("hashes")) break;
    } else if (flags.count("hashes")) {
      printf("OK %s\n", line);
    }
    seed += stride;
  }
  if (hf) fclose(hf);
  counts[kRuns] = runs;
  if (flags.count("dump"))
    for (int i = 0; i < kCounts; i++) printf("COUNT %s %llu\n", kNames[i], (unsigned long long)counts[i]);
  printf("SUMMARY runs %llu seconds %.3f\n", (unsigned long long)runs, now());
  fflush(stdout);
  close(a[1]);
  kill(z, SIGKILL);
  _exit(rc);
}
