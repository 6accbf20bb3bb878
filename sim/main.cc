// A worker: one child process per seed, results through shared memory.
#include <errno.h>
#include <execinfo.h>
#include <ucontext.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include "world.h"
using namespace lcesim;
#ifdef LCESIM_ARM_HOST
namespace armsim { void load_guest(); }
#endif
static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void on_hang(int) {
  if (g_res->status == 0) {
    snprintf(g_res->message, sizeof g_res->message, "no progress: a run used 60 s of processor time (hang)");
    g_res->status = 2;
  }
  _exit(77);
}
extern "C" bool (*lcesim_fault_hook)(void* ucontext);
bool (*lcesim_fault_hook)(void* ucontext) = nullptr;
static void on_crash(int sig, siginfo_t* si, void* uc) {
  if (sig == SIGSEGV && lcesim_fault_hook && lcesim_fault_hook(uc)) return;
  if (g_res->status == 0) {
    void* bt[12];
    int n = backtrace(bt, 12);
    int k = snprintf(g_res->message, sizeof g_res->message, "crash: signal %d (%s) at address %p, code %d, pc %p, in", sig, strsignal(sig), si->si_addr, si->si_code,
                     (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]);
    for (int i = 0; i < n; i++) k += snprintf(g_res->message + k, sizeof g_res->message - k, " %p", bt[i]);
    g_res->status = 2;
  }
  _exit(77);
}
static void child() {
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGTERM, SIG_DFL);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 4ul << 30;
  setrlimit(RLIMIT_AS, &rl);
  signal(SIGPROF, on_hang);
  itimerval tv{{0, 0}, {60, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  if (!g_cfg.verbose && !freopen("/dev/null", "w", stderr)) _exit(3);
  run_profile();
  _exit(0);
}
static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }
static int run_seed() {  // 1 done, 2 violation, 3 trouble of the simulator itself
  memset((void*)g_res, 0, sizeof *g_res);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) child();
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (g_res->status == 2) return 2;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGINT) return 3;
    snprintf(g_res->message, sizeof g_res->message, "crash: the process was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    g_res->status = 2;
    return 2;
  }
  if (g_res->status == 1) return 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) g_stop = 1;
  return 3;
}
static void print_result(u64 seed, int st) {
  printf("%s %llu %016llx %016llx %016llx %016llx %llu %s\n", st == 1 ? "OK" : st == 2 ? "VIOL" : "TROUBLE", (unsigned long long)seed,
         (unsigned long long)g_res->hash, (unsigned long long)g_res->schedule_hash, (unsigned long long)g_res->shape_hash,
         (unsigned long long)g_res->out_hash, (unsigned long long)g_res->counters[cSwitches], st != 1 ? g_res->message : "");
}
int main(int argc, char** argv) {
  u64 start = 1, count_ = 1, stride = 1;
  double limit = 1e9;
  bool dump = false, hashes = false, aslr = false, known = false;
  FILE* hashfile = nullptr;
  for (int i = 1; i < argc; i++) {
    const char* a = argv[i];
    auto val = [&] { return i + 1 < argc ? argv[++i] : (char*)"0"; };
    if (!strcmp(a, "--profile")) g_cfg.profile = val();
    else if (!strcmp(a, "--seed")) start = strtoull(val(), nullptr, 10);
    else if (!strcmp(a, "--count")) count_ = strtoull(val(), nullptr, 10);
    else if (!strcmp(a, "--stride")) stride = strtoull(val(), nullptr, 10);
    else if (!strcmp(a, "--time")) limit = atof(val());
    else if (!strcmp(a, "--drop")) { for (char* t = strtok(val(), ","); t; t = strtok(nullptr, ",")) g_cfg.dropped.push_back(atoi(t)); }
    else if (!strcmp(a, "--max-switches")) g_cfg.max_switches = strtoull(val(), nullptr, 10);
    else if (!strcmp(a, "--verbose")) g_cfg.verbose = true;
    else if (!strcmp(a, "--dump")) dump = true;
    else if (!strcmp(a, "--hashes")) hashes = true;
    else if (!strcmp(a, "--hashfile")) hashfile = fopen(val(), "wb");
    else if (!strcmp(a, "--aslr")) aslr = true;
    else if (!strcmp(a, "--known")) known = true;
    else { fprintf(stderr, "unknown argument %s\n", a); return 2; }
  }
  const int pers = personality(0xffffffff);
  if (!aslr && pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LCESIM_FIXED")) {
    // equal addresses in every process, as far as the system allows it
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("LCESIM_FIXED", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  signal(SIGTERM, on_term);
#ifdef LCESIM_ARM_HOST
  armsim::load_guest();
  g_cfg.tensor_overread = 32;  // LCE_EXTRA_BYTES
  g_cfg.negative_zero = true;
#endif
  g_res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u64 total[cNumCounters] = {0}, max_ctr[1] = {0};
  (void)max_ctr;
  std::set<u64> sched, shapes, outs;
  const double t0 = now();
  u64 runs = 0, trouble = 0;
  int rc = 0;
  if (known) {  // the recorded findings, as far as they still occur
    for (u64 i = 1; i <= 500 && !g_stop; i++) {
      g_cfg.seed = i;
      run_seed();
      if (!g_res->counters[cNegativeZero]) continue;
      puts("KNOWN negative-zero fails");
      break;
    }
    return 0;
  }
  for (u64 i = 0; i < count_ && now() - t0 < limit && !g_stop; i++) {
    const u64 seed = start + i * stride;
    g_cfg.seed = seed;
    g_cfg.dirt = 0x1234567;
    int st = run_seed();
    runs++;
    if (st == 1 && g_cfg.profile == "C03") {  // the same run over other junk
      const u64 h = g_res->out_hash, n = g_res->counters[cInvokes];
      g_cfg.dirt = mix(seed, 99);
      st = run_seed();
      runs++;
      g_res->counters[cDirtCompares]++;
      if (st == 1 && (g_res->out_hash != h || g_res->counters[cInvokes] != n)) {
        snprintf(g_res->message, sizeof g_res->message, "memory: the same inferences gave other outputs when the memory held other junk before (%016llx, %016llx)", (unsigned long long)h, (unsigned long long)g_res->out_hash);
        g_res->status = st = 2;
      }
    }
    for (int c = 0; c < cNumCounters; c++) total[c] += g_res->counters[c];
    sched.insert(g_res->schedule_hash);
    shapes.insert(g_res->shape_hash);
    outs.insert(g_res->hash);
    if (hashfile) { u64 h[3] = {g_res->hash, g_res->schedule_hash, g_res->shape_hash}; fwrite(h, 1, sizeof h, hashfile); }
    if (st == 3) {
      if (g_stop) break;
      trouble++;
      if (trouble > 5) { print_result(seed, st); return 4; }
      continue;
    }
    if (hashes) print_result(seed, st);
    if (st == 2) { if (!hashes) print_result(seed, st); rc = 1; break; }
  }
  if (hashfile) fclose(hashfile);
  if (dump) for (int c = 0; c < cNumCounters; c++) if (total[c]) printf("COUNT %s %llu\n", kCounterNames[c], (unsigned long long)total[c]);
  printf("SUMMARY runs %llu schedules %zu shapes %zu outcomes %zu trouble %llu wall %.2f\n", (unsigned long long)runs, sched.size(), shapes.size(), outs.size(), (unsigned long long)trouble, now() - t0);
  return rc;
}
