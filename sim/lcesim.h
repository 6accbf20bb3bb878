// Core of the deterministic simulator: randomness, memory pools, heap and
// allocation faults, tasks and preemption, run records.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace lcesim {
typedef std::uint64_t u64;
inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix64(a ^ mix64(b)); }
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  int pick(std::initializer_list<int> v) { return v.begin()[below(v.size())]; }
  double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- memory pools at fixed addresses ----
constexpr std::uintptr_t kPoolBase = 0x200000000000ull;
constexpr std::size_t kArenaSize = 512u << 20, kConstSize = 64u << 20, kHeapSize = 128u << 20;
constexpr std::uintptr_t kArenaBase = kPoolBase, kConstBase = kPoolBase + kArenaSize, kHeapBase = kConstBase + kConstSize;
constexpr std::uintptr_t kPoolEnd = kHeapBase + kHeapSize;
void init_pools();
char* arena_alloc(std::size_t bytes, Rng& rng);  // a fresh dirty block somewhere
char* const_alloc(std::size_t bytes);            // model bytes; followed by dirt
std::size_t const_mark();
void const_reset(std::size_t mark);
void* heap_alloc(std::size_t bytes, int owner);
void heap_free(void* p);
bool in_heap(const void* p);
std::size_t heap_live_blocks();
std::size_t heap_live_bytes();
void dirty(void* p, std::size_t n);              // fill with junk of the current dirt stream
void set_dirt(u64 seed);

// ---- scope of an operator invocation ----
enum { kR = 1, kW = 2 };
struct Range { std::uintptr_t lo, hi; unsigned flags; int what; };
struct OpScope {
  std::vector<Range> ranges;
  const char* op = "";
  std::uintptr_t filter_lo = 0, filter_hi = 0;
  u64 filter_reads = 0;
  u64 overreads = 0;
};

// ---- tasks ----
struct Task {
  int id = 0;
  int go = 0;
  bool finished = false;
  int spin = 0;
  int in_op = 0;
  OpScope* scope = nullptr;
  std::function<void()> fn;
  std::function<bool()> pred;
  unsigned long thread = 0;
  std::size_t last_range = 0;
};
Task* self();
int spawn(std::function<void()> fn);  // inherits scope and in_op
void yield_now();                     // an explicit scheduling point
void wait_until(std::function<bool()> pred);
void join(int id);
void run_main(std::function<void()> fn);  // the calling thread becomes task 0
void wake_spinners();
bool multi();
struct OpSection {  // code of the operators runs inside
  explicit OpSection(OpScope* s);
  ~OpSection();
  OpScope* prev_;
  int prev_in_;
};
struct SimSection {  // the simulator called back from an operator
  SimSection();
  ~SimSection();
  int prev_in_;
};

// ---- the run ----
enum Counter {
  cSteps, cSwitches, cEvents, cInvokes, cPrepares, cResizes, cReleases, cCustomMoves, cArenaMoves, cTensorMoves,
  cTrMuls, cThreadedTrMuls, cTasks, cBlocks, cPacksLhs, cPacksRhs, cCacheHits, cCacheEvictions, cCacheClears,
  cFaultResize, cFaultAddTensors, cFaultNew, cFaultRuyAlloc, cFaultArena, cCancels, cRejected, cInterpreters, cDestroys,
  cFreshCompares, cOracleCompares, cPadChecks, cScopeChecks, cOverreads, cDirtCompares, cDynamicResizes,
  cInvalidModels, cRecoveries, cGlobalAccess, cThreadChanges, cLeakChecks, cFaultBuild, cAbsorbedFaults, cPackChecks,
  cDirectProducts, cPrecedence, cValidModels, cGuestInstructions, cGuestCalls, cNegativeZero, cNumCounters
};
extern const char* const kCounterNames[cNumCounters];
struct Result {  // lives in shared memory
  volatile int status;  // 0 running, 1 done, 2 violation
  u64 counters[cNumCounters];
  u64 hash, schedule_hash, shape_hash, out_hash;
  u64 max_switch;
  char message[4000];
  char extra[8000];
};
struct Config {
  u64 seed = 1;
  std::string profile;
  u64 max_switches = ~0ull;      // reduction: no voluntary preemption after this many
  std::vector<int> dropped;      // reduction: events left out
  bool verbose = false;
  u64 dirt = 0x1234567;          // initial junk in all memory
  u64 step_limit = 80000000ull;
  long tensor_overread = 16;     // LCE_EXTRA_BYTES: how far past a tensor reads may reach
  bool negative_zero = false;    // packing may take -0.0 for negative (a known finding on Arm)
};
extern Config g_cfg;
extern Result* g_res;
inline void count(Counter c, u64 n = 1) { g_res->counters[c] += n; }
void hash_in(u64 v);
void hash_bytes(const void* p, std::size_t n);
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
extern std::string (*g_where)();  // where the simulated processor is, if there is one
[[noreturn]] void machine_trouble(const char* why, unsigned insn, const char* where);  // the simulator lacks something
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- fault seams ----
struct Faults {
  long new_in = -1;        // the n-th allocation from now in operator code fails
  long resize_in = -1;     // the n-th ResizeTensor fails
  long add_in = -1;        // the n-th AddTensors fails
  long ruy_in = -1;        // the n-th ruy allocation fails
  long arena_in = -1;      // the n-th arena commit fails
  long cancel_in = -1;     // cancel before the n-th operator
  bool fired = false;
  void clear() { *this = Faults(); }
};
struct Knobs {
  bool scope_checks = false;      // data accesses confined to the operator's tensors
  bool relocate_tensors = true;
  bool heap_reuse = false;
  u64 preempt_mean = 0;           // 0: no voluntary preemption
  bool preempt_globals = false;
  int fat_kernel = 1;
  bool threads_os = false;        // TrMul tasks on simulated threads
  bool single_block = false;      // plain whole-matrix TrMul
  std::size_t cache_bytes = 0;
  u64 evict_permille = 0;
  bool check_packs = false;
};
struct State {
  Faults faults;
  Knobs knobs;
  Rng sched{1}, place{1}, ruy{1};
  bool armed_tasks = false;
};
extern State g_st;
struct InjectedFailure {};
}  // namespace lcesim
