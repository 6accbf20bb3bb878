#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <set>

#include "lcesim.h"

extern "C" char __data_start, _end;
extern "C" std::uintptr_t lcesim_global_lo, lcesim_global_hi;  // further global data
std::uintptr_t lcesim_global_lo = 0, lcesim_global_hi = 0;

namespace lcesim {
std::string (*g_where)() = nullptr;
Config g_cfg;
Result* g_res = nullptr;
State g_st;
const char* const kCounterNames[cNumCounters] = {
    "steps", "task_switches", "events", "invokes", "prepares", "input_resizes", "memory_releases", "custom_memory_moves",
    "arena_moves", "tensor_array_moves", "trmuls", "threaded_trmuls", "trmul_tasks", "trmul_blocks", "weight_packs",
    "activation_packs", "cache_hits", "cache_evictions", "cache_clears", "fault_resize_tensor", "fault_add_tensors",
    "fault_operator_new", "fault_ruy_allocation", "fault_arena_commit", "cancelled_invokes", "rejected_prepares",
    "interpreters", "interpreters_destroyed", "fresh_interpreter_comparisons", "oracle_comparisons", "padding_checks",
    "scope_checked_accesses", "allowed_overreads", "dirt_comparisons", "dynamic_resizes", "invalid_models", "recoveries",
    "global_data_accesses", "thread_count_changes", "leak_checks", "fault_during_construction", "absorbed_faults",
    "pack_once_checks", "direct_products", "precedence_checks", "valid_descriptions", "guest_instructions", "guest_calls", "negative_zeros_packed_as_negative"};

static __thread Task* tl_task = nullptr;
Task* self() { return tl_task; }

void trace(const char* fmt, ...) {
  if (!g_cfg.verbose) return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);
  fputc('\n', stderr);
}
void hash_in(u64 v) { g_res->hash = mix64(g_res->hash ^ v); }
void hash_bytes(const void* p, std::size_t n) {
  u64 h = g_res->hash;
  const unsigned char* c = (const unsigned char*)p;
  for (std::size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  g_res->hash = mix64(h ^ n);
}
void violation(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (g_res->status == 0) {
    vsnprintf(g_res->message, sizeof g_res->message, fmt, ap);
    g_res->status = 2;
  }
  va_end(ap);
  trace("VIOLATION %s", g_res->message);
  _exit(77);
}
void machine_trouble(const char* why, unsigned insn, const char* where) {
  snprintf(g_res->message, sizeof g_res->message, "%s: %08x at %s", why, insn, where);
  _exit(4);
}
void finish_ok() {
  g_res->status = 1;
  _exit(0);
}

// ------------------------------------------------------------------ pools
static unsigned char* g_shadow = nullptr;  // of the heap pool: 1 = live byte
static std::uintptr_t g_arena_next = kArenaBase, g_const_next = kConstBase, g_heap_next = kHeapBase;
static u64 g_dirt = 0x1234567;
static std::map<std::uintptr_t, std::size_t>* g_blocks;  // live heap blocks
static std::map<std::size_t, std::vector<std::uintptr_t>>* g_free;
static std::size_t g_live_bytes = 0;

void init_pools() {
  void* p = mmap((void*)kPoolBase, kPoolEnd - kPoolBase, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)kPoolBase) { fprintf(stderr, "cannot map the pools\n"); _exit(2); }
  g_shadow = (unsigned char*)mmap(nullptr, kHeapSize, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_blocks = new std::map<std::uintptr_t, std::size_t>;
  g_free = new std::map<std::size_t, std::vector<std::uintptr_t>>;
}
void set_dirt(u64 seed) { g_dirt = mix64(seed) | 1; }
void dirty(void* p, std::size_t n) {
  unsigned char* c = (unsigned char*)p;
  u64 x = g_dirt;
  std::size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    memcpy(c + i, &x, 8);
  }
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  for (u64 y = x; i < n; i++, y >>= 8) c[i] = (unsigned char)y;
  g_dirt = x;
}
char* arena_alloc(std::size_t bytes, Rng& rng) {
  std::uintptr_t a = g_arena_next + 64 * rng.below(64);
  a = (a + 63) & ~(std::uintptr_t)63;
  if (a + bytes + 4096 > kConstBase) { trace("arena pool exhausted, the run ends here"); finish_ok(); }
  g_arena_next = a + bytes + 256;
  std::size_t slack = 128;
  char* p = (char*)a;
  dirty(p, bytes + slack);
  return p;
}
char* const_alloc(std::size_t bytes) {
  std::uintptr_t a = (g_const_next + 63) & ~(std::uintptr_t)63;
  if (a + bytes + 4096 > kHeapBase) { fprintf(stderr, "const pool exhausted\n"); _exit(2); }
  g_const_next = a + bytes + 64;
  dirty((char*)a, bytes + 64);
  return (char*)a;
}
std::size_t const_mark() { return g_const_next; }
void const_reset(std::size_t m) { g_const_next = m; }
bool in_heap(const void* p) { return (std::uintptr_t)p >= kHeapBase && (std::uintptr_t)p < kPoolEnd; }
void* heap_alloc(std::size_t bytes, int) {
  const std::size_t n = bytes ? bytes : 1;
  std::uintptr_t a = 0;
  if (g_st.knobs.heap_reuse) {
    auto it = g_free->find((n + 15) & ~(std::size_t)15);
    if (it != g_free->end() && !it->second.empty()) { a = it->second.back(); it->second.pop_back(); }
  }
  if (!a) {
    a = g_heap_next + 32;
    g_heap_next = a + ((n + 15) & ~(std::size_t)15);
    if (g_heap_next + 64 > kPoolEnd) { fprintf(stderr, "heap pool exhausted\n"); _exit(2); }
  }
  memset(g_shadow + (a - kHeapBase), 1, n);
  (*g_blocks)[a] = n;
  g_live_bytes += n;
  dirty((void*)a, n);
  return (void*)a;
}
void heap_free(void* p) {
  if (!p) return;
  std::uintptr_t a = (std::uintptr_t)p;
  auto it = g_blocks->find(a);
  if (it == g_blocks->end()) violation("crash: free of an address that is not a live heap block (double free?)");
  std::size_t n = it->second;
  g_blocks->erase(it);
  g_live_bytes -= n;
  memset(g_shadow + (a - kHeapBase), 0, n);
  dirty(p, n);
  if (g_st.knobs.heap_reuse) (*g_free)[(n + 15) & ~(std::size_t)15].push_back(a);
}
std::size_t heap_live_blocks() { return g_blocks->size(); }
std::size_t heap_live_bytes() { return g_live_bytes; }

// ------------------------------------------------------------------ tasks
static std::vector<Task*> g_all, g_tasks;  // by identity; still alive
static int g_runnable = 1;
static u64 g_countdown = ~0ull;
static bool g_multi = false;
bool multi() { return g_multi; }
static void futex_wait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void futex_wake(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void redraw() {
  u64 m = g_st.knobs.preempt_mean;
  if (!m || g_res->counters[cSwitches] >= g_cfg.max_switches) { g_countdown = ~0ull; return; }
  // geometric-like spacing, so that every step can be a preemption point
  u64 v = 1;
  double u = g_st.sched.uniform();
  double x = -__builtin_log(1.0 - u) * (double)m;
  v += (u64)x;
  g_countdown = v;
}
static void switch_to(Task* next) {
  Task* me = tl_task;
  if (next == me) return;
  count(cSwitches);
  g_res->schedule_hash = mix64(g_res->schedule_hash ^ ((u64)next->id << 48) ^ g_res->counters[cSteps]);
  redraw();
  bool fin = me->finished;
  futex_wake(&next->go);
  if (!fin) futex_wait(&me->go);
}
static Task* choose(bool allow_self) {
  Task* cand[256];
  int n = 0;
  for (Task* t : g_tasks) {
    if (t->finished || t->spin) continue;
    if (t == tl_task && !allow_self) continue;
    if (t->pred && !t->pred()) continue;
    if (n < 256) cand[n++] = t;
  }
  if (!n) return nullptr;
  return cand[g_st.sched.below(n)];
}
static void preempt() {
  if (!g_multi || g_res->counters[cSwitches] >= g_cfg.max_switches) { redraw(); return; }
  Task* t = choose(false);
  redraw();
  if (t) switch_to(t);
}
void yield_now() {
  if (g_multi && tl_task && g_st.knobs.preempt_mean) preempt();
}
static void block() {  // the current task cannot go on
  Task* t = choose(true);
  if (!t) violation("deadlock: no task can make progress");
  if (t != tl_task) switch_to(t);
}
void wait_until(std::function<bool()> pred) {
  if (pred()) return;
  Task* me = tl_task;
  me->pred = pred;
  while (!pred()) block();
  me->pred = nullptr;
}
void wake_spinners() { for (Task* t : g_tasks) t->spin = 0; }
static void* task_main(void* p) {
  Task* t = (Task*)p;
  tl_task = t;
  futex_wait(&t->go);
  t->fn();
  t->finished = true;
  t->in_op = 0;
  g_runnable--;
  g_multi = g_runnable > 1;
  wake_spinners();
  Task* n = choose(false);
  if (!n) violation("deadlock: no task can make progress after a task ended");
  switch_to(n);
  return nullptr;
}
int spawn(std::function<void()> fn) {
  Task* t = new Task;
  t->id = (int)g_all.size();
  t->fn = fn;
  if (tl_task) { t->scope = tl_task->scope; t->in_op = 0; }
  g_all.push_back(t);
  g_tasks.push_back(t);
  g_runnable++;
  g_multi = true;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 * 1024);
  pthread_t th;
  if (pthread_create(&th, &at, task_main, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(2); }
  t->thread = th;
  count(cTasks);
  if (g_countdown == ~0ull) redraw();
  return t->id;
}
void join(int id) {
  Task* t = g_all[id];
  wait_until([t] { return t->finished; });
  pthread_join((pthread_t)t->thread, nullptr);
  g_tasks.erase(std::find(g_tasks.begin(), g_tasks.end(), t));
  g_all[id] = nullptr;
  delete t;
}
void run_main(std::function<void()> fn) {
  Task* t = new Task;
  g_all.push_back(t);
  g_tasks.push_back(t);
  tl_task = t;
  redraw();
  fn();
}
OpSection::OpSection(OpScope* s) {
  Task* t = tl_task;
  prev_ = t->scope;
  prev_in_ = t->in_op;
  t->scope = s;
  t->in_op = 1;
  t->last_range = 0;
}
OpSection::~OpSection() {
  Task* t = tl_task;
  t->scope = prev_;
  t->in_op = prev_in_;
}
SimSection::SimSection() {
  Task* t = tl_task;
  prev_in_ = t ? t->in_op : 0;
  if (t) t->in_op = 0;
}
SimSection::~SimSection() {
  if (tl_task) tl_task->in_op = prev_in_;
}

// ------------------------------------------------------------------ accesses
static bool data_access(std::uintptr_t a, std::size_t n, bool w, Task* t) {
  OpScope* s = t->scope;
  if (!s) return true;
  if (a >= s->filter_lo && a < s->filter_hi) s->filter_reads++;
  if (!g_st.knobs.scope_checks) return true;
  count(cScopeChecks);
  const std::size_t k = s->ranges.size();
  const unsigned need = w ? kW : kR;
  bool over = false;
  for (std::size_t j = 0; j < k; j++) {
    std::size_t i = t->last_range + j;
    if (i >= k) i -= k;
    const Range& r = s->ranges[i];
    if (!(r.flags & need) || a < r.lo) continue;
    if (a + n <= r.hi) { t->last_range = i; return true; }
    if (!w && a + n <= r.hi + g_cfg.tensor_overread) over = true;
  }
  if (over) { count(cOverreads); return true; }
  return false;
}
static void __attribute__((noinline)) pool_access(std::uintptr_t a, std::size_t n, bool w, Task* t) {
  if (a >= kHeapBase) {
    const unsigned char* sh = g_shadow + (a - kHeapBase);
    for (std::size_t i = 0; i < n; i++)
      if (!sh[i]) {
        t->in_op = 0;
        char near[96] = "";
        auto it = g_blocks->upper_bound(a);
        if (it != g_blocks->begin()) {
          --it;
          snprintf(near, sizeof near, ", %ld bytes after the start of a block of %zu", (long)(a - it->first), it->second);
        }
        violation("crash: operator %s of %zu bytes of heap memory it does not own (freed or out of bounds) in %s%s%s%s",
                  w ? "writes" : "reads", n, t->scope ? t->scope->op : "?", near, g_where ? " at " : "", g_where ? g_where().c_str() : "");
      }
    return;
  }
  if (!data_access(a, n, w, t)) {
    t->in_op = 0;
    std::string where;
    char buf[160];
    for (auto& r : t->scope->ranges) {
      snprintf(buf, sizeof buf, " [tensor %d: %+ld..%+ld %s]", r.what, (long)(r.lo - a), (long)(r.hi - a), r.flags & kW ? "rw" : "r");
      where += buf;
    }
    violation("memory: %s %s %zu bytes outside its tensors; tensors relative to the address:%s", t->scope->op,
              w ? "writes" : "reads", n, where.c_str());
  }
}
static inline void on_access(std::uintptr_t a, std::size_t n, bool w) {
  Task* t = tl_task;
  if (!t || !t->in_op) return;
  u64 st = ++g_res->counters[cSteps];
  if (__builtin_expect(st > g_cfg.step_limit, 0)) { t->in_op = 0; violation("no progress: more than %llu memory steps in one run", (unsigned long long)g_cfg.step_limit); }
  if (a >= kPoolBase && a < kPoolEnd) {
    pool_access(a, n, w, t);
  } else if ((a >= (std::uintptr_t)&__data_start && a < (std::uintptr_t)&_end) || (a >= lcesim_global_lo && a < lcesim_global_hi)) {
    count(cGlobalAccess);
    if (g_multi && g_st.knobs.preempt_globals && g_st.sched.chance(1, 3)) preempt();
  }
  if (__builtin_expect(g_multi && --g_countdown == 0, 0)) preempt();
}
}  // namespace lcesim
using namespace lcesim;

// ------------------------------------------------------------------ compiler callbacks
extern "C" {
void lcesim_access(std::uintptr_t a, std::size_t n, bool w) { on_access(a, n, w); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(N) \
  void __tsan_read##N(void* p) { on_access((std::uintptr_t)p, N, false); } \
  void __tsan_write##N(void* p) { on_access((std::uintptr_t)p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { on_access((std::uintptr_t)p, N, false); } \
  void __tsan_unaligned_write##N(void* p) { on_access((std::uintptr_t)p, N, true); } \
  void __tsan_read_write##N(void* p) { on_access((std::uintptr_t)p, N, true); } \
  void __tsan_unaligned_read_write##N(void* p) { on_access((std::uintptr_t)p, N, true); } \
  void __tsan_volatile_read##N(void* p) { on_access((std::uintptr_t)p, N, false); } \
  void __tsan_volatile_write##N(void* p) { on_access((std::uintptr_t)p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { on_access((std::uintptr_t)p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { on_access((std::uintptr_t)p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void*) { on_access((std::uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { on_access((std::uintptr_t)p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { if (n) on_access((std::uintptr_t)p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) on_access((std::uintptr_t)p, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  if (n) { on_access((std::uintptr_t)s, n, false); on_access((std::uintptr_t)d, n, true); }
  return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  if (n) { on_access((std::uintptr_t)s, n, false); on_access((std::uintptr_t)d, n, true); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  if (n) on_access((std::uintptr_t)d, n, true);
  return memset(d, c, n);
}
typedef std::uint8_t a8; typedef std::uint16_t a16; typedef std::uint32_t a32; typedef std::uint64_t a64;
#define AT(N) \
  a##N __tsan_atomic##N##_load(const volatile a##N* p, int) { on_access((std::uintptr_t)p, N / 8, false); yield_now(); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##N##_store(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); __atomic_store_n(p, v, 5); wake_spinners(); yield_now(); } \
  a##N __tsan_atomic##N##_exchange(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_exchange_n(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_add(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_add(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_sub(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_sub(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_and(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_and(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_or(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_or(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_xor(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_xor(p, v, 5); } \
  a##N __tsan_atomic##N##_fetch_nand(volatile a##N* p, a##N v, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile a##N* p, a##N* e, a##N v, int, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile a##N* p, a##N* e, a##N v, int, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N* p, a##N e, a##N v, int, int) { on_access((std::uintptr_t)p, N / 8, true); yield_now(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int) { yield_now(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ blocking primitives
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
static bool simulated() { Task* t = lcesim::self(); return t && t->in_op && multi(); }
static void spin_wait() {
  lcesim::self()->spin = 1;
  block();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simulated()) return __real_pthread_mutex_lock(m);
  yield_now();
  while (__real_pthread_mutex_trylock(m)) spin_wait();
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (simulated()) yield_now(); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  if (simulated()) { wake_spinners(); yield_now(); }
  return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!simulated()) return __real_pthread_rwlock_rdlock(m);
  yield_now();
  while (pthread_rwlock_tryrdlock(m)) spin_wait();
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!simulated()) return __real_pthread_rwlock_wrlock(m);
  yield_now();
  while (pthread_rwlock_trywrlock(m)) spin_wait();
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  int r = __real_pthread_rwlock_unlock(m);
  if (simulated()) { wake_spinners(); yield_now(); }
  return r;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  // 0 fresh, 1 running, 2 done
  while (true) {
    if (*o == 2) return 0;
    if (*o == 0) break;
    if (simulated()) spin_wait();
  }
  *o = 1;
  try { f(); } catch (...) { *o = 0; wake_spinners(); throw; }
  *o = 2;
  wake_spinners();
  return 0;
}
int __wrap___cxa_guard_acquire(std::uint64_t* g) {
  volatile char* c = (volatile char*)g;
  if (simulated()) yield_now();
  while (true) {
    if (c[0]) return 0;
    if (!c[1]) break;
    if (simulated()) spin_wait();
  }
  c[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(std::uint64_t* g) {
  volatile char* c = (volatile char*)g;
  c[0] = 1;
  c[1] = 0;
  wake_spinners();
}
void __wrap___cxa_guard_abort(std::uint64_t* g) {
  ((volatile char*)g)[1] = 0;
  wake_spinners();
}
void lcesim_check_failed(const char* file, int line, const char* cond) {
  SimSection s;
  const char* b = strrchr(file, '/');
  violation("crash: an internal check of the operators failed at %s:%d: %s", b ? b + 1 : file, line, cond);
}
void lcesim_log(int, const char* text) { SimSection s; trace("log: %s", text); }
}  // extern "C"

// ------------------------------------------------------------------ heap seam
static void* sim_new(std::size_t n, bool nothrow) {
  Task* t = lcesim::self();
  if (t && t->in_op) {
    SimSection s;
    if (n > (std::size_t)1 << 26) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    long& f = g_st.faults.new_in;
    if (f >= 0 && f-- == 0) {
      g_st.faults.fired = true;
      count(cFaultNew);
      trace("  fault: operator new(%zu) fails", n);
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    return heap_alloc(n, 0);
  }
  void* p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void sim_delete(void* p) {
  if (!p) return;
  if (in_heap(p)) { SimSection s; heap_free(p); return; }
  free(p);
}
void* operator new(std::size_t n) { return sim_new(n, false); }
void* operator new[](std::size_t n) { return sim_new(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
