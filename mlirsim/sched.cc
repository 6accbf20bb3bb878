// One thread at a time: the threads MLIR creates become tasks which a seeded
// scheduler switches at lock operations and at the memory accesses of the pass.
// Every pthread primitive the MLIR and C++ libraries use is replaced.
#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <sched.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sched {
namespace {
enum State { kRunnable, kBlocked, kDone };
struct Task {
  sem_t go;
  State state;
  const void* on;
  pthread_t thread;
  void* (*fn)(void*);
  void* arg;
  bool gone;
  pid_t tid;
};
constexpr int kMaxTasks = 256;
Task tasks[kMaxTasks];
int num_tasks = 0;
bool active = false;
thread_local int self = 0;
pthread_key_t exit_key;

struct Lock {
  const void* addr;
  int owner;  // -1 free
  int count;
  int readers;
};
constexpr int kLocks = 1 << 16;
Lock locks[kLocks];

struct Waiter {
  const void* cond;
  int task;
};
Waiter waiters[kMaxTasks];
int num_waiters = 0;
}  // namespace

Config config;
Stats stats;
void (*on_deadlock)(const char*) = nullptr;

namespace {
uint64_t rng_state;
uint64_t Next() {
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Mix(uint64_t v) {
  stats.schedule = (stats.schedule ^ v) * 0x100000001b3ull;
  stats.schedule ^= stats.schedule >> 29;
}

int Pick(bool other) {
  int list[kMaxTasks], n = 0;
  for (int i = 0; i < num_tasks; i++)
    if (tasks[i].state == kRunnable && !(other && i == self)) list[n++] = i;
  if (!n) return -1;
  return list[Next() % n];
}

// What a thread still does after its last step (the C library returns its
// memory) is over before another one goes on.
pid_t leaving = 0;
void Settle() {
  if (!leaving) return;
  pid_t t = leaving;
  leaving = 0;
  while (syscall(SYS_tgkill, getpid(), t, 0) == 0) sched_yield();
}

void SwitchTo(int t) {
  int me = self;
  if (t == me) return;
  sem_post(&tasks[t].go);
  while (sem_wait(&tasks[me].go) != 0) {
  }
  Settle();
}

void Block(const void* on) {
  tasks[self].state = kBlocked;
  tasks[self].on = on;
  int t = Pick(true);
  if (t < 0) {
    on_deadlock("no task can run");
    _exit(9);
  }
  Mix(t * 1000003ull + stats.steps);
  SwitchTo(t);
}

void Wake(const void* on) {
  for (int i = 0; i < num_tasks; i++)
    if (tasks[i].state == kBlocked && tasks[i].on == on) tasks[i].state = kRunnable;
}

Lock& Find(const void* a) {
  size_t h = ((uintptr_t)a >> 3) * 0x9e3779b97f4a7c15ull >> 48;
  for (;;) {
    Lock& l = locks[h & (kLocks - 1)];
    if (l.addr == a) return l;
    if (!l.addr) {
      l.addr = a;
      l.owner = -1;
      return l;
    }
    h++;
  }
}

void Leave(void*) {
  // runs after the destructors of thread_local objects
  if (!active) return;
  tasks[self].state = kDone;
  tasks[self].gone = true;
  Wake(&tasks[self]);
  int t = Pick(true);
  if (t < 0) {
    on_deadlock("the last task ended while others wait");
    _exit(9);
  }
  Mix(t * 7919ull + stats.steps);
  leaving = tasks[self].tid;
  sem_post(&tasks[t].go);
}

void* Entry(void* p) {
  Task* t = (Task*)p;
  self = (int)(t - tasks);
  t->tid = (pid_t)syscall(SYS_gettid);
  while (sem_wait(&t->go) != 0) {
  }
  Settle();
  pthread_setspecific(exit_key, (void*)1);
  return t->fn(t->arg);
}
}  // namespace

void Start(const Config& c) {
  config = c;
  rng_state = c.seed * 0xd1342543de82ef95ull + 12345;
  num_tasks = 1;
  self = 0;
  sem_init(&tasks[0].go, 0, 0);
  tasks[0].state = kRunnable;
  pthread_key_create(&exit_key, Leave);
  active = true;
}

void Stop() { active = false; }

bool Active() { return active; }
int Self() { return self; }

void Point() {
  if (!active) return;
  stats.steps++;
  if (stats.steps > config.max_steps) {
    on_deadlock("no end after the maximal number of steps");
    _exit(9);
  }
  if (num_tasks < 2) return;
  uint64_t r = Next();
  if ((r & 0xffff) >= config.rate) return;
  if (stats.switches >= config.max_switches) return;
  int t = Pick(true);
  if (t < 0) return;
  stats.switches++;
  Mix(t * 1000003ull + stats.steps);
  if (config.verbose) dprintf(2, "    ---- switch from task %d to task %d at step %llu\n", self, t, (unsigned long long)stats.steps);
  SwitchTo(t);
}
}  // namespace sched

using namespace sched;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active) return 0;
  Point();
  for (;;) {
    Lock& l = Find(m);
    if (l.owner == -1 || l.owner == self) {
      l.owner = self;
      l.count++;
      stats.locks++;
      return 0;
    }
    stats.contended++;
    Block(m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active) return 0;
  Point();
  Lock& l = Find(m);
  if (l.owner == -1 || l.owner == self) {
    l.owner = self;
    l.count++;
    return 0;
  }
  return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active) return 0;
  Lock& l = Find(m);
  if (l.owner == self && --l.count <= 0) {
    l.owner = -1;
    l.count = 0;
    Wake(m);
  }
  Point();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!active) return 0;
  Point();
  for (;;) {
    Lock& l = Find(m);
    if (l.owner == -1) {
      l.readers++;
      stats.locks++;
      return 0;
    }
    stats.contended++;
    Block(m);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!active) return 0;
  Point();
  for (;;) {
    Lock& l = Find(m);
    if (l.owner == -1 && l.readers == 0) {
      l.owner = self;
      stats.locks++;
      return 0;
    }
    stats.contended++;
    Block(m);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!active) return 0;
  Lock& l = Find(m);
  if (l.owner == self) l.owner = -1;
  else if (l.readers > 0) l.readers--;
  Wake(m);
  Point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active) return 0;
  waiters[num_waiters++] = {c, self};
  pthread_mutex_unlock(m);
  for (;;) {
    bool waiting = false;
    for (int i = 0; i < num_waiters; i++) waiting |= waiters[i].task == self && waiters[i].cond == c;
    if (!waiting) break;
    if ((Next() & 0xffff) < config.spurious) {  // a wait may end without a signal
      for (int i = 0; i < num_waiters; i++)
        if (waiters[i].task == self) waiters[i] = waiters[--num_waiters];
      stats.spurious++;
      break;
    }
    Block(c);
  }
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  if (!active) return 0;
  pthread_mutex_unlock(m);
  Point();
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!active) return 0;
  int list[kMaxTasks], n = 0;
  for (int i = 0; i < num_waiters; i++)
    if (waiters[i].cond == c) list[n++] = i;
  if (n) {
    int i = list[Next() % n];
    int t = waiters[i].task;
    waiters[i] = waiters[--num_waiters];
    if (tasks[t].state == kBlocked && tasks[t].on == c) tasks[t].state = kRunnable;
  }
  Point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active) return 0;
  for (int i = 0; i < num_waiters;) {
    if (waiters[i].cond == c) waiters[i] = waiters[--num_waiters];
    else i++;
  }
  Wake(c);
  Point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  int* s = (int*)o;
  for (;;) {
    if (*s == 2) return 0;
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
      if (active) Wake(o);
      return 0;
    }
    if (!active) return 0;
    Block(o);
  }
}
int __cxa_guard_acquire(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!active) return 1;
    stats.contended++;
    Block(g);
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  b[0] = 1;
  b[1] = 0;
  if (active) Wake(g);
}
void __cxa_guard_abort(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  b[1] = 0;
  if (active) Wake(g);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (decltype(real))dlsym(RTLD_NEXT, "pthread_create");
  if (!active) return real(t, a, fn, arg);
  if (num_tasks >= kMaxTasks) return EAGAIN;
  Task& n = tasks[num_tasks];
  sem_init(&n.go, 0, 0);
  n.state = kRunnable;
  n.fn = fn;
  n.arg = arg;
  n.gone = false;
  int r = real(&n.thread, a, Entry, &n);
  if (r) return r;
  *t = n.thread;
  num_tasks++;
  stats.threads++;
  Point();
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  static int (*real)(pthread_t, void**) = (decltype(real))dlsym(RTLD_NEXT, "pthread_join");
  if (active)
    for (int i = 1; i < num_tasks; i++)
      if (pthread_equal(tasks[i].thread, t))
        while (!tasks[i].gone) Block(&tasks[i]);
  return real(t, ret);
}

// the memory accesses of the pass
#define ACCESS(n)                                  \
  void __sanitizer_cov_load##n(void*) {            \
    stats.accesses++;                              \
    Point();                                       \
  }                                                \
  void __sanitizer_cov_store##n(void*) {           \
    stats.accesses++;                              \
    Point();                                       \
  }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __sanitizer_cov_trace_pc() {}
}
