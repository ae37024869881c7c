// Scheduler: simulated threads are real threads parked and released one at a
// time. Code of the repository is compiled with -fsanitize=thread and linked
// against the __tsan_* functions below instead of libtsan, so every memory
// access and atomic operation of it is a possible preemption point.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <vector>

#include "rt_internal.h"
#include "sim.h"

extern "C" char _end;
namespace sim {
namespace rtinternal {
volatile bool sim_active = false;

namespace {
long RawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

struct Thread {
  int id = 0;
  pthread_t pt{};
  volatile int wake = 0;
  bool done = false;
  bool blocked = false;
  bool timed = false;      // a timed wait: may be resumed by the clock
  bool timed_out = false;
  uint64_t stalled_until = 0;
  std::function<bool()> ready;
  std::function<void()> fn;
  void* (*start)(void*) = nullptr;  // intercepted pthread_create
  void* arg = nullptr;
  void* ret = nullptr;
};

std::vector<Thread*>* g_threads;
Thread* g_self = nullptr;  // the only thread that runs
uint64_t g_steps = 0;
uint64_t g_step_limit = 60000000;
int64_t g_countdown = INT64_MAX;
int g_alive = 0;
int g_policy = 0;
int64_t g_gap = 0;
int g_preempt_budget = 0;
int g_hot_budget = 0;
int g_hot_den = 0;
int g_parallelism = 4;
bool g_stalls = false;
uint64_t g_events = 0;
uint64_t g_clock_jump = 0;  // simulated sleeps

struct Shadow {
  uintptr_t granule;
  int tid;
  bool write;
};
constexpr int kShadow = 1 << 15;
Shadow g_shadow[kShadow];
constexpr int kHot = 1 << 12;
bool g_hot_pc[kHot];
bool g_hot_addr[kHot];

void ParkUntilMine(Thread* t) {
  while (__atomic_load_n(&t->wake, __ATOMIC_ACQUIRE) == 0)
    RawSyscall(SYS_futex, (long)&t->wake, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->wake = 0;
}
void Release(Thread* t) {
  __atomic_store_n(&t->wake, 1, __ATOMIC_RELEASE);
  RawSyscall(SYS_futex, (long)&t->wake, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

bool Eligible(Thread* t) {
  if (t->done) return false;
  if (t->blocked && !(t->ready && t->ready())) return false;
  return true;
}

void HashSwitch(int to) {
  uint64_t x[3] = {g_steps, (uint64_t)(g_self ? g_self->id : -1), (uint64_t)to};
  g_shared->trace_hash = HashBytes(x, sizeof(x), g_shared->trace_hash);
  if (g_shared->switches++ < 400) {
    char buf[96];
    snprintf(buf, sizeof(buf), "step %llu: thread %d -> thread %d", (unsigned long long)g_steps,
             g_self ? g_self->id : -1, to);
    uint64_t keep = g_shared->trace_hash;
    Log("%s", buf);
    g_shared->trace_hash = keep;
  }
}

void SwitchTo(Thread* t) {
  if (t == g_self) return;
  HashSwitch(t->id);
  Thread* me = g_self;
  g_self = t;
  bool gone = me->done;
  Release(t);
  // A finished thread never runs again: anything it still did (freeing its
  // thread-local state, say) would be outside the schedule.
  if (gone) for (;;) RawSyscall(SYS_pause, 0, 0, 0, 0, 0, 0);
  ParkUntilMine(me);
}

void ArmCountdown() {
  if (g_preempt_budget <= 0 || g_gap == 0) {
    g_countdown = INT64_MAX;
    return;
  }
  uint64_t d = Draw(kSched, 2 * g_gap);
  g_countdown = d == 0 ? INT64_MAX : (int64_t)d;
}

struct Cand {
  Thread* v[600];
  int n = 0;
  bool empty() const { return n == 0; }
  int size() const { return n; }
  void push_back(Thread* t) { if (n < 600) v[n++] = t; }
  Thread* operator[](uint64_t i) const { return v[i]; }
};

// Picks who runs next. `can_stay`: the running thread may continue.
void Reschedule(bool can_stay, bool prefer_other) {
  static Cand c;  // no allocation on the scheduler's own path
  c.n = 0;
  for (int pass = 0; pass < 2 && c.empty(); ++pass) {
    for (Thread* t : *g_threads) {
      if (t == g_self && (!can_stay || prefer_other)) continue;
      if (pass == 0 && t->stalled_until > g_steps) continue;
      if (Eligible(t)) c.push_back(t);
    }
  }
  if (c.empty() && can_stay) return;
  if (c.empty()) {
    for (Thread* t : *g_threads) {
      if (!t->done && t->blocked && t->timed) {  // nothing runnable: time passes
        t->timed_out = true;
        c.push_back(t);
        break;
      }
    }
  }
  if (c.empty()) {
    bool all_done = true;
    for (Thread* t : *g_threads) all_done &= t->done;
    if (all_done) return;
    Violation("deadlock", "no simulated thread can make progress");
  }
  Thread* t = c[Draw(kSched, c.size())];
  t->blocked = false;
  SwitchTo(t);
}

void BlockUntil(std::function<bool()> ready, bool timed = false) {
  Thread* me = g_self;
  me->blocked = true;
  me->timed = timed;
  me->timed_out = false;
  me->ready = std::move(ready);
  Reschedule(false, true);
  me->blocked = false;
  me->ready = nullptr;
}

void MaybeStall() {
  if (!g_stalls || g_self->id == 0) return;
  if (Draw(kFault, 4) == 3) {
    g_self->stalled_until = g_steps + (1 + Draw(kFault, 50)) * 400;
    Count("stalled thread", 1, 1);
    Reschedule(true, true);
  }
}

char* g_stacks = nullptr;
constexpr size_t kStack = 2 << 20;
int g_nstacks = 0;

void* ThreadMain(void* p) {
  Thread* t = static_cast<Thread*>(p);
  ParkUntilMine(t);
  MaybeStall();
  if (t->start) t->ret = t->start(t->arg); else t->fn();
  t->done = true;
  --g_alive;
  ++g_events;
  g_self = t;
  Reschedule(false, true);
  return nullptr;
}

int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);
int (*real_detach)(pthread_t);
int (*real_mlock)(pthread_mutex_t*);
int (*real_mtrylock)(pthread_mutex_t*);
int (*real_munlock)(pthread_mutex_t*);
int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*real_ctimed)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int (*real_cclock)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int (*real_csignal)(pthread_cond_t*);
int (*real_cbroadcast)(pthread_cond_t*);
int (*real_rd)(pthread_rwlock_t*);
int (*real_wr)(pthread_rwlock_t*);
int (*real_tryrd)(pthread_rwlock_t*);
int (*real_trywr)(pthread_rwlock_t*);
int (*real_rwun)(pthread_rwlock_t*);
int (*real_once)(pthread_once_t*, void (*)(void));
int (*real_yield)(void);
int (*real_nanosleep)(const struct timespec*, struct timespec*);

template <typename T>
void Sym(T* f, const char* name, const char* ver = nullptr) {
  if (*f) return;
  void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, name);
  *f = reinterpret_cast<T>(p);
}
__attribute__((constructor(101))) void InitSyms() {
  Sym(&real_create, "pthread_create");
  Sym(&real_join, "pthread_join");
  Sym(&real_detach, "pthread_detach");
  Sym(&real_mlock, "pthread_mutex_lock");
  Sym(&real_mtrylock, "pthread_mutex_trylock");
  Sym(&real_munlock, "pthread_mutex_unlock");
  Sym(&real_cwait, "pthread_cond_wait", "GLIBC_2.3.2");
  Sym(&real_ctimed, "pthread_cond_timedwait", "GLIBC_2.3.2");
  Sym(&real_cclock, "pthread_cond_clockwait");
  Sym(&real_csignal, "pthread_cond_signal", "GLIBC_2.3.2");
  Sym(&real_cbroadcast, "pthread_cond_broadcast", "GLIBC_2.3.2");
  Sym(&real_rd, "pthread_rwlock_rdlock");
  Sym(&real_wr, "pthread_rwlock_wrlock");
  Sym(&real_tryrd, "pthread_rwlock_tryrdlock");
  Sym(&real_trywr, "pthread_rwlock_trywrlock");
  Sym(&real_rwun, "pthread_rwlock_unlock");
  Sym(&real_once, "pthread_once");
  Sym(&real_yield, "sched_yield");
  Sym(&real_nanosleep, "nanosleep");
}

Thread* NewThread() {
  Thread* t = new Thread;
  t->id = static_cast<int>(g_threads->size());
  g_threads->push_back(t);
  ++g_alive;
  if (g_alive > 64) HarnessError("more than 64 simulated threads alive");
  pthread_attr_t a;
  pthread_attr_init(&a);
  if (g_stacks == nullptr) {
    g_stacks = static_cast<char*>(mmap(reinterpret_cast<void*>(0x300000000000ull), kStack * 512,
                                       PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (g_stacks == MAP_FAILED) HarnessError("cannot map stacks");
  }
  if (g_nstacks >= 512) HarnessError("too many simulated threads");
  char* st = g_stacks + kStack * g_nstacks++;
  FillGarbage(st + kStack - (96 << 10), 96 << 10);
  pthread_attr_setstack(&a, st, kStack);
  int rc = real_create(&t->pt, &a, ThreadMain, t);
  if (rc) HarnessError("pthread_create: %d", rc);
  pthread_attr_destroy(&a);
  return t;
}

bool Reproducible(uintptr_t a) {
  static const uintptr_t image_end = reinterpret_cast<uintptr_t>(&_end);
  return a < image_end || (a >= 0x200000000000ull && a < 0x400000000000ull);
}
FILE* g_access_log = nullptr;  // debugging aid: WODSIM_ACCESS_LOG=file

void Access(const void* addr, bool write, const void* pc) {
  if (g_access_log) fprintf(g_access_log, "%p %p %d\n", pc, addr, write);
  if (++g_steps > g_step_limit)
    Violation("no-progress", "more than %llu steps in one run", (unsigned long long)g_step_limit);
  if (g_alive < 2) return;
  // Addresses the loader or the kernel picked are not reproducible; only the
  // arena, the simulated stacks and the program's own data take part.
  if (g_hot_den && Reproducible(reinterpret_cast<uintptr_t>(addr))) {
    uintptr_t g = reinterpret_cast<uintptr_t>(addr) >> 3;
    Shadow& s = g_shadow[(g * 0x9E3779B1u) >> 7 & (kShadow - 1)];
    unsigned hp = (reinterpret_cast<uintptr_t>(pc) * 0x9E3779B1u) >> 5 & (kHot - 1);
    unsigned ha = (g * 0x85EBCA6Bu) >> 5 & (kHot - 1);
    int me = g_self->id;
    if (s.granule == g) {
      if (s.tid != me && (write || s.write)) {
        if (!g_hot_pc[hp]) Count("conflicting accesses seen by two threads", 1, 0);
        g_hot_pc[hp] = true;
        g_hot_addr[ha] = true;
      }
      s.write = (s.tid == me && s.write) || write;
      s.tid = me;
    } else {
      s.granule = g;
      s.tid = me;
      s.write = write;
    }
    if (g_hot_budget > 0 && (g_hot_pc[hp] || g_hot_addr[ha])) {
      --g_hot_budget;
      if (Draw(kSched, g_hot_den) == (uint64_t)g_hot_den - 1) {
        Count("preemption at a conflicting access", 1, 0);
        Reschedule(true, true);
        return;
      }
    }
  }
  if (--g_countdown <= 0) {
    --g_preempt_budget;
    Reschedule(true, true);
    Count("preemption at a memory access", 1, 0);
    ArmCountdown();
  }
}
}  // namespace

void OnAccess(const void* addr, unsigned size, bool write, const void* pc) {
  (void)size;
  Access(addr, write, pc);
}
}  // namespace rtinternal
using namespace rtinternal;

bool InSim() { return sim_active; }
int SelfId() { return g_self ? g_self->id : -1; }
uint64_t Steps() { return g_steps; }
int DrawnParallelism() { return g_parallelism; }
void YieldPoint() {
  if (sim_active && g_alive > 1) Reschedule(true, true);
}

void Simulate(const std::function<void()>& main) {
  g_threads = new std::vector<Thread*>;
  Thread* t = new Thread;
  g_threads->push_back(t);
  t->pt = pthread_self();
  g_alive = 1;
  g_self = t;
  g_policy = Draw(kSched, 6);
  static const int kGaps[] = {3, 17, 90, 500, 3000, 20000};
  g_gap = 0;
  g_hot_den = 0;
  g_preempt_budget = 0;
  g_hot_budget = 0;
  memset(g_shadow, 0, sizeof(g_shadow));
  memset(g_hot_pc, 0, sizeof(g_hot_pc));
  memset(g_hot_addr, 0, sizeof(g_hot_addr));
  switch (g_policy) {
    case 0: break;  // a thread runs until it blocks
    case 1: case 2:
      g_gap = kGaps[Draw(kSched, 6)];
      g_preempt_budget = 3000;
      break;
    case 3:  // few, placed anywhere
      g_gap = kGaps[2 + Draw(kSched, 4)];
      g_preempt_budget = 1 + Draw(kSched, 6);
      break;
    case 4:
      g_hot_den = 2 + Draw(kSched, 6);
      g_hot_budget = 4000;
      break;
    case 5:
      g_gap = kGaps[Draw(kSched, 6)];
      g_preempt_budget = 1500;
      g_hot_den = 2 + Draw(kSched, 6);
      g_hot_budget = 3000;
      break;
  }
  g_parallelism = 1 + Draw(kSched, 8);
  g_stalls = Draw(kFault, 3) == 2;
  ArmCountdown();
  if (getenv("WODSIM_ACCESS_LOG")) g_access_log = fopen(getenv("WODSIM_ACCESS_LOG"), "w");
  sim_active = true;
  main();
  if (g_access_log) fflush(g_access_log);
  // Anything still running must finish (nothing may outlive the run).
  for (;;) {
    bool all = true;
    for (Thread* x : *g_threads) all &= x == g_self || x->done;
    if (all) break;
    Count("thread outlived the call that started it", 1, 0);
    BlockUntil([] {
      for (Thread* x : *g_threads)
        if (x->id != 0 && !x->done) return false;
      return true;
    });
  }
  sim_active = false;
}

int Spawn(const std::function<void()>& fn) {
  Thread* t = NewThread();
  t->fn = fn;
  return t->id;
}
void Join(int tid) {
  Thread* t = (*g_threads)[tid];
  if (!t->done) BlockUntil([t] { return t->done; });
}
void JoinAll(const std::vector<int>& tids) {
  for (int t : tids) Join(t);
}

// Blocking primitives used by pool.cc.
namespace rtinternal {
void Block(const std::function<bool()>& ready) {
  if (ready()) return;
  BlockUntil(ready);
}
void StallPoint() { MaybeStall(); }
}  // namespace rtinternal
}  // namespace sim

using sim::rtinternal::sim_active;
namespace si = sim::rtinternal;

// ------------------------------------------------------------ interposition
extern "C" {
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!sim_active) {
    si::Sym(&si::real_create, "pthread_create");
    return si::real_create(pt, a, fn, arg);
  }
  si::Thread* t = si::NewThread();
  t->start = fn;
  t->arg = arg;
  *pt = t->pt;
  sim::Count("thread started by the code under test", 1, 0);
  return 0;
}
int pthread_join(pthread_t pt, void** ret) {
  if (!sim_active) return si::real_join(pt, ret);
  for (si::Thread* t : *si::g_threads) {
    if (t->id != 0 && pthread_equal(t->pt, pt)) {
      if (!t->done) si::BlockUntil([t] { return t->done; });
      if (ret) *ret = t->ret;
      return 0;
    }
  }
  return ESRCH;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim_active) {
    si::Sym(&si::real_mlock, "pthread_mutex_lock");
    return si::real_mlock(m);
  }
  if (si::g_alive > 1) si::Access(m, true, __builtin_return_address(0));
  for (;;) {
    int rc = si::real_mtrylock(m);
    if (rc != EBUSY) return rc;
    sim::Count("lock contention", 1, 0);
    uint64_t e = si::g_events;
    si::BlockUntil([e] { return si::g_events != e; });
  }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  si::Sym(&si::real_munlock, "pthread_mutex_unlock");
  int rc = si::real_munlock(m);
  if (sim_active) {
    ++si::g_events;
    if (si::g_alive > 1) si::Access(m, true, __builtin_return_address(0));
  }
  return rc;
}
static int SimCondWait(pthread_mutex_t* m, bool timed) {
  uint64_t e = ++si::g_events;
  si::real_munlock(m);
  si::Thread* me = si::g_self;
  si::BlockUntil([e] { return si::g_events != e; }, timed);
  bool to = me->timed_out;
  pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!sim_active) { si::Sym(&si::real_cwait, "pthread_cond_wait", "GLIBC_2.3.2"); return si::real_cwait(c, m); }
  return SimCondWait(m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!sim_active) { si::Sym(&si::real_ctimed, "pthread_cond_timedwait", "GLIBC_2.3.2"); return si::real_ctimed(c, m, t); }
  return SimCondWait(m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!sim_active) { si::Sym(&si::real_cclock, "pthread_cond_clockwait"); return si::real_cclock(c, m, k, t); }
  return SimCondWait(m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!sim_active) { si::Sym(&si::real_csignal, "pthread_cond_signal", "GLIBC_2.3.2"); return si::real_csignal(c); }
  ++si::g_events;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!sim_active) { si::Sym(&si::real_cbroadcast, "pthread_cond_broadcast", "GLIBC_2.3.2"); return si::real_cbroadcast(c); }
  ++si::g_events;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!sim_active) { si::Sym(&si::real_rd, "pthread_rwlock_rdlock"); return si::real_rd(l); }
  for (;;) {
    int rc = si::real_tryrd(l);
    if (rc != EBUSY) return rc;
    uint64_t e = si::g_events;
    si::BlockUntil([e] { return si::g_events != e; });
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!sim_active) { si::Sym(&si::real_wr, "pthread_rwlock_wrlock"); return si::real_wr(l); }
  for (;;) {
    int rc = si::real_trywr(l);
    if (rc != EBUSY) return rc;
    uint64_t e = si::g_events;
    si::BlockUntil([e] { return si::g_events != e; });
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  si::Sym(&si::real_rwun, "pthread_rwlock_unlock");
  int rc = si::real_rwun(l);
  if (sim_active) ++si::g_events;
  return rc;
}
// A once routine can be suspended by the scheduler; waiters must not block on
// the real futex. glibc marks a finished control word with 2.
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (!sim_active) {
    si::Sym(&si::real_once, "pthread_once");
    return si::real_once(ctl, fn);
  }
  for (;;) {
    int v = __atomic_load_n(ctl, __ATOMIC_ACQUIRE);
    if (v & 2) return 0;
    if (v == 0) break;
    uint64_t e = si::g_events;
    si::BlockUntil([e] { return si::g_events != e; });
  }
  __atomic_store_n(ctl, 1, __ATOMIC_RELEASE);
  try {
    fn();
  } catch (...) {
    __atomic_store_n(ctl, 0, __ATOMIC_RELEASE);
    ++si::g_events;
    throw;
  }
  __atomic_store_n(ctl, 2, __ATOMIC_RELEASE);
  ++si::g_events;
  return 0;
}
int sched_yield(void) {
  if (!sim_active) { si::Sym(&si::real_yield, "sched_yield"); return si::real_yield(); }
  ++si::g_steps;
  sim::YieldPoint();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!sim_active) { si::Sym(&si::real_nanosleep, "nanosleep"); return si::real_nanosleep(a, b); }
  // Simulated sleep: lets everything else run first.
  si::Thread* me = si::g_self;
  me->stalled_until = si::g_steps + 1000;
  si::g_clock_jump += a->tv_sec * 1000000000ull + a->tv_nsec;
  sim::YieldPoint();
  return 0;
}
int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) {
  return nanosleep(a, b) == 0 ? 0 : errno;
}
// The clock is simulated: it advances with the steps of the run only.
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!sim_active) {
    long r = si::RawSyscall(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  uint64_t ns = 1700000000ull * 1000000000ull + si::g_steps * 100 + si::g_clock_jump;
  t->tv_sec = ns / 1000000000ull;
  t->tv_nsec = ns % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim_active && n == SYS_futex) {
    int* addr = reinterpret_cast<int*>(a);
    int op = b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      int val = static_cast<int>(c);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
        errno = EAGAIN;
        return -1;
      }
      uint64_t ev = si::g_events;
      bool timed = d != 0;
      si::Thread* me = si::g_self;
      si::BlockUntil([=] {
        return si::g_events != ev || __atomic_load_n(addr, __ATOMIC_SEQ_CST) != val; }, timed);
      if (me->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      ++si::g_events;
      return 1;
    }
  }
  long r = si::RawSyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}

// ------------------------------------------------------------ __tsan_* hooks
#define HOOK(name, sz, wr)                                                       \
  void __tsan_##name(void* a) {                                                 \
    if (sim_active) si::OnAccess(a, sz, wr, __builtin_return_address(0));        \
  }
HOOK(read1, 1, false) HOOK(read2, 2, false) HOOK(read4, 4, false) HOOK(read8, 8, false)
HOOK(read16, 16, false) HOOK(write1, 1, true) HOOK(write2, 2, true) HOOK(write4, 4, true)
HOOK(write8, 8, true) HOOK(write16, 16, true)
HOOK(unaligned_read2, 2, false) HOOK(unaligned_read4, 4, false) HOOK(unaligned_read8, 8, false)
HOOK(unaligned_read16, 16, false) HOOK(unaligned_write2, 2, true) HOOK(unaligned_write4, 4, true)
HOOK(unaligned_write8, 8, true) HOOK(unaligned_write16, 16, true)
HOOK(volatile_read1, 1, false) HOOK(volatile_read2, 2, false) HOOK(volatile_read4, 4, false)
HOOK(volatile_read8, 8, false) HOOK(volatile_write1, 1, true) HOOK(volatile_write2, 2, true)
HOOK(volatile_write4, 4, true) HOOK(volatile_write8, 8, true)
HOOK(vptr_read, 8, false)
void __tsan_vptr_update(void* a, void*) {
  if (sim_active) si::OnAccess(a, 8, true, __builtin_return_address(0));
}
void __tsan_read_range(void* a, size_t n) {
  if (sim_active && n) si::OnAccess(a, n, false, __builtin_return_address(0));
}
void __tsan_write_range(void* a, size_t n) {
  if (sim_active && n) si::OnAccess(a, n, true, __builtin_return_address(0));
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define AHOOK(a) if (sim_active) si::OnAccess((const void*)(a), 8, true, __builtin_return_address(0))
#define ATOMICS(N, T)                                                                            \
  T __tsan_atomic##N##_load(const volatile T* a, int) { AHOOK(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { AHOOK(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { AHOOK(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { AHOOK(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
    AHOOK(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
    AHOOK(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
}  // extern "C"

// absl mixes the address of this object into every hash: a fixed address makes
// hash-table iteration order a function of the seeded memory layout only.
extern "C" {
extern const void* const wodsim_kseed __asm__(
    "_ZN4absl12lts_2023012513hash_internal15MixingHashState5kSeedE");
const void* const wodsim_kseed = reinterpret_cast<const void*>(0x51ED5EED);
}
