// Runtime of mt.h.  Compiled without instrumentation.
#include "mt.h"
#include "vc.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace {
constexpr int kMax = 5;             // threads, the main one included
constexpr size_t kArena = 8u << 20; // heap of one execution, never reused within it
constexpr int kChoices = 30000;

struct Shared { // with the parent
  int n;
  struct { int16_t n, c; uint8_t free; } ch[kChoices];
  int nahead;
  int16_t ahead[kChoices];
  int failed;
  char msg[4000];
  uint64_t hash;
  long steps;
  int done;
};
Shared *S = nullptr;

using Clock = uint32_t;
struct Cell { // shadow of one byte
  uint32_t wt; // tid+1 of the last plain write
  Clock w;
  Clock r[kMax], aw[kMax], ar[kMax];
  uint32_t freed;
};
Cell *g_heapShadow = nullptr, *g_dataShadow = nullptr;
char *g_arena = nullptr;
size_t g_top = 0;
char *g_dataLo = nullptr;
size_t g_dataLen = 0;

bool g_child = false, g_active = false;
__thread int t_me = 0;
__thread int t_rt = 0;

// (No memcpy or memset in here: those are instrumented below.)
Clock C[kMax][kMax];
Clock facq[kMax][kMax]; // what relaxed loads have seen, for acquire fences
Clock frel[kMax][kMax]; // clock at the last release fence
bool hasFrel[kMax];

struct Sync {
  void *addr;
  Clock c[kMax];
  int owner;   // tid+1: mutexes, guards, once
  int depth;
};
constexpr int kSync = 1 << 15;
Sync g_sync[kSync];

enum St { None, Run, Blocked, Done };
struct Th {
  int st;
  void *on;
  int go;
  const std::function<void()> *f;
  pthread_t h;
} T[kMax];
int g_n = 0, g_mainGo = 0;
long g_solo = 0;

void futexWait(int *a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
void futexGo(int *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void die(const char *msg) {
  t_rt++;
  if (!S->failed) {
    S->failed = 1;
    snprintf(S->msg, sizeof S->msg, "%s", msg);
  }
  _exit(0);
}
const char *where(void *pc, char *buf, size_t n) {
  Dl_info i{};
  if (pc && dladdr(pc, &i) && i.dli_sname) {
    int st;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%.300s", st == 0 && d ? d : i.dli_sname);
  } else {
    snprintf(buf, n, "%s+%lx", i.dli_fname ? i.dli_fname : "?", i.dli_fname ? (long)((char *)pc - (char *)i.dli_fbase) : 0L);
  }
  return buf;
}

int decide(int n, bool isFree) {
  int i = S->n;
  if (i >= kChoices) return 0;
  int c = i < S->nahead ? S->ahead[i] : 0;
  if (c >= n) c = 0; // the parent notices the difference
  S->ch[i].n = n;
  S->ch[i].c = c;
  S->ch[i].free = isFree;
  S->n++;
  return c;
}

void switchTo(int t) {
  int me = t_me;
  g_solo = 0;
  futexGo(&T[t].go);
  futexWait(&T[me].go);
}

// Called by the running thread before a synchronisation operation.
void point(int kind) {
  if (!g_active || t_rt || t_me == 0) return;
  S->steps++;
  S->hash = vc::mix(S->hash, (uint64_t)(t_me * 16 + kind));
  int o[kMax], n = 0;
  for (int k = 1; k < g_n; k++) {
    int t = (t_me - 1 + k) % (g_n - 1) + 1;
    if (t != t_me && T[t].st == Run) o[n++] = t;
  }
  if (!n) return;
  if (++g_solo > 20000) { // somebody spins: be fair
    switchTo(o[0]);
    return;
  }
  int c = decide(n + 1, false);
  if (c) switchTo(o[c - 1]);
}

// The running thread cannot go on (or has ended).
void yieldBlocked() {
  int me = t_me;
  int o[kMax], n = 0;
  bool blocked = false;
  for (int t = 1; t < g_n; t++) {
    if (T[t].st == Run) o[n++] = t;
    if (T[t].st == Blocked) blocked = true;
  }
  if (!n) {
    if (blocked) die("deadlock: every thread waits for another one");
    futexGo(&g_mainGo);
    return;
  }
  int c = n > 1 ? decide(n, true) : 0;
  g_solo = 0;
  futexGo(&T[o[c]].go);
  if (T[me].st != Done) futexWait(&T[me].go);
}
void blockOn(void *a) {
  T[t_me].st = Blocked;
  T[t_me].on = a;
  yieldBlocked();
}
void wake(void *a) {
  for (int t = 1; t < g_n; t++)
    if (T[t].st == Blocked && T[t].on == a) T[t].st = Run;
}

Sync *syncOf(const volatile void *a) {
  size_t i = ((uintptr_t)a * 0x9e3779b97f4a7c15ULL) >> 49;
  for (int k = 0; k < kSync; k++, i = (i + 1) % kSync) {
    if (g_sync[i].addr == a) return &g_sync[i];
    if (!g_sync[i].addr) {
      g_sync[i].addr = (void *)a;
      return &g_sync[i];
    }
  }
  die("harness error: too many synchronisation objects");
}
void join(Clock *a, const Clock *b) {
  for (int i = 0; i < kMax; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
void acquire(const Clock *l) { join(C[t_me], l); }
void release(Clock *l) {
  join(l, C[t_me]);
  C[t_me][t_me]++;
}

enum Kind { Rd, Wr, ARd, AWr, Free };
Cell *shadow(uintptr_t a) {
  if (a >= (uintptr_t)g_arena && a < (uintptr_t)g_arena + kArena) return &g_heapShadow[a - (uintptr_t)g_arena];
  if (a >= (uintptr_t)g_dataLo && a < (uintptr_t)g_dataLo + g_dataLen) return &g_dataShadow[a - (uintptr_t)g_dataLo];
  return nullptr;
}
void report(const char *what, int kind, int other, void *pc, uintptr_t a) {
  char buf[512], buf2[512], m[2048];
  bool heap = a - (uintptr_t)g_arena < kArena;
  static const char *const K[] = {"read", "write", "atomic read", "atomic write", "deallocation"};
  snprintf(m, sizeof m, "%s: %s of %s by thread %d in %s%s%s", what, K[kind],
           heap ? "the heap" : where((void *)a, buf2, sizeof buf2), t_me, where(pc, buf, sizeof buf),
           other >= 0 ? ", not ordered after an access of thread " : "", other >= 0 ? std::to_string(other).c_str() : "");
  die(m);
}
void access(const volatile void *p, size_t n, int kind, void *pc) {
  if (!g_child || t_rt) return;
  Cell *c = shadow((uintptr_t)p);
  if (!c) return;
  int me = t_me;
  const Clock *v = C[me];
  for (size_t i = 0; i < n; i++, c++) {
    if (c->freed) report("use of a destroyed object's memory", kind, -1, pc, (uintptr_t)p + i);
    if (!g_active) continue;
    if (c->wt && (int)c->wt - 1 != me && c->w > v[c->wt - 1]) report("data race", kind, c->wt - 1, pc, (uintptr_t)p + i);
    for (int t = 0; t < g_n; t++) {
      if (t == me) continue;
      if (kind != ARd && kind != Rd && c->r[t] > v[t]) report("data race", kind, t, pc, (uintptr_t)p + i);
      if ((kind == Rd || kind == Wr || kind == Free) && c->aw[t] > v[t]) report("data race", kind, t, pc, (uintptr_t)p + i);
      if ((kind == Wr || kind == Free) && c->ar[t] > v[t]) report("data race", kind, t, pc, (uintptr_t)p + i);
    }
    switch (kind) {
    case Rd: c->r[me] = v[me]; break;
    case Wr: c->wt = me + 1; c->w = v[me]; break;
    case ARd: c->ar[me] = v[me]; break;
    case AWr: c->aw[me] = v[me]; break;
    case Free: break;
    }
  }
}

// --- heap ---------------------------------------------------------------------------------------------------
void *alloc(size_t n) {
  if (!g_child) return malloc(n ? n : 1);
  size_t need = (n + 16 + 15) & ~(size_t)15;
  if (g_top + need > kArena) return malloc(n ? n : 1); // too big an execution: untracked from here on
  char *p = g_arena + g_top;
  g_top += need;
  *(size_t *)p = n;
  return p + 16;
}
void dealloc(void *p, void *pc) {
  if (!p) return;
  if ((char *)p >= g_arena && (char *)p < g_arena + kArena) {
    size_t n = *(size_t *)((char *)p - 16);
    Cell *c = shadow((uintptr_t)p);
    if (!t_rt && c->freed) die("an object was destroyed twice");
    access(p, n, Free, pc);
    for (size_t i = 0; i < n || i == 0; i++) c[i].freed = 1;
    return;
  }
  if (!g_child) free(p);
}

void *threadMain(void *arg) {
  t_me = (int)(intptr_t)arg;
  futexWait(&T[t_me].go);
  try {
    (*T[t_me].f)();
  } catch (...) {
    die("an exception escaped from a thread");
  }
  t_rt++;
  T[t_me].st = Done;
  yieldBlocked();
  return nullptr;
}
} // namespace

void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc(n); }
void operator delete(void *p) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { dealloc(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { dealloc(p, __builtin_return_address(0)); }

namespace mt {
int self() { return t_me; }
void fail(const std::string &m) { die(m.c_str()); }
void outcome(const std::string &s) {
  t_rt++;
  S->hash = vc::mix(S->hash, vc::hashStr(s));
  t_rt--;
}

void parallel(const std::vector<std::function<void()>> &fs) {
  t_rt++;
  g_n = (int)fs.size() + 1;
  if (g_n > kMax) die("harness error: too many threads");
  C[0][0]++;
  for (int t = 1; t < g_n; t++) {
    join(C[t], C[0]);
    C[t][t]++;
    T[t].st = Run;
    T[t].go = 0;
    T[t].f = &fs[t - 1];
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 << 10);
    if (pthread_create(&T[t].h, &a, threadMain, (void *)(intptr_t)t)) die("harness error: pthread_create");
  }
  C[0][0]++;
  g_solo = 0;
  g_active = true;
  int first = g_n > 2 ? decide(g_n - 1, true) : 0;
  futexGo(&T[first + 1].go);
  futexWait(&g_mainGo);
  g_active = false;
  for (int t = 1; t < g_n; t++) {
    pthread_join(T[t].h, nullptr);
    join(C[0], C[t]);
  }
  t_rt--;
}

void session(const std::function<void()> &body) {
  if (!S) {
    auto map = [](size_t n, int share) {
      void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, share | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
      }
      return p;
    };
    S = (Shared *)map(sizeof *S, MAP_SHARED);
    g_arena = (char *)map(kArena, MAP_PRIVATE);
    g_heapShadow = (Cell *)map(kArena * sizeof(Cell), MAP_PRIVATE);
    g_dataLo = &__data_start;
    g_dataLen = &_end - &__data_start;
    g_dataShadow = (Cell *)map(g_dataLen * sizeof(Cell), MAP_PRIVATE);
  }
  S->n = 0;
  S->failed = 0;
  S->hash = 0;
  S->steps = 0;
  S->done = 0;
  auto ah = vc::ahead();
  S->nahead = 0;
  for (int x : ah)
    if (S->nahead < kChoices) S->ahead[S->nahead++] = (int16_t)x;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    g_child = true;
    alarm(60);
    cpu_set_t cpus; // one thread runs at a time: handing over is much faster on one processor
    CPU_ZERO(&cpus);
    CPU_SET(sched_getcpu(), &cpus);
    sched_setaffinity(0, sizeof cpus, &cpus);
    try {
      body();
    } catch (...) {
      die("an exception escaped");
    }
    S->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  for (int i = 0; i < S->n; i++) {
    if (S->ch[i].free) vc::pick(S->ch[i].n);
    else vc::choose(S->ch[i].n);
  }
  vc::step(S->steps);
  vc::state(S->hash);
  if (S->failed) vc::fail(S->msg);
  if (!S->done)
    vc::fail(WIFSIGNALED(st) ? std::string("the program died with signal ") + strsignal(WTERMSIG(st))
                             : std::string("the program ended early, status ") + std::to_string(st));
}
} // namespace mt

// --- instrumentation -----------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(p, 8, Wr, PC);
}
void __tsan_vptr_read(void **p) { access(p, 8, Rd, PC); }
void __tsan_read_range(void *p, unsigned long n) { access(p, n, Rd, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, Wr, PC); }
#define ACC(N)                                                                       \
  void __tsan_read##N(void *p) { access(p, N, Rd, PC); }                             \
  void __tsan_write##N(void *p) { access(p, N, Wr, PC); }                            \
  void __tsan_unaligned_read##N(void *p) { access(p, N, Rd, PC); }                   \
  void __tsan_unaligned_write##N(void *p) { access(p, N, Wr, PC); }                  \
  void __tsan_volatile_read##N(void *p) { access(p, N, Rd, PC); }                    \
  void __tsan_volatile_write##N(void *p) { access(p, N, Wr, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void onLoad(const volatile void *p, int mo) {
  if (!g_child || t_rt) return;
  Sync *s = syncOf(p);
  join(facq[t_me], s->c);
  if (isAcq(mo)) acquire(s->c);
}
static void onStore(const volatile void *p, int mo, bool rmw) {
  if (!g_child || t_rt) return;
  Sync *s = syncOf(p);
  for (int i = 0; i < kMax && !rmw; i++) s->c[i] = 0; // a plain store ends the release sequence
  if (isRel(mo)) release(s->c);
  else if (hasFrel[t_me]) join(s->c, frel[t_me]);
}
#define ATOM(B, TY)                                                                                               \
  TY __tsan_atomic##B##_load(const volatile TY *a, int mo) {                                                      \
    point(1);                                                                                                     \
    access(a, sizeof(TY), ARd, PC);                                                                               \
    onLoad(a, mo);                                                                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                               \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) {                                                   \
    point(2);                                                                                                     \
    access(a, sizeof(TY), AWr, PC);                                                                               \
    onStore(a, mo, false);                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
  }                                                                                                               \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) {                                                  \
    point(3);                                                                                                     \
    access(a, sizeof(TY), AWr, PC);                                                                               \
    onLoad(a, mo);                                                                                                \
    onStore(a, mo, true);                                                                                         \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                           \
  }                                                                                                               \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int mo, int fmo) {                  \
    point(4);                                                                                                     \
    access(a, sizeof(TY), AWr, PC);                                                                               \
    TY was = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
    if (was != *e) {                                                                                              \
      onLoad(a, fmo);                                                                                             \
      *e = was;                                                                                                   \
      return 0;                                                                                                   \
    }                                                                                                             \
    onLoad(a, mo);                                                                                                \
    onStore(a, mo, true);                                                                                         \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
    return 1;                                                                                                     \
  }                                                                                                               \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int mo, int fmo) {                    \
    return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo);                                          \
  }                                                                                                               \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY e, TY v, int mo, int fmo) {                       \
    __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo);                                                \
    return e;                                                                                                     \
  }                                                                                                               \
  RMW(B, TY, fetch_add) RMW(B, TY, fetch_sub) RMW(B, TY, fetch_and) RMW(B, TY, fetch_or) RMW(B, TY, fetch_xor)    \
  RMW(B, TY, fetch_nand)
#define RMW(B, TY, OP)                                                                                            \
  TY __tsan_atomic##B##_##OP(volatile TY *a, TY v, int mo) {                                                      \
    point(5);                                                                                                     \
    access(a, sizeof(TY), AWr, PC);                                                                               \
    onLoad(a, mo);                                                                                                \
    onStore(a, mo, true);                                                                                         \
    return __atomic_##OP(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!g_child || t_rt) return;
  point(6);
  if (isAcq(mo)) acquire(facq[t_me]);
  if (isRel(mo)) {
    for (int i = 0; i < kMax; i++) frel[t_me][i] = C[t_me][i];
    hasFrel[t_me] = true;
    C[t_me][t_me]++;
  }
}
void __tsan_atomic_signal_fence(int) {}

// --- function-local statics ----------------------------------------------------------------------------------
int __cxa_guard_acquire(unsigned long *g) {
  auto *b = (unsigned char *)g;
  if (!g_active || t_rt) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    return 1;
  }
  point(7);
  Sync *s = syncOf(g);
  while (true) {
    if (*b) {
      acquire(s->c);
      return 0;
    }
    if (!s->owner) {
      acquire(s->c);
      s->owner = t_me + 1;
      return 1;
    }
    if (s->owner == t_me + 1) die("recursive initialisation of a function-local static");
    blockOn(g);
  }
}
void __cxa_guard_release(unsigned long *g) {
  auto *b = (unsigned char *)g;
  if (!g_active || t_rt) {
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    return;
  }
  point(8);
  Sync *s = syncOf(g);
  release(s->c);
  s->owner = 0;
  *b = 1;
  wake(g);
}
void __cxa_guard_abort(unsigned long *g) {
  if (!g_active || t_rt) return;
  point(9);
  Sync *s = syncOf(g);
  release(s->c);
  s->owner = 0;
  wake(g);
}

// --- locks ---------------------------------------------------------------------------------------------------
#define REAL(NAME) ((decltype(&NAME))dlsym(RTLD_NEXT, #NAME))
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!g_active || t_rt) {
    static auto real = REAL(pthread_mutex_lock);
    return real(m);
  }
  point(10);
  Sync *s = syncOf(m);
  while (s->owner) {
    if (s->owner == t_me + 1) { // recursive mutexes only
      s->depth++;
      return 0;
    }
    blockOn(m);
  }
  s->owner = t_me + 1;
  s->depth = 1;
  acquire(s->c);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!g_active || t_rt) {
    static auto real = REAL(pthread_mutex_trylock);
    return real(m);
  }
  point(10);
  Sync *s = syncOf(m);
  if (s->owner) return 16; // EBUSY
  s->owner = t_me + 1;
  s->depth = 1;
  acquire(s->c);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!g_active || t_rt) {
    static auto real = REAL(pthread_mutex_unlock);
    return real(m);
  }
  point(11);
  Sync *s = syncOf(m);
  if (--s->depth > 0) return 0;
  s->owner = 0;
  release(s->c);
  wake(m);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!g_active || t_rt) {
    static auto real = REAL(pthread_once);
    return real(o, f);
  }
  point(12);
  Sync *s = syncOf(o);
  while (true) {
    if (*o == 2) {
      acquire(s->c);
      return 0;
    }
    if (!s->owner) break;
    blockOn(o);
  }
  s->owner = t_me + 1;
  acquire(s->c);
  try {
    f();
  } catch (...) {
    s->owner = 0;
    release(s->c);
    wake(o);
    throw;
  }
  point(13);
  s->owner = 0;
  *o = 2;
  release(s->c);
  wake(o);
  return 0;
}

// --- block operations, also those made by the C++ library ------------------------------------------------------
void *memcpy(void *d, const void *s, size_t n) {
  if (g_child && n) {
    access(s, n, Rd, PC);
    access(d, n, Wr, PC);
  }
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memset(void *d, int c, size_t n) {
  if (g_child && n) access(d, n, Wr, PC);
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
} // extern "C"
namespace mt {
static int g_count = 0;
void count(int d) { g_count += d; }
int counted() { return g_count; }
} // namespace mt
