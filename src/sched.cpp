#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <new>

namespace sched {
int fail_alloc_over = 0;
uint64_t injected = 0;
static Log* L = nullptr;
static volatile bool armed = false;
static __thread int self = 0;  // 0: not controlled
static __thread uintptr_t stack_lo, stack_hi;

static long raw_futex(volatile int* a, int op, int v) {
  long r;
  register long r10 asm("r10") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op | FUTEX_PRIVATE_FLAG), "d"(v), "r"(r10) : "rcx", "r11", "memory");
  return r;
}

// ---------------------------------------------------------------- clocks
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(c, 0, sizeof c); } };
struct Thread {
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence = false;
  volatile int go = 0;
  bool started = false, finished = false, blocked = false;  // blocked: on a lock / wait
  bool spinning = false, yielded = false;
  uint64_t spin_addr = 0, spin_ver = 0, spin_cnt = 0;
  uint64_t spin_pcs[16] = {};
  int spin_n = 0;
  Op next{0, kBegin};
  uint64_t wait_addr = 0;
  pthread_t pt;
};
static Thread T[MAXT];
static int NT = 0;
static volatile int controller_go = 0;

struct Loc { uint64_t addr = 0; uint64_t ver = 0; VC vc; int owner = 0; bool locked = false; };
static Loc locs[4096];
static Loc& loc(uint64_t a) {
  uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
  for (;; h = (h + 1) & 4095) {
    if (locs[h].addr == a) return locs[h];
    if (!locs[h].addr) { locs[h].addr = a; return locs[h]; }
  }
}

void fail(const char* fmt, ...) {
  if (!L || L->violated) return;
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  memcpy(L->why, b, sizeof b);
  L->violated = 1;
}

// ---------------------------------------------------------------- shadow memory
// One cell per 8 bytes, blocks of one cell per 4 KiB page. Clocks count release
// operations of a thread, so 16 bits are ample (checked).
struct Cell { uint16_t w[MAXT - 1], r[MAXT - 1], aw[MAXT - 1], ar[MAXT - 1]; uint8_t wm[MAXT - 1], rm[MAXT - 1]; };
constexpr uint32_t NB = 1 << 13;
struct Block { Cell c[512]; };
static Block* blocks = nullptr;
static uint32_t nblocks = 0;
static uint64_t block_page[NB];
static uint16_t block_no[NB];
static uint64_t last_page = ~0ull;
static Block* last_block = nullptr;
static Block* block_of(uint64_t page, bool make) {
  if (page == last_page) return last_block;
  uint64_t h = (page * 0x9E3779B97F4A7C15ull) >> 51;
  for (;; h = (h + 1) & (NB - 1)) {
    if (block_page[h] == page) break;
    if (block_page[h]) continue;
    if (!make) return nullptr;
    if (nblocks + 64 >= NB) { fail("shadow memory exhausted"); L->violated = 2; _exit(0); }
    block_page[h] = page;
    block_no[h] = uint16_t(nblocks++);
    break;
  }
  last_page = page;
  return last_block = &blocks[block_no[h]];
}
static inline Cell* cell(uint64_t g) { return &block_of(g >> 9, true)->c[g & 511]; }
static uint64_t last_rw = ~0ull;
static uintptr_t ro_lo[64], ro_hi[64];
static int nro = 0;
static void load_maps() {
  FILE* f = fopen("/proc/self/maps", "r");
  char line[512];
  while (f && fgets(line, sizeof line, f)) {
    unsigned long a, b;
    char p[8];
    if (sscanf(line, "%lx-%lx %7s", &a, &b, p) == 3 && p[1] != 'w' && nro < 64) { ro_lo[nro] = a; ro_hi[nro++] = b; }
  }
  if (f) fclose(f);
}
static void race(const char* what, uint64_t addr, int other, void* pc, bool ow) {
  Dl_info di{};
  const char* sym = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
  Dl_info da{};
  const char* obj = dladdr((void*)addr, &da) && da.dli_sname ? da.dli_sname : "heap or local data";
  fail("data race: %s by thread %d at %s (in %s) with an unsynchronized earlier %s by thread %d", what, self, obj, sym, ow ? "write" : "read", other);
}
static inline void access(void* p, size_t n, bool write, bool atomic, void* pc) {
  if (!armed || !self) return;
  uintptr_t a = (uintptr_t)p;
  if (a >= stack_lo && a < stack_hi) return;
  if (!write) {
    static int hot = 0;
    if (nro && a >= ro_lo[hot] && a < ro_hi[hot]) return;
    if (a >> 12 != last_page && a >> 12 != last_rw) {
      for (int i = 0; i < nro; i++) if (a >= ro_lo[i] && a < ro_hi[i]) { hot = i; return; }
      last_rw = a >> 12;
    }
  }
  Thread& t = T[self];
  while (n) {
    uint64_t g = a >> 3;
    unsigned off = a & 7, k = 8 - off < n ? 8 - off : (unsigned)n;
    uint8_t m = uint8_t(((1u << k) - 1) << off);
    Cell* c = cell(g);
    if (!atomic) {  // this thread already touched these bytes in this epoch: nothing new to learn
      uint32_t e = t.vc.c[self];
      int i = self - 1;
      if ((c->w[i] == e && (c->wm[i] & m) == m) || (!write && c->r[i] == e && (c->rm[i] & m) == m)) { a += k; n -= k; continue; }
    }
    for (int u = 1; u <= NT; u++) {
      if (u == self) continue;
      uint32_t seen = t.vc.c[u];
      int v = u - 1;
      if (c->w[v] > seen && (c->wm[v] & m)) race(write ? "write" : "read", a, u, pc, true);
      if (!atomic && c->aw[v] > seen) race(write ? "plain write" : "plain read", a, u, pc, true);
      if (write && c->r[v] > seen && (c->rm[v] & m)) race("write", a, u, pc, false);
      if (write && !atomic && c->ar[v] > seen) race("plain write", a, u, pc, false);
    }
    if (t.vc.c[self] > 65000) { fail("clock overflow"); L->violated = 2; _exit(0); }
    uint16_t now = uint16_t(t.vc.c[self]);
    int me = self - 1;
    if (atomic) { if (write) c->aw[me] = now; c->ar[me] = now; }
    else if (write) { if (c->w[me] != now) { c->w[me] = now; c->wm[me] = 0; } c->wm[me] |= m; }
    else { if (c->r[me] != now) { c->r[me] = now; c->rm[me] = 0; } c->rm[me] |= m; }
    a += k;
    n -= k;
  }
}
static void forget(void* p, size_t n) {
  if (!armed || !blocks) return;
  uint64_t g = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
  while (g < e) {
    uint64_t k = 512 - (g & 511);
    if (k > e - g) k = e - g;
    if (Block* b = block_of(g >> 9, false)) memset(&b->c[g & 511], 0, k * sizeof(Cell));
    g += k;
  }
}

// ---------------------------------------------------------------- scheduling
static void wake(volatile int* f) { __atomic_store_n(f, 1, __ATOMIC_SEQ_CST); raw_futex(f, FUTEX_WAKE, 1); }
static void sleep_on(volatile int* f) {
  while (!__atomic_load_n(f, __ATOMIC_SEQ_CST)) raw_futex(f, FUTEX_WAIT, 0);
  __atomic_store_n(f, 0, __ATOMIC_SEQ_CST);
}
static uint8_t sleepset = 0;
[[noreturn]] static void stop_all() { _exit(0); }

static bool runnable(int t) { return T[t].started && !T[t].finished && !T[t].blocked; }
static bool settled(int t) { return T[t].spinning && loc(T[t].spin_addr).ver == T[t].spin_ver; }
// Choose who goes next. cur = the thread that stopped (0 at the start / after an end).
static int choose(int cur) {
  uint8_t en = 0, all = 0;
  for (int t = 1; t <= NT; t++) {
    if (!runnable(t)) continue;
    all |= 1u << t;
    if (T[t].spinning && !settled(t)) { T[t].spinning = false; T[t].spin_cnt = 0; }
    if (!T[t].spinning && !T[t].yielded) en |= 1u << t;
  }
  bool only_spinners = false;
  if (!en && all) {
    for (int t = 1; t <= NT; t++) T[t].yielded = false;
    en = all;
    only_spinners = true;
    // Nothing can change what they wait for: round robin, bounded.
    bool all_spin = true;
    for (int t = 1; t <= NT; t++) if (all >> t & 1) all_spin &= T[t].spinning;
    if (all_spin) {
      L->spins = L->spins + 1;
      if (L->spins > 3000000) { fail("livelock: every unfinished thread waits for a state that no thread will change"); stop_all(); }
      static int rr = 0;
      for (int k = 0; k < NT; k++) { rr = rr % NT + 1; if (en >> rr & 1) return rr; }
    }
  }
  (void)only_spinners;
  if (!en) {
    for (int t = 1; t <= NT; t++) if (!T[t].finished) { fail("deadlock: thread %d waits forever", t); stop_all(); }
    return 0;
  }
  uint32_t i = L->nnodes;
  int pick;
  Node tmp, &nd = i < MAXNODES ? L->node[i] : tmp;
  if (i >= MAXNODES) { fail("schedule longer than the log"); stop_all(); }
  nd.enabled = en;
  nd.nt = uint8_t(NT);
  for (int t = 1; t <= NT; t++) nd.op[t] = T[t].next;
  if (i < L->nprefix) {
    pick = L->prefix[i];
    if (!(en >> pick & 1)) { fail("replay diverged at step %u (thread %d not enabled)", i, pick); L->violated = 2; stop_all(); }
    nd.sleep = 0;
  } else {
    if (i == L->nprefix) sleepset = L->start_sleep;
    uint8_t cand = en & ~sleepset;
    nd.sleep = sleepset;
    if (!cand) { L->redundant = 1; stop_all(); }
    bool cur_ok = cur && (cand >> cur & 1);
    if (cur_ok) pick = cur;
    else pick = __builtin_ctz(cand);
  }
  nd.chosen = uint8_t(pick);
  L->nnodes = i + 1;
  L->steps = L->steps + 1;
  // update the sleep set: what is not independent of the step wakes up
  if (i >= L->nprefix) {
    uint8_t z = 0;
    for (int t = 1; t <= NT; t++) if ((sleepset >> t & 1) && t != pick && independent(nd.op[t], nd.op[pick])) z |= 1u << t;
    sleepset = z;
  }
  for (int t = 1; t <= NT; t++) if (t != pick) T[t].yielded = false;
  return pick;
}
// Called by a controlled thread before it performs `op`.
static void point(uint64_t addr, Kind k) {
  if (!armed || !self) return;
  Thread& t = T[self];
  t.next = {addr, k};
  int n = choose(self);
  if (n != self) {
    wake(&T[n].go);
    sleep_on(&t.go);
  }
}
static void block_here() {  // current thread cannot proceed; someone else must
  Thread& t = T[self];
  int n = choose(0);
  if (n == self) return;
  wake(&T[n].go);
  sleep_on(&t.go);
}
static void bump(uint64_t a) {
  Loc& l = loc(a);
  l.ver++;
  for (int t = 1; t <= NT; t++) if (T[t].blocked && T[t].wait_addr == a) T[t].blocked = false;
}
struct Start { int id; const std::function<void()>* f; };
static void* thread_main(void* p) {
  Start* s = static_cast<Start*>(p);
  pthread_attr_t at;
  void* lo;
  size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  stack_lo = (uintptr_t)lo;
  stack_hi = stack_lo + sz;
  T[s->id].started = true;
  wake(&controller_go);
  sleep_on(&T[s->id].go);
  self = s->id;
  (*s->f)();
  int id = self;
  self = 0;
  T[id].finished = true;
  T[id].next = {0, kEnd};
  int n = choose(0);
  if (n) wake(&T[n].go); else wake(&controller_go);
  return nullptr;
}
void run(Log* log, const std::vector<std::function<void()>>& bodies) {
  L = log;
  NT = int(bodies.size());
  blocks = static_cast<Block*>(mmap(nullptr, NB * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  load_maps();
  static Start st[MAXT];
  for (int t = 1; t <= NT; t++) {
    T[t].vc.c[t] = 1;
    st[t] = {t, &bodies[t - 1]};
    pthread_create(&T[t].pt, nullptr, thread_main, &st[t]);
    sleep_on(&controller_go);
  }
  armed = true;
  int n = choose(0);
  if (n) { wake(&T[n].go); sleep_on(&controller_go); }
  armed = false;
  for (int t = 1; t <= NT; t++) pthread_join(T[t].pt, nullptr);
  L->done = 1;
}

// ---------------------------------------------------------------- atomics
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void after_load(uint64_t a, int mo) {
  Loc& l = loc(a);
  if (acq(mo)) T[self].vc.join(l.vc); else T[self].acq_pending.join(l.vc);
}
static void after_store(uint64_t a, int mo, bool rmw, bool changed = true) {
  Loc& l = loc(a);
  Thread& t = T[self];
  if (!rmw) l.vc.clear();
  if (rel(mo)) l.vc.join(t.vc);
  else if (t.has_rel_fence) l.vc.join(t.rel_fence);
  if (rel(mo)) t.vc.c[self]++;
  if (changed) bump(a);
}
// Re-executing the same operation while nothing changed is waiting: the thread
// is set aside until the location changes or nobody else can run. (A loop may
// read at several places when the compiler unrolled it.)
static bool again(uint64_t a, void* pc) {
  Thread& t = T[self];
  Loc& l = loc(a);
  if (t.spin_addr == a && t.spin_ver == l.ver) {
    for (int i = 0; i < t.spin_n; i++) if (t.spin_pcs[i] == (uint64_t)pc) { t.spin_cnt++; return true; }
    if (t.spin_n < 16) t.spin_pcs[t.spin_n++] = (uint64_t)pc;
    return false;
  }
  t.spin_addr = a;
  t.spin_ver = l.ver;
  t.spin_cnt = 0;
  t.spin_n = 1;
  t.spin_pcs[0] = (uint64_t)pc;
  return false;
}
static void spin_check(uint64_t a, void* pc) {
  if (again(a, pc) && T[self].spin_cnt > L->patience) T[self].spinning = true;
}
static void pre_load(void* p, void* pc) {
  Thread& t = T[self];
  uint64_t a = (uint64_t)p;
  if (again(a, pc)) {
    if (t.spin_cnt > L->patience) t.spinning = true;
    else if (t.spin_cnt > 2) { t.next = {a, kLoad}; return; }  // patient: keep spinning without a scheduling decision
  }
  point(a, kLoad);
}
template <class V> static V at_load(volatile V* p, int mo, void* pc) {
  if (!armed || !self) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  pre_load((void*)p, pc);
  access((void*)p, sizeof(V), false, true, pc);
  V v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  after_load((uint64_t)p, mo);
  return v;
}
template <class V> static void at_store(volatile V* p, V v, int mo, void* pc) {
  if (!armed || !self) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
  point((uint64_t)p, kStore);
  access((void*)p, sizeof(V), true, true, pc);
  __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  after_store((uint64_t)p, mo, false);
}
template <class V, class F> static V at_rmw(volatile V* p, int mo, void* pc, F f) {
  if (!armed || !self) return f();
  spin_check((uint64_t)p, pc);
  point((uint64_t)p, kRmw);
  access((void*)p, sizeof(V), true, true, pc);
  V v = f();
  bool changed = v != __atomic_load_n(p, __ATOMIC_SEQ_CST);
  after_load((uint64_t)p, mo);
  after_store((uint64_t)p, mo, true, changed);
  return v;
}
template <class V> static bool at_cas(volatile V* p, V* e, V d, int mo, int fmo, void* pc) {
  if (!armed || !self) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  // a failing CAS that spins is a read
  if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != *e) spin_check((uint64_t)p, pc);
  point((uint64_t)p, kRmw);
  bool ok = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  access((void*)p, sizeof(V), ok, true, pc);
  after_load((uint64_t)p, ok ? mo : fmo);
  if (ok) after_store((uint64_t)p, mo, true);
  return ok;
}
static void yield_point() {
  if (!armed || !self) return;
  T[self].yielded = true;
  point(0, kYield);
}
}  // namespace sched
using namespace sched;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, false, false, PC); access(p, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, false, PC); access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
#define AT(b, V) \
  V __tsan_atomic##b##_load(const volatile V* p, int mo) { return at_load(const_cast<volatile V*>(p), mo, PC); } \
  void __tsan_atomic##b##_store(volatile V* p, V v, int mo) { at_store(p, v, mo, PC); } \
  V __tsan_atomic##b##_exchange(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_add(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_sub(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_and(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_or(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_xor(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }); } \
  V __tsan_atomic##b##_fetch_nand(volatile V* p, V v, int mo) { return at_rmw(p, mo, PC, [&] { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile V* p, V* e, V d, int mo, int f) { return at_cas(p, e, d, mo, f, PC); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile V* p, V* e, V d, int mo, int f) { return at_cas(p, e, d, mo, f, PC); } \
  V __tsan_atomic##b##_compare_exchange_val(volatile V* p, V e, V d, int mo, int f) { at_cas(p, &e, d, mo, f, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!armed || !self) return;
  Thread& t = T[self];
  if (acq(mo)) t.vc.join(t.acq_pending);
  if (rel(mo)) { t.rel_fence = t.vc; t.has_rel_fence = true; t.vc.c[self]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- blocking primitives
static void lock_at(uint64_t a) {
  for (;;) {
    point(a, kLock);
    Loc& l = loc(a);
    if (!l.locked) break;
    T[self].blocked = true;
    T[self].wait_addr = a;
    block_here();
  }
  Loc& l = loc(a);
  l.locked = true;
  l.owner = self;
  T[self].vc.join(l.vc);
}
// done: set together with the unlocking, never visible before it
static void unlock_at(uint64_t a, volatile char* done_byte = nullptr, volatile int* done_int = nullptr) {
  point(a, kUnlock);
  if (done_byte) *done_byte = 1;
  if (done_int) *done_int = 2;
  Loc& l = loc(a);
  l.locked = false;
  l.vc.join(T[self].vc);
  T[self].vc.c[self]++;
  bump(a);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (armed && self) { lock_at((uint64_t)m); return 0; }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (armed && self) {
    point((uint64_t)m, kLock);
    Loc& l = loc((uint64_t)m);
    if (l.locked) return EBUSY;
    l.locked = true; l.owner = self; T[self].vc.join(l.vc);
    return 0;
  }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (armed && self) { unlock_at((uint64_t)m); return 0; }
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!(armed && self)) abort();
  unlock_at((uint64_t)m);
  T[self].blocked = true;
  T[self].wait_addr = (uint64_t)c;
  block_here();
  lock_at((uint64_t)m);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (armed && self) { point((uint64_t)c, kWake); bump((uint64_t)c); return 0; }
  static auto real = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  return real(c);
}
int pthread_cond_signal(pthread_cond_t* c) { return pthread_cond_broadcast(c); }  // spurious wake-ups are allowed
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (armed && self) {
    uint64_t a = (uint64_t)o;
    point(a, kLoad);  // once done, a call is a load and nothing more
    if (*(volatile int*)o == 2) { T[self].vc.join(loc(a).vc); return 0; }
    lock_at(a);
    if (*(volatile int*)o == 0) { f(); unlock_at(a, nullptr, (volatile int*)o); }
    else unlock_at(a);
    return 0;
  }
  static auto real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
  return real(o, f);
}
int __cxa_guard_acquire(long long* g) {
  uint64_t a = (uint64_t)g;
  if (*(volatile char*)g) { if (armed && self) { point(a, kLoad); T[self].vc.join(loc(a).vc); } return 0; }
  if (!(armed && self)) return 1;
  lock_at(a);
  if (*(volatile char*)g) { unlock_at(a); return 0; }
  return 1;
}
void __cxa_guard_release(long long* g) {
  if (armed && self) unlock_at((uint64_t)g, (volatile char*)g);
  else *(volatile char*)g = 1;
}
void __cxa_guard_abort(long long* g) { if (armed && self) unlock_at((uint64_t)g); }
int sched_yield() { yield_point(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { yield_point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { yield_point(); return 0; }
int usleep(useconds_t u) {
  if (armed && self) { yield_point(); return 0; }
  struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  long r;
  register long r10 asm("r10") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_nanosleep), "D"(&t), "S"(0L), "d"(0L), "r"(r10) : "rcx", "r11", "memory");
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && armed && self) {
    int op = int(a[1]) & 127;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { point((uint64_t)a[0], kWake); bump((uint64_t)a[0] + 1); return 1; }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point((uint64_t)a[0], kWait);
      if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      T[self].blocked = true;
      T[self].wait_addr = (uint64_t)a[0] + 1;
      block_here();
      return 0;
    }
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
}
// ---- allocation: memory handed to another thread through the allocator is ordered by it
static void* grab(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p) forget(p, malloc_usable_size(p));
  return p;
}
static bool refuse(size_t n) {
  if (fail_alloc_over && n >= size_t(fail_alloc_over) && armed && self) { injected++; return true; }
  return false;
}
void* operator new(size_t n) { if (refuse(n)) throw std::bad_alloc(); void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : grab(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : grab(n); }
static void drop(void* p) { if (p) { if (armed && self) access(p, malloc_usable_size(p) & ~7ul, true, false, PC); forget(p, malloc_usable_size(p)); } free(p); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }
