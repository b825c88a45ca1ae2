// Simulation runtime: scheduler, happens-before race detector, virtual clock,
// and interposed thread, time, entropy and file functions.
// Exactly one simulated thread runs at any time (the token holder).
#include "rt.h"
#include <cerrno>
#include <dirent.h>
#include <limits.h>
#include <link.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define HIDDEN __attribute__((visibility("hidden")))

namespace sim {
Shared* sh = nullptr;
Config cfg;

// ------------------------------------------------------------ raw system call
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void raw_futex_wait(volatile int* a, int v) { raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void raw_futex_wake(volatile int* a) { raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
[[noreturn]] static void raw_exit(int code) { for (;;) raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); }
[[noreturn]] static void raw_kill() { for (;;) { long pid = raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); raw6(SYS_kill, pid, SIGKILL, 0, 0, 0, 0); } }

void* rt_alloc(size_t n) {
  void* p = mmap(nullptr, (n + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) raw_exit(99);
  return p;
}

// ------------------------------------------------------------------- threads
constexpr int MT = kMaxThr;
struct VC { uint32_t c[MT]; };

enum State { T_RUN, T_BLOCK, T_DONE };
enum Kind { K_NONE, K_JOIN, K_MUTEX, K_COND, K_RW, K_ONCE, K_GUARD, K_FUTEX, K_SLEEP, K_SEM };

struct Thr {
  int id;
  volatile int go;
  int state;
  int kind; const void* waddr; uint64_t deadline; bool timedout; uint64_t ticket;
  int inrt;
  uint64_t steps;
  int64_t prio;
  bool stalled, stall_done; uint64_t stall_start, yielded;
  bool joined, detached, finished;
  pthread_t real;
  void* (*fn)(void*); void* arg;
  int tsd_rounds;
  VC vc;
};

static Thr* thr[MT];
static int nthr = 0;
static int nlive = 0;  // created and not yet joined or finished-detached
static bool multi = false;
static volatile bool active = false;
static __thread Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
static uint64_t next_decision = ~0ull;
static uint64_t next_limit = ~0ull; // min over all step triggers
static uint64_t last_switch = 0;
static Rng srng(1);
static uint64_t pct_points[64]; static int npct = 0; static int64_t pct_low = -1;
static uint64_t ticket_no = 0;
static int tid_stalled = -1;
static uint64_t idle_yields = 0;   // in a row during a stall, with nobody at work
static int late_left = 200;       // timed waits which may expire during a stall

static uint64_t vnow = 0;        // virtual nanoseconds since start
static uint64_t rt_jump = 0;     // offset of the realtime clock (may wrap: signed)
static Rng crng(1);
static pthread_key_t tsd_key;

static const TraceEnt* rp_vol; static const TraceEnt* rp_frc; static int rp_nvol, rp_nfrc, rp_vi, rp_fi;

bool in_sim() { return active && self && !self->inrt; }

struct Rt { // marks the current thread as inside the runtime
  Thr* t;
  Rt() : t(self) { if (t) t->inrt++; }
  ~Rt() { if (t) t->inrt--; }
};

static inline void mix(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x100000001b3ull; sh->hash ^= sh->hash >> 29; }
static inline void mixi(uint64_t v) { sh->interleave = (sh->interleave ^ v) * 0x9e3779b97f4a7c15ull; sh->interleave ^= sh->interleave >> 31; }

int fds_open() {
  int n = 0;
  for (int fd = 0; fd < 256; fd++) if (raw6(SYS_fcntl, fd, F_GETFD, 0, 0, 0, 0) >= 0) n++;
  return n;
}
int threads_alive() { return nlive; }
void finish_status(int status, const char* note) {
  sh->status = status;
  int i = 0;
  for (; note && note[i] && i < 255; i++) sh->note[i] = note[i];
  sh->note[i] = 0;
  raw_exit(80 + status);
}

static void note_deadlock() {
  char buf[256]; int n = 0;
  static const char* kn[] = {"none", "join", "mutex", "condition", "rwlock", "once", "guard", "futex", "sleep", "semaphore"};
  for (int i = 0; i < nthr && n < 230; i++)
    if (thr[i]->state == T_BLOCK) n += snprintf(buf + n, sizeof buf - n, "t%d:%s ", i, kn[thr[i]->kind]);
  finish_status(ST_DEADLOCK, buf);
}

static inline bool runnable(const Thr* t) { return t->state == T_RUN && !t->stalled; }

static void set_limit() {
  uint64_t l = next_decision;
  if (cfg.budget < l) l = cfg.budget;
  if (cfg.kill_step && cfg.kill_step >= sh->steps && cfg.kill_step < l) l = cfg.kill_step;
  if (multi && last_switch + cfg.max_run < l) l = last_switch + cfg.max_run;
  next_limit = l;
}

static uint64_t gap() {
  switch (cfg.strategy) {
  case S_RANDOM: {
    double u = srng.unit();
    // geometric with mean 1/p
    double g = -__builtin_log(1 - u) / (cfg.p > 1e-9 ? cfg.p : 1e-9);
    return 1 + (uint64_t)(g < 1e12 ? g : 1e12);
  }
  case S_BURST: {
    double u = srng.unit() + 1e-9;
    double g = cfg.quantum * 0.2 / u; // Pareto
    return 1 + (uint64_t)(g < 1e12 ? g : 1e12);
  }
  case S_RR: return cfg.quantum ? cfg.quantum : 1;
  default: return 1ull << 40;
  }
}

static void next_dec() {
  if (cfg.strategy == S_REPLAY) {
    while (rp_vi < rp_nvol && rp_vol[rp_vi].step < sh->steps) rp_vi++;
    next_decision = rp_vi < rp_nvol ? rp_vol[rp_vi].step : ~0ull;
  } else if (cfg.strategy == S_PCT) {
    next_decision = ~0ull;
    for (int i = 0; i < npct; i++) if (pct_points[i] > sh->steps && pct_points[i] < next_decision) next_decision = pct_points[i];
  } else {
    next_decision = sh->steps + gap();
  }
}

static void record(int tid, int forced) {
  if (sh->ntrace < kMaxTrace) sh->trace[sh->ntrace++] = TraceEnt{sh->steps, tid, forced};
  else sh->trace_overflow = 1;
}

static int choose(bool include_self) {
  // seeded choice among runnable threads; -1 if none
  int cand[MT], n = 0;
  for (int i = 0; i < nthr; i++) if (runnable(thr[i]) && (include_self || thr[i] != self)) cand[n++] = i;
  if (n == 0) return -1;
  switch (cfg.strategy) {
  case S_PCT: case S_SERIAL: {
    int b = cand[0];
    for (int k = 1; k < n; k++) if (thr[cand[k]]->prio > thr[b]->prio) b = cand[k];
    return b;
  }
  case S_RR: {
    for (int k = 0; k < n; k++) if (cand[k] > self->id) return cand[k];
    return cand[0];
  }
  default: return cand[srng.below(n)];
  }
}

static void wait_token(Thr* t) {
  while (!t->go) raw_futex_wait(&t->go, 0);
  t->go = 0;
}

static void handoff(Thr* to) {
  __sync_synchronize();
  to->go = 1;
  raw_futex_wake(&to->go);
}

static void switch_to(int tid) {
  Thr* me = self;
  Thr* to = thr[tid];
  if (to == me) return;
  sh->switches++;
  last_switch = sh->steps;
  mix(0x5157 + (uint64_t)tid * 977);
  mixi(((uint64_t)me->id << 48) ^ ((uint64_t)tid << 40) ^ me->steps);
  set_limit();
  handoff(to);
  wait_token(me);
}

// expire deadlines that have passed
static void expire() {
  for (int i = 0; i < nthr; i++) {
    Thr* t = thr[i];
    if (t->state == T_BLOCK && t->deadline && vnow >= t->deadline) {
      t->state = T_RUN; t->timedout = true; t->deadline = 0;
      sh->polls++;
      // a thread that polls: the others come first, and a stall does not go on for ever
      if (cfg.strategy == S_PCT || cfg.strategy == S_SERIAL) t->prio = pct_low--;
      if (tid_stalled >= 0 && late_left > 0) late_left--;
    }
  }
}

static bool unstall() {
  bool any = false;
  if (tid_stalled >= 0 && !sh->released) {
    sh->released = sh->steps;
    for (int i = 0; i < nthr && i < kMaxThr; i++) sh->rel_steps[i] = thr[i]->steps;
  }
  for (int i = 0; i < nthr; i++) if (thr[i]->stalled) { thr[i]->stalled = false; thr[i]->stall_done = true; any = true; }
  tid_stalled = -1;
  return any;
}

// the current thread cannot continue: pass the token on (returns when resumed)
static int forced_next() {
  for (;;) {
    expire();
    if (tid_stalled >= 0 && late_left <= 0) unstall();
    int def = -1;
    for (int k = 1; k < nthr; k++) { int i = (self->id + k) % nthr; if (runnable(thr[i])) { def = i; break; } }
    if (def < 0 && self->state == T_RUN && runnable(self)) def = self->id;
    if (def < 0) {
      // only stalled or timed threads are left
      uint64_t d = ~0ull;
      for (int i = 0; i < nthr; i++) if (thr[i]->state == T_BLOCK && thr[i]->deadline && thr[i]->deadline < d) d = thr[i]->deadline;
      if (d != ~0ull && cfg.stall_late && tid_stalled >= 0 && late_left > 0) { late_left--; vnow = d; sh->fired_late++; continue; }
      if (tid_stalled >= 0) { unstall(); continue; }
      if (d != ~0ull) { vnow = d; continue; }
      note_deadlock();
    }
    if (cfg.strategy == S_REPLAY) {
      while (rp_fi < rp_nfrc && rp_frc[rp_fi].step < sh->steps) rp_fi++;
      if (rp_fi < rp_nfrc && rp_frc[rp_fi].step == sh->steps) {
        int t = rp_frc[rp_fi++].tid;
        if (t >= 0 && t < nthr && runnable(thr[t])) { if (t != def) record(t, 1); return t; }
      }
      return def;
    }
    int t = choose(false);
    if (t < 0) t = def;
    if (t != def) record(t, 1);
    return t;
  }
}

static void block(int kind, const void* addr, uint64_t deadline) {
  Thr* me = self;
  me->state = T_BLOCK; me->kind = kind; me->waddr = addr; me->deadline = deadline; me->timedout = false;
  me->ticket = ++ticket_no;
  mix(0xb10c + kind);
  int t = forced_next();
  if (t == me->id) return; // own deadline expired
  switch_to(t);
}

static int wake(int kind, const void* addr, int n) {
  int woken = 0;
  while (woken < n) {
    Thr* best = nullptr;
    for (int i = 0; i < nthr; i++) {
      Thr* t = thr[i];
      if (t->state == T_BLOCK && t->kind == kind && t->waddr == addr && (!best || t->ticket < best->ticket)) best = t;
    }
    if (!best) break;
    best->state = T_RUN; best->deadline = 0; best->timedout = false;
    woken++;
  }
  return woken;
}

static void start_stall(Thr* t) {
  t->stalled = true; t->stall_start = sh->steps; tid_stalled = t->id; sh->fired_stall++;
}

static void decide_now() { // current thread is runnable; maybe switch
  expire();
  int n = 0;
  for (int i = 0; i < nthr; i++) if (runnable(thr[i])) n++;
  if (n <= 1) return;
  int t = choose(true);
  if (t >= 0 && t != self->id) { record(t, 0); switch_to(t); }
}

static void __attribute__((noinline)) slow_step() {
  Rt rt;
  Thr* me = self;
  uint64_t s = sh->steps;
  if (cfg.kill_step && s == cfg.kill_step) { sh->status = ST_KILLED; sh->killed_at = s; raw_kill(); }
  if (s >= cfg.budget) finish_status(ST_BUDGET, "step budget exhausted");
  if (multi) {
    if (s >= next_decision) {
      if (cfg.strategy == S_REPLAY) {
        while (rp_vi < rp_nvol && rp_vol[rp_vi].step < s) rp_vi++;
        if (rp_vi < rp_nvol && rp_vol[rp_vi].step == s) {
          int t = rp_vol[rp_vi++].tid;
          expire();
          next_dec(); set_limit();
          if (t >= 0 && t < nthr && runnable(thr[t]) && t != me->id) { record(t, 0); switch_to(t); }
          return;
        }
        next_dec();
      } else {
        if (cfg.strategy == S_PCT) {
          for (int i = 0; i < npct; i++) if (pct_points[i] == s) me->prio = pct_low--;
        }
        next_dec(); set_limit();
        decide_now();
        return;
      }
    } else if (s >= last_switch + cfg.max_run) {
      // fairness: nobody runs forever while others could
      last_switch = s;
      if (cfg.strategy != S_REPLAY) {
        expire();
        int cand[MT], n = 0;
        for (int i = 0; i < nthr; i++) if (runnable(thr[i]) && i != me->id) cand[n++] = i;
        if (n) {
          int t = cand[srng.below(n)];
          if (cfg.strategy == S_PCT || cfg.strategy == S_SERIAL) me->prio = pct_low--;
          record(t, 0); set_limit(); switch_to(t);
          return;
        }
      } else {
        // a replay follows its trace; rescue only if it is far off it
        if (rp_vi >= rp_nvol) {
          expire();
          for (int k = 1; k < nthr; k++) { int i = (me->id + k) % nthr; if (runnable(thr[i])) { record(i, 0); set_limit(); switch_to(i); return; } }
        }
      }
    }
  }
  set_limit();
}

static inline void step() {
  Thr* me = self;
  uint64_t s = ++sh->steps;
  me->steps++;
  vnow += cfg.tick;
  if (__builtin_expect(cfg.stall_victim == me->id && !me->stall_done && !me->stalled && me->steps >= cfg.stall_at && multi, 0)) {
    Rt rt;
    // stall only if somebody else can run meanwhile
    bool other = false;
    for (int i = 0; i < nthr; i++) if (thr[i] != me && runnable(thr[i])) other = true;
    if (other) { start_stall(me); int t = forced_next(); if (t != me->id) switch_to(t); }
    else me->stall_done = true;
  }
  if (__builtin_expect(tid_stalled >= 0 && s > thr[tid_stalled]->stall_start + (cfg.stall_for ? cfg.stall_for : cfg.budget / 4), 0)) unstall(); // others may wait for it actively
  if (__builtin_expect(s >= next_limit, 0)) slow_step();
}

// a synchronisation point: the SYNC strategy likes to preempt here
static void sync_point() {
  step();
  sh->sync_ops++;
  if (cfg.strategy == S_SYNC && multi && srng.unit() < cfg.p) { Rt rt; decide_now(); }
}

// --------------------------------------------------------- simple hash tables
template <class V> struct Table {
  struct E { uintptr_t k; V v; };
  E* e = nullptr; size_t cap = 0, n = 0;
  V* get(uintptr_t k, bool create) {
    if (!e) { if (!create) return nullptr; cap = 1024; e = (E*)rt_alloc(cap * sizeof(E)); }
    size_t i = (k * 0x9e3779b97f4a7c15ull >> 20) & (cap - 1);
    while (e[i].k) { if (e[i].k == k) return &e[i].v; i = (i + 1) & (cap - 1); }
    if (!create) return nullptr;
    if (n * 2 > cap) {
      E* o = e; size_t oc = cap; cap *= 4; e = (E*)rt_alloc(cap * sizeof(E)); n = 0;
      for (size_t j = 0; j < oc; j++) if (o[j].k) *get(o[j].k, true) = o[j].v;
      munmap(o, oc * sizeof(E));
      return get(k, true);
    }
    e[i].k = k; n++;
    return &e[i].v;
  }
};

struct SyncObj { VC* vc; int owner; int count; int readers; };
static Table<SyncObj> syncs;
static SyncObj* sync_of(const void* a) {
  SyncObj* s = syncs.get((uintptr_t)a, true);
  if (!s->vc) { s->vc = (VC*)rt_alloc(sizeof(VC)); s->owner = -1; }
  return s;
}
static void vjoin(VC& a, const VC& b) { for (int i = 0; i < nthr; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(const void* a) { SyncObj* s = syncs.get((uintptr_t)a, false); if (s && s->vc) vjoin(self->vc, *s->vc); }
static void release_join(const void* a) { SyncObj* s = sync_of(a); vjoin(*s->vc, self->vc); self->vc.c[self->id]++; }
static void release_store(const void* a) { SyncObj* s = sync_of(a); for (int i = 0; i < nthr; i++) s->vc->c[i] = self->vc.c[i]; self->vc.c[self->id]++; }

// ------------------------------------------------------------- race detection
struct Acc { uint32_t clk; uint16_t tid; uint8_t mask; uint8_t atomic; };
struct Sh { uintptr_t key; Acc w; uint64_t wpc; Acc r[5]; uint8_t nr, rr; };
constexpr size_t kShCap = 1u << 20;
static Sh* shadow = nullptr;

static Sh* sh_get(uintptr_t a, bool create) {
  uintptr_t key = (a >> 3) + 1;
  size_t i = ((a >> 12) * 0x9e3779b97f4a7c15ull >> 40) * 512 + ((a >> 3) & 511);
  i &= kShCap - 1;
  for (int probes = 0; probes < 4096; probes++) {
    if (shadow[i].key == key) return &shadow[i];
    if (!shadow[i].key) { if (!create) return nullptr; shadow[i].key = key; return &shadow[i]; }
    i = (i + 1) & (kShCap - 1);
  }
  return nullptr;
}

static void report(uintptr_t a, uint64_t pc, bool w, const Acc& o, uint64_t opc, bool ow) {
  sh->nrace_total++;
  for (int i = 0; i < sh->nrace; i++) if (sh->race[i].pc1 == pc && sh->race[i].w1 == w && sh->race[i].w2 == ow) return;
  if (sh->nrace < kMaxRace) sh->race[sh->nrace++] = RaceRep{a, pc, opc, self->id, o.tid, w, ow, sh->steps};
}

static bool sh_conflict(uintptr_t a, bool w) {
  Sh* s = sh_get(a, false);
  if (!s) return false;
  int me = self->id;
  if (s->w.clk && s->w.tid != me) return true;
  if (w) for (int i = 0; i < s->nr; i++) if (s->r[i].clk && s->r[i].tid != me) return true;
  return false;
}

static void sh_access(uintptr_t a, uint8_t mask, bool w, bool atomic, uint64_t pc) {
  Sh* s = sh_get(a, true);
  if (!s) return;
  Thr* me = self;
  if (s->w.clk && s->w.tid != me->id && (s->w.mask & mask) && !(atomic && s->w.atomic) && me->vc.c[s->w.tid] < s->w.clk)
    report(a, pc, w, s->w, s->wpc, true);
  if (w) {
    for (int i = 0; i < s->nr; i++) {
      Acc& r = s->r[i];
      if (r.clk && r.tid != me->id && (r.mask & mask) && !(atomic && r.atomic) && me->vc.c[r.tid] < r.clk) report(a, pc, w, r, 0, false);
    }
    uint8_t m = mask;
    if (s->w.clk && s->w.tid == me->id && s->w.clk == me->vc.c[me->id]) m |= s->w.mask;
    s->w = Acc{me->vc.c[me->id], (uint16_t)me->id, m, atomic};
    s->wpc = pc;
  } else {
    for (int i = 0; i < s->nr; i++)
      if (s->r[i].tid == me->id && s->r[i].atomic == atomic) {
        if (s->r[i].clk == me->vc.c[me->id]) s->r[i].mask |= mask; else { s->r[i].clk = me->vc.c[me->id]; s->r[i].mask = mask; }
        return;
      }
    Acc x{me->vc.c[me->id], (uint16_t)me->id, mask, atomic};
    if (s->nr < 5) s->r[s->nr++] = x; else { s->r[s->rr] = x; s->rr = (s->rr + 1) % 5; }
  }
}

static void sh_clear(uintptr_t a, size_t n) {
  if (n > 65536) n = 65536;
  for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
    Sh* s = sh_get(g, false);
    if (s) { s->w = Acc{}; s->nr = 0; s->wpc = 0; for (auto& r : s->r) r = Acc{}; }
  }
}

static void blk(void* p, size_t n) { if (active && multi && self) sh_clear((uintptr_t)p, n); }

extern "C" char __executable_start, end;
static inline bool stable_addr(uintptr_t a) {
  return a < 0x10000000 || (a >= 0x100000000000ull && a < 0x170000000000ull);
}

static void misuse(int k, uintptr_t a, size_t n, bool w, uint64_t pc) {
  int i = sh->nmisuse++;
  if (i < 4) sh->misuse[i] = Misuse{k, (int)w, self ? self->id : -1, a, n, pc, sh->steps};
}
// the libraries whose own behaviour after a failure is not judged
static struct { uintptr_t lo, hi; } g_lib[8];
static int g_nlib = 0;
// the program and the C++ library it uses
static struct { uintptr_t lo, hi; } g_own[2];
static int g_nown = 0;
static int note_lib(dl_phdr_info* i, size_t, void*) {
  const char* n = i->dlpi_name;
  bool own = !n || !*n || strstr(n, "libstdc++"); // the program comes first and has no name
  if (n && strstr(n, "vdso")) return 0;
  if (!own && !(strstr(n, "xerces") || strstr(n, "hdf5") || strstr(n, "pugixml") || strstr(n, "icu"))) return 0;
  uintptr_t lo = ~0ull, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD) continue;
    uintptr_t a = i->dlpi_addr + h.p_vaddr;
    if (a < lo) lo = a;
    if (a + h.p_memsz > hi) hi = a + h.p_memsz;
  }
  if (own) { if (g_nown < 2) { g_own[g_nown].lo = lo; g_own[g_nown++].hi = hi; } return 0; }
  if (g_nlib < 8) { g_lib[g_nlib].lo = lo; g_lib[g_nlib++].hi = hi; }
  return 0;
}
static void wild_free(int k, void* p, void* pc) {
  if (!active) return;
  bool lib = false;
  for (int i = 0; i < g_nlib; i++) lib |= (uintptr_t)pc >= g_lib[i].lo && (uintptr_t)pc < g_lib[i].hi;
  misuse(lib ? M_LIBFREE : k, (uintptr_t)p, 0, true, (uint64_t)pc);
}


static inline void mem(uintptr_t a, size_t n, bool w, uint64_t pc) {
  if (!active) return;
  Thr* me = self;
  if (!me || me->inrt) return;
  step();
  if (stable_addr(a)) mix(a * 4 + w + ((uint64_t)me->id << 56));
  if (cfg.mem) { if (int k = heap_misuse(a, n)) misuse(k, a, n, w, pc); }
  if (!multi) return;
  sh->multi_steps++;
  if (!cfg.races) return;
  if (sh_conflict(a, w)) {
    sh->conflicts++;
    if (cfg.strategy == S_SYNC && srng.unit() < cfg.p) { Rt rt; decide_now(); }
  }
  uintptr_t g = a & ~7ull, e = a + n;
  while (g < e) {
    unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g < 8 ? (unsigned)(e - g) : 8;
    sh_access(g, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), w, false, pc);
    g += 8;
  }
}

// ----------------------------------------------------------------- allocation
static bool mfail(void* pc) {
  if (!active) return false;
  Thr* me = self;
  if (!me || me->inrt) return false;
  uint64_t k = sh->mallocs++;
  bool own = false;
  for (int i = 0; pc && i < g_nown; i++) own |= (uintptr_t)pc >= g_own[i].lo && (uintptr_t)pc < g_own[i].hi;
  if (own) {
    uint64_t o = sh->mallocs_own++;
    if (o < kMaxOwn) sh->own_pc[o] = (uint64_t)pc;
    if (cfg.malloc_own) k = o;
  } else if (cfg.malloc_own) return false;
  if (cfg.malloc_fail >= 0 && (long)k >= cfg.malloc_fail && (long)k - cfg.malloc_fail < cfg.malloc_fail_len) {
    sh->fired_malloc++;
    mix(0xa110c + k);
    return true;
  }
  return false;
}

// -------------------------------------------------------------- real functions
#define REAL(name) static decltype(&::name) real_##name;
template <class T> static void res(T& p, const char* n) { p = (T)dlsym(RTLD_NEXT, n); }
REAL(pthread_create) REAL(pthread_join) REAL(pthread_detach) REAL(pthread_mutex_lock) REAL(pthread_mutex_unlock)
REAL(pthread_mutex_trylock) REAL(pthread_once) REAL(pthread_cond_wait) REAL(pthread_cond_signal) REAL(pthread_cond_broadcast)
REAL(pthread_cond_timedwait) REAL(pthread_rwlock_rdlock) REAL(pthread_rwlock_wrlock) REAL(pthread_rwlock_unlock)
REAL(pthread_rwlock_tryrdlock) REAL(pthread_rwlock_trywrlock)
REAL(clock_gettime) REAL(gettimeofday) REAL(time) REAL(nanosleep) REAL(clock_nanosleep) REAL(usleep) REAL(sleep) REAL(sched_yield)
REAL(fopen) REAL(fopen64) REAL(fread) REAL(fwrite) REAL(fclose) REAL(fflush)
REAL(read) REAL(pread) REAL(pread64) REAL(readv) REAL(write) REAL(writev) REAL(pwrite) REAL(pwrite64) REAL(close)
REAL(rename) REAL(unlink) REAL(remove) REAL(fsync) REAL(fdatasync) REAL(ftruncate) REAL(lseek) REAL(lseek64)
REAL(stat) REAL(fstat) REAL(stat64) REAL(fstat64) REAL(lstat) REAL(getpid) REAL(getppid)
REAL(fseek) REAL(ftell)
static int (*real_open)(const char*, int, ...);
static int (*real_open64)(const char*, int, ...);
static int (*real_openat)(int, const char*, int, ...);
static ssize_t (*real_getrandom)(void*, size_t, unsigned);
static int (*real_getentropy)(void*, size_t);

static void resolve() {
  static bool done = false;
  if (done) return;
  done = true;
#define R(n) res(real_##n, #n);
  R(pthread_create) R(pthread_join) R(pthread_detach) R(pthread_mutex_lock) R(pthread_mutex_unlock)
  R(pthread_mutex_trylock) R(pthread_once) R(pthread_cond_wait) R(pthread_cond_signal) R(pthread_cond_broadcast)
  R(pthread_cond_timedwait) R(pthread_rwlock_rdlock) R(pthread_rwlock_wrlock) R(pthread_rwlock_unlock)
  R(pthread_rwlock_tryrdlock) R(pthread_rwlock_trywrlock)
  R(clock_gettime) R(gettimeofday) R(time) R(nanosleep) R(clock_nanosleep) R(usleep) R(sleep) R(sched_yield)
  R(fopen) R(fopen64) R(fread) R(fwrite) R(fclose) R(fflush)
  R(read) R(pread) R(pread64) R(readv) R(write) R(writev) R(pwrite) R(pwrite64) R(close)
  R(rename) R(unlink) R(remove) R(fsync) R(fdatasync) R(ftruncate) R(lseek) R(lseek64)
  R(stat) R(fstat) R(stat64) R(fstat64) R(lstat) R(getpid) R(getppid) R(fseek) R(ftell)
  R(open) R(open64) R(openat) R(getrandom) R(getentropy)
}
__attribute__((constructor(101))) static void rt_ctor() { resolve(); }

// --------------------------------------------------------------- main routine
constexpr uintptr_t kStackBase = 0x160000000000ull;
constexpr size_t kStack = 8ull << 20;

static void finish_thread(Thr* t) {
  // called with the token, at the very end of the thread
  t->inrt++;
  t->state = T_DONE; t->finished = true;
  t->vc.c[t->id]++;
  if (t->detached) { nlive--; multi = nlive > 1; }
  wake(K_JOIN, t, 1000);
  mix(0xd0e);
  int n = forced_next();
  sh->switches++;
  last_switch = sh->steps;
  mixi(((uint64_t)t->id << 48) ^ ((uint64_t)n << 40) ^ t->steps ^ 0xff);
  set_limit();
  sh->thr_steps[t->id] = t->steps;
  Thr* to = thr[n];
  self = nullptr;
  handoff(to);
}

static void tsd_dtor(void* v) {
  Thr* t = (Thr*)v;
  if (t->tsd_rounds++ < 2) { pthread_setspecific(tsd_key, t); return; }
  finish_thread(t);
}

static void* thr_entry(void* a) {
  Thr* t = (Thr*)a;
  t->inrt = 1;
  self = t;
  wait_token(t);
  pthread_setspecific(tsd_key, t);
  t->inrt = 0;
  return t->fn(t->arg);
}

static Thr* new_thr(void* (*fn)(void*), void* arg) {
  if (nthr >= MT) finish_status(ST_LIMIT, "too many threads");
  Thr* t = (Thr*)rt_alloc(sizeof(Thr));
  t->id = nthr; t->fn = fn; t->arg = arg; t->state = T_RUN;
  t->prio = (int64_t)(srng.next() >> 2);
  for (int i = 0; i <= nthr; i++) t->vc.c[i] = self ? self->vc.c[i] : 0;
  t->vc.c[t->id] = 1;
  thr[nthr++] = t;
  sh->threads++;
  return t;
}

static int spawn(Thr* t, bool detached) {
  uintptr_t at = kStackBase + (uintptr_t)t->id * kStack;
  void* stk = mmap((void*)at, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (stk == MAP_FAILED) finish_status(ST_LIMIT, "stack");
  pthread_attr_t at2;
  pthread_attr_init(&at2);
  pthread_attr_setstack(&at2, stk, kStack);
  if (detached) pthread_attr_setdetachstate(&at2, PTHREAD_CREATE_DETACHED);
  int r = real_pthread_create(&t->real, &at2, thr_entry, t);
  pthread_attr_destroy(&at2);
  return r;
}

static TraceEnt* split_v; static TraceEnt* split_f;

static void (*user_fn)(void*);
static void* main_entry(void* arg) { user_fn(arg); return nullptr; }

void run(void (*fn)(void*), void* arg) {
  resolve();
  srng = Rng(cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567);
  crng = Rng(cfg.clock_seed ? cfg.clock_seed : 1);
  if (cfg.clock_seed) rt_jump = crng.next() % (86400ull * 1000000000ull * 365);
  shadow = (Sh*)mmap((void*)0x170000000000ull, kShCap * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_key_create(&tsd_key, tsd_dtor);
  if (cfg.strategy == S_PCT) {
    npct = cfg.depth < 60 ? cfg.depth : 60;
    for (int i = 0; i < npct; i++) pct_points[i] = 1 + srng.below(cfg.estlen);
  }
  if (cfg.strategy == S_REPLAY) {
    split_v = (TraceEnt*)rt_alloc(sizeof(TraceEnt) * (cfg.nreplay + 1));
    split_f = (TraceEnt*)rt_alloc(sizeof(TraceEnt) * (cfg.nreplay + 1));
    for (int i = 0; i < cfg.nreplay; i++) {
      if (cfg.replay[i].forced) split_f[rp_nfrc++] = cfg.replay[i]; else split_v[rp_nvol++] = cfg.replay[i];
    }
    rp_vol = split_v; rp_frc = split_f;
  }
  malloc_should_fail = mfail;
  on_block = blk;
  on_wild_free = wild_free;
  if (!g_nlib) dl_iterate_phdr(note_lib, nullptr);
  user_fn = fn;
  Thr* t = new_thr(main_entry, arg);
  nlive = 1;
  next_dec(); set_limit();
  active = true;
  arena_new_generation();
  if (spawn(t, false)) raw_exit(99);
  handoff(t);
  // the initial thread takes no further part; exit() is called by the
  // simulation's main thread
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

// --------------------------------------------------------------------- clocks
static uint64_t deadline_rel(uint64_t ns) { uint64_t d = vnow + ns; return d ? d : 1; }
static uint64_t rt_now() {
  if (cfg.clock_seed && crng.below(4) == 0) { // jump, forwards or backwards, up to two hours
    int64_t j = (int64_t)(crng.next() % (7200ull * 1000000000ull)) - 3600ll * 1000000000ll;
    rt_jump += (uint64_t)j; sh->fired_clock++;
  }
  return cfg.clock_base * 1000000000ull + vnow + rt_jump;
}
static uint64_t mono_now() {
  if (cfg.clock_seed && crng.below(8) == 0) { vnow += crng.next() % 2000000000ull; sh->fired_clock++; }
  return vnow + (cfg.clock_seed ? cfg.clock_seed % 100000 * 1000000000ull : 0) + 1000000000ull;
}
static uint64_t abs_deadline(clockid_t c, const timespec* ts) {
  uint64_t want = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  uint64_t now = c == CLOCK_REALTIME ? cfg.clock_base * 1000000000ull + vnow + rt_jump
                                     : vnow + (cfg.clock_seed ? cfg.clock_seed % 100000 * 1000000000ull : 0) + 1000000000ull;
  return want <= now ? deadline_rel(0) : deadline_rel(want - now);
}

} // namespace sim

using namespace sim;
#define SIM (active && self && !self->inrt)

// ============================================================ tsan interface
extern "C" {
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { mem((uintptr_t)a, n, false, PC); } \
  void __tsan_write##n(void* a) { mem((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { mem((uintptr_t)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { mem((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { mem((uintptr_t)a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { mem((uintptr_t)a, n, true, PC); } \
  void __tsan_read##n##_pc(void* a, void* p) { mem((uintptr_t)a, n, false, (uint64_t)p); } \
  void __tsan_write##n##_pc(void* a, void* p) { mem((uintptr_t)a, n, true, (uint64_t)p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) mem((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) mem((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) mem((uintptr_t)a, 8, true, PC); else mem((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_read(void** a) { mem((uintptr_t)a, 8, false, PC); }
}

static void at_pre(const volatile void* a, size_t n, bool w, int mo, bool rmw, uint64_t pc) {
  if (!SIM) return;
  sync_point();
  Thr* me = self;
  uintptr_t x = (uintptr_t)a;
  if (stable_addr(x)) mix(x * 4 + 2 + w + ((uint64_t)me->id << 56));
  if (cfg.mem) { if (int k = heap_misuse(x, n)) misuse(k, x, n, w, pc); }
  if (!multi) { /* ordering still has to be recorded for later threads: creation edges cover it */ return; }
  mixi(((uint64_t)me->id << 8) ^ 0xa70);
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (cfg.races) sh_access(x & ~7ull, (uint8_t)(((n >= 8 ? 0x100u : (1u << n)) - 1) << (x & 7)), w, true, pc);
  if ((!w || rmw) && acq) acquire((const void*)a);
  if (w && rel) { if (rmw) release_join((const void*)a); else release_store((const void*)a); }
  else if (w && !rmw) { SyncObj* s = syncs.get((uintptr_t)a, false); if (s && s->vc) for (int i = 0; i < nthr; i++) s->vc->c[i] = 0; }
}

extern "C" {
#define ATOM(T, n) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { at_pre(a, n / 8, false, mo, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, false, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { at_pre(a, n / 8, true, mo, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { at_pre(a, n / 8, true, mo, true, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo) {
  if (SIM) { // conservative: a fence synchronises with every other fence
    static char f; sync_point();
    if (mo != __ATOMIC_RELAXED) { acquire(&f); release_join(&f); }
  }
  __sync_synchronize();
}
void __tsan_atomic_signal_fence(int) {}

// memory functions called by instrumented code (linker --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n && SIM) { mem((uintptr_t)s, n, false, PC); mem((uintptr_t)d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n && SIM) { mem((uintptr_t)s, n, false, PC); mem((uintptr_t)d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n && SIM) mem((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}

// =============================================================== pthread layer
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!SIM) { resolve(); return real_pthread_create(out, attr, fn, arg); }
  sync_point();
  uint64_t k = sh->create_calls++;
  if (!k) { sh->heap_before = heap_peak(); sh->heap_mark = heap_now(); heap_reset_peak(); }
  if (cfg.thread_fail_mask >> (k < 63 ? k : 63) & 1) { sh->fired_thread++; mix(0xfa11 + k); return cfg.thread_fail_errno; }
  int det = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &det);
  Thr* t;
  { Rt rt; t = new_thr(fn, arg); }
  t->detached = det == PTHREAD_CREATE_DETACHED;
  nlive++;
  if ((uint64_t)nlive > sh->maxlive) sh->maxlive = nlive;
  if (!multi) { multi = true; sh->mallocs_at_multi = sh->mallocs; last_switch = sh->steps; }
  // the descriptor is allocated from the simulated heap, so this may fail too
  int r = spawn(t, t->detached);
  if (r) { t->state = T_DONE; t->finished = t->joined = true; nlive--; multi = nlive > 1; set_limit(); return r; }
  *out = t->real;
  self->vc.c[self->id]++;
  { Rt rt; set_limit(); }
  sync_point();
  return 0;
}

static Thr* find(pthread_t p) { for (int i = nthr - 1; i >= 0; i--) if (thr[i]->real == p && !thr[i]->joined) return thr[i]; return nullptr; }

int pthread_join(pthread_t p, void** ret) {
  if (!SIM) { resolve(); return real_pthread_join(p, ret); }
  sync_point();
  Thr* t = find(p);
  if (!t) return ESRCH;
  if (t == self) return EDEADLK;
  { Rt rt; while (!t->finished) block(K_JOIN, t, 0); }
  vjoin(self->vc, t->vc);
  t->joined = true;
  nlive--; multi = nlive > 1;
  int r = real_pthread_join(p, ret);
  sync_point();
  return r;
}

int pthread_detach(pthread_t p) {
  if (!SIM) { resolve(); return real_pthread_detach(p); }
  sync_point();
  Thr* t = find(p);
  if (!t) return ESRCH;
  t->detached = true;
  if (t->finished) { nlive--; multi = nlive > 1; }
  return real_pthread_detach(p);
}

static int mx_lock(pthread_mutex_t* m, uint64_t deadline, bool try_) {
  sync_point();
  SyncObj* s = sync_of(m);
  int kind = m->__data.__kind & 3;
  if (s->owner == self->id && s->count > 0) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (try_) return EBUSY;
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (sync_of(m)->count > 0) {
    if (try_) return EBUSY;
    Rt rt;
    block(K_MUTEX, m, deadline);
    if (self->timedout && sync_of(m)->count > 0) return ETIMEDOUT;
  }
  s = sync_of(m);
  s->owner = self->id; s->count = 1;
  acquire(m);
  mixi(((uint64_t)self->id << 8) ^ 0x10c);
  return 0;
}
static int mx_unlock(pthread_mutex_t* m) {
  SyncObj* s = sync_of(m);
  if (s->count > 0 && --s->count == 0) {
    s->owner = -1;
    release_join(m);
    wake(K_MUTEX, m, 1);
  }
  sync_point();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!SIM) { resolve(); return real_pthread_mutex_lock(m); } return mx_lock(m, 0, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!SIM) { resolve(); return real_pthread_mutex_trylock(m); } return mx_lock(m, 0, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!SIM) { resolve(); return real_pthread_mutex_unlock(m); } return mx_unlock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { if (!SIM) return EINVAL; return mx_lock(m, abs_deadline(CLOCK_REALTIME, ts), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { if (!SIM) return EINVAL; return mx_lock(m, abs_deadline(c, ts), false); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (SIM) { SyncObj* s = syncs.get((uintptr_t)m, false); if (s) { s->count = 0; s->owner = -1; } }
  return 0;
}

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  sync_point();
  // release and wait are one step
  SyncObj* s = sync_of(m);
  int saved = s->count;
  s->count = 0; s->owner = -1;
  release_join(m);
  wake(K_MUTEX, m, 1);
  bool to;
  { Rt rt; block(K_COND, c, deadline); to = self->timedout; }
  while (sync_of(m)->count > 0) { Rt rt; block(K_MUTEX, m, 0); }
  s = sync_of(m);
  s->owner = self->id; s->count = saved;
  acquire(m);
  acquire(c);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIM) { resolve(); return real_pthread_cond_wait(c, m); } return cwait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!SIM) { resolve(); return real_pthread_cond_timedwait(c, m, ts); } return cwait(c, m, abs_deadline(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (!SIM) return EINVAL; return cwait(c, m, abs_deadline(k, ts)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!SIM) { resolve(); return real_pthread_cond_signal(c); } sync_point(); release_join(c); wake(K_COND, c, 1); sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!SIM) { resolve(); return real_pthread_cond_broadcast(c); } sync_point(); release_join(c); wake(K_COND, c, 100000); sync_point(); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

static int rw(pthread_rwlock_t* l, bool write, bool try_) {
  sync_point();
  for (;;) {
    SyncObj* s = sync_of(l);
    if (s->owner < 0 && (!write || s->readers == 0)) {
      if (write) s->owner = self->id; else s->readers++;
      acquire(l);
      return 0;
    }
    if (try_) return EBUSY;
    Rt rt; block(K_RW, l, 0);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!SIM) { resolve(); return real_pthread_rwlock_rdlock(l); } return rw(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!SIM) { resolve(); return real_pthread_rwlock_wrlock(l); } return rw(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!SIM) { resolve(); return real_pthread_rwlock_tryrdlock(l); } return rw(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!SIM) { resolve(); return real_pthread_rwlock_trywrlock(l); } return rw(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!SIM) { resolve(); return real_pthread_rwlock_unlock(l); }
  SyncObj* s = sync_of(l);
  if (s->owner == self->id) s->owner = -1; else if (s->readers > 0) s->readers--;
  release_join(l);
  wake(K_RW, l, 100000);
  sync_point();
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!SIM) { resolve(); return real_pthread_once(o, fn); }
  sync_point();
  for (;;) {
    if (*o == 2) { acquire(o); return 0; } // same encoding as glibc
    SyncObj* s = sync_of(o);
    if (s->count == 0) break;
    Rt rt; block(K_ONCE, o, 0);
  }
  { SyncObj* s = sync_of(o); s->count = 1; s->owner = self->id; }
  try { fn(); } catch (...) {
    sync_of(o)->count = 0; wake(K_ONCE, o, 100000);
    throw;
  }
  *o = 2;
  sync_of(o)->count = 0;
  release_join(o);
  wake(K_ONCE, o, 100000);
  sync_point();
  return 0;
}

// guards of function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  if (!SIM) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    return 1;
  }
  sync_point();
  for (;;) {
    if (*(unsigned char*)g) { acquire(g); return 0; }
    SyncObj* s = sync_of(g);
    if (s->count == 0) { s->count = 1; return 1; }
    Rt rt; block(K_GUARD, g, 0);
  }
}
void __cxa_guard_release(uint64_t* g) {
  if (!SIM) { *(unsigned char*)g = 1; return; }
  *(unsigned char*)g = 1;
  sync_of(g)->count = 0;
  release_join(g);
  wake(K_GUARD, g, 100000);
  sync_point();
}
void __cxa_guard_abort(uint64_t* g) {
  if (!SIM) return;
  sync_of(g)->count = 0;
  wake(K_GUARD, g, 100000);
}

int sem_init(void* s, int, unsigned v) { *(volatile int*)s = (int)v; return 0; }
int sem_destroy(void*) { return 0; }
int sem_wait(void* s) {
  if (!SIM) { while (*(volatile int*)s <= 0) ; --*(int*)s; return 0; }
  sync_point();
  while (*(volatile int*)s <= 0) { Rt rt; block(K_SEM, s, 0); }
  --*(int*)s; acquire(s);
  return 0;
}
int sem_trywait(void* s) { if (SIM) sync_point(); if (*(volatile int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; if (SIM) acquire(s); return 0; }
int sem_post(void* s) { ++*(int*)s; if (SIM) { release_join(s); wake(K_SEM, s, 1); sync_point(); } return 0; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (SIM && n == SYS_futex) {
    int op = (int)a[1] & FUTEX_CMD_MASK;
    int* addr = (int*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point();
      if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
      uint64_t dl = 0;
      const timespec* ts = (const timespec*)a[3];
      if (ts) {
        if (op == FUTEX_WAIT) dl = deadline_rel((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
        else dl = abs_deadline((int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      { Rt rt; block(K_FUTEX, addr, dl); if (self->timedout) { errno = ETIMEDOUT; return -1; } }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int r = wake(K_FUTEX, addr, (int)a[2]);
      sync_point();
      return r;
    }
  }
  if (SIM && n == SYS_gettid) { sh->id_reads++; return (long)(1000 + cfg.id_seed % 30000 + self->id); }
  long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ============================================================ time and entropy
int clock_gettime(clockid_t c, timespec* ts) {
  if (!SIM) { resolve(); return real_clock_gettime(c, ts); }
  sh->clock_reads++;
  uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? rt_now() : mono_now();
  ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull);
  step();
  return 0;
}
int gettimeofday(timeval* tv, void* tz) {
  if (!SIM) { resolve(); return real_gettimeofday(tv, tz); }
  sh->clock_reads++;
  uint64_t v = rt_now();
  tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (suseconds_t)(v % 1000000000ull / 1000);
  return 0;
}
time_t time(time_t* t) {
  if (!SIM) { resolve(); return real_time(t); }
  sh->clock_reads++;
  time_t v = (time_t)(rt_now() / 1000000000ull);
  if (t) *t = v;
  return v;
}
clock_t clock() { if (SIM) { sh->clock_reads++; return (clock_t)(vnow / 1000); } timespec ts; resolve(); real_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
static int vsleep(uint64_t ns) { sync_point(); Rt rt; block(K_SLEEP, nullptr, deadline_rel(ns)); return 0; }
int nanosleep(const timespec* a, timespec* b) { if (!SIM) { resolve(); return real_nanosleep(a, b); } return vsleep((uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
  if (!SIM) { resolve(); return real_clock_nanosleep(c, fl, a, b); }
  if (fl & TIMER_ABSTIME) { sync_point(); Rt rt; block(K_SLEEP, nullptr, abs_deadline(c, a)); return 0; }
  return vsleep((uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec);
}
int usleep(useconds_t u) { if (!SIM) { resolve(); return real_usleep(u); } return vsleep((uint64_t)u * 1000); }
unsigned sleep(unsigned s) { if (!SIM) { resolve(); return real_sleep(s); } vsleep((uint64_t)s * 1000000000ull); return 0; }
int sched_yield() {
  if (!SIM) { resolve(); return real_sched_yield(); }
  sync_point();
  sh->polls++;
  if (tid_stalled >= 0) {
    // everybody yields, nobody works: they wait for the thread that stands still
    bool work = false;
    self->yielded = self->steps;
    for (int i = 0; i < nthr; i++) if (runnable(thr[i]) && thr[i]->steps - thr[i]->yielded > 64) { work = true; break; }
    idle_yields = work ? 0 : idle_yields + 1;
    if (idle_yields > 50u * (unsigned)nthr) { Rt rt; unstall(); idle_yields = 0; }
  }
  if (multi && cfg.strategy != S_REPLAY) {
    Rt rt;
    expire();
    int cand[MT], n = 0;
    for (int i = 0; i < nthr; i++) if (runnable(thr[i]) && i != self->id) cand[n++] = i;
    if (n) { int t = cand[srng.below(n)]; if (cfg.strategy == S_PCT || cfg.strategy == S_SERIAL) self->prio = pct_low--; record(t, 0); switch_to(t); }
  }
  return 0;
}
static Rng erng(0); static bool erng_init = false;
static uint64_t entropy() { if (!erng_init) { erng = Rng(cfg.entropy_seed * 77777 + 5); erng_init = true; } sh->entropy_reads++; return erng.next(); }
ssize_t getrandom(void* p, size_t n, unsigned f) {
  if (!SIM) { resolve(); return real_getrandom(p, n, f); }
  for (size_t i = 0; i < n; i++) ((char*)p)[i] = (char)entropy();
  return (ssize_t)n;
}
int getentropy(void* p, size_t n) {
  if (!SIM) { resolve(); return real_getentropy(p, n); }
  for (size_t i = 0; i < n; i++) ((char*)p)[i] = (char)entropy();
  return 0;
}
unsigned arc4random() { if (SIM) return (unsigned)entropy(); unsigned v = 0; resolve(); real_getentropy(&v, 4); return v; }
int rand() { if (SIM) return (int)(entropy() & 0x7fffffff); static unsigned s = 1; return rand_r(&s); }
long random() { if (SIM) return (long)(entropy() & 0x7fffffff); static unsigned s = 1; return rand_r(&s); }
// std::random_device
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)entropy(); }
unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void*) { return (unsigned)entropy(); }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void _ZNSt13random_device7_M_initERKSs(void*, const void*) {}
void _ZNSt13random_device7_M_finiEv(void*) {}
pid_t getpid() { if (!SIM) { resolve(); return real_getpid(); } sh->id_reads++; return (pid_t)(1000 + cfg.id_seed % 30000); }
pid_t getppid() { if (!SIM) { resolve(); return real_getppid(); } sh->id_reads++; return (pid_t)(500 + cfg.id_seed % 17); }
pid_t gettid() { if (!SIM) return (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); sh->id_reads++; return (pid_t)(1000 + cfg.id_seed % 30000 + self->id); }
int get_nprocs() { if (SIM) { sh->id_reads++; return (int)(1 + cfg.id_seed % 16); } return 8; }
int get_nprocs_conf() { if (SIM) { sh->id_reads++; return (int)(1 + cfg.id_seed % 16); } return 8; }
int sched_getcpu() { if (SIM) { sh->id_reads++; return (int)(cfg.id_seed % 8); } return 0; }
}

// ================================================================= file layer
static char fd_role[1024];
char g_gate[2][96]; // named pipes over which a paused process is told to go on
char g_rep_name[4][64]; // files that A_REPLACE may exchange, set by the server

static bool ends(const char* s, const char* t) {
  size_t a = 0, b = 0;
  while (s[a]) a++;
  while (t[b]) b++;
  if (b > a) return false;
  for (size_t i = 0; i < b; i++) if (s[a - b + i] != t[i]) return false;
  return true;
}
// the program sees its scratch directory under one name in all executions
static const char kDir[] = "/simulated/run";
static const char* xl(const char* p) {
  if (!SIM || !p) return p;
  size_t n = sizeof kDir - 1;
  for (size_t i = 0; i < n; i++) if (p[i] != kDir[i]) return p;
  if (!p[n]) return ".";
  if (p[n] != '/') return p;
  while (p[n] == '/') n++;
  return p[n] ? p + n : ".";
}
char g_input[96] = "in.xml";
static char role_of(const char* p, bool writing) {
  if (!p) return 0;
  p = xl(p);
  if (p[0] == '/') return 0;
  if (writing) return 'W';
  if (ends(p, g_input)) return 'X';
  if (ends(p, ".xml")) return 'X';
  if (ends(p, ".xsd")) return 'S';
  if (ends(p, ".hdf5")) return 'H';
  if (ends(p, ".out")) return 'W';
  return 0;
}

// changes outside the scratch directory are recorded and not carried out
static bool foreign(const char* p) {
  if (!SIM || !p) return false;
  p = xl(p);
  bool up = false;
  int depth = 0;
  for (const char* q = p; *q;) {  // leaves the directory on the way
    const char* e = q;
    while (*e && *e != '/') e++;
    long n = e - q;
    if (n == 2 && q[0] == '.' && q[1] == '.') { if (--depth < 0) up = true; }
    else if (n > 0 && !(n == 1 && q[0] == '.')) depth++;
    q = *e ? e + 1 : e;
  }
  if (p[0] != '/' && !up) {
    for (int i = 0; i < sh->ntouched; i++) { size_t n = 0; while (p[n] && p[n] == sh->touched[i][n]) n++; if (p[n] == sh->touched[i][n]) return false; }
    size_t n = 0;
    while (p[n]) n++;
    if (sh->ntouched < 16 && n < sizeof sh->touched[0]) { for (size_t i = 0; i <= n; i++) sh->touched[sh->ntouched][i] = p[i]; sh->ntouched++; }
    return false;
  }
  static const char* const fine[] = {"/dev/", "/proc/self/"};
  for (const char* f : fine) { size_t n = 0; while (f[n] && p[n] == f[n]) n++; if (!f[n]) return false; }
  if (!sh->foreign++) { size_t n = 0; for (; p[n] && n + 1 < sizeof sh->foreign_name; n++) sh->foreign_name[n] = p[n]; sh->foreign_name[n] = 0; }
  errno = EACCES;
  return true;
}
static bool refused(const char* what) {
  if (!SIM) return false;
  if (!sh->foreign++) { size_t n = 0; for (; what[n] && n + 1 < sizeof sh->foreign_name; n++) sh->foreign_name[n] = what[n]; sh->foreign_name[n] = 0; }
  errno = EPERM;
  return true;
}
// a path relative to an open directory
static bool foreign_at(int dfd, const char* p) {
  if (!SIM || !p) return false;
  if (dfd == AT_FDCWD || p[0] == '/') return foreign(p);
  char link[40] = "/proc/self/fd/", to[PATH_MAX], cwd[PATH_MAX];
  int n = 14; char d[12]; int m = 0; int v = dfd < 0 ? 0 : dfd; do d[m++] = (char)('0' + v % 10); while (v /= 10); while (m) link[n++] = d[--m]; link[n] = 0;
  long k = raw6(SYS_readlink, (long)link, (long)to, sizeof to - 1, 0, 0, 0), c = raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0) - 1;
  bool in = k >= c && c > 0;
  for (long i = 0; in && i < c; i++) if (to[i] != cwd[i]) in = false;
  if (in && k > c && to[c] != '/') in = false;
  if (in) { for (const char* q = p; *q; q++) if (q[0] == '.' && q[1] == '.' && (q == p || q[-1] == '/') && (!q[2] || q[2] == '/')) in = false; }
  if (in) return false;
  return refused(p);
}
struct Persist { char role; int op; int err; };
static Persist persist[16]; static int npersist = 0;

struct IoDec { int action; long arg; int idx; };
// account for an operation; decide whether a fault fires
static IoDec io_pre(int op, char role, long req) {
  step();
  int k = sh->nio_total++;
  if (k < kMaxIoLog) { sh->io[k] = IoLog{(uint8_t)op, role, (int32_t)req, 0, sh->steps}; sh->nio = k + 1; }
  mix(0x10 + op * 256 + (uint64_t)role * 65536 + ((uint64_t)req << 32));
  for (int i = 0; i < sh->nfault; i++) {
    IoFault& f = sh->fault[i];
    if (f.op != k || f.fired) continue;
    f.fired = 1;
    switch (f.action) {
    case A_KILL: sh->status = ST_KILLED; sh->killed_at = sh->steps; raw_kill();
    case A_ABORT: abort();
    case A_REPLACE: {
      char from[80]; int n = 0;
      const char* nm = g_rep_name[f.arg & 3];
      for (; nm[n] && n < 70; n++) from[n] = nm[n];
      from[n] = '.'; from[n + 1] = 'a'; from[n + 2] = 'l'; from[n + 3] = 't'; from[n + 4] = 0;
      raw6(SYS_rename, (long)from, (long)nm, 0, 0, 0, 0);
      continue;
    }
    case A_GATE: { // other processes run now
      char c = 'g';
      int g = (int)raw6(SYS_openat, AT_FDCWD, (long)g_gate[0], O_WRONLY, 0, 0, 0);
      raw6(SYS_write, g, (long)&c, 1, 0, 0, 0);
      raw6(SYS_close, g, 0, 0, 0, 0, 0);
      g = (int)raw6(SYS_openat, AT_FDCWD, (long)g_gate[1], O_RDONLY, 0, 0, 0);
      raw6(SYS_read, g, (long)&c, 1, 0, 0, 0);
      raw6(SYS_close, g, 0, 0, 0, 0, 0);
      continue;
    }
    case A_CUT: raw6(SYS_truncate, (long)g_rep_name[f.arg & 3], (long)(f.arg >> 2), 0, 0, 0, 0); continue;
    case A_ERRP: if (npersist < 16) persist[npersist++] = Persist{role, op, (int)f.arg}; return IoDec{A_ERR, f.arg, k};
    case A_PARTERR: if (npersist < 16) persist[npersist++] = Persist{role, op, ENOSPC}; return IoDec{A_SHORT, f.arg, k};
    default: return IoDec{f.action, f.arg, k};
    }
  }
  for (int i = 0; i < npersist; i++) if (persist[i].role == role && persist[i].op == op) return IoDec{A_ERR, persist[i].err, k};
  return IoDec{-1, 0, k};
}
static void io_post(const IoDec& d, long ret) {
  if (d.idx < kMaxIoLog) sh->io[d.idx].ret = (int32_t)ret;
  mix(0x99 + (uint64_t)ret);
  if (d.action == A_KILLAFTER || d.action == A_KILLMID) { sh->status = ST_KILLED; sh->killed_at = sh->steps; raw_kill(); }
}
#define TRACK(role) (SIM && (role))
static char frole(int fd) { return fd >= 3 && fd < 1024 ? fd_role[fd] : 0; }

extern "C" {
static int do_open(const char* path, int flags, mode_t mode, int dirfd) {
  path = xl(path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (wr && foreign_at(dirfd, path)) return -1;
  char role = role_of(path, wr);
  if (!TRACK(role)) {
    int fd = real_openat(dirfd, path, flags, mode);
    if (fd >= 0 && fd < 1024) fd_role[fd] = 0;
    return fd;
  }
  IoDec d = io_pre(IO_OPEN, role, flags);
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return -1; }
  int fd = real_openat(dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < 1024) fd_role[fd] = role;
  io_post(d, fd >= 0 ? 0 : -1);
  errno = e;
  return fd;
}
int open(const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); resolve(); return do_open(p, f, m, AT_FDCWD); }
int open64(const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); resolve(); return do_open(p, f | O_LARGEFILE, m, AT_FDCWD); }
int creat(const char* p, mode_t m) { resolve(); return do_open(p, O_WRONLY | O_CREAT | O_TRUNC, m, AT_FDCWD); }
int creat64(const char* p, mode_t m) { return creat(p, m); }
int mkostemps(char* t, int tail, int flags) {
  resolve();
  size_t n = 0;
  while (t[n]) n++;
  if ((long)n < tail + 6) { errno = EINVAL; return -1; }
  char* x = t + n - tail - 6;
  for (int i = 0; i < 6; i++) if (x[i] != 'X') { errno = EINVAL; return -1; }
  for (int tries = 0; tries < 100; tries++) {
    uint64_t v = SIM ? entropy() : (uint64_t)tries * 7919 + (uint64_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
    for (int i = 0; i < 6; i++, v /= 36) x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[v % 36];
    int fd = do_open(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600, AT_FDCWD);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int mkstemp(char* t) { return mkostemps(t, 0, 0); }
int mkstemp64(char* t) { return mkostemps(t, 0, 0); }
int mkostemp(char* t, int f) { return mkostemps(t, 0, f); }
int mkostemp64(char* t, int f) { return mkostemps(t, 0, f); }
int mkstemps(char* t, int n) { return mkostemps(t, n, 0); }
int openat(int dfd, const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); resolve(); return do_open(p, f, m, dfd); }
int openat64(int dfd, const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); resolve(); return do_open(p, f | O_LARGEFILE, m, dfd); }
int __open_2(const char* p, int f) { resolve(); return do_open(p, f, 0, AT_FDCWD); }
int __open64_2(const char* p, int f) { resolve(); return do_open(p, f | O_LARGEFILE, 0, AT_FDCWD); }
int __openat_2(int d, const char* p, int f) { resolve(); return do_open(p, f, 0, d); }
int __openat64_2(int d, const char* p, int f) { resolve(); return do_open(p, f | O_LARGEFILE, 0, d); }

static FILE* do_fopen(decltype(&::fopen) rf, const char* path, const char* mode) {
  path = xl(path);
  bool wr = false;
  for (const char* m = mode; *m; m++) if (*m == 'w' || *m == 'a' || *m == '+') wr = true;
  if (wr && foreign(path)) return nullptr;
  char role = role_of(path, wr);
  if (!TRACK(role)) {
    FILE* f = rf(path, mode);
    if (f) { int fd = fileno(f); if (fd >= 0 && fd < 1024) fd_role[fd] = 0; }
    return f;
  }
  IoDec d = io_pre(IO_OPEN, role, wr);
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return nullptr; }
  FILE* f = rf(path, mode);
  int e = errno;
  if (f) { int fd = fileno(f); if (fd >= 0 && fd < 1024) fd_role[fd] = role; }
  io_post(d, f ? 0 : -1);
  errno = e;
  return f;
}
FILE* fopen(const char* p, const char* m) { resolve(); return do_fopen(real_fopen, p, m); }
FILE* fopen64(const char* p, const char* m) { resolve(); return do_fopen(real_fopen64, p, m); }

static ssize_t do_read(int fd, size_t n, auto&& fn) {
  char role = frole(fd);
  if (!TRACK(role)) return fn(n);
  IoDec d = io_pre(IO_READ, role, (long)n);
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return -1; }
  if (d.action == A_EOF) { io_post(d, 0); return 0; }
  if (d.action == A_SHORT && n > 1) { size_t m = (size_t)(d.arg > 0 ? d.arg : 1); n = m < n ? m : n; }
  ssize_t r = fn(n);
  int e = errno;
  io_post(d, r);
  errno = e;
  return r;
}
ssize_t read(int fd, void* b, size_t n) { resolve(); return do_read(fd, n, [&](size_t m) { return real_read(fd, b, m); }); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { resolve(); return do_read(fd, n, [&](size_t m) { return real_pread(fd, b, m, o); }); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { resolve(); return do_read(fd, n, [&](size_t m) { return real_pread64(fd, b, m, o); }); }
ssize_t readv(int fd, const iovec* v, int c) { resolve(); return do_read(fd, 0, [&](size_t) { return real_readv(fd, v, c); }); }

size_t fread(void* b, size_t sz, size_t n, FILE* f) {
  resolve();
  char role = SIM ? frole(fileno(f)) : 0;
  if (!TRACK(role)) return real_fread(b, sz, n, f);
  IoDec d = io_pre(IO_READ, role, (long)(sz * n));
  if (d.action == A_ERR) { // part of the data may have arrived before the error
    size_t m = n > 1 && sz == 1 ? real_fread(b, 1, n / 2, f) : 0;
    f->_flags |= 0x20; // _IO_ERR_SEEN
    io_post(d, -1); errno = (int)d.arg; return m;
  }
  if (d.action == A_EOF) { f->_flags |= 0x10; io_post(d, 0); return 0; }
  size_t r = real_fread(b, sz, n, f); // stdio retries short reads itself
  io_post(d, (long)r);
  return r;
}

static ssize_t do_write(int fd, size_t n, auto&& fn) {
  char role = frole(fd);
  if (!TRACK(role)) return fn(n);
  IoDec d = io_pre(IO_WRITE, role, (long)n);
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return -1; }
  size_t m = n;
  if ((d.action == A_SHORT || d.action == A_KILLMID) && n > 1) { m = (size_t)(d.arg > 0 ? d.arg : 1); if (m >= n) m = n - 1; }
  ssize_t r = fn(m);
  int e = errno;
  io_post(d, r);
  errno = e;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) { resolve(); return do_write(fd, n, [&](size_t m) { return real_write(fd, b, m); }); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { resolve(); return do_write(fd, n, [&](size_t m) { return real_pwrite(fd, b, m, o); }); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { resolve(); return do_write(fd, n, [&](size_t m) { return real_pwrite64(fd, b, m, o); }); }
ssize_t writev(int fd, const iovec* v, int c) {
  resolve();
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  return do_write(fd, tot, [&](size_t m) -> ssize_t {
    if (m == tot) return real_writev(fd, v, c);
    ssize_t done = 0; // transfer only m bytes
    for (int i = 0; i < c && m; i++) {
      size_t k = v[i].iov_len < m ? v[i].iov_len : m;
      if (!k) continue;
      ssize_t r = real_write(fd, v[i].iov_base, k);
      if (r < 0) return done ? done : r;
      done += r; m -= (size_t)r;
      if ((size_t)r < k) break;
    }
    return done;
  });
}
size_t fwrite(const void* b, size_t sz, size_t n, FILE* f) {
  resolve();
  char role = SIM && f != stdout && f != stderr ? frole(fileno(f)) : 0;
  if (!TRACK(role)) return real_fwrite(b, sz, n, f);
  IoDec d = io_pre(IO_WRITE, role, (long)(sz * n));
  if (d.action == A_ERR) { f->_flags |= 0x20; io_post(d, -1); errno = (int)d.arg; return 0; }
  size_t r = real_fwrite(b, sz, n, f);
  if (d.action == A_KILLMID || d.action == A_KILLAFTER) real_fflush(f);
  io_post(d, (long)r);
  return r;
}
int fflush(FILE* f) {
  resolve();
  char role = SIM && f && f != stdout && f != stderr ? frole(fileno(f)) : 0;
  if (!TRACK(role)) return real_fflush(f);
  IoDec d = io_pre(IO_WRITE, role, 0);
  if (d.action == A_ERR) { f->_flags |= 0x20; io_post(d, -1); errno = (int)d.arg; return EOF; }
  int r = real_fflush(f);
  io_post(d, r);
  return r;
}
int close(int fd) {
  resolve();
  char role = frole(fd);
  if (fd >= 0 && fd < 1024) fd_role[fd] = 0;
  if (!TRACK(role)) return real_close(fd);
  IoDec d = io_pre(IO_CLOSE, role, 0);
  int r = real_close(fd); // the descriptor is gone even if an error is reported
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return -1; }
  io_post(d, r);
  return r;
}
int fclose(FILE* f) {
  resolve();
  int fd = fileno(f);
  char role = frole(fd);
  if (fd >= 0 && fd < 1024) fd_role[fd] = 0;
  if (!TRACK(role)) return real_fclose(f);
  IoDec d = io_pre(IO_CLOSE, role, 0);
  int r = real_fclose(f);
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return EOF; }
  io_post(d, r);
  return r;
}
static long sysret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
#define PATHOP(op, role_expr, call) \
  resolve(); \
  char role = (role_expr); \
  if (!TRACK(role)) return call; \
  IoDec d = io_pre(op, role, 0); \
  if (d.action == A_ERR) { io_post(d, -1); errno = (int)d.arg; return -1; } \
  auto r = call; int e = errno; io_post(d, r); errno = e; return r;
int rename(const char* a, const char* b) { a = xl(a); b = xl(b); if (foreign(a) || foreign(b)) return -1; PATHOP(IO_RENAME, role_of(b, true), real_rename(a, b)) }
int renameat(int x, const char* a, int y, const char* b) { if (x == AT_FDCWD && y == AT_FDCWD) return rename(a, b); if (foreign_at(x, a) || foreign_at(y, b)) return -1; return (int)sysret(raw6(SYS_renameat, x, (long)xl(a), y, (long)xl(b), 0, 0)); }
int link(const char* a, const char* b) { a = xl(a); b = xl(b); if (foreign(b)) return -1; PATHOP(IO_RENAME, role_of(b, true), (int)sysret(raw6(SYS_link, (long)a, (long)b, 0, 0, 0, 0))) }
int symlink(const char* a, const char* b) { b = xl(b); if (foreign(b)) return -1; PATHOP(IO_RENAME, role_of(b, true), (int)sysret(raw6(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0))) }
int unlink(const char* a) { a = xl(a); if (foreign(a)) return -1; PATHOP(IO_UNLINK, role_of(a, true), real_unlink(a)) }
int unlinkat(int x, const char* a, int f) { a = xl(a); if (foreign_at(x, a)) return -1; PATHOP(IO_UNLINK, x == AT_FDCWD ? role_of(a, true) : (char)0, (int)sysret(raw6(SYS_unlinkat, x, (long)a, f, 0, 0, 0))) }
int remove(const char* a) { a = xl(a); if (foreign(a)) return -1; PATHOP(IO_UNLINK, role_of(a, true), real_remove(a)) }
int truncate(const char* a, off_t n) { a = xl(a); if (foreign(a)) return -1; PATHOP(IO_TRUNC, role_of(a, true), (int)sysret(raw6(SYS_truncate, (long)a, n, 0, 0, 0, 0))) }
int mkdir(const char* a, mode_t m) { if (foreign(a)) return -1; return (int)sysret(raw6(SYS_mkdir, (long)xl(a), m, 0, 0, 0, 0)); }
int rmdir(const char* a) { if (foreign(a)) return -1; return (int)sysret(raw6(SYS_rmdir, (long)xl(a), 0, 0, 0, 0, 0)); }
int mkdirat(int x, const char* a, mode_t m) { if (foreign_at(x, a)) return -1; return (int)sysret(raw6(SYS_mkdirat, x, (long)xl(a), m, 0, 0, 0)); }
int linkat(int x, const char* a, int y, const char* b, int f) { if (foreign_at(y, b)) return -1; return (int)sysret(raw6(SYS_linkat, x, (long)xl(a), y, (long)xl(b), f, 0)); }
int symlinkat(const char* a, int y, const char* b) { if (foreign_at(y, b)) return -1; return (int)sysret(raw6(SYS_symlinkat, (long)a, y, (long)xl(b), 0, 0, 0)); }
int chmod(const char* a, mode_t m) { if (foreign(a)) return -1; return (int)sysret(raw6(SYS_chmod, (long)xl(a), m, 0, 0, 0, 0)); }
int fchmodat(int x, const char* a, mode_t m, int) { if (foreign_at(x, a)) return -1; return (int)sysret(raw6(SYS_fchmodat, x, (long)xl(a), m, 0, 0, 0)); }
int chown(const char* a, uid_t u, gid_t g) { if (foreign(a)) return -1; return (int)sysret(raw6(SYS_chown, (long)xl(a), u, g, 0, 0, 0)); }
int utimensat(int x, const char* a, const timespec* ts, int f) { if (a && foreign_at(x, a)) return -1; return (int)sysret(raw6(SYS_utimensat, x, (long)(a ? xl(a) : a), (long)ts, f, 0, 0)); }
// other programs and processes are not touched
int system(const char* c) { if (!c) return 0; refused(c); return -1; }
FILE* popen(const char* c, const char*) { refused(c); return nullptr; }
pid_t vfork() { refused("vfork"); return -1; }
int execve(const char* p, char* const*, char* const*) { refused(p); return -1; }
int execv(const char* p, char* const*) { refused(p); return -1; }
int execvp(const char* p, char* const*) { refused(p); return -1; }
int posix_spawn(pid_t*, const char* p, const void*, const void*, char* const*, char* const*) { refused(p); return EPERM; }
int posix_spawnp(pid_t*, const char* p, const void*, const void*, char* const*, char* const*) { refused(p); return EPERM; }
int kill(pid_t p, int s) { if (SIM && p != getpid()) { refused("kill"); return -1; } return (int)sysret(raw6(SYS_kill, SIM ? raw6(SYS_getpid, 0, 0, 0, 0, 0, 0) : p, s, 0, 0, 0, 0)); }
int access(const char* a, int m) { a = xl(a); PATHOP(IO_STAT, role_of(a, false), (int)sysret(raw6(SYS_access, (long)a, m, 0, 0, 0, 0))) }
ssize_t readlink(const char* a, char* b, size_t n) { return sysret(raw6(SYS_readlink, (long)xl(a), (long)b, (long)n, 0, 0, 0)); }
DIR* opendir(const char* a) { static DIR* (*real)(const char*); if (!real) real = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir"); return real(xl(a)); }
char* getcwd(char* b, size_t n) {
  if (!SIM) {
    static char* (*real)(char*, size_t); if (!real) real = (char* (*)(char*, size_t))dlsym(RTLD_NEXT, "getcwd");
    return real(b, n);
  }
  if (!b) { if (!n) n = 4096; b = (char*)malloc(n); if (!b) return nullptr; }
  if (n < sizeof kDir) { errno = ERANGE; return nullptr; }
  for (size_t i = 0; i < sizeof kDir; i++) b[i] = kDir[i];
  return b;
}
char* realpath(const char* a, char* o) {
  static char* (*real)(const char*, char*); if (!real) real = (char* (*)(const char*, char*))dlsym(RTLD_NEXT, "realpath");
  if (!SIM) return real(a, o);
  char buf[PATH_MAX], cwd[PATH_MAX];
  long n = raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0);
  if (!real(xl(a), buf)) return nullptr;
  char out[PATH_MAX + 32]; size_t k = n > 0 ? (size_t)n - 1 : 0, m = 0;
  bool in = k > 0;
  for (size_t i = 0; i < k; i++) if (buf[i] != cwd[i]) in = false;
  const char* rest = buf;
  if (in && (buf[k] == '/' || !buf[k])) { for (m = 0; m < sizeof kDir - 1; m++) out[m] = kDir[m]; rest = buf + k; }
  while (*rest && m < PATH_MAX - 1) out[m++] = *rest++;
  out[m] = 0;
  if (!o) { o = (char*)malloc(m + 1); if (!o) return nullptr; }
  for (size_t i = 0; i <= m; i++) o[i] = out[i];
  return o;
}
int fsync(int fd) { PATHOP(IO_SYNC, frole(fd), real_fsync(fd)) }
int fdatasync(int fd) { PATHOP(IO_SYNC, frole(fd), real_fdatasync(fd)) }
int ftruncate(int fd, off_t n) { PATHOP(IO_TRUNC, frole(fd), real_ftruncate(fd, n)) }
off_t lseek(int fd, off_t o, int w) { PATHOP(IO_SEEK, frole(fd), real_lseek(fd, o, w)) }
off64_t lseek64(int fd, off64_t o, int w) { PATHOP(IO_SEEK, frole(fd), real_lseek64(fd, o, w)) }
int fseek(FILE* f, long o, int w) { PATHOP(IO_SEEK, SIM ? frole(fileno(f)) : 0, real_fseek(f, o, w)) }
int stat(const char* p, struct stat* s) { p = xl(p); PATHOP(IO_STAT, role_of(p, false), real_stat(p, s)) }
int stat64(const char* p, struct stat64* s) { p = xl(p); PATHOP(IO_STAT, role_of(p, false), real_stat64(p, s)) }
int lstat(const char* p, struct stat* s) { p = xl(p); PATHOP(IO_STAT, role_of(p, false), real_lstat(p, s)) }
int fstat(int fd, struct stat* s) { PATHOP(IO_STAT, frole(fd), real_fstat(fd, s)) }
int fstat64(int fd, struct stat64* s) { PATHOP(IO_STAT, frole(fd), real_fstat64(fd, s)) }
}
