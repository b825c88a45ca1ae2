// Shared declarations of the simulation runtime.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- PRNG: splitmix64 streams derived from one seed
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum Strategy {
  S_RANDOM = 0, // preempt at geometric gaps, uniform choice
  S_PCT,        // priorities with d change points
  S_RR,         // round robin with fixed quantum
  S_SERIAL,     // run to completion in random priority order
  S_SYNC,       // preempt at synchronisation and at conflicting accesses
  S_BURST,      // heavy-tailed quanta
  S_REPLAY,     // decisions read from a trace
};

enum Status {
  ST_RUNNING = 0,
  ST_EXITED = 1,    // exit() reached
  ST_DEADLOCK = 2,  // no thread can ever run again
  ST_BUDGET = 3,    // step budget exhausted
  ST_KILLED = 4,    // simulated kill
  ST_LIMIT = 5,     // simulator limit reached (too many threads)
};

enum IoOp {
  IO_OPEN = 0, IO_READ, IO_WRITE, IO_CLOSE, IO_RENAME, IO_UNLINK, IO_STAT,
  IO_SEEK, IO_SYNC, IO_TRUNC,
  IO_NKINDS
};

enum IoAction {
  A_ERR = 0,    // fail with errno arg, no effect
  A_SHORT,      // transfer only arg bytes (at least 1)
  A_PARTERR,    // transfer arg bytes, later calls of the same role and kind fail with ENOSPC
  A_EOF,        // read returns end of file
  A_KILL,       // die before the call
  A_KILLAFTER,  // die after the call
  A_KILLMID,    // write arg bytes, then die
  A_REPLACE,    // before the call, rename "<name>.alt" over the file named by arg index
  A_ERRP,       // like A_ERR, for this and all later calls of that role and kind
  A_ABORT,      // abort() before the call
  A_CUT,        // before the call, cut the file named by index arg%4 to arg/4 bytes
  A_GATE,       // before the call, other processes run
  A_NKINDS
};

struct IoFault { long op; int action; long arg; char fired; };
struct IoLog { uint8_t op; char role; int32_t req; int32_t ret; uint64_t step; };
struct TraceEnt { uint64_t step; int32_t tid; int32_t forced; };
enum { M_NONE = 0, M_NEVER, M_FREED, M_BEYOND, M_WILDFREE, M_DOUBLEFREE, M_LIBFREE };
struct Misuse { int kind, write, tid; uint64_t addr, len, pc, step; };
struct RaceRep { uint64_t addr; uint64_t pc1, pc2; int t1, t2; int w1, w2; uint64_t step; };

constexpr int kMaxIoLog = 3000, kMaxTrace = 200000, kMaxRace = 16, kMaxThr = 600, kMaxIoFault = 64, kMaxOwn = 60000;

struct Shared {
  int status, rc;
  uint64_t steps, switches, hash, interleave;
  uint64_t threads, mallocs, mallocs_at_multi, multi_steps, conflicts;
  uint64_t maxlive;
  uint64_t vclock_ns;
  uint64_t sync_ops;
  uint64_t clock_reads, entropy_reads, id_reads;
  uint64_t fired_malloc, fired_thread, fired_stall, fired_clock, fired_late;
  uint64_t create_calls;
  uint64_t killed_at;
  uint64_t thr_steps[kMaxThr];
  int nio, nio_total;
  IoLog io[kMaxIoLog];
  int ntrace; int trace_overflow;
  TraceEnt trace[kMaxTrace];
  int nrace; int nrace_total;
  RaceRep race[kMaxRace];
  char note[256];
  int nfault;
  IoFault fault[kMaxIoFault];
  // statistics of library-level observations
  uint64_t main_returned;
  uint64_t foreign;    // attempts to change something outside the scratch directory
  char foreign_name[160];
  int ntouched; char touched[16][80]; // files within it that are written, created, renamed or removed
  uint64_t heap_peak, heap_start, heap_end; // bytes allocated: most, before and after the program
  uint64_t heap_before, heap_mark, heap_work; // most before the first thread was started; in use then; most since then, beyond that
  uint64_t fds_start, fds_end;
  uint64_t polls;      // timed waits that expired, and calls that give up the processor
  uint64_t released, rel_steps[kMaxThr]; // when a stall ended: all steps, those of each thread
  int nmisuse;
  Misuse misuse[4];
  uint64_t mallocs_own; // and who requested them
  uint64_t own_pc[kMaxOwn];
};

struct Config {
  uint64_t seed = 1;
  int strategy = S_RANDOM;
  double p = 0.01;         // preemption probability per step (RANDOM), q (SYNC)
  uint64_t quantum = 50;   // RR, mean of BURST
  int depth = 3;           // PCT change points
  uint64_t estlen = 50000; // PCT horizon
  int stall_victim = -1;   // thread ordinal to stall (by creation order, 1-based; 0 main)
  uint64_t stall_at = 0;   // after this many own steps
  bool stall_late = false; // timed waits expire before a stalled thread goes on
  uint64_t tick = 10;      // virtual nanoseconds per step
  uint64_t stall_for = 0;  // number of others' steps; 0: until nobody else can run
  uint64_t budget = 200000000ull;
  uint64_t kill_step = 0;  // die at this step
  uint64_t thread_fail_mask = 0; // bit k: k-th creation fails
  int thread_fail_errno = 11;
  long malloc_fail = -1;   // n-th allocation fails
  long malloc_fail_len = 1;// how many in a row (large: persistent)
  bool malloc_own = false; // of those requested by the program rather than by libraries
  int layout = 0;          // 0 ascending, 1 descending, 2 random, 3 no reuse
  uint64_t layout_seed = 0;
  int garbage = 0;         // 0 zero, 1 0xAA, 2 0xFF, 3 random
  uint64_t clock_seed = 0; // 0: well-behaved clock
  uint64_t entropy_seed = 7;
  uint64_t id_seed = 0;
  uint64_t clock_base = 1700000000ull;
  bool races = true;
  bool mem = false;        // accesses to the heap are checked
  const TraceEnt* replay = nullptr;
  int nreplay = 0;
  uint64_t max_run = 400000; // fairness: longest uninterrupted run
};

extern Shared* sh;
extern Config cfg;

// run fn(arg) as the simulation's main thread, in the calling process; returns
// when that thread has called exit(), so normally never
void run(void (*fn)(void*), void* arg);
void finish_status(int status, const char* note);
bool in_sim();

// allocator control
void arena_set_policy(int layout, uint64_t seed, int garbage);
void arena_new_generation();
extern bool (*malloc_should_fail)(void* caller);
extern void (*on_block)(void* p, size_t n);
extern void (*on_wild_free)(int kind, void* p, void* caller);
int heap_misuse(uintptr_t a, size_t n); // M_NONE: within one allocated block, or not in the heap

// what the simulated process holds
size_t heap_now();
size_t heap_peak();
void heap_reset_peak();
int fds_open();
int threads_alive();

void* rt_alloc(size_t n); // runtime-private, zeroed, never freed
} // namespace sim
