// Heap of the simulated process: all malloc-family calls of the program and of
// the libraries it links are served from a reserved area at a fixed address.
// Placement order, reuse and initial contents are policies of the run.
#include "rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
bool (*malloc_should_fail)(void*) = nullptr;
void (*on_block)(void*, size_t) = nullptr;
void (*on_wild_free)(int, void*, void*) = nullptr;
} // namespace sim

namespace {
using sim::Rng;
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr int kClasses = 40;
constexpr size_t kRegion = 1ull << 30; // address space per class
constexpr int kGens = 2;
constexpr uintptr_t kLarge = kBase + kRegion * 64 * kGens;
constexpr size_t kLargeSize = 1ull << 36;
constexpr size_t kMaxSmall = 1 << 16;

size_t class_size[kClasses];
int nclasses = 0;
uint8_t class_of_16[kMaxSmall / 16 + 1];

struct Cls {
  uintptr_t base;   // region base
  uint32_t nslots;  // slots handed out from the fresh end
  uint32_t maxslots;
  uint32_t* freel;  // stack of free slot indexes (own mapping)
  uint32_t nfree;
  uint32_t batch[64];
  int nbatch;
  uint32_t* asked;  // per slot: 0 never used, 1 freed, else bytes asked for + 2
};
Cls cls[kGens][kClasses];
// region index -> class, per generation
int8_t region_class[kGens][64];
int gen = 0;
int layout = 0, garbage = 0;
Rng prng(1);
uintptr_t large_next = kLarge;
constexpr int kMaxLarge = 1 << 20;
uintptr_t large_at[kMaxLarge];
int nlarge = 0;
bool inited = false;
volatile int lock_ = 0;
size_t held = 0, peak = 0; // bytes

struct Lock {
  Lock() { while (__sync_lock_test_and_set(&lock_, 1)) { __builtin_ia32_pause(); } }
  ~Lock() { __sync_lock_release(&lock_); }
};

void* reserve(uintptr_t at, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) {
    static const char m[] = "sim: cannot reserve heap\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(99);
  }
  return p;
}

void init() {
  inited = true;
  size_t s = 16;
  while (s <= kMaxSmall) {
    class_size[nclasses++] = s;
    if (s < 128) s += 16;
    else if (s < 512) s += 64;
    else s += s / 2 / 16 * 16;
    if (s > kMaxSmall && class_size[nclasses - 1] < kMaxSmall) s = kMaxSmall;
  }
  int c = 0;
  for (size_t i = 0; i <= kMaxSmall / 16; i++) {
    while (class_size[c] < i * 16) c++;
    class_of_16[i] = static_cast<uint8_t>(c);
  }
  reserve(kBase, kRegion * 64 * kGens);
  reserve(kLarge, kLargeSize);
  for (int g = 0; g < kGens; g++)
    for (int r = 0; r < 64; r++) region_class[g][r] = -1;
  for (int k = 0; k < nclasses; k++) {
    cls[0][k].base = kBase + kRegion * k;
    region_class[0][k] = static_cast<int8_t>(k);
  }
  for (int g = 0; g < kGens; g++)
    for (int k = 0; k < nclasses; k++) {
      cls[g][k].maxslots = static_cast<uint32_t>((kRegion / class_size[k]) & ~63u);
      void* f = mmap(nullptr, size_t(cls[g][k].maxslots) * 4, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      cls[g][k].freel = static_cast<uint32_t*>(f);
      f = mmap(nullptr, size_t(cls[g][k].maxslots) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      cls[g][k].asked = static_cast<uint32_t*>(f);
    }
}

uint32_t fresh_slot(Cls& c) {
  if (layout == 1) return c.maxslots - 1 - c.nslots++;
  if (layout == 2) {
    if (c.nbatch == 0) {
      for (int i = 0; i < 64; i++) c.batch[i] = c.nslots + i;
      for (int i = 63; i > 0; i--) {
        int j = static_cast<int>(prng.below(i + 1));
        uint32_t t = c.batch[i]; c.batch[i] = c.batch[j]; c.batch[j] = t;
      }
      c.nbatch = 64;
      c.nslots += 64;
    }
    return c.batch[--c.nbatch];
  }
  return c.nslots++;
}

void fill(void* p, size_t n, bool freed) {
  unsigned char* q = static_cast<unsigned char*>(p);
  if (garbage == 0) {
    if (!freed) for (size_t i = 0; i < n; i++) q[i] = 0;
    return;
  }
  if (n > 16384) n = 16384; // head of large blocks is enough
  if (garbage == 3) {
    uint64_t x = prng.next() | 1;
    for (size_t i = 0; i < n; i++) { q[i] = static_cast<unsigned char>(x >> 56); x = x * 6364136223846793005ull + 1442695040888963407ull; }
  } else {
    unsigned char v = garbage == 1 ? 0xAA : 0xFF;
    for (size_t i = 0; i < n; i++) q[i] = v;
  }
}

struct LargeHdr { size_t size; size_t magic; };
constexpr size_t kMagic = 0x51ab51ab51abull, kGone = 0x6f6e6567ull;

void wild(void* p, int kind, void* pc) {
  if (sim::on_wild_free) sim::on_wild_free(kind, p, pc);
  static const char m[] = "sim: free of a pointer that is not allocated\n";
  if (write(2, m, sizeof m - 1)) {}
  abort();
}

void* alloc_raw(size_t n, size_t align) {
  if (!inited) init();
  if (n == 0) n = 1;
  if (n + (align > 16 ? align : 0) <= kMaxSmall && align <= 16) {
    int k = class_of_16[(n + 15) / 16];
    Cls& c = cls[gen][k];
    uint32_t slot;
    if (c.nfree && layout != 3) {
      uint32_t i = c.nfree - 1;
      if (layout == 2) i = static_cast<uint32_t>(prng.below(c.nfree));
      slot = c.freel[i];
      c.freel[i] = c.freel[--c.nfree];
    } else {
      if (c.nslots + 64 >= c.maxslots) return nullptr;
      slot = fresh_slot(c);
    }
    c.asked[slot] = static_cast<uint32_t>(n) + 2;
    return reinterpret_cast<void*>(c.base + size_t(slot) * class_size[k]);
  }
  if (n > (1ull << 34)) return nullptr;
  uintptr_t a = large_next + sizeof(LargeHdr);
  if (align < 64) align = 64;
  a = (a + align - 1) & ~(align - 1);
  uintptr_t end = (a + n + 4095) & ~4095ull;
  if (end > kLarge + kLargeSize) return nullptr;
  large_next = end;
  LargeHdr* h = reinterpret_cast<LargeHdr*>(a) - 1;
  h->size = n; h->magic = kMagic;
  if (nlarge == kMaxLarge) return nullptr;
  large_at[nlarge++] = a;
  return reinterpret_cast<void*>(a);
}

size_t usable(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a >= kLarge) return (reinterpret_cast<LargeHdr*>(a) - 1)->size;
  size_t off = a - kBase;
  int g = static_cast<int>(off / (kRegion * 64));
  int r = static_cast<int>(off / kRegion % 64);
  return class_size[region_class[g][r]];
}

void free_raw(void* p, void* pc) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a < kBase || a >= kLarge + kLargeSize) { // not ours: a wild free
    wild(p, sim::M_WILDFREE, pc);
  }
  if (a >= kLarge) {
    LargeHdr* h = reinterpret_cast<LargeHdr*>(a) - 1;
    if (h->magic != kMagic) { wild(p, h->magic == kGone ? sim::M_DOUBLEFREE : sim::M_WILDFREE, pc); return; }
    h->magic = kGone;
    held -= h->size;
    return;
  }
  size_t off = a - kBase;
  int g = static_cast<int>(off / (kRegion * 64));
  int r = static_cast<int>(off / kRegion % 64);
  int k = region_class[g][r];
  Cls& c = cls[g][k];
  uint32_t& asked = c.asked[(a - c.base) / class_size[k]];
  if (asked < 2 || (a - c.base) % class_size[k]) { wild(p, asked == 1 ? sim::M_DOUBLEFREE : sim::M_WILDFREE, pc); return; }
  asked = 1;
  held -= class_size[k];
  fill(p, class_size[k], true);
  if (layout == 3) return;
  c.freel[c.nfree++] = static_cast<uint32_t>((a - c.base) / class_size[k]);
}

void* do_alloc(size_t n, size_t align, bool zero, void* pc = nullptr) {
  if (sim::malloc_should_fail && sim::malloc_should_fail(pc)) { errno = ENOMEM; return nullptr; }
  void* p;
  {
    Lock l;
    p = alloc_raw(n, align);
    if (p) {
      held += usable(p);
      if (held > peak) peak = held;
      if (zero) { unsigned char* q = static_cast<unsigned char*>(p);
        if (reinterpret_cast<uintptr_t>(p) < kLarge) for (size_t i = 0; i < n; i++) q[i] = 0; } // large blocks are fresh pages
      else if (sim::in_sim()) fill(p, n, false);
    }
  }
  if (!p) { errno = ENOMEM; return nullptr; }
  if (sim::on_block) sim::on_block(p, n);
  return p;
}
} // namespace

namespace sim {
void arena_set_policy(int l, uint64_t seed, int g) {
  layout = l; garbage = g; prng = Rng(seed * 2654435761u + 12345);
}
int heap_misuse(uintptr_t a, size_t n) {
  if (a < kBase || a >= kLarge + kLargeSize) return M_NONE;
  if (a >= kLarge) {
    int lo = 0, hi = nlarge; // the last block that begins at or before a
    while (lo < hi) { int m = (lo + hi) / 2; if (large_at[m] <= a) lo = m + 1; else hi = m; }
    if (!lo) return M_NEVER;
    LargeHdr* h = reinterpret_cast<LargeHdr*>(large_at[lo - 1]) - 1;
    if (h->magic != kMagic) return M_FREED;
    return a + n > large_at[lo - 1] + h->size ? M_BEYOND : M_NONE;
  }
  size_t off = a - kBase;
  int g = static_cast<int>(off / (kRegion * 64)), r = static_cast<int>(off / kRegion % 64);
  int k = region_class[g][r];
  if (k < 0) return M_NEVER;
  const Cls& c = cls[g][k];
  size_t slot = (a - c.base) / class_size[k];
  if (slot >= c.maxslots) return M_NEVER;
  uint32_t asked = c.asked[slot];
  if (asked < 2) return asked ? M_FREED : M_NEVER;
  return (a - c.base) % class_size[k] + n > asked - 2 ? M_BEYOND : M_NONE;
}
size_t heap_now() { return held; }
size_t heap_peak() { return peak; }
void heap_reset_peak() { peak = held; }
void arena_new_generation() {
  if (!inited) init();
  gen = 1;
  // choose which class lives in which region
  int order[64];
  for (int i = 0; i < 64; i++) order[i] = i;
  if (layout == 2) for (int i = 63; i > 0; i--) { int j = static_cast<int>(prng.below(i + 1)); int t = order[i]; order[i] = order[j]; order[j] = t; }
  if (layout == 1) for (int i = 0; i < 32; i++) { int t = order[i]; order[i] = order[63 - i]; order[63 - i] = t; }
  for (int k = 0; k < nclasses; k++) {
    cls[1][k].base = kBase + kRegion * 64 + kRegion * order[k];
    region_class[1][order[k]] = static_cast<int8_t>(k);
  }
}
} // namespace sim

static bool heap_ok(void* p) { uintptr_t a = reinterpret_cast<uintptr_t>(p); return a >= kBase && a < kLarge + kLargeSize; }

static void free_from(void* p, void* pc) {
  if (!p) return;
  if (sim::on_block && heap_ok(p)) sim::on_block(p, usable(p));
  Lock l; free_raw(p, pc);
}

// as in the standard library, but the caller is known
#define PC __builtin_return_address(0)
static void* new_from(size_t n, size_t align, void* pc) {
  for (;;) {
    if (void* p = do_alloc(n, align, false, pc)) return p;
    std::new_handler h = std::get_new_handler();
    if (!h) throw std::bad_alloc();
    h();
  }
}
static void* try_from(size_t n, size_t align, void* pc) noexcept {
  try { return new_from(n, align, pc); } catch (const std::bad_alloc&) { return nullptr; }
}
void* operator new(std::size_t n) { return new_from(n, 16, PC); }
void* operator new[](std::size_t n) { return new_from(n, 16, PC); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return try_from(n, 16, PC); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return try_from(n, 16, PC); }
void* operator new(std::size_t n, std::align_val_t a) { return new_from(n, (size_t)a, PC); }
void* operator new[](std::size_t n, std::align_val_t a) { return new_from(n, (size_t)a, PC); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return try_from(n, (size_t)a, PC); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return try_from(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { free_from(p, PC); }
void operator delete[](void* p) noexcept { free_from(p, PC); }
void operator delete(void* p, std::size_t) noexcept { free_from(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { free_from(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free_from(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free_from(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { free_from(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { free_from(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { free_from(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { free_from(p, PC); }

extern "C" {
void* malloc(size_t n) { return do_alloc(n, 16, false); }
void free(void* p) { free_from(p, __builtin_return_address(0)); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return do_alloc(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  size_t old = usable(p);
  void* q = malloc(n);
  if (!q) return nullptr;
  size_t m = old < n ? old : n;
  for (size_t i = 0; i < m; i++) static_cast<char*>(q)[i] = static_cast<char*>(p)[i];
  free(p);
  return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return realloc(p, n);
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, false); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = do_alloc(n, al, false);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return do_alloc(n, 4096, false); }
void* pvalloc(size_t n) { return do_alloc(n, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}
