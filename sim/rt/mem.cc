// Allocator seam: in a run every operator new comes from an arena at a fixed
// address with a seeded placement, seeded fill of fresh memory, poisoning of
// freed memory, and canaries.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <new>

#include "rt_internal.h"
#include "sim.h"

namespace sim {
namespace rtinternal {
namespace {
constexpr uintptr_t kBase = 0x200000000000ull;
constexpr size_t kSize = 3ull << 30;
constexpr uint64_t kMagic = 0xC0FFEE5EED5117ull;
constexpr uint64_t kCanary = 0x5A5AF00DFACEB00Cull;
char* g_cur = nullptr;
char* g_end = nullptr;
bool g_on = false;
uint64_t g_rng = 0;
bool g_jitter = false;
int g_fill = 0;  // 0 zero, 1 0xFF, 2 0x7B, 3 random bytes
bool g_reuse = false;
uint64_t Next() {
  g_rng += 0x9E3779B97F4A7C15ull;
  uint64_t z = g_rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Header {
  uint64_t magic;
  uint64_t size;   // payload bytes asked for
  uint64_t cls;    // payload bytes reserved
  uint64_t state;  // 1 live, 2 freed
};
constexpr int kClasses = 512;
void* g_free[kClasses];

bool Owns(const void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  return a >= kBase && a < kBase + kSize;
}

void Fill(void* p, size_t n) {
  switch (g_fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0x7B, n); break;
    default: {
      char* c = static_cast<char*>(p);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        uint64_t r = Next();
        memcpy(c + i, &r, 8);
      }
      for (; i < n; ++i) c[i] = static_cast<char>(Next());
    }
  }
}

// Large blocks are mappings of their own: gone when freed, so that a use after
// that ends the process.
constexpr size_t kBig = 64u << 20;
constexpr int kMaxBig = 64;
struct { char* p; size_t n; } g_big[kMaxBig];
uintptr_t g_big_next = 0x280000000000ull;

void* AllocBig(size_t n) {
  for (auto& b : g_big) {
    if (b.p != nullptr) continue;
    size_t len = (n + 4095) & ~size_t{4095};
    void* p = mmap(reinterpret_cast<void*>(g_big_next), len, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) HarnessError("cannot map a block of %zu bytes", n);
    g_big_next += len + (1u << 20);
    b.p = static_cast<char*>(p);
    b.n = len;
    return p;
  }
  Violation("runaway-memory", "more than %d blocks of %zu MB or more at a time", kMaxBig, kBig >> 20);
}
bool FreeBig(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a < 0x280000000000ull || a >= g_big_next) return false;
  for (auto& b : g_big)
    if (b.p == p) {
      munmap(b.p, b.n);
      b.p = nullptr;
      return true;
    }
  Violation("heap-double-free", "free of a large block that is not allocated");
}

void* Alloc(size_t n, size_t align) {
  if (n >= kBig) return AllocBig(n);
  size_t cls = (n + 8 + 31) & ~size_t{31};
  size_t idx = cls / 32;
  if (g_reuse && align <= 16 && idx < kClasses && g_free[idx] != nullptr && Next() % 4 != 0) {
    void* p = g_free[idx];
    memcpy(&g_free[idx], p, sizeof(void*));
    Header* h = static_cast<Header*>(p) - 1;
    h->size = n;
    h->state = 1;
    memcpy(static_cast<char*>(p) + n, &kCanary, 8);
    // Reused memory keeps what its last owner left, except the link word.
    Fill(p, n < 8 ? n : 8);
    return p;
  }
  if (align < 32) align = 32;
  if (g_jitter) {
    uint64_t r = Next();
    g_cur += (r & 7) * 32;
    if (((r >> 8) & 15) == 0) g_cur += ((r >> 16) & 31) * 4096;
  }
  uintptr_t a = reinterpret_cast<uintptr_t>(g_cur) + sizeof(Header);
  a = (a + align - 1) & ~(align - 1);
  char* p = reinterpret_cast<char*>(a);
  if (p + cls > g_end) {
    Violation("runaway-memory", "a run used more than %zu MB", kSize >> 20);
  }
  g_cur = p + cls;
  Header* h = reinterpret_cast<Header*>(p) - 1;
  h->magic = kMagic;
  h->size = n;
  h->cls = cls;
  h->state = 1;
  Fill(p, n);
  memcpy(p + n, &kCanary, 8);
  return p;
}

void Free(void* p) {
  Header* h = static_cast<Header*>(p) - 1;
  if (h->magic != kMagic) Violation("heap-bad-free", "free of a pointer that was never allocated");
  if (h->state != 1) Violation("heap-double-free", "double free of a block of %llu bytes",
                               (unsigned long long)h->size);
  uint64_t c;
  memcpy(&c, static_cast<char*>(p) + h->size, 8);
  if (c != kCanary)
    Violation("heap-overflow", "write past the end of a block of %llu bytes",
              (unsigned long long)h->size);
  h->state = 2;
  memset(p, 0xDD, h->size);
  size_t idx = h->cls / 32;
  if (g_reuse && idx < kClasses && h->size >= 8) {
    memcpy(p, &g_free[idx], sizeof(void*));
    g_free[idx] = p;
  }
}
}  // namespace

void InitMemory() {
  void* p = mmap(reinterpret_cast<void*>(kBase), kSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(kBase)) {
    fprintf(stderr, "cannot map the simulator arena\n");
    exit(3);
  }
  g_cur = static_cast<char*>(p);
  g_end = g_cur + kSize;
}

void StartChildMemory() {
  uint64_t layout = Draw(kFault, 1 << 20);
  g_rng = layout * 0x9E3779B97F4A7C15ull;
  g_jitter = layout != 0;
  g_fill = Draw(kFault, 4);
  g_reuse = Draw(kFault, 2) == 1;
  if (g_jitter) Count("memory: seeded placement", 1, 1);
  if (g_fill) Count("memory: garbage in fresh blocks", 1, 1);
  if (g_reuse) Count("memory: freed blocks re-used", 1, 1);
  if (g_jitter) g_cur += (Next() % 4096) * 4096;
  g_on = true;
}
}  // namespace rtinternal
using namespace rtinternal;

void NewProcessMemory() {
  uint64_t layout = Draw(kFault, 1 << 20);
  g_rng = layout * 0x9E3779B97F4A7C15ull;
  g_jitter = layout != 0;
  g_fill = Draw(kFault, 4);
  g_reuse = Draw(kFault, 2) == 1;
  memset(g_free, 0, sizeof(g_free));
  uintptr_t next = (reinterpret_cast<uintptr_t>(g_cur) + (1 << 20)) & ~uintptr_t{4095};
  g_cur = reinterpret_cast<char*>(next);
  if (g_jitter) g_cur += (Next() % 4096) * 4096;
  ScribbleStack();
  Fault("memory: layout and contents of another process");
}
void FillGarbage(void* p, size_t n) { Fill(p, n); }
void* ArenaAlloc(size_t n, size_t align) {
  if (!g_on) {
    void* p = nullptr;
    if (posix_memalign(&p, align < 16 ? 16 : align, n)) abort();
    return p;
  }
  return Alloc(n, align);
}
void ArenaFree(void* p) {
  if (p == nullptr) return;
  if (Owns(p)) Free(p); else if (!FreeBig(p)) free(p);
}

__attribute__((noinline)) void ScribbleStack() {
  volatile char buf[64 * 1024];
  Fill(const_cast<char*>(buf), sizeof(buf));
  __asm__ volatile("" ::"r"(buf) : "memory");
}
}  // namespace sim

// Tensor buffers.
namespace tsl {
namespace port {
void* AlignedMalloc(size_t n, int align) { return sim::ArenaAlloc(n ? n : 1, align); }
void AlignedFree(void* p) { sim::ArenaFree(p); }
}  // namespace port
// Rate limiting of log lines by wall time would leak real time into a run.
namespace internal {
class LogEveryNSecState {
 public:
  bool ShouldLog(double);
};
bool LogEveryNSecState::ShouldLog(double) { return false; }
}  // namespace internal
}  // namespace tsl

namespace sim {
namespace rtinternal {
int g_big_allocs = 0, g_fail_big = -1;
}
}  // namespace sim

void* operator new(size_t n) {
  if (n >= sim::rtinternal::kBig && sim::rtinternal::g_fail_big >= 0 && sim::rtinternal::g_big_allocs++ == sim::rtinternal::g_fail_big) {
    sim::Fault("a large allocation fails");
    sim::rtinternal::g_shared->tool_faults++;
    throw std::bad_alloc();
  }
  if (sim::rtinternal::g_on) return sim::rtinternal::Alloc(n, 16);
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try {
    return operator new(n);
  } catch (const std::bad_alloc&) {
    return nullptr;
  }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) {
  return sim::ArenaAlloc(n, static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a) {
  return sim::ArenaAlloc(n, static_cast<size_t>(a));
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
  return sim::ArenaAlloc(n, static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
  return sim::ArenaAlloc(n, static_cast<size_t>(a));
}
void operator delete(void* p) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p) noexcept { sim::ArenaFree(p); }
void operator delete(void* p, size_t) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p, size_t) noexcept { sim::ArenaFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::ArenaFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::ArenaFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::ArenaFree(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { sim::ArenaFree(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { sim::ArenaFree(p); }
