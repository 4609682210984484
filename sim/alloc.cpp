// Heap of the simulated process: operator new/delete on an arena at a fixed address, with a shadow map
// (unallocated / allocated / freed) that instrumented accesses are checked against, and a quarantine so that a
// freed block is not handed out again at once. Everything is deterministic: one simulated thread runs at a time.
#include "core.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

namespace sim {
extern uint8_t *shadowBase; extern uintptr_t arenaBase, arenaSize;
static uintptr_t bump, lim;
struct Hdr { uint64_t size; uint64_t magic; };
constexpr uint64_t MAGIC = 0x51b10c4dea110c8dull;
constexpr int NCLS = 72; // 16-byte steps up to 1 KiB, then powers of two
static void *freeList[NCLS]; static uint64_t memLive, nLive; int g_ownAlloc;
constexpr int QN = 4096; static void *quar[QN]; static size_t qSz[QN]; static int qHead, qLen; static size_t qBytes;
static int clsOf(size_t n, size_t &cap) {
  if (n <= 1024) { size_t k = (n + 15) / 16; if (!k) k = 1; cap = k * 16; return (int)k - 1; }
  int c = 64; size_t s = 2048; while (s < n) { s <<= 1; c++; if (c >= NCLS) { cap = (n + 4095) & ~size_t(4095); return -1; } }
  cap = s; return c;
}
void allocInit() {
  arenaSize = 1ull << 32;
  void *p = mmap((void *)0x600000000000ull, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) finish(O_INTERNAL, 0, "no arena");
  shadowBase = (uint8_t *)mmap((void *)0x610000000000ull, arenaSize >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((void *)shadowBase == MAP_FAILED) finish(O_INTERNAL, 0, "no shadow");
  arenaBase = (uintptr_t)p; bump = arenaBase + 64; lim = arenaBase + arenaSize;
  memset(freeList, 0, sizeof freeList); qHead = qLen = 0; qBytes = 0; memLive = nLive = 0;
}

static void *simAlloc(size_t n, size_t align) {
  if (n > (1ull << 31)) return nullptr;
  size_t cap; int c = clsOf(n, cap);
  char *u = nullptr;
  if (align <= 16 && c >= 0 && freeList[c]) { u = (char *)freeList[c]; freeList[c] = *(void **)u; }
  else {
    uintptr_t a = bump + sizeof(Hdr); a = (a + align - 1) & ~(uintptr_t)(align - 1);
    if (a + cap + 16 > lim) return nullptr;
    bump = a + cap + 16; bump = (bump + 15) & ~15ull; u = (char *)a;
  }
  Hdr *h = (Hdr *)u - 1; h->size = n; h->magic = MAGIC ^ (align > 16) ^ (g_ownAlloc ? 2 : 0);
  memset(shadowBase + (((uintptr_t)u - arenaBase) >> 4), 1, (n + 15) >> 4 ? (n + 15) >> 4 : 1);
  if (!g_ownAlloc) { memLive += n; ++nLive; if (memLive > g_sh->memPeak) g_sh->memPeak = memLive; } // what the simulator itself needs does not count
  // fresh memory has arbitrary contents: fill it so that use of uninitialised data is the same in every run
  memset(u, 0xA7, n);
  return u;
}
static void release(void *p, size_t n) {
  size_t cap; int c = clsOf(n, cap);
  if (c >= 0 && !((((Hdr *)p)[-1].magic ^ MAGIC) & 1)) { *(void **)p = freeList[c]; freeList[c] = p; }
}
static void simFree(void *p) {
  Hdr *h = (Hdr *)p - 1;
  uint8_t s = shadowBase[((uintptr_t)p - arenaBase) >> 4];
  if (s == 2) finish(O_MEMORY, 0, "double free");
  if (s != 1 || (h->magic & ~3ull) != (MAGIC & ~3ull)) finish(O_MEMORY, 0, "free of an invalid pointer");
  size_t n = h->size;
  memset(shadowBase + (((uintptr_t)p - arenaBase) >> 4), 2, (n + 15) >> 4 ? (n + 15) >> 4 : 1);
  if (!((h->magic ^ MAGIC) & 2)) { memLive -= n; --nLive; }
  memset(p, 0xDD, n < 4096 ? n : 4096);
  if (qLen == QN || qBytes > (8u << 20)) {
    while (qLen && (qLen > QN / 2 || qBytes > (4u << 20))) { release(quar[qHead], qSz[qHead]); qBytes -= qSz[qHead]; qHead = (qHead + 1) % QN; --qLen; }
  }
  int t = (qHead + qLen++) % QN; quar[t] = p; qSz[t] = n; qBytes += n;
}
static uint64_t nSized;
uint64_t memLiveNow() { return memLive; }
uint64_t blocksNow() { return nLive; }
static bool refused(size_t n) {
  if (g_ownAlloc) return false;
  g_sh->nAlloc[0]++; if (n >= 64) g_sh->nAlloc[1]++; if (n >= 1024) g_sh->nAlloc[2]++;
  bool no = false; const Cfg &c = *g_cfg;
  if (!allocFaultsOn()) return false; // nothing is refused before the first file operation: until then the option parser is at work
  if (c.allocAt && n >= c.allocMin) { uint64_t k = ++nSized; no = k >= c.allocAt && k - c.allocAt < c.allocMany; }
  if (c.memLimit && memLive + n > c.memLimit) no = true;
  if (!no) return false;
  g_sh->faults[F_ALLOC]++; mix(0xA110C + n); tracef("FAULT %zu bytes of memory refused", n); return true;
}
static inline bool inArena(void *p) { return (uintptr_t)p - arenaBase < arenaSize; }
static void *doNew(size_t n, size_t al) {
  if (live() && refused(n)) return nullptr;
  void *p = live() ? simAlloc(n, al) : (al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) & ~(al - 1)));
  return p;
}
static void doDelete(void *p) {
  if (!p) return;
  if (inArena(p)) { if (live()) simFree(p); return; }
  free(p);
}
} // namespace sim
using namespace sim;
#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { void *p = doNew(n, 16); if (!p) throw std::bad_alloc(); return p; }
VIS void *operator new[](size_t n) { void *p = doNew(n, 16); if (!p) throw std::bad_alloc(); return p; }
VIS void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16); }
VIS void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16); }
VIS void *operator new(size_t n, std::align_val_t a) { void *p = doNew(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
VIS void *operator new[](size_t n, std::align_val_t a) { void *p = doNew(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
VIS void operator delete(void *p) noexcept { doDelete(p); }
VIS void operator delete[](void *p) noexcept { doDelete(p); }
VIS void operator delete(void *p, size_t) noexcept { doDelete(p); }
VIS void operator delete[](void *p, size_t) noexcept { doDelete(p); }
VIS void operator delete(void *p, const std::nothrow_t &) noexcept { doDelete(p); }
VIS void operator delete[](void *p, const std::nothrow_t &) noexcept { doDelete(p); }
VIS void operator delete(void *p, std::align_val_t) noexcept { doDelete(p); }
VIS void operator delete[](void *p, std::align_val_t) noexcept { doDelete(p); }
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept { doDelete(p); }
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept { doDelete(p); }
