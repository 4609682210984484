#include "core.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <ctime>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <ucontext.h>

namespace sim {
const char *const faultName[F_NK] = {"none", "read_eio", "read_short", "read_eintr", "write_enospc", "write_eio", "write_short", "write_eintr",
  "open_emfile", "open_eacces", "open_enospc", "close_eio", "unlink_eio", "rename_eio", "mkdir_enospc", "kill_before", "kill_after", "kill_torn",
  "spurious_wakeup", "accept_emfile", "net_rst", "net_split", "net_delay", "net_stall", "stat_eio", "dir_eio", "out_of_memory", "no_thread"};
const char *const outcomeName[] = {"none", "exit", "signal", "abort", "hang", "livelock", "killed", "memory", "escape", "internal", "served"};

bool g_active = false;
Cfg *g_cfg;
Shared *g_sh;
uint64_t g_ns;
__thread Thr *tl_me;
static bool g_trace;
void setTrace(bool on) { g_trace = on; }
void (*preFork)() = nullptr;
bool (*quiescentHook)() = nullptr;
bool g_stopEvents;

constexpr int MAXT = 1024;
static Thr thr[MAXT];
static int nThr;
static uint64_t hash1, hash2;
static uint64_t step, accCount, nextAcc, wakeCount, choiceCount, ioCount;
static uint64_t rngS[2];
static bool faultOn;
static uint64_t enqSeq;

void mix(uint64_t v) { hash1 = (hash1 ^ v) * 0x9E3779B97F4A7C15ull; hash1 ^= hash1 >> 29; }
void shapeMix(uint64_t v) { mix(v); hash2 = (hash2 ^ v) * 0xD6E8FEB86659FD93ull; hash2 ^= hash2 >> 31; }
void mixBytes(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p; uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  mix(h ^ n);
}
static uint64_t rng64() {
  uint64_t s1 = rngS[0], s0 = rngS[1]; uint64_t r = s0 + s1; rngS[0] = s0; s1 ^= s1 << 23;
  rngS[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r;
}
uint64_t rnd(uint64_t n) { return n <= 1 ? 0 : rng64() % n; }

void tracef(const char *fmt, ...) {
  if (!g_trace) return;
  char b[600]; int n = snprintf(b, sizeof b, "[%8lu %10.6f t%d] ", (unsigned long)step, double(g_ns) / 1e9, tl_me ? tl_me->id : -1);
  va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; syscall(SYS_write, 2, b, n);
}

static void seal(int outcome, int status) {
  Shared *s = g_sh;
  s->hash = hash1; s->shash = hash2; s->steps = step; s->acc = accCount; s->ioOps = ioCount; s->simNs = g_ns - 1000000000ull; s->threads = nThr;
  s->status = status;
  __sync_synchronize();
  s->outcome = outcome;
}
void finish(int outcome, int status, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
  mix(outcome * 1000 + (status & 255));
  tracef("FINISH %s status %d %s", outcomeName[outcome], status, g_sh->msg);
  seal(outcome, status);
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

void *realSym(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sim: no real %s\n", name); syscall(SYS_exit_group, 99); }
  return p;
}

// ------------------------------------------------ decisions
struct DecCursor { const Dec *v; size_t n, i; };
static DecCursor cur[D_NK];
static void record(uint8_t kind, uint64_t idx, uint64_t val) {
  if (g_sh->nDec < DECCAP) { Dec &d = g_sh->decs[g_sh->nDec]; d.kind = kind; d.idx = idx; d.val = val; }
  g_sh->nDec++;
}
static bool lookup(uint8_t kind, uint64_t idx, uint64_t &val) {
  DecCursor &c = cur[kind];
  while (c.i < c.n && c.v[c.i].idx < idx) c.i++;
  if (c.i < c.n && c.v[c.i].idx == idx) { val = c.v[c.i].val; c.i++; return true; }
  return false;
}
uint64_t recChoice(uint64_t n) {
  uint64_t idx = choiceCount++, v = 0;
  if (n <= 1) return 0;
  if (g_cfg->replay) { lookup(D_RAND, idx, v); v %= n; }
  else { v = rnd(n); if (v) record(D_RAND, idx, v); }
  mix(v);
  return v;
}

// ------------------------------------------------ token passing
static void fwait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void fwake(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static uint64_t pctPoint[32]; static int pctN; static uint64_t pctLow;

static void switchTo(Thr *t) {
  Thr *me = tl_me;
  if (t == me) return;
  g_sh->switches++;
  shapeMix(0x5100 + t->id);
  tracef("-> t%d", t->id);
  bool done = me->state == S_DONE;
  fwake(&t->go);
  if (!done) fwait(&me->go);
}

// ------------------------------------------------ events and clock
struct Ev { uint64_t at, seq; void (*fn)(void *); void *arg; };
constexpr int MAXEV = 65536;
static Ev evs[MAXEV]; static int nEv; static uint64_t evSeq; // a heap, earliest first
static bool later(const Ev &a, const Ev &b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; }
void addEvent(uint64_t at, void (*fn)(void *), void *arg) {
  if (nEv >= MAXEV) finish(O_INTERNAL, 0, "too many events");
  evs[nEv++] = {at, evSeq++, fn, arg}; std::push_heap(evs, evs + nEv, later);
}
static int earliestEv() { return nEv ? 0 : -1; }
static void fireDue() {
  while (nEv && evs[0].at <= g_ns) { std::pop_heap(evs, evs + nEv, later); Ev e = evs[--nEv]; e.fn(e.arg); }
  for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].wake && thr[i].wake <= g_ns) {
    thr[i].state = S_RUN; thr[i].timedout = true; thr[i].wake = 0;
    if (thr[i].why != W_EOFSLEEP) PROBE(PR_TIMER_FIRED);
  }
}

// ------------------------------------------------ terminal input
static char inBuf[1 << 16]; static size_t inHead, inTail;
static size_t keyIdx, keysHandled; static uint64_t keyArmed; static uint64_t lastKeyStep;
static int nSpaces; static uint64_t eofSpins;
static Thr *boost; static bool resumePressed;
static void deliver(const std::string &b) {
  OwnAlloc own;
  for (char c : b) { if (inTail < sizeof inBuf) inBuf[inTail++] = c; if (c == g_cfg->pauseKey) nSpaces++; }
  g_sh->spaces = nSpaces; 
  for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == W_STDIN) { thr[i].state = S_RUN; if (g_cfg->keyBoost) boost = &thr[i]; }
  mix(0xCE1 + b.size());
  tracef("key '%s'", b.c_str());
}
static void deliverKey() {
  if (keyIdx < 17) g_sh->filesAtPress[keyIdx] = g_sh->createdTotal;
  deliver(g_cfg->keys[keyIdx].bytes); keyIdx++; lastKeyStep = step; keyArmed = 0; g_sh->keysDelivered = (uint32_t)keyIdx;
}
static void keysDue() {
  while (keyIdx < g_cfg->keys.size()) {
    const Key &k = g_cfg->keys[keyIdx];
    if (k.when == 1) return;
    if (!keyArmed) { if (ioCount < k.io) return; keyArmed = step + k.steps + 1; }
    if (step < keyArmed) return;
    deliverKey(); PROBE(PR_KEY_WHILE_RUNNING);
  }
}
static void noteHandled() {
  while (keysHandled < keyIdx) { if (keysHandled < 16) g_sh->filesAtKey[keysHandled] = g_sh->createdTotal; keysHandled++; }
  g_sh->keysHandled = (uint32_t)keysHandled;
}
int stdinAvail() { return int(inTail - inHead); }
bool stdinRead1(int &ch, bool consume) {
  point(0x20);
  if (inHead == inTail) noteHandled();
  while (inHead == inTail) {
    if (keyIdx >= g_cfg->keys.size() && g_cfg->keyEof) {
      eofSpins++;
      blockOn(W_EOFSLEEP, nullptr, g_ns + 10000000);
      ch = -1; return false;
    }
    blockOn(W_STDIN, nullptr, 0);
  }
  if (g_cfg->keyBoost) boost = tl_me; // a key press is handled at once: its reader runs until it waits for something
  ch = (unsigned char)inBuf[inHead];
  if (consume) inHead++;
  return true;
}
static void stdinUnget() { if (inHead) inHead--; }

// ------------------------------------------------ scheduling
static void idle(); 
static Thr *runnables[MAXT]; static int nRun;
static void collect() { nRun = 0; for (int i = 0; i < nThr; ++i) if (thr[i].state == S_RUN) runnables[nRun++] = &thr[i]; }

static Thr *pick(Thr *me, bool meRun) {
  collect();
  Thr *def = meRun ? me : runnables[0];
  if (nRun == 1) return runnables[0];
  if (boost && boost->state == S_RUN) return boost;
  Thr *ch = def;
  if (g_cfg->replay) {
    uint64_t v;
    if (lookup(D_SCHED, step, v)) for (int i = 0; i < nRun; ++i) if ((uint64_t)runnables[i]->id == v) ch = runnables[i];
  } else {
    if (step > g_cfg->maxSteps) { // fair phase
      ch = runnables[rnd(nRun)];
    } else switch (g_cfg->policy) {
      case 0: break;
      case 1:
        if (!meRun) ch = runnables[rnd(nRun)];
        else if (rnd(1024) < g_cfg->pSwitch) ch = runnables[rnd(nRun)];
        break;
      case 2: {
        Thr *b = runnables[0];
        for (int i = 1; i < nRun; ++i) if (runnables[i]->prio > b->prio) b = runnables[i];
        ch = b; break;
      }
    }
    if (ch != def) record(D_SCHED, step, ch->id);
  }
  return ch;
}

static void checkBudget() {
  if (step > g_cfg->maxSteps * 3) finish(O_LIVELOCK, 0, "no end after %lu scheduling points", (unsigned long)step);
}

static void idle() { // nobody can run
  static uint64_t eofOnly;
  for (;;) {
    collect(); if (nRun) { return; }
    int b = earliestEv(); uint64_t t = b >= 0 ? evs[b].at : UINT64_MAX; bool eof = false;
    for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].wake && thr[i].wake < t) { t = thr[i].wake; eof = thr[i].why == W_EOFSLEEP; }
    if (eof) { if (++eofOnly > 300) finish(O_HANG, 0, "no progress: every thread waits, input is at its end"); } else eofOnly = 0;
    if (t != UINT64_MAX && !(eof && keyIdx < g_cfg->keys.size())) {
      PROBE(PR_IDLE_JUMP);
      if (t > g_ns) g_ns = t;
      fireDue(); continue;
    }
    bool reader = false; for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == W_STDIN) reader = true;
    if (reader && keyIdx < g_cfg->keys.size()) { noteHandled(); g_ns += 100000000; PROBE(PR_QUIESCENT_KEY); deliverKey(); continue; }
    if (reader && g_cfg->resumeIfPaused && !resumePressed) { noteHandled(); resumePressed = true; g_ns += 100000000; PROBE(PR_QUIESCENT_KEY); if (keyIdx < 17) g_sh->filesAtPress[keyIdx] = g_sh->createdTotal; deliver(std::string(1, g_cfg->pauseKey)); continue; }
    if (reader && g_cfg->keyEof) { for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == W_STDIN) thr[i].state = S_RUN; continue; }
    if (quiescentHook && quiescentHook()) continue;
    char d[300]; int n = 0; static const char *wn[] = {"?", "mutex", "condition", "join", "sleep", "stdin", "eof", "once", "static-init", "rwlock", "epoll", "poll"};
    for (int i = 0; i < nThr && n < 260; ++i) if (thr[i].state == S_BLOCK) n += snprintf(d + n, sizeof d - n, " t%d:%s", i, wn[thr[i].why]);
    finish(O_HANG, 0, "no progress possible:%s", d);
  }
}

static void reschedule(Thr *me, bool meRun) {
  if (!meRun) { collect(); if (!nRun) idle(); }
  Thr *t = pick(me, me->state == S_RUN);
  if (t != me) { if (meRun) PROBE(PR_SWITCH_SYNC); switchTo(t); }
}

void point(uint32_t kind, uint64_t obj) {
  if (!live()) return;
  Thr *me = tl_me;
  ++step; g_ns += 1000;
  shapeMix((uint64_t(kind) << 8) ^ me->id); if (obj) mix(obj);
  if (keyIdx < g_cfg->keys.size()) keysDue();
  if ((step & 15) == 0 || nEv) fireDue();
  if (pctN && !g_cfg->replay && step == pctPoint[pctN - 1]) { --pctN; me->prio = --pctLow; }
  if (!g_cfg->replay && g_cfg->pSpurious && rnd(1024) < g_cfg->pSpurious) {
    int w[MAXT], n = 0; for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == W_COND) w[n++] = i;
    if (n) { int i = w[rnd(n)]; record(D_SCHED, step | (1ull << 62), i); thr[i].state = S_RUN; thr[i].wake = 0; g_sh->faults[F_SPURIOUS]++; }
  }
  if (g_cfg->replay) {
    // spurious wakeups are stored with a marker in a list of their own
    extern bool replaySpurious(uint64_t, uint64_t &);
    uint64_t i; if (replaySpurious(step, i) && i < (uint64_t)nThr && thr[i].state == S_BLOCK && thr[i].why == W_COND) { thr[i].state = S_RUN; thr[i].wake = 0; g_sh->faults[F_SPURIOUS]++; }
  }
  checkBudget();
  reschedule(me, true);
}
static DecCursor spurCur;
bool replaySpurious(uint64_t idx, uint64_t &v) {
  while (spurCur.i < spurCur.n && (spurCur.v[spurCur.i].idx & ~(1ull << 62)) < idx) spurCur.i++;
  if (spurCur.i < spurCur.n && (spurCur.v[spurCur.i].idx & ~(1ull << 62)) == idx) { v = spurCur.v[spurCur.i].val; spurCur.i++; return true; }
  return false;
}

void blockOn(Why w, const void *addr, uint64_t wakeNs) {
  Thr *me = tl_me;
  me->state = S_BLOCK; me->why = w; me->addr = addr; me->wake = wakeNs; me->timedout = false; me->enq = enqSeq++;
  if (me == boost && w != W_MUTEX && w != W_GUARD && w != W_ONCE && w != W_RW) { boost = nullptr; noteHandled(); }
  ++step; g_ns += 1000; shapeMix((0xB0u + w) << 8 ^ me->id);
  tracef("block %d", (int)w);
  if (keyIdx < g_cfg->keys.size()) keysDue();
  if (nEv || (step & 15) == 0) fireDue();
  checkBudget();
  reschedule(me, false);
}
void wakeAll(Why w, const void *addr) {
  for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == w && thr[i].addr == addr) { thr[i].state = S_RUN; thr[i].wake = 0; }
}
int wakeOne(Why w, const void *addr) { // returns number of waiters there were
  int v[MAXT], n = 0;
  for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == w && thr[i].addr == addr) v[n++] = i;
  if (!n) return 0;
  for (int i = 1; i < n; ++i) for (int j = i; j && thr[v[j]].enq < thr[v[j - 1]].enq; --j) { int t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
  uint64_t idx = wakeCount++, ch = 0;
  if (n > 1) {
    if (g_cfg->replay) { if (lookup(D_WAKE, idx, ch)) ch %= n; }
    else { ch = g_cfg->policy ? rnd(n) : 0; if (ch) record(D_WAKE, idx, ch); }
  }
  thr[v[ch]].state = S_RUN; thr[v[ch]].wake = 0;
  return n;
}

static void accSlow();
static void setNextAcc() {
  uint64_t lim = g_cfg->maxAcc;
  if (g_cfg->replay) { DecCursor &c = cur[D_ACC]; while (c.i < c.n && c.v[c.i].idx <= accCount) c.i++; nextAcc = c.i < c.n ? c.v[c.i].idx : lim; }
  else if (g_cfg->accGap) nextAcc = accCount + 1 + rnd(2 * g_cfg->accGap);
  else nextAcc = lim;
  if (nextAcc > lim) nextAcc = lim;
}
static void accSlow() {
  if (accCount >= g_cfg->maxAcc) finish(O_LIVELOCK, 0, "no end after %lu memory accesses", (unsigned long)accCount);
  uint64_t idx = accCount;
  Thr *me = tl_me;
  collect();
  if (nRun > 1 && boost != me) {
    Thr *t = me;
    if (g_cfg->replay) { uint64_t v; if (lookup(D_ACC, idx, v)) for (int i = 0; i < nRun; ++i) if ((uint64_t)runnables[i]->id == v) t = runnables[i]; }
    else {
      Thr *o[MAXT]; int n = 0; for (int i = 0; i < nRun; ++i) if (runnables[i] != me) o[n++] = runnables[i];
      t = o[rnd(n)];
      if (g_cfg->policy == 2) { me->prio = --pctLow; for (int i = 0; i < n; ++i) if (o[i]->prio > t->prio) t = o[i]; }
      record(D_ACC, idx, t->id);
    }
    setNextAcc();
    if (t != me) { PROBE(PR_SWITCH_ACC); mix(0xACC); g_ns += 1000; switchTo(t); }
  } else setNextAcc();
}
uint8_t *shadowBase; uintptr_t arenaBase, arenaSize;
static inline void access(const void *p, size_t n) {
  if (!live()) return;
  if (__builtin_expect(++accCount >= nextAcc, 0)) accSlow();
  uintptr_t a = (uintptr_t)p - arenaBase;
  if (a < arenaSize) {
    uint8_t s = shadowBase[a >> 4];
    if (__builtin_expect(s != 1, 0)) finish(O_MEMORY, 0, s == 2 ? "use after free" : "heap access out of bounds");
    if (n > 1 && __builtin_expect(shadowBase[(a + n - 1) >> 4] != 1, 0)) finish(O_MEMORY, 0, "heap access out of bounds");
  }
}

// ------------------------------------------------ faults
static uint64_t stickyKinds; static int afterShort;
void killNow(const char *where) { finish(O_KILLED, 137, "killed at %s", where); }
static uint64_t clsMask(Cls c) {
  switch (c) {
    case C_READ: return M(F_READ_EIO) | M(F_READ_SHORT) | M(F_READ_EINTR) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_WRITE: return M(F_WRITE_ENOSPC) | M(F_WRITE_EIO) | M(F_WRITE_SHORT) | M(F_WRITE_EINTR) | MASK_KILL;
    case C_OPEN: return M(F_OPEN_EMFILE) | M(F_OPEN_EACCES) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_CREATE: return M(F_OPEN_EMFILE) | M(F_OPEN_EACCES) | M(F_OPEN_ENOSPC) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_CLOSE: return M(F_CLOSE_EIO) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_UNLINK: return M(F_UNLINK_EIO) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_RENAME: return M(F_RENAME_EIO) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_MKDIR: return M(F_MKDIR_ENOSPC) | M(F_KILL_BEFORE) | M(F_KILL_AFTER);
    case C_ACCEPT: return M(F_ACCEPT_EMFILE);
    case C_STAT: return M(F_STAT_EIO);
    case C_DIR: return M(F_DIR_EIO);
    default: return 0;
  }
}
static uint32_t pickBit(uint64_t m) { int n = __builtin_popcountll(m); uint64_t k = rnd(n); while (k--) m &= m - 1; return (uint32_t)__builtin_ctzll(m); }
uint64_t ioFault(Cls c, const char *what, uint64_t obj) {
  if (!ioCount) memcpy(g_sh->nAllocIo, g_sh->nAlloc, sizeof g_sh->nAlloc);
  uint64_t idx = ioCount++, v = 0;
  mix(0x10F00 + c); if (obj) mix(obj);
  if (!faultOn) return 0;
  if (g_cfg->replay) { if (!lookup(D_IO, idx, v)) v = 0; }
  else {
    uint64_t m = 0;
    for (uint64_t p : g_cfg->planAt) if (p == idx) m = g_cfg->planMask & clsMask(c);
    if (!m && g_cfg->pFault && rnd(1024) < g_cfg->pFault) m = g_cfg->faultMask & clsMask(c);
    // a transfer that was cut short is often followed by the failure that cut it
    if (afterShort == 1 + (int)c) { afterShort = 0; uint64_t h = (g_cfg->faultMask | g_cfg->planMask) & clsMask(c) & (MASK_HARD | M(F_KILL_BEFORE)); if (!m && h && rnd(2)) m = h; }
    if (m) {
      v = pickBit(m) | (rnd(1 << 16) << 16);
      if (g_cfg->pSticky && rnd(1024) < g_cfg->pSticky) v |= FV_STICKY;
      record(D_IO, idx, v);
      if ((v & 255) == F_READ_SHORT || (v & 255) == F_WRITE_SHORT) afterShort = 1 + (int)c;
    }
  }
  uint32_t k = v & 255;
  if (!k || !(clsMask(c) & M(k))) {
    uint64_t s = stickyKinds & clsMask(c);
    if (!s) return 0;
    k = (uint32_t)__builtin_ctzll(s); v = k;
  } else if ((v & FV_STICKY) && (M(k) & MASK_HARD)) stickyKinds |= M(k);
  g_sh->faults[k]++;
  mix(0xFA00 + k);
  tracef("FAULT %s on %s (op %lu)", faultName[k], what, (unsigned long)idx);
  if (k == F_KILL_BEFORE) killNow(what);
  return v;
}

// ------------------------------------------------ signals
static void onSig(int sig, siginfo_t *si, void *) {
  if (!g_sh) _exit(98);
  g_sh->sig = sig; g_sh->sigAddr = (uint64_t)si->si_addr;
  if (sig == SIGXCPU) { snprintf(g_sh->msg, sizeof g_sh->msg, "cpu time exhausted"); seal(O_LIVELOCK, 0); }
  else if (sig == SIGABRT) { snprintf(g_sh->msg, sizeof g_sh->msg, "abort"); mix(O_ABORT); seal(O_ABORT, 134); }
  else { snprintf(g_sh->msg, sizeof g_sh->msg, "signal %d", sig); mix(O_SIGNAL * 100 + sig); seal(O_SIGNAL, 128 + sig); }
  tracef("SIGNAL %d addr %p", sig, si->si_addr);
  syscall(SYS_exit_group, 0);
}
static char altStacks[MAXT][16384] __attribute__((aligned(16)));

// ------------------------------------------------ threads
static char *stackPool; constexpr size_t STK = 8u << 20;
static void *tramp(void *p) {
  Thr *t = (Thr *)p;
  stack_t ss{}; ss.ss_sp = altStacks[t->id]; ss.ss_size = sizeof altStacks[0]; sigaltstack(&ss, nullptr);
  fwait(&t->go);
  tl_me = t;
  t->ret = t->fn(t->arg);
  // thread end
  ++step; shapeMix(0xE0D00 | t->id);
  t->state = S_DONE;
  if (t == boost) { boost = nullptr; noteHandled(); }
  wakeAll(W_JOIN, t);
  collect(); if (!nRun) idle();
  Thr *n = pick(t, false);
  tl_me = t; Thr *me = t; (void)me;
  g_sh->switches++; shapeMix(0x5100 + n->id);
  tl_me = nullptr;
  fwake(&n->go);
  return nullptr;
}
static Thr *newThr(void *(*fn)(void *), void *arg) {
  if (nThr >= MAXT) finish(O_LIVELOCK, 0, "no end: %d threads have been started", nThr);
  Thr *t = &thr[nThr]; memset(t, 0, sizeof *t); t->id = nThr++; t->fn = fn; t->arg = arg; t->state = S_RUN;
  t->prio = g_cfg->policy == 2 && !g_cfg->replay ? (1ull << 32) + rnd(1u << 30) : 0;
  typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static create_t rc = (create_t)realSym("pthread_create");
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, stackPool + size_t(t->id) * STK + 65536, STK - 65536);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  if (rc(&t->pt, &at, tramp, t) != 0) finish(O_INTERNAL, 0, "cannot create thread");
  pthread_attr_destroy(&at);
  return t;
}
uint64_t simThreads() { return nThr; }

static const std::function<int()> *mainFn;
static void *mainThread(void *) {
  int st = (*mainFn)();
  for (uint64_t i = 0; i < g_cfg->extraExitSteps; ++i) point(0x77);
  finish(O_EXIT, st & 255, "main returned");
}

Shared *newShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return (Shared *)p;
}

extern "C" int sim_personality_off();
void ioReset();

void runProcess(const Cfg &cfgIn, Shared *out, const std::function<int()> &fn) {
  memset((void *)out, 0, offsetof(Shared, out)); out->nOut = out->nErr = out->nDec = out->nUser = 0;
  if (preFork) preFork();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { out->outcome = O_INTERNAL; snprintf(out->msg, sizeof out->msg, "fork failed"); return; }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static Cfg cfg; cfg = cfgIn; g_cfg = &cfg; g_sh = out;
    struct rlimit rl{120, 125}; setrlimit(RLIMIT_CPU, &rl);
    struct sigaction sa{}; sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND; sigfillset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    if (chdir(cfg.scratch.c_str()) != 0) { finish(O_INTERNAL, 0, "chdir failed"); }
    setenv("TMPDIR", "tmpd", 1); setenv("TZ", "UTC", 1);
    uint64_t z = cfg.seed; auto sm = [&] { z += 0x9E3779B97F4A7C15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); };
    rngS[0] = sm(); rngS[1] = sm() | 1;
    g_ns = 1000000000ull; faultOn = true;
    // replay lists
    size_t cnt[D_NK + 1] = {0};
    if (cfg.replay) {
      for (auto &d : cfg.decs) cnt[(d.kind == D_SCHED && (d.idx >> 62 & 1)) ? D_NK : d.kind]++;
      Dec *l[D_NK + 1]; for (int k = 0; k <= D_NK; ++k) { l[k] = (Dec *)malloc(sizeof(Dec) * (cnt[k] + 1)); cnt[k] = 0; }
      for (auto &d : cfg.decs) { int k = (d.kind == D_SCHED && (d.idx >> 62 & 1)) ? D_NK : d.kind; l[k][cnt[k]++] = d; }
      for (int k = 0; k < D_NK; ++k) cur[k] = {l[k], cnt[k], 0};
      spurCur = {l[D_NK], cnt[D_NK], 0};
    }
    if (cfg.policy == 2 && !cfg.replay) {
      pctLow = 1u << 20; pctN = cfg.pctDepth > 32 ? 32 : cfg.pctDepth;
      for (int i = 0; i < pctN; ++i) pctPoint[i] = 1 + rnd(cfg.pctLen);
      for (int i = 1; i < pctN; ++i) for (int j = i; j && pctPoint[j] > pctPoint[j - 1]; --j) { uint64_t t = pctPoint[j]; pctPoint[j] = pctPoint[j - 1]; pctPoint[j - 1] = t; }
    }
    setNextAcc();
    stackPool = (char *)mmap((void *)0x5a0000000000ull, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stackPool == MAP_FAILED) finish(O_INTERNAL, 0, "no stack pool");
    allocInit(); ioReset(); netReset();
    mainFn = &fn;
    Thr *t0 = newThr(mainThread, nullptr);
    g_sh->ttyLflagEnd = cfg.ttyLflag;
    g_active = true;
    fwake(&t0->go);
    for (;;) pause();
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (out->outcome == O_NONE) {
    out->outcome = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? O_LIVELOCK : O_INTERNAL;
    snprintf(out->msg, sizeof out->msg, "child ended with wait status %x", st);
  }
}

extern "C" {
void sim_user_event(const char *t) {
  if (!live()) return;
  size_t n = strlen(t) + 1;
  if (g_sh->nUser + n < USERCAP) { memcpy(g_sh->user + g_sh->nUser, t, n); g_sh->nUser += n; }
  mixBytes(t, n); tracef("user: %s", t);
}
uint64_t sim_choose(uint64_t n) { return live() ? recChoice(n) : 0; }
void sim_point() { point(0x70); }
void sim_sleep_ns(uint64_t ns) { if (live()) blockOn(W_SLEEP, nullptr, g_ns + ns); }
uint64_t sim_now_ns() { return g_ns; }
uint64_t sim_events() { return step; }
void sim_probe(int p) { if (live()) g_sh->probes[p]++; }
int sim_active() { return live(); }
} bool allocFaultsOn() { return faultOn && ioCount; } extern "C" {
void sim_fault_enable(int on) { faultOn = on; if (!on) stickyKinds = 0; }
}
} // namespace sim

using namespace sim;
#define REAL(name) ((decltype(&::name))({ static void *p_ = realSym(#name); p_; }))
extern "C" {
// ================================================= pthread
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!live()) return REAL(pthread_create)(pt, a, fn, arg);
  uint64_t nth = ++g_sh->nThreadTry;
  if (g_cfg->threadAt && nth >= g_cfg->threadAt && nth - g_cfg->threadAt < g_cfg->threadMany && faultOn) { g_sh->faults[F_THREAD]++; mix(0x7412EAD); tracef("FAULT no thread"); point(0x01, 0); return EAGAIN; }
  Thr *t = newThr(fn, arg); *pt = t->pt;
  if (a) { int d; if (pthread_attr_getdetachstate(a, &d) == 0 && d == PTHREAD_CREATE_DETACHED) t->detached = true; }
  if (nThr >= 4) PROBE(PR_THREADS_GE4);
  { uint64_t k = 0; for (int i = 0; i < nThr; ++i) k += thr[i].detached ? thr[i].state != S_DONE : !thr[i].joined; if (k > g_sh->thrPeak) g_sh->thrPeak = k; } // threads there are: running, or ended and not joined
  tracef("create t%d", t->id);
  point(0x01, t->id);
  return 0;
}
static Thr *findThr(pthread_t p) { for (int i = 0; i < nThr; ++i) if (pthread_equal(thr[i].pt, p)) return &thr[i]; return nullptr; }
int pthread_join(pthread_t p, void **r) {
  if (!live()) return REAL(pthread_join)(p, r);
  point(0x02);
  Thr *t = findThr(p); if (!t) return ESRCH;
  if (t == tl_me) return EDEADLK;
  while (t->state != S_DONE) blockOn(W_JOIN, t, 0);
  if (r) *r = t->ret;
  t->joined = true; return 0;
}
int pthread_detach(pthread_t p) { if (!live()) return REAL(pthread_detach)(p); Thr *t = findThr(p); if (t) t->detached = true; point(0x03); return 0; }
int pthread_setschedparam(pthread_t p, int pol, const struct sched_param *s) { if (!live()) return REAL(pthread_setschedparam)(p, pol, s); point(0x04); return EPERM; }
int pthread_getschedparam(pthread_t p, int *pol, struct sched_param *s) { if (!live()) return REAL(pthread_getschedparam)(p, pol, s); *pol = 0; s->sched_priority = 0; return 0; }
int pthread_setname_np(pthread_t p, const char *n) { if (!live()) return REAL(pthread_setname_np)(p, n); return 0; }

// mutex: word 0 owner id+1, word 1 recursion count
static inline int *mw(pthread_mutex_t *m) { return (int *)m; }
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void chkMutex(pthread_mutex_t *m) {
  uintptr_t a = (uintptr_t)m - arenaBase;
  if (a < arenaSize && shadowBase[a >> 4] != 1) finish(O_MEMORY, 0, "lock operation on a destroyed mutex");
  if (mw(m)[0] < 0 || mw(m)[0] > nThr) finish(O_MEMORY, 0, "lock operation on an invalid mutex");
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!live()) return REAL(pthread_mutex_lock)(m);
  point(0x05);
  chkMutex(m);
  int *w = mw(m), me = tl_me->id + 1;
  if (w[0] == me) { if (recursive(m)) { w[1]++; return 0; } blockOn(W_MUTEX, m, 0); }
  while (w[0] != 0) { PROBE(PR_MUTEX_CONTENDED); blockOn(W_MUTEX, m, 0); chkMutex(m); }
  w[0] = me; w[1] = 0;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!live()) return REAL(pthread_mutex_trylock)(m);
  point(0x06); chkMutex(m);
  int *w = mw(m), me = tl_me->id + 1;
  if (w[0] == me && recursive(m)) { w[1]++; return 0; }
  if (w[0]) return EBUSY;
  w[0] = me; w[1] = 0; return 0;
}
static void mUnlock(pthread_mutex_t *m) {
  int *w = mw(m);
  if (w[1] > 0 && recursive(m)) { w[1]--; return; }
  w[0] = 0; w[1] = 0; wakeAll(W_MUTEX, m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!live()) return REAL(pthread_mutex_unlock)(m);
  chkMutex(m); mUnlock(m); point(0x07); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!live()) return REAL(pthread_mutex_destroy)(m); if (mw(m)[0] > 0 && mw(m)[0] <= nThr) return EBUSY; return 0; }

static void chkAddr(const void *p, const char *what) {
  uintptr_t a = (uintptr_t)p - arenaBase;
  if (a < arenaSize && shadowBase[a >> 4] != 1) finish(O_MEMORY, 0, "%s on a destroyed object", what);
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t wake) {
  point(0x08); chkAddr(c, "condition wait"); chkMutex(m);
  PROBE(PR_COND_WAIT);
  int rec = mw(m)[1]; mw(m)[1] = 0; mUnlock(m);
  blockOn(W_COND, c, wake);
  bool to = tl_me->timedout;
  while (mw(m)[0] != 0) { chkMutex(m); blockOn(W_MUTEX, m, 0); }
  chkMutex(m);
  mw(m)[0] = tl_me->id + 1; mw(m)[1] = rec;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!live()) return REAL(pthread_cond_wait)(c, m); return condWait(c, m, 0); }
constexpr uint64_t REALTIME_BASE = 1700000000ull * 1000000000ull;
static uint64_t toSim(clockid_t ck, const struct timespec *ts) {
  if (ts->tv_sec > 9000000000ll) return 0;
  int64_t v = int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
  if (ck == CLOCK_REALTIME) v -= (int64_t)REALTIME_BASE;
  if (v <= (int64_t)g_ns) v = (int64_t)g_ns + 1;
  return (uint64_t)v;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!live()) return REAL(pthread_cond_timedwait)(c, m, ts);
  // condattr clock: asio and boost set CLOCK_MONOTONIC; values far below the realtime base are monotonic
  clockid_t ck = ts->tv_sec >= 1600000000ll ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  return condWait(c, m, toSim(ck, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts) { if (!live()) return REAL(pthread_cond_clockwait)(c, m, ck, ts); return condWait(c, m, toSim(ck, ts)); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!live()) return REAL(pthread_cond_signal)(c);
  chkAddr(c, "condition signal"); if (!wakeOne(W_COND, c)) PROBE(PR_COND_SIGNAL_NOBODY);
  point(0x09); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!live()) return REAL(pthread_cond_broadcast)(c);
  chkAddr(c, "condition broadcast"); wakeAll(W_COND, c); point(0x0a); return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!live()) return REAL(pthread_cond_destroy)(c);
  for (int i = 0; i < nThr; ++i) if (thr[i].state == S_BLOCK && thr[i].why == W_COND && thr[i].addr == c) finish(O_MEMORY, 0, "condition variable destroyed while t%d waits on it", i);
  return 0;
}
// rwlock: word 0 writer id+1, word 1 readers
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!live()) return REAL(pthread_rwlock_rdlock)(l); if (nThr > 1) point(0x0b); int *w = (int *)l; while (w[0]) blockOn(W_RW, l, 0); w[1]++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!live()) return REAL(pthread_rwlock_wrlock)(l); if (nThr > 1) point(0x0c); int *w = (int *)l; while (w[0] || w[1]) blockOn(W_RW, l, 0); w[0] = tl_me->id + 1; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!live()) return REAL(pthread_rwlock_tryrdlock)(l); if (nThr > 1) point(0x0b); int *w = (int *)l; if (w[0]) return EBUSY; w[1]++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!live()) return REAL(pthread_rwlock_trywrlock)(l); if (nThr > 1) point(0x0c); int *w = (int *)l; if (w[0] || w[1]) return EBUSY; w[0] = tl_me->id + 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!live()) return REAL(pthread_rwlock_unlock)(l); int *w = (int *)l; if (w[0] == tl_me->id + 1) w[0] = 0; else if (w[1]) w[1]--; wakeAll(W_RW, l); if (nThr > 1) point(0x0d); return 0; }

static void onceImpl(pthread_once_t *o, void (*f)(void)) {
  point(0x0e);
  volatile int *w = (volatile int *)o;
  for (;;) {
    if (*w == 2) return;
    if (*w == 0) {
      *w = 1;
      try { f(); } catch (...) { *w = 0; wakeAll(W_ONCE, o); throw; }
      *w = 2; wakeAll(W_ONCE, o); return;
    }
    blockOn(W_ONCE, o, 0);
  }
}
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!live()) return REAL(pthread_once)(o, f); onceImpl(o, f); return 0; }

int simGuardAcquire(uint64_t *g) __asm__("__cxa_guard_acquire"); int simGuardAcquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  if (!live()) { if (b[0]) return 0; b[1] = 1; return 1; }
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    PROBE(PR_GUARD_WAIT); blockOn(W_GUARD, g, 0);
  }
}
void simGuardRelease(uint64_t *g) __asm__("__cxa_guard_release"); void simGuardRelease(uint64_t *g) { volatile uint8_t *b = (volatile uint8_t *)g; b[0] = 1; b[1] = 0; if (live()) wakeAll(W_GUARD, g); }
void simGuardAbort(uint64_t *g) __asm__("__cxa_guard_abort"); void simGuardAbort(uint64_t *g) { volatile uint8_t *b = (volatile uint8_t *)g; b[1] = 0; if (live()) wakeAll(W_GUARD, g); }

// ================================================= time, cpu count, randomness
static void nsTo(struct timespec *ts, uint64_t v) { ts->tv_sec = time_t(v / 1000000000ull); ts->tv_nsec = long(v % 1000000000ull); }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!live()) return (int)syscall(SYS_clock_gettime, c, ts);
  g_ns += 100;
  nsTo(ts, (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? g_ns + REALTIME_BASE : g_ns); return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { if (!live()) return (int)syscall(SYS_gettimeofday, tv, tz); uint64_t v = g_ns + REALTIME_BASE; tv->tv_sec = time_t(v / 1000000000ull); tv->tv_usec = long(v % 1000000000ull / 1000); return 0; }
time_t time(time_t *t) { if (!live()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = time_t((g_ns + REALTIME_BASE) / 1000000000ull); if (t) *t = v; return v; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!live()) return (int)syscall(SYS_nanosleep, a, b); blockOn(W_SLEEP, nullptr, g_ns + uint64_t(a->tv_sec) * 1000000000ull + a->tv_nsec + 1); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!live()) return REAL(clock_nanosleep)(c, fl, a, b);
  uint64_t w = (fl & TIMER_ABSTIME) ? toSim(c, a) : g_ns + uint64_t(a->tv_sec) * 1000000000ull + a->tv_nsec + 1;
  blockOn(W_SLEEP, nullptr, w); return 0;
}
int usleep(useconds_t u) { if (!live()) return REAL(usleep)(u); blockOn(W_SLEEP, nullptr, g_ns + uint64_t(u) * 1000 + 1); return 0; }
unsigned sleep(unsigned s) { if (!live()) return REAL(sleep)(s); blockOn(W_SLEEP, nullptr, g_ns + uint64_t(s) * 1000000000ull + 1); return 0; }
int sched_yield() { if (!live()) return (int)syscall(SYS_sched_yield); point(0x0f); return 0; }
int get_nprocs() { if (!live()) return REAL(get_nprocs)(); return g_cfg->cpus; }
long sysconf(int n) { if (live() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return g_cfg->cpus; return REAL(sysconf)(n); }

static uint64_t prv() { return live() ? (g_cfg->replay || true ? ({ static uint64_t z; z += 0x9E3779B97F4A7C15ull + g_cfg->seed; uint64_t x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; x ^ (x >> 31); }) : 0) : 4; }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!live()) return syscall(SYS_getrandom, b, n, f);
  for (size_t i = 0; i < n; ++i) ((uint8_t *)b)[i] = (uint8_t)(prv() >> 11);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
uint32_t arc4random() { return (uint32_t)prv(); }
// std::random_device::_M_getval()
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)prv(); }

// ================================================= process end
void exit(int st) {
  if (live()) { point(0x78); finish(O_EXIT, st & 255, "exit called"); }
  REAL(exit)(st); __builtin_unreachable();
}
void quick_exit(int st) noexcept { if (live()) finish(O_EXIT, st & 255, "quick_exit called"); REAL(quick_exit)(st); __builtin_unreachable(); }
void _exit(int st) { if (live()) finish(O_EXIT, st & 255, "_exit called"); syscall(SYS_exit_group, st); __builtin_unreachable(); }
void _Exit(int st) noexcept { if (live()) finish(O_EXIT, st & 255, "_Exit called"); syscall(SYS_exit_group, st); __builtin_unreachable(); }

// ================================================= stdin (character level)
int sim_stdin_getc() { int c; return stdinRead1(c, true) ? c : EOF; }
void sim_stdin_unget() { stdinUnget(); }

// ================================================= instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n); } void __tsan_write##n(void *p) { access(p, n); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n); } void __tsan_unaligned_write##n(void *p) { access(p, n); } \
  void __tsan_volatile_read##n(void *p) { access(p, n); } void __tsan_volatile_write##n(void *p) { access(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n); }
void __tsan_vptr_update(void **p, void *) { access(p, 8); }
void __tsan_vptr_read(void **p) { access(p, 8); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { access((const void *)a, sizeof(T)); point(0x30); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); *a = v; point(0x31); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x32); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x33); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x34); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x35); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x36); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x37); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access((const void *)a, sizeof(T)); point(0x38); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((const void *)a, sizeof(T)); point(0x39); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, m, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access((const void *)a, sizeof(T)); point(0x39); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
