// Deterministic simulation runtime: public interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------- decisions -------------------------------------------------
// Everything that is not determined by the program itself is a decision.
// A run records every decision that differs from the default; feeding the
// recorded list back reproduces the run exactly.
enum DecKind : uint8_t {
  D_SCHED = 0, // at sync point #idx run thread val (default: keep running; if blocked: lowest id)
  D_ACC = 1,   // at memory access #idx preempt in favour of thread val
  D_WAKE = 2,  // at cond-signal #idx wake waiter val (default 0 = oldest)
  D_IO = 3,    // at file/net I/O operation #idx inject fault val
  D_RAND = 4,  // generic random value #idx (default 0)
  D_NK = 5
};
struct Dec { uint8_t kind; uint64_t idx; uint64_t val; };

// ---------- faults ----------------------------------------------------
enum FaultKind : uint32_t {
  F_NONE = 0,
  F_READ_EIO, F_READ_SHORT, F_READ_EINTR,
  F_WRITE_ENOSPC, F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_EINTR,
  F_OPEN_EMFILE, F_OPEN_EACCES, F_OPEN_ENOSPC,
  F_CLOSE_EIO, F_UNLINK_EIO, F_RENAME_EIO, F_MKDIR_ENOSPC,
  F_KILL_BEFORE, F_KILL_AFTER, F_KILL_TORN,
  F_SPURIOUS, // spurious condition variable wakeup
  F_ACCEPT_EMFILE, F_NET_RST, F_NET_SPLIT, F_NET_DELAY, F_NET_STALL,
  F_STAT_EIO, F_DIR_EIO, // only where the scenario's masks name them
  F_ALLOC, F_THREAD, // memory or a thread is refused (Cfg::allocAt, memLimit, threadAt)
  F_NK
};
extern const char *const faultName[F_NK];
constexpr uint64_t M(uint32_t k) { return uint64_t(1) << k; }
constexpr uint64_t FV_STICKY = 1u << 8; // the condition persists from here on
constexpr uint64_t MASK_BENIGN = M(F_READ_SHORT) | M(F_READ_EINTR) | M(F_WRITE_SHORT) | M(F_WRITE_EINTR);
constexpr uint64_t MASK_HARD = M(F_READ_EIO) | M(F_WRITE_ENOSPC) | M(F_WRITE_EIO) | M(F_OPEN_EMFILE) | M(F_OPEN_EACCES) | M(F_OPEN_ENOSPC) | M(F_CLOSE_EIO);
constexpr uint64_t MASK_DIR = M(F_STAT_EIO) | M(F_DIR_EIO);
constexpr uint64_t MASK_KILL = M(F_KILL_BEFORE) | M(F_KILL_AFTER) | M(F_KILL_TORN);

enum Outcome : int {
  O_NONE = 0,
  O_EXIT,     // main returned / exit called
  O_SIGNAL,   // SIGSEGV and friends
  O_ABORT,    // abort / uncaught exception
  O_HANG,     // quiescent without having finished: deadlock or lost wakeup
  O_LIVELOCK, // step budget exhausted
  O_KILLED,   // injected process death
  O_MEMORY,   // use after free / heap overflow / use of a dead mutex
  O_ESCAPE,   // tried to modify something outside the scratch directory
  O_INTERNAL, // the simulator met something it does not model
  O_SERVED    // (server) scripted clients are through; run ended by the harness
};
extern const char *const outcomeName[];

enum Probe : int {
  PR_SWITCH_ACC, PR_SWITCH_SYNC, PR_MUTEX_CONTENDED, PR_COND_WAIT, PR_COND_SIGNAL_NOBODY, PR_KEY_WHILE_RUNNING,
  PR_QUIESCENT_KEY, PR_THREADS_GE4, PR_TIMER_FIRED, PR_OPEN_EXISTING_W, PR_IDLE_JUMP, PR_GUARD_WAIT,
  PR_NET_CONN, PR_NET_TIMEOUT_CLOSE, PR_NET_RST_SEEN, PR_NET_EPIPE, PR_NET_RESP,
  PR_USER0, PR_USER1, PR_USER2, PR_USER3, PR_USER4, PR_USER5, PR_USER6, PR_USER7, PR_NK
};

// ---------- one simulated process -------------------------------------
struct Key {
  std::string bytes;   // delivered at once
  uint8_t when = 0;    // 0: delayed by `steps` sync points after previous key (and after I/O op `io`)
                       // 1: when the system is quiescent
  uint64_t io = 0;     // not before this many scratch file operations were done
  uint64_t steps = 0;  // and then this many sync points later
};

// A database too big to be stored: a sparse file named huge.md5 whose contents are computed when they are read.
// Record i has a hash whose upper half is base + i * step + something below step.
struct Huge {
  uint64_t n = 0, base = 0, step = 1, seed = 0;
  static uint64_t mix(uint64_t x) { x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
  uint64_t hi(uint64_t i) const { return base + i * step + mix(seed + i * 3) % step; }
  uint64_t lo(uint64_t i) const { return mix(seed + i * 3 + 1); }
  uint32_t count(uint64_t i) const { return (uint32_t)(mix(seed + i * 3 + 2) >> 13) | 1u; }
  uint64_t firstFrom(uint64_t v) const { uint64_t a = 0, b = n; while (a < b) { uint64_t m = a + (b - a) / 2; if (hi(m) < v) a = m + 1; else b = m; } return a; } // first record whose upper half is at least v
  void fill(void *buf, uint64_t off, size_t len) const;
};

struct Cfg {
  uint64_t seed = 1;
  bool replay = false;          // take decisions from `decs` only
  std::vector<Dec> decs;        // replay: complete list of non-default decisions
  // schedule exploration
  int policy = 0;               // 0 run-to-block, 1 random walk, 2 PCT
  uint32_t pSwitch = 0;         // policy 1: per 1024, at sync points
  uint64_t accGap = 0;          // mean number of memory accesses between preemptions, 0 = none
  int pctDepth = 0;
  uint64_t pctLen = 4000;
  uint32_t pSpurious = 0;       // per 1024 per sync point
  // faults
  uint64_t faultMask = 0;       // which kinds may be chosen
  uint32_t pFault = 0;          // per 1024 per I/O operation
  uint32_t pSticky = 0;         // per 1024: a hard fault persists
  std::vector<uint64_t> planAt; // operation numbers at which a fault is certain
  uint64_t planMask = 0;        // kinds for planned faults
  std::string faultPath;        // if set only operations on paths containing this are subject to faults
  // environment
  int cpus = 4;
  uint64_t allocAt = 0, allocMany = 1, allocMin = 0; // of the requests for at least allocMin bytes of memory the allocAt-th and the allocMany - 1 after it fail (0: none); counted from the first file operation
  uint64_t memLimit = 0;        // more than this many bytes cannot be held at once (0: no limit)
  uint64_t threadAt = 0, threadMany = 1; // the threadAt-th and further attempts to create a thread fail (0: none)
  uint64_t alien = 0;           // bit i: just before this program creates its i-th file, another program creates one of that name
  int maxFd = 0;                // this many files may be open at once (0: no limit)
  std::vector<Key> keys;
  bool keyEof = false;          // after the keys: end of input (otherwise: blocks)
  bool resumeIfPaused = false;  // when everything waits and no key is left the user presses pauseKey, once
  char pauseKey = ' ';
  bool keyBoost = false;        // a key press is handled without preemption until its handler waits
  bool tty = true;
  uint32_t ttyLflag = 0;        // initial c_lflag
  uint64_t memKB = 8u << 20;
  uint64_t maxSteps = 400000;   // after this many sync points schedule fairly; hang at 3x
  uint64_t maxAcc = 400000000;
  uint64_t extraExitSteps = 0;  // let other threads run on for a while after main returned
  std::string scratch;          // absolute path
  Huge huge;
  std::vector<std::string> net; // network clients: "label|script"
};

constexpr size_t OUTCAP = 1 << 18, ERRCAP = 1 << 14, DECCAP = 1 << 16, USERCAP = 1 << 20;
struct Shared { // result block in shared memory
  int outcome; int status; int sig; uint64_t sigAddr;
  char msg[512];
  uint64_t hash;
  uint64_t shash;   // schedule/I-O shape hash without contents
  uint64_t steps, acc, ioOps, switches, simNs;
  uint64_t faults[F_NK];
  uint64_t probes[PR_NK];
  uint32_t ttyLflagEnd, ttyChanged;
  uint32_t spaces;       // number of ' ' delivered
  uint32_t keysDelivered, keysHandled;
  uint64_t filesAtKey[16];  // number of files created in scratch when the handler of key i was through
  uint64_t filesAtPress[17]; // number of files created when key i was pressed (the final resume press counts as a key)
  uint64_t createdTotal;
  uint32_t threads;
  uint64_t nAlloc[3], nAllocIo[3], memPeak, nThreadTry, fdPeak, thrPeak; // requests for memory (all, of 64 bytes or more, of 1024 or more), those before the first file operation
  uint64_t nOut; char out[OUTCAP];
  uint64_t nErr; char err[ERRCAP];
  uint64_t nDec; Dec decs[DECCAP];
  uint64_t nUser; char user[USERCAP]; // records written by in-process drivers
};

// Runs `fn` as the main thread of a simulated process in a forked child.
// quiescent: called when nothing can run; returns true if it made something happen.
void runProcess(const Cfg &cfg, Shared *out, const std::function<int()> &fn);
Shared *newShared();
void setTrace(bool on);
extern void (*preFork)();

// ---- for code running inside the simulated process (drivers) ----
extern "C" {
void sim_user_event(const char *text);      // append to the user record list
uint64_t sim_choose(uint64_t n);             // recorded random choice (default 0)
void sim_point(void);                        // explicit schedule point
void sim_sleep_ns(uint64_t ns);
uint64_t sim_now_ns(void);
uint64_t sim_events(void);
void sim_probe(int p);
int sim_active(void);
void sim_fault_enable(int on);               // switch fault injection off/on from a driver
void sim_io_begin_group(void);
}

} // namespace sim
