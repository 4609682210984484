// Internal interface between the parts of the runtime.
#pragma once
#include "sim.hpp"
#include <pthread.h>
namespace sim {
enum { S_FREE = 0, S_RUN, S_BLOCK, S_DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_STDIN, W_EOFSLEEP, W_ONCE, W_GUARD, W_RW, W_EPOLL, W_POLL };
struct Thr {
  int id; pthread_t pt; void *(*fn)(void *); void *arg; void *ret;
  int state; int why; const void *addr; uint64_t wake; bool timedout; bool detached, joined;
  int go; uint64_t prio; uint64_t enq;
};
extern bool g_active;
extern Cfg *g_cfg;
extern Shared *g_sh;
extern uint64_t g_ns;
extern __thread Thr *tl_me;
inline bool live() { return __builtin_expect(g_active, 0) && tl_me != nullptr; }
void mix(uint64_t v);
void shapeMix(uint64_t v);
void mixBytes(const void *p, size_t n);
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(int outcome, int status, const char *fmt, ...);
void point(uint32_t kind, uint64_t obj = 0);
void blockOn(Why w, const void *addr, uint64_t wakeNs); // blocks current thread; 0 = no timeout
void wakeAll(Why w, const void *addr);
int wakeOne(Why w, const void *addr);
uint64_t rnd(uint64_t n);          // raw draw from the run's generator (explore mode only)
uint64_t recChoice(uint64_t n);    // recorded generic decision
void addEvent(uint64_t atNs, void (*fn)(void *), void *arg);
// I/O classes for fault selection
enum Cls { C_READ, C_WRITE, C_OPEN, C_CREATE, C_CLOSE, C_UNLINK, C_RENAME, C_MKDIR, C_ACCEPT, C_STAT, C_DIR, C_NETREAD, C_NETWRITE };
uint64_t ioFault(Cls c, const char *what, uint64_t obj);
void killNow(const char *where);
bool stdinRead1(int &ch, bool consume); // blocks; false: end of file
int stdinAvail();
extern bool (*quiescentHook)();
extern bool g_stopEvents;
void *realSym(const char *name);
uint64_t simThreads();
const char *memInfoText();
// net
bool netIsFd(int fd);
void netReset();
void allocInit();
extern int g_ownAlloc; // requests of the simulator itself are not counted
uint64_t memLiveNow(); uint64_t blocksNow();
struct OwnAlloc { OwnAlloc() { ++g_ownAlloc; } ~OwnAlloc() { --g_ownAlloc; } };
bool allocFaultsOn();
}
#define PROBE(p) (sim::g_sh->probes[sim::p]++)
