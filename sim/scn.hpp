// Scenarios, harness interface, and helpers shared by the harnesses.
#pragma once
#include "sim.hpp"
#include <map>
#include <set>
#include <memory>
#include <functional>

struct Rng { // splitmix64
  uint64_t s; explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix2(uint64_t a, uint64_t b);

// One scenario: everything needed to repeat a run. `list` entries can be shortened by the minimiser (unless the name
// starts with '!'), `num` are parameters, `procs` are the simulated processes in the order in which they are run.
struct Scn {
  std::string harness, prop; uint64_t seed = 0;
  std::map<std::string, int64_t> num;
  std::map<std::string, std::vector<std::string>> list;
  std::vector<sim::Cfg> procs;
  int64_t n(const std::string &k, int64_t d = 0) const { auto i = num.find(k); return i == num.end() ? d : i->second; }
  const std::vector<std::string> &l(const std::string &k) const { static const std::vector<std::string> e; auto i = list.find(k); return i == list.end() ? e : i->second; }
};
std::string serialise(const Scn &);
bool parseScn(const std::string &, Scn &);

struct ProcRes {
  int outcome = 0, status = 0; std::string msg, out, err; std::vector<std::string> user;
  uint64_t hash = 0, shash = 0, steps = 0, acc = 0, ioOps = 0, createdTotal = 0, nFaults = 0, hardFaults = 0, simNs = 0;
  uint64_t faults[sim::F_NK] = {0}; uint64_t filesAtKey[16] = {0}, filesAtPress[17] = {0}; uint64_t nAlloc[3] = {0}, nAllocIo[3] = {0}, memPeak = 0, nThreadTry = 0, fdPeak = 0, thrPeak = 0; uint32_t spaces = 0, keysDelivered = 0, keysHandled = 0, ttyEnd = 0, ttyChanged = 0, threads = 0;
  bool decOverflow = false; std::vector<sim::Dec> decs;
  bool crashed() const { return outcome == sim::O_SIGNAL || outcome == sim::O_MEMORY || outcome == sim::O_ESCAPE; }
  bool stuck() const { return outcome == sim::O_HANG || outcome == sim::O_LIVELOCK; }
  bool success() const { return outcome == sim::O_EXIT && status == 0; }
  std::string describe() const;
};
struct Verdict { bool bad = false; std::string cls, text; };

typedef int (*mainfn)(int, const char **);
struct Ctx {
  sim::Shared *sh; std::string scratch; std::vector<ProcRes> res; Verdict v;
  uint64_t hash = 0;
  int fileNo = 0;
  bool internal = false; std::string internalMsg;
  // runs process number res.size() of the scenario
  ProcRes &exec(Scn &s, const std::string &tool, const std::vector<std::string> &args);
  void skip(); // leaves out one of the scenario's processes
  ProcRes &execFn(Scn &s, const std::function<int()> &fn);
  // a finding of a kind that is not what the property is about does not count against it (it is another property's finding)
  void violation(const std::string &cls, const std::string &text) { if (v.bad) return; if (!inScope(prop, cls)) { probes["not_this_property_" + cls]++; return; } v.bad = true; v.cls = cls; v.text = text; }
  bool judges(const std::string &cls) const { return inScope(prop, cls); } // a kind that another property judges must not end the judging
  static bool inScope(const std::string &prop, const std::string &cls);
  std::string prop;
  void cleanScratch();
  void put(const std::string &name, const std::string &data);
  void putHuge(const sim::Huge &);
  void link(const std::string &name, const std::string &other); // a second name of a file
  std::vector<std::string> odds; void odd(const std::string &dir, const std::string &ext, int bits); // entries that are no files: a dangling link, links to directories, a socket; listDir leaves them out
  bool get(const std::string &name, std::string &data);
  bool exists(const std::string &name);
  std::vector<std::string> listDir(const std::string &name); // recursive, files only, relative
  void probe(const std::string &p) { probes[p]++; }
  std::map<std::string, uint64_t> probes;
};

struct Harness {
  virtual ~Harness() {}
  virtual std::vector<std::string> tools(const std::string &prop) = 0;
  virtual void gen(Rng &, Scn &) = 0;
  virtual void run(Scn &, Ctx &) = 0;
  // variants of a base scenario that ran without violation: fault or kill points chosen from what the base run did
  virtual void variants(const Scn &, const std::vector<ProcRes> &, Rng &, std::vector<Scn> &) {}
};
Harness *makeHarness(const std::string &name);
struct HarnessReg { HarnessReg(const char *name, Harness *(*f)()); };
std::string harnessOf(const std::string &prop);
mainfn toolMain(const std::string &name);

// ---- reference helpers
std::string md5raw(const std::string &);                 // 16 bytes
struct H128 { uint64_t hi, lo; bool operator<(const H128 &o) const { return hi != o.hi ? hi < o.hi : lo < o.lo; } bool operator==(const H128 &o) const { return hi == o.hi && lo == o.lo; } };
H128 md5h(const std::string &);                          // as two big-endian 64-bit numbers
H128 h128FromHex(const std::string &);
std::string hex(const H128 &);
std::string rec(const H128 &, uint32_t count);           // 20-byte record
typedef std::map<H128, uint64_t> Counts;
bool parseDb(const std::string &data, std::vector<std::pair<H128, uint32_t>> &recs); // false if not a multiple of 20
std::string hexEnc(const std::string &); std::string hexDec(const std::string &);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// schedule exploration parameters for one process
bool hugeFind(const sim::Huge &, const H128 &, uint32_t *count);
H128 hugeKey(const sim::Huge &, uint64_t i);
sim::Huge genHuge(Rng &);
H128 genHugeHash(Rng &, const sim::Huge &); // a hash to look up: in it, near one in it, or any
std::string hugeIndex(const sim::Huge &, unsigned bits);
void randomSchedule(Rng &, sim::Cfg &, bool threads);
