// Resources: reads per lookup (L04), memory and open files of the batch programs (Q01)
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

static int lg(uint64_t n) { int k = 0; while (n > 1) { n >>= 1; ++k; } return k; }

struct Reads : Harness { // L04
  std::vector<std::string> tools(const std::string &) override { return {"inspdrv"}; }
  void gen(Rng &r, Scn &s) override {
    Cfg c; randomSchedule(r, c, false); std::vector<H128> keys; std::vector<std::string> v;
    if (r.chance(65)) { s.num["huge"] = 1; c.huge = genHuge(r); }
    else {
      int n = r.chance(10) ? (int)r.below(3) : (int)r.range(2, r.chance(60) ? 60 : 3000); std::map<H128, uint32_t> m; uint64_t base = r.chance(50) ? 0 : r.next(), step = r.chance(50) ? ~0ull : r.range(2, 1ll << r.range(2, 60));
      for (int i = 0; i < n; ++i) m[H128{base + r.below(step), r.next()}] = (uint32_t)r.range(1, 1000); for (auto &e : m) { v.push_back(hex(e.first) + " " + std::to_string(e.second)); keys.push_back(e.first); }
    }
    s.list["recs"] = v; s.num["bits"] = r.chance(45) ? 0 : r.chance(60) ? r.range(1, 8) : r.range(9, 14);
    std::vector<std::string> ops; int k = (int)r.range(1, 25);
    for (int i = 0; i < k; ++i) {
      H128 h; if (s.n("huge")) h = genHugeHash(r, c.huge); else { h = keys.empty() || r.chance(20) ? H128{r.next(), r.next()} : r.chance(20) ? (r.chance(50) ? keys.front() : keys.back()) : r.pick(keys); if (r.chance(30)) h.lo += r.chance(50) ? 1 : ~0ull; if (r.chance(5)) h = r.chance(50) ? H128{0, 0} : H128{~0ull, ~0ull}; }
      ops.push_back((r.chance(40) ? "s:" : "b:") + hex(h));
    }
    s.list["ops"] = ops; s.procs = {c};
  }
  void run(Scn &s, Ctx &c) override {
    bool huge = s.n("huge"); const Huge hg = s.procs[0].huge; uint64_t bits = (uint64_t)s.n("bits"); std::vector<H128> keys; std::string db; std::map<H128, uint32_t> m;
    for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10); for (auto &e : m) { db += rec(e.first, e.second); keys.push_back(e.first); }
    uint64_t n = huge ? hg.n : keys.size(); auto first = [&](uint64_t hi) -> uint64_t { if (huge) return hg.firstFrom(hi); return (uint64_t)(std::lower_bound(keys.begin(), keys.end(), H128{hi, 0}) - keys.begin()); };
    auto upTo = [&](uint64_t k) -> uint64_t { return k >> bits ? n : first(k << (64 - bits)); }; // records before index key k
    c.put("db.md5", db); if (huge) { c.putHuge(hg); c.probe("huge_databases"); }
    if (bits) { std::string d; if (huge) d = hugeIndex(hg, (unsigned)bits); else for (uint64_t k = 0; k < 1ull << bits; ++k) { uint64_t i = upTo(k), p = i < upTo(k + 1) ? i * 20 : ~0ull; d.append((const char *)&p, 8); } c.put("db.idx", d); }
    std::vector<std::string> a{huge ? "huge.md5" : "db.md5", bits ? "db.idx" : "-", "C"}; for (auto &o : s.l("ops")) { a.push_back(o); a.push_back("C"); }
    ProcRes r = c.exec(s, "inspdrv", a); uint64_t px = 0, py = 0; bool have = false; size_t i = 0;
    if (r.outcome == O_LIVELOCK) return c.violation("too-many-reads", "a lookup does not end within the steps allowed: " + r.describe());
    for (auto &u : r.user) {
      unsigned long x, y; if (sscanf(u.c_str(), "C %lu %lu", &x, &y) != 2) continue;
      if (have && i < s.l("ops").size()) {
        const std::string &o = s.l("ops")[i++]; H128 h = h128FromHex(o.substr(2)); uint64_t cost = std::max<uint64_t>(x - px, (y - py) / 8192), range = n, walk = 0;
        if (bits) { uint64_t k = h.hi >> (64 - bits), a0 = upTo(k), a1 = upTo(k + 1); range = a1 - a0; uint64_t e = k + 1; if (range) while (e >> bits == 0 && upTo(e + 1) == a1) ++e; walk = 1 + (e - k) * 8 / 4096; if (!range) c.probe("empty_index_entries"); }
        uint64_t allowed = (range ? (uint64_t)lg(range) + 1 : 0) + walk + 6; if (o[0] == 's') allowed += 3 * ((uint64_t)lg(std::max<uint64_t>(1, n)) + 1) + 4;
        c.probe(o[0] == 's' ? "interpolating_lookups" : "plain_lookups");
        if (cost > allowed) return c.violation("too-many-reads", strf("looking up %s (%s) among %lu records (%lu of them share the key bits) takes %lu reads (%lu bytes); %lu are enough", o.substr(2).c_str(), o[0] == 's' ? "interpolating" : bits ? "with index" : "without index", (unsigned long)n, (unsigned long)range, (unsigned long)cost, (unsigned long)(y - py), (unsigned long)allowed));
      }
      px = x; py = y; have = true;
    }
  }
};
static HarnessReg reg1("reads", []() -> Harness * { return new Reads; });

enum { T_CONV, T_MERGE, T_INDEX, T_INSP, T_TESTSET, T_BE2LE, T_BENCH, T_EXTRACT, T_MGEN, T_LOOKUP, T_N };
static const char *names[] = {"conv", "merge", "index", "inspdrv", "testset", "be2le", "benchmark", "extract", "markovgen", "lookup"};
struct Res : Harness { // Q01
  std::vector<std::string> tools(const std::string &) override { return std::vector<std::string>(names, names + T_N); }
  void gen(Rng &r, Scn &s) override {
    int t = r.chance(55) ? (int)r.below(2) : (int)r.below(T_N); s.num["tool"] = t; s.num["gs"] = (int64_t)(r.next() >> 2);
    s.num["files"] = t == T_MERGE ? r.range(2, 24) : t == T_CONV ? r.range(1, r.chance(30) ? 50 : 10) : t == T_EXTRACT ? r.range(1, 8) : 1;
    s.num["big"] = t == T_MERGE ? r.range(3000, 7000) : t == T_CONV ? r.range(2500, 6000) : r.range(3500, 6000); // of all files together
    s.num["opt"] = (int64_t)r.below(8); s.num["max"] = r.chance(60) ? r.range(2, 6) : r.range(2, 30); s.num["threads"] = r.range(24, 200); s.num["bits"] = r.range(1, 11); s.num["nops"] = r.range(1, 12);
    Cfg a; randomSchedule(r, a, t == T_CONV || t == T_MERGE); a.accGap = 0; a.resumeIfPaused = true; a.pauseKey = t == T_MERGE ? 'p' : ' '; a.cpus = (int)r.range(1, 4); a.maxSteps = 4000000; a.maxAcc = 8000000000ull; if (r.chance(20)) { a.faultMask = MASK_BENIGN; a.pFault = 20; }
    if (t <= T_MERGE && r.chance(30)) { int k = (int)r.range(1, 4); for (int i = 0; i < k; ++i) { Key x; x.bytes = std::string(1, a.pauseKey); x.when = r.chance(30); x.steps = r.below(600); a.keys.push_back(x); } }
    s.procs = {a, a}; s.procs[0].keys.clear();
  }
  void run(Scn &s, Ctx &c) override {
    int t = (int)s.n("tool"), nf = (int)s.n("files"), opt = (int)s.n("opt"); uint64_t peak[2], fds[2], thr = 0, limit = (1ull << 20) / (uint64_t)s.n("threads"); int cpus = s.procs[1].cpus;
    for (int big = 0; big < 2; ++big) {
      Rng r((uint64_t)s.n("gs")); c.cleanScratch(); for (const char *k : {"tmpd", "tmp", "out"}) c.put(std::string(k) + "/keep", "");
      uint64_t total = big ? (uint64_t)s.n("big") : (uint64_t)nf * 3; std::vector<std::string> a;
      auto db = [&](uint64_t n) { std::map<H128, uint32_t> m; for (uint64_t i = 0; i < n; ++i) m[H128{r.next(), r.next()}] = (uint32_t)r.range(1, 9); std::string d; for (auto &e : m) d += rec(e.first, e.second); return d; };
      auto text = [&](uint64_t n, bool plain) { std::string d; for (uint64_t i = 0; i < n; ++i) { std::string p; int l = (int)r.range(4, 14); for (int k = 0; k < l; ++k) p += (char)('a' + r.below(plain ? 3 : 26)); d += (plain ? "" : "user:") + p + "\n"; } return d; };
      // the larger part of the data is in one file now and then
      std::vector<uint64_t> share; { uint64_t left = total; bool even = opt & 1; for (int f = 0; f < nf; ++f) { uint64_t k = f + 1 == nf ? left : even || !big ? total / (uint64_t)nf : left / 2; share.push_back(k); left -= std::min(left, k); } }
      std::string set; { Rng q((uint64_t)s.n("gs") + 1); for (int i = 0; i < s.n("nops"); ++i) set += rec(H128{q.next(), q.next()}, 1); }
      switch (t) {
        case T_CONV: for (int f = 0; f < nf; ++f) c.put(strf("in/%d.txt", f), text(share[(size_t)f], false)); a = {"--src", "in", "--dst", "out", "--ram", "1", "--threads", std::to_string(s.n("threads"))}; break;
        case T_MERGE: for (int f = 0; f < nf; ++f) c.put(strf("in/%d.md5", f), db(share[(size_t)f])); a = {"--src", "in", "--output", "out.md5", "--tmp", "tmp", "-n", std::to_string(s.n("max"))}; break;
        case T_INDEX: c.put("db.md5", db(total)); a = {"-I", "db.md5", "-O", "db.idx", "-B", std::to_string(s.n("bits"))}; break;
        case T_INSP: { c.put("db.md5", db((opt & 2) ? 50 : total)); a = {"db.md5", "-"}; Rng q((uint64_t)s.n("gs") + 2); int k = (opt & 2) && big ? 1500 : 3; for (int i = 0; i < k; ++i) a.push_back((q.chance(40) ? "s:" : "b:") + hex(H128{q.next(), q.next()})); break; }
        case T_TESTSET: c.put("db.md5", db(total)); a = {"-I", "db.md5", "-O", "set", "-N" + std::to_string((opt & 2) ? total : 3)}; if (opt & 4) a.push_back("--non-existent"); break;
        case T_BE2LE: c.put("db.md5", db(total)); a = {"db.md5", "out.md5"}; break;
        case T_BENCH: c.put("db.md5", db(total)); c.put("set.md5", set); a = {"-I", "db.md5", "-S", "set.md5", "-n", "2"}; break;
        case T_EXTRACT: for (int f = 0; f < nf; ++f) c.put(strf("in/%d.txt", f), text(share[(size_t)f], false)); a = {"-S", "in", "-O", "out.txt"}; if (opt & 2) a.push_back("-C"); break;
        case T_MGEN: c.put("in.txt", text(total, true)); a = {"-I", "in.txt", "-O", "m.mrkv"}; break;
        default: { c.put("db.md5", db((opt & 2) ? 50 : total)); a = {"-I", "db.md5"}; Rng q((uint64_t)s.n("gs") + 2); int k = (opt & 2) && big ? 400 : 3; std::string typed; for (int i = 0; i < k; ++i) typed += "p" + std::to_string(q.below(1000000)) + "\n"; Key x; x.bytes = typed; x.when = 1; s.procs[(size_t)big].keys = {x}; s.procs[(size_t)big].keyEof = true; }
      }
      ProcRes r1 = c.exec(s, names[t], a); if (!r1.success()) { c.probe(std::string("not_judged_") + names[t]); return; } // what makes a program fail is the business of other properties
      peak[big] = r1.memPeak; fds[big] = r1.fdPeak; thr = std::max(thr, r1.thrPeak);
    }
    c.probe(names[t]); uint64_t mem = peak[0] + (24u << 10), files = fds[0], threads = (uint64_t)cpus + 5;
    if (t == T_CONV) { uint64_t at = (uint64_t)std::min(cpus, nf); mem = peak[0] + at * (3 * limit + (24u << 10)); files = 2 * at; }
    if (t == T_MERGE) files = std::min<uint64_t>((uint64_t)s.n("max"), (uint64_t)nf) + 1;
    if (peak[1] > mem) return c.violation("memory", strf("%s: %lu bytes of memory at once for %ld %s in %d files, %lu bytes for a handful", names[t], (unsigned long)peak[1], (long)s.n("big"), t == T_CONV || t == T_EXTRACT || t == T_MGEN ? "lines" : "records", nf, (unsigned long)peak[0]) + (t == T_CONV ? strf(" (%d at a time, %lu bytes each were granted)", cpus, (unsigned long)limit) : ""));
    if (fds[1] > files || fds[0] > files) return c.violation("files", strf("%s: %lu files open at once, %lu are enough", names[t], (unsigned long)std::max(fds[0], fds[1]), (unsigned long)files));
    if (thr > threads) return c.violation("threads", strf("%s: %lu threads at once for %d files and %d processors, ended ones not joined included", names[t], (unsigned long)thr, nf, cpus));
  }
};
static HarnessReg reg2("resources", []() -> Harness * { return new Res; });
