// pwned-benchmark: W01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

struct Bench : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"benchmark", "index"}; }
  void gen(Rng &r, Scn &s) override {
    int n = r.chance(5) ? 0 : r.chance(10) ? 1 : (int)r.range(2, r.chance(70) ? 20 : 200);
    std::map<H128, uint32_t> m; for (int i = 0; i < n; ++i) m[r.chance(70) ? H128{r.next(), r.next()} : H128{~0ull - r.below(20), r.next()}] = (uint32_t)r.range(1, 99);
    std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); s.list["recs"] = v;
    std::vector<H128> keys; for (auto &e : m) keys.push_back(e.first);
    std::vector<std::string> t; int k = r.chance(10) ? 0 : (int)r.range(1, r.chance(80) ? 30 : 400); for (int i = 0; i < k; ++i) { H128 h = keys.empty() || r.chance(40) ? H128{r.next(), r.next()} : r.pick(keys); if (r.chance(10)) h.lo++; t.push_back(hex(h) + " " + std::to_string(r.below(5))); }
    s.list["set"] = t; s.num["tail"] = r.chance(15) ? r.range(1, 19) : 0;
    s.num["how"] = r.below(4); s.num["bits"] = r.range(1, 8); s.num["runs"] = r.chance(15) ? r.pick(std::vector<int64_t>{0, -1}) : r.chance(15) ? -1000 : r.range(1, 4); s.num["missing"] = r.chance(6) ? r.range(1, 3) : 0;
    Cfg i, a; randomSchedule(r, i, false); randomSchedule(r, a, false); a.maxSteps = 1200000;
    if (r.chance(35)) { a.faultMask = M(F_READ_EIO) | M(F_OPEN_EMFILE) | MASK_BENIGN; a.pFault = (uint32_t)1 << r.range(2, 8); a.pSticky = r.chance(40) ? 500 : 0; } else if (r.chance(40)) { a.faultMask = MASK_BENIGN; a.pFault = 200; }
    if (r.chance(6)) { a.huge = genHuge(r); s.num["huge"] = 1; s.num["how"] = r.below(3); s.num["missing"] = 0; for (auto &e : s.list["set"]) e = hex(genHugeHash(r, a.huge)) + " 1"; } // a database of some gigabytes
    if (s.n("how") == 3) s.procs.push_back(i);
    s.procs.push_back(a); s.num["variants"] = 1;
  }
  void variants(const Scn &base, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    size_t p = base.procs.size() - 1; if (res.size() <= p || !res[p].ioOps) return;
    for (int i = 0; i < 4; ++i) { Scn s = base; Cfg &c = s.procs[p]; c.seed = r.next(); s.num["variants"] = 0; c.faultMask = 0; c.pFault = 0; int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(res[p].ioOps) + 1); c.planMask = M(F_READ_EIO) | M(F_OPEN_EMFILE) | (r.chance(40) ? M(F_READ_SHORT) : 0); c.faultMask = c.planMask; c.pSticky = r.chance(50) ? 1024 : 0; out.push_back(s); }
  }
  static std::vector<uint64_t> numbers(const std::string &o, const char *what) { std::vector<uint64_t> v; std::string w = std::string("\n") + what + ": "; for (size_t p = 0; (p = o.find(w, p)) != std::string::npos; p += w.size()) v.push_back(strtoull(o.c_str() + p + w.size(), nullptr, 10)); return v; }
  void run(Scn &s, Ctx &c) override {
    std::map<H128, uint32_t> m; std::string db, set; for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10); for (auto &e : m) db += rec(e.first, e.second);
    bool huge = s.n("huge"); uint64_t found = 0, notFound = 0; for (auto &e : s.l("set")) { H128 h = h128FromHex(e.substr(0, 32)); set += rec(h, (uint32_t)atoi(e.c_str() + 33)); if (huge ? hugeFind(s.procs.back().huge, h, nullptr) : m.count(h)) ++found; else ++notFound; }
    if (s.n("tail")) set += std::string((size_t)s.n("tail"), 'q');
    int64_t miss = s.n("missing"), how = s.n("how"); if (miss != 1) c.put("db.md5", db); if (miss != 2) c.put("set.md5", set); c.put("keep", ""); if (huge) { c.putHuge(s.procs.back().huge); c.probe("huge_databases"); }
    if (how == 3) { if (miss) c.skip(); else { ProcRes x = c.exec(s, "index", {"-I", "db.md5", "-O", "db.idx", "-B", std::to_string(s.n("bits"))}); if (!x.success()) return; } }
    std::vector<std::string> a{"-I", huge ? "huge.md5" : "db.md5", "-S", "set.md5"}; int64_t runs = s.n("runs"); bool dflt = runs == -1000; if (!dflt) a.push_back("-n" + std::to_string(runs)); if (runs < 1) runs = 5;
    if (how == 1) { a.push_back("-A"); a.push_back("binsearch"); } else if (how == 2) { a.push_back("-A"); a.push_back("smart"); } else if (how == 3) { a.push_back("-X"); a.push_back("db.idx"); }
    ProcRes r = c.exec(s, "benchmark", a); bool hard = r.hardFaults > 0;
    if (r.crashed()) return c.violation("crash", "the benchmark crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "the benchmark never ends: " + r.describe());
    if (r.outcome == O_ABORT && !hard) return c.violation("abort", "aborted although nothing failed: " + r.describe() + " " + safe(r.err.substr(0, 200)));
    std::string d; if (miss != 1 && (!c.get("db.md5", d) || d != db)) return c.violation("altered-input", "the record file was altered"); if (miss != 2 && (!c.get("set.md5", d) || d != set)) return c.violation("altered-input", "the test set was altered");
    if (miss && !(miss == 3 && how != 3)) { if (r.success()) c.violation("missing-accepted", "success is reported although a file is missing"); c.probe("missing_file_reported"); return; }
    auto f = numbers(r.out, "Found"), g = numbers(r.out, "Not found");
    for (size_t i = 0; i < f.size() && i < g.size(); ++i) if (f[i] != found || g[i] != notFound) return c.violation(hard ? "silent-loss" : "wrong-count", strf("run %zu reports %lu found and %lu not found of %zu hashes, of which %lu are in the database", i, (unsigned long)f[i], (unsigned long)g[i], s.l("set").size(), (unsigned long)found));
    if (!r.success()) { if (!hard) return c.violation("failed", "nothing failed, but: " + r.describe() + " " + safe(r.err.substr(0, 200))); c.probe("failure_reported"); return; }
    if (hard) c.probe("success_despite_hard_fault");
    if (f.size() != (size_t)runs || g.size() != f.size()) return c.violation(hard ? "silent-loss" : "wrong-count", strf("success is reported, and %zu of %ld runs have results", f.size(), (long)runs));
    c.probe("runs_checked");
  }
};
static HarnessReg reg("benchmark", []() -> Harness * { return new Bench; });
