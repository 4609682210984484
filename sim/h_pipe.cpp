// X01: converter, merger, index builder and search object one after the other, with interrupted and repeated steps
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

struct Pipe : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"conv", "merge", "index", "inspdrv"}; }
  void gen(Rng &r, Scn &s) override {
    int nf = (int)r.range(1, 5); s.num["md5"] = r.chance(20) ? (int)r.range(1, 2) : 0; s.num["hex"] = r.chance(20) ? (int)r.range(1, 2) : 0;
    static const std::vector<std::string> dirs{"", "a/", "b/", "a/c/"}, stems{"x", "x", "y", "z", "X-0001"};
    std::vector<std::string> names; for (int i = 0; i < nf; ++i) { std::string n; do n = r.pick(dirs) + r.pick(stems) + ".txt"; while (std::find(names.begin(), names.end(), n) != names.end()); names.push_back(n); }
    s.list["!names"] = names;
    for (int i = 0; i < nf; ++i) {
      char sep = r.pick(std::vector<char>{':', ':', ';', '\t'}); int n = (int)r.range(1, r.chance(60) ? 10 : 60); std::vector<std::string> v;
      for (int k = 0; k < n; ++k) { std::string p = genRawPassword(r); if (s.n("md5") && r.chance(25)) p = hex(md5h(p)); else if (s.n("hex") && r.chance(25)) p = "$HEX[" + hexEnc(p) + "]"; v.push_back(r.chance(3) ? "" : strf("u%d@x.de", (int)r.below(50)) + sep + p); }
      s.list[strf("f%d", i)] = v; s.num[strf("nl%d", i)] = r.chance(75);
    }
    s.num["threads"] = r.chance(40) ? -1 : r.range(300, 6000); s.num["n"] = r.chance(40) ? -1 : r.range(2, 4); s.num["bits"] = r.range(1, 10); s.num["repM"] = 0; s.num["repI"] = 0;
    Cfg cv, m1, m2, i1, i2, lk; for (Cfg *c : {&cv, &m1, &m2}) { randomSchedule(r, *c, true); c->resumeIfPaused = true; } m1.pauseKey = m2.pauseKey = 'p';
    for (Cfg *c : {&i1, &i2, &lk}) randomSchedule(r, *c, false);
    Key y; y.bytes = "y\n"; y.when = 1; m2.keys.push_back(y);
    if (r.chance(30)) for (Cfg *c : {&cv, &m1, &m2, &i1, &i2, &lk}) { c->faultMask = MASK_BENIGN; c->pFault = 40; }
    s.procs = {cv, m1, m2, i1, i2, lk}; s.num["variants"] = 1;
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.size() < 6) return;
    for (int i = 0; i < 5; ++i) {
      Scn s = b; s.num["variants"] = 0; int what = (int)r.range(1, 3);
      for (int w : {1, 2}) if (what & w) {
        size_t p = w == 1 ? 1 : 3; Cfg &c = s.procs[p]; c.seed = r.next(); c.planAt = {r.below(std::max<uint64_t>(1, res[p].ioOps)) + 1}; c.planMask = r.chance(60) ? MASK_KILL : MASK_HARD | MASK_DIR | M(F_UNLINK_EIO) | M(F_RENAME_EIO); c.faultMask = c.planMask; c.pFault = 0; c.pSticky = r.chance(30) ? 1024 : 0;
        s.num[w == 1 ? "repM" : "repI"] = 1;
        if (w == 1 && r.chance(25)) { Key q; q.bytes = "q"; q.io = r.below(res[p].ioOps + 1); c.keys.push_back(q); c.planAt.clear(); c.faultMask = c.planMask = 0; }
      }
      out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const auto &names = s.l("!names"); ReaderOpts ro; ro.md5 = (int)s.n("md5"); ro.hex = (int)s.n("hex"); Counts want;
    for (size_t i = 0; i < names.size(); ++i) { std::string t = joinLines(s.l(strf("f%zu", i)), s.n(strf("nl%zu", i))); c.put("in/" + names[i], t); refCount(t, ro, want); }
    c.put("db/keep", ""); c.put("tmp/keep", ""); c.put("tmpd/keep", "");
    auto bad = [&](const char *what, ProcRes &r) -> bool {
      std::string w = what;
      if (r.crashed() || (r.outcome == O_ABORT && !r.hardFaults)) { c.violation("crash", w + " crashed: " + r.describe()); return true; }
      if (r.stuck()) { c.violation("hang", w + " never ends: " + r.describe()); return true; }
      return false;
    };
    std::vector<std::string> a{"--src", "in", "--dst", "db", "--ram", "1"}; if (s.n("threads") >= 0) { a.push_back("--threads"); a.push_back(std::to_string(s.n("threads"))); }
    if (ro.md5) a.push_back(ro.md5 == 2 ? "--force-md5" : "--auto-md5"); if (ro.hex) a.push_back(ro.hex == 2 ? "--force-hex" : "--auto-hex");
    { ProcRes r = c.exec(s, "conv", a); if (bad("the converter", r)) return; if (!r.success()) return c.violation("failed", "nothing failed, but the converter: " + r.describe()); }
    if (want.empty()) return;
    std::vector<std::string> ma{"--src", "db", "--output", "all.md5", "--tmp", "tmp"}; if (s.n("n") > 0) { ma.push_back("-n"); ma.push_back(std::to_string(s.n("n"))); }
    {
      ProcRes r = c.exec(s, "merge", ma); if (bad("the merger", r)) return; bool cancel = false; for (auto &k : s.procs[1].keys) if (k.bytes == "q") cancel = true;
      if (!r.success() && !s.n("repM")) return c.violation("failed", "nothing failed, but the merger: " + r.describe());
      bool again = !r.success() || cancel; if (again) { c.probe(r.outcome == O_KILLED ? "merge_killed" : cancel ? "merge_cancelled" : "merge_failed"); }
      if (!again) { s.procs[2].keys.clear(); }
      if (again) { ProcRes r2 = c.exec(s, "merge", ma); if (bad("the repeated merge", r2)) return; if (!r2.success()) return c.violation("repeat-failed", "repeating the interrupted merge: " + r2.describe() + " " + safe(r2.err.substr(0, 200))); }
      else c.skip();
    }
    std::vector<std::string> ia{"-I", "all.md5", "-O", "all.idx", "-B", std::to_string(s.n("bits"))};
    {
      ProcRes r = c.exec(s, "index", ia); if (bad("the index builder", r)) return;
      if (!r.success() && !s.n("repI")) return c.violation("failed", "nothing failed, but the index builder: " + r.describe());
      if (!r.success()) { c.probe(r.outcome == O_KILLED ? "index_killed" : "index_failed"); ProcRes r2 = c.exec(s, "index", ia); if (bad("the repeated index builder", r2)) return; if (!r2.success()) return c.violation("repeat-failed", "repeating the interrupted index builder: " + r2.describe() + " " + safe(r2.err.substr(0, 200))); }
      else c.skip();
    }
    std::vector<std::string> la{"all.md5", "all.idx"}; std::vector<H128> q; size_t step = want.size() / 50 + 1, k = 0;
    for (auto &w : want) { if (k++ % step) continue; q.push_back(w.first); H128 n = w.first; if (++n.lo == 0) ++n.hi; q.push_back(n); }
    q.push_back(H128{0, 0}); q.push_back(H128{~0ull, ~0ull}); q.push_back(md5h("")); q.push_back(md5h("no such password"));
    for (size_t i = 0; i < q.size(); ++i) la.push_back((i % 3 == 2 ? "s:" : "b:") + hex(q[i]));
    ProcRes l = c.exec(s, "inspdrv", la); if (bad("the lookup", l)) return;
    for (size_t i = 0; i < q.size(); ++i) {
      uint64_t w = want.count(q[i]) ? want[q[i]] : 0; unsigned got;
      if (i + 1 >= l.user.size() || sscanf(l.user[i + 1].c_str(), "R %u", &got) != 1) return c.violation("lookup-failed", "looking up " + hex(q[i]) + ": " + (i + 1 < l.user.size() ? l.user[i + 1] : l.describe()));
      if (got != w) return c.violation("wrong-count", strf("the collection has %lu occurrences of the password with hash %s, the lookup says %u", (unsigned long)w, hex(q[i]).c_str(), got));
    }
    c.probe("pipelines_through");
  }
};
static HarnessReg reg("pipe", []() -> Harness * { return new Pipe; });
