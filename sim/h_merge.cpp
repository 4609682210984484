// pwned-merger-cli: M01 M02 M03 M04
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

// list fN: entries "hashhex count"
static H128 poolHash(Rng &r, int pool) {
  static const uint64_t ext[] = {0, 1, ~0ull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x00000000ffffffffull};
  uint64_t k = r.below((uint64_t)pool); Rng q(k * 77 + 5);
  H128 h{q.chance(25) ? ext[q.below(6)] : q.next(), q.chance(25) ? ext[q.below(6)] : q.next()};
  if (q.chance(20)) h.hi = 0x1122334455667788ull; // equal upper halves
  return h;
}
struct Merge : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"merge"}; }
  void gen(Rng &r, Scn &s) override {
    const std::string &P = s.prop;
    int nf = (int)r.range(1, r.chance(30) ? 12 : 5), pool = (int)r.pick(std::vector<int>{2, 6, 20, 60});
    bool many = r.chance(2); if (many) nf = (int)r.range(48, 64); // around the default number of files at once
    std::vector<std::string> names; 
    for (int i = 0; i < nf; ++i) {
      std::map<H128, uint64_t> m; int n = r.chance(10) ? 0 : (int)r.range(1, many ? 2 : r.chance(60) ? 6 : 40);
      if (r.chance(3)) n = (int)r.range(400, 1200);
      for (int k = 0; k < n; ++k) { H128 h = n > 100 ? H128{r.next(), r.next()} : poolHash(r, pool); m[h] = r.chance(90) ? (uint64_t)r.range(1, 20) : (uint64_t)r.range(1, 300000000); }
      std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second));
      s.list[strf("f%d", i)] = v;
      names.push_back((r.chance(30) ? "sub/" : "") + strf("m%d.md5", i));
      if (i && r.chance(12)) { // another file of the same name and size elsewhere
        size_t j = r.below((uint64_t)i); const std::string &o = names[j]; names.back() = strf("d%d/", i) + o.substr(o.rfind('/') == std::string::npos ? 0 : o.rfind('/') + 1);
        auto w = s.l(strf("f%zu", j)); if (r.chance(60)) { m.clear(); while (m.size() < w.size()) m[H128{r.next(), r.next()}] = (uint64_t)r.range(1, 20); w.clear(); for (auto &e : m) w.push_back(hex(e.first) + " " + std::to_string(e.second)); }
        s.list[strf("f%d", i)] = w;
      }
    }
    s.list["!names"] = names;
    if (r.chance(12)) s.num["odd"] = r.range(1, 15); // links that lead nowhere or to directories, a socket
    s.num["src"] = r.chance(50); // --src directory instead of single --input options
    s.num["n"] = many || r.chance(40) ? -1 : (int64_t)r.range(2, 5);
    s.num["dstin"] = s.n("src") && r.chance(20); // destination lies in the input directory
    s.num["old"] = r.chance(35); // destination exists: 1 answer y, 2 decline
    if (s.n("old") && r.chance(25)) s.num["old"] = (int64_t)r.range(2, 3);
    s.num["nl"] = r.chance(50);
    s.num["same"] = (P == "M01" || P == "M02") && r.chance(4) ? r.range(1, 2) : 0; // the destination is one of the inputs
    s.num["missing"] = P == "M02" && !s.n("same") && r.chance(6) ? r.range(1, nf + 1) : 0; // one of the files named does not exist
    if (s.n("missing")) s.num["src"] = s.num["dstin"] = 0;
    if (s.n("same")) { s.num["src"] = s.num["dstin"] = 0; s.num["old"] = 1; }
    Cfg c; randomSchedule(r, c, true); c.ttyLflag = 0x8a3b; c.resumeIfPaused = true; c.pauseKey = 'p';
    auto answer = [&](Cfg &k) { if (s.n("old")) { Key a; a.bytes = s.n("old") == 1 ? "y" : s.n("old") == 2 ? "n" : "x"; if (s.n("nl")) a.bytes += "\n"; a.when = 1; k.keys.push_back(a); } };
    answer(c);
    uint64_t after = (uint64_t)nf + 2;
    auto pauses = [&](int n) { for (int i = 0; i < n; ++i) { Key k; k.bytes = "p"; if (r.chance(35)) k.when = 1; else { k.io = r.chance(70) && !i ? after + r.below(30) : 0; k.steps = r.below(1 << r.below(9)); } c.keys.push_back(k); } };
    if (P == "M04") { if (s.n("old") > 1) { s.num["old"] = 1; c.keys.clear(); answer(c); } if (r.chance(50)) pauses((int)r.range(1, 4)); if (r.chance(75)) { Key k; k.bytes = "q"; if (r.chance(25)) k.when = 1; else { k.io = r.below(after + 30); k.steps = r.below(1 << r.below(9)); } c.keys.push_back(k); } c.keyBoost = r.chance(60); }
    if (P == "M02") { if (s.n("old") > 1) { s.num["old"] = 1; c.keys.clear(); answer(c); } if (r.chance(30)) { c.faultMask = MASK_HARD | MASK_BENIGN | M(F_UNLINK_EIO); c.pFault = (uint32_t)1 << r.below(7); c.pSticky = r.chance(40) ? 400 : 0; if (r.chance(25)) c.faultMask = MASK_BENIGN; } if (!s.n("same") && !s.n("dstin")) c.faultMask |= MASK_DIR; if (r.chance(15)) pauses(1); }
    if (P == "M03") { c.planMask = 0; }
    s.procs.push_back(c);
    if (P == "M03") { Cfg c2; randomSchedule(r, c2, true); c2.resumeIfPaused = true; c2.pauseKey = 'p'; Key a; a.bytes = "y\n"; a.when = 1; c2.keys.push_back(a); s.procs.push_back(c2); s.num["kill"] = 0; }
    s.num["variants"] = P != "M01";
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.empty() || !res[0].ioOps) return; uint64_t N = res[0].ioOps;
    if (b.prop == "M03" && b.n("old") > 1) return;
    for (int i = 0; i < 5; ++i) {
      Scn s = b; Cfg &c = s.procs[0]; c.seed = r.next(); s.num["variants"] = 0;
      if (b.prop == "M03") { c.planAt = {r.below(N) + 1}; c.planMask = MASK_KILL; s.num["kill"] = 1; if (r.chance(30)) { c.faultMask = MASK_BENIGN; c.pFault = 30; } }
      else if (b.prop == "M02") { int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(N) + 1); c.planMask = MASK_HARD | M(F_UNLINK_EIO) | (r.chance(30) ? MASK_BENIGN : 0); if (!s.n("same") && !s.n("dstin")) c.planMask |= MASK_DIR; c.faultMask = c.planMask; c.pFault = 0; c.pSticky = r.chance(40) ? 1024 : 0; }
      else { size_t first = s.n("old") ? 1 : 0; if (c.keys.size() <= first) return; Key &k = c.keys.back(); k.when = 0; k.io = r.below(N + 1); k.steps = r.below(1 << r.below(8)); if (k.bytes == "p" && k.io < b.l("!names").size() + 2) k.io = b.l("!names").size() + 2; }
      out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const std::string &P = s.prop; const auto &names = s.l("!names"); std::map<std::string, std::string> before; Counts want; size_t nonEmpty = 0;
    for (size_t i = 0; i < names.size(); ++i) {
      std::string d; for (auto &e : s.l(strf("f%zu", i))) { H128 h = h128FromHex(e.substr(0, 32)); uint64_t n = strtoull(e.c_str() + 33, nullptr, 10); d += rec(h, (uint32_t)n); want[h] += n; }
      c.put("in/" + names[i], d); before["in/" + names[i]] = d; if (!d.empty()) ++nonEmpty;
    }
    if (s.n("odd")) c.odd("in", ".md5", (int)s.n("odd"));
    c.put("in/notes.txt", "not a record file"); before["in/notes.txt"] = "not a record file";
    c.put("tmpd/keep", ""); before["tmpd/keep"] = ""; c.put("tmp/other.md5", "x"); before["tmp/other.md5"] = "x";
    std::string dst = s.n("dstin") ? "in/all.md5" : "all.md5", old = rec(H128{5, 5}, 3);
    if (s.n("same")) { dst = s.n("same") == 1 ? "./in/" + names.back() : "alias.md5"; if (s.n("same") == 2) { c.link("in/" + names.back(), dst); before[dst] = before["in/" + names.back()]; } }
    else if (s.n("old")) c.put(dst, old);
    std::vector<std::string> a; if (s.n("src")) { a.push_back("--src"); a.push_back("in"); } else for (size_t i = 0; i <= names.size(); ++i) { if ((size_t)s.n("missing") == i + 1) { a.push_back("-I"); a.push_back("in/none.md5"); } if (i < names.size()) { a.push_back("-I"); a.push_back("in/" + names[i]); } }
    a.insert(a.end(), {"--output", dst, "--tmp", "tmp"}); if (s.n("n") > 0) { a.push_back("-n"); a.push_back(strf("%ld", (long)s.n("n"))); }
    std::string expected = dbOf(want); uint64_t chunks = 0; (void)chunks;
    auto look = [&](ProcRes &r, bool first) {
      const Cfg &cf = s.procs[first ? 0 : 1];
      bool cancel = false; for (size_t i = 0; i < cf.keys.size() && i < r.keysDelivered; ++i) if (cf.keys[i].bytes == "q") cancel = true;
      bool faulty = r.hardFaults > 0 || s.n("missing"), killed = r.outcome == O_KILLED;
      if (r.crashed()) return c.violation("crash", "the merger crashed: " + r.describe());
      if (r.stuck()) return c.violation("hang", "the merger never ends: " + r.describe());
      if (r.outcome == O_ABORT && !faulty) return c.violation("abort", "the merger aborted although nothing failed: " + r.describe() + " " + safe(r.err.substr(0, 300)));
      for (auto &b : before) { std::string d; if (!c.get(b.first, d)) return c.violation("lost-file", b.first + " was there before and is gone"); if (d != b.second) return c.violation("altered-input", b.first + " was there before and has been altered"); }
      std::string got; bool have = c.get(dst, got);
      if (s.n("same")) { c.probe("destination_is_input"); if (r.success()) c.violation("wrong-merge", "success is reported for a destination that is an input, and it was not written"); return; }
      bool declined = first && s.n("old") > 1;
      if (declined) { if (!have || got != old) return c.violation("declined", "the user declined to overwrite the destination, but it was changed"); return; }
      auto diff = [&]() -> std::string { std::string e = checkDb(got, nullptr); if (!e.empty()) return e; Counts g; addComplete(got, g); return diffCounts(want, g); };
      bool exact = have && got == expected, none = !have || (first && s.n("old") && got == old);
      if (s.n("src") && !nonEmpty && (!have || got == old || got.empty())) exact = true; // nothing to merge
      for (auto &f : c.listDir("")) if (!before.count(f) && f != dst && !killed) {
        bool unl = r.faults[F_UNLINK_EIO] || r.faults[F_STAT_EIO] || r.outcome == O_ABORT; // could not be removed
        if (!unl) return c.violation("left-over", "an intermediate file was left behind: " + f);
      }
      if (killed) { c.probe("killed"); return; }
      if (cancel) { c.probe(exact ? "cancelled_after_end" : "cancelled"); if (!exact && !none) return c.violation("partial-after-cancel", "the merge was cancelled, and the destination is neither absent nor complete: " + diff()); if (!faulty && !r.success() && P != "M02") return c.violation("failed", "cancelled without any fault, but: " + r.describe()); return; }
      if (r.success() && s.n("missing") && !declined) return c.violation("silent-loss", "success is reported although one of the input files does not exist");
      if (r.success()) { if (faulty) c.probe("success_despite_hard_fault"); if (!exact) return c.violation(faulty ? "silent-loss" : "wrong-merge", (faulty ? std::string("success is reported although a storage fault was met, and the destination is wrong: ") : std::string("the destination is not the merge of the inputs: ")) + (have ? diff() : "there is no destination file")); }
      else { c.probe("failure_reported"); if (!faulty) return c.violation("failed", "nothing failed, but the merger reports failure: " + r.describe() + " " + safe(r.err.substr(0, 200))); if (!exact && !none && !r.faults[F_UNLINK_EIO] && !r.faults[F_STAT_EIO]) return c.violation("partial-after-failure", "the merge failed, and an incomplete file is left under the destination's name: " + diff()); }
      if (r.threads > 4 && first) c.probe("intermediate_merges");
    };
    ProcRes r1 = c.exec(s, "merge", a); look(r1, true); if (c.v.bad) return;
    if (P == "M03" && s.procs.size() > 1) {
      // repeat the same merge; the answer to a possible question is yes
      for (auto &f : c.listDir("tmp")) if (!before.count(f)) { std::string d; c.get(f, d); before[f] = d; } // left behind by the kill: may stay
      if (s.n("old") > 1) return;

      ProcRes r2 = c.exec(s, "merge", a); 
      if (!c.v.bad && !r2.success()) return c.violation("repeat-failed", "repeating the killed merge failed: " + r2.describe() + " " + safe(r2.err.substr(0, 200)));
      look(r2, false);
    }
  }
};
static HarnessReg reg("merge", []() -> Harness * { return new Merge; });
