// Search object, index builder and lookup dialogue: I01 I02 L01 L02 L03 T01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

static H128 near(const H128 &h, int d) { H128 r = h; if (d > 0) { if (++r.lo == 0) ++r.hi; } else if (d < 0) { if (r.lo-- == 0) --r.hi; } return r; }
static H128 genHash(Rng &r, int shape) {
  static const uint64_t ext[] = {0, 1, ~0ull, ~0ull - 1, 0x8000000000000000ull, 0x7fffffffffffffffull, 0xffffffffull, 0x100000000ull};
  switch (shape) {
    case 0: return H128{r.next(), r.next()};
    case 1: return H128{r.chance(60) ? ext[r.below(8)] : r.next(), r.chance(60) ? ext[r.below(8)] : r.next()};
    case 2: { uint64_t top = r.below(4) * 0x4000000000000000ull; return H128{top | r.below(8) << (r.below(5) * 10), r.below(4)}; }
    case 3: return H128{0x5a00000000000000ull + (r.below(16) << 52) + r.below(1000), r.next()};
    case 4: return H128{~0ull - r.below(40), r.next()};
    default: return H128{r.below(40), r.next()};
  }
}
struct Insp : Harness {
  std::vector<std::string> tools(const std::string &p) override { if (p == "L03" || p == "T01") return {"lookup", "index"}; return {"inspdrv", "index"}; }
  void gen(Rng &r, Scn &s) override {
    const std::string &P = s.prop;
    int n = r.chance(6) ? 0 : r.chance(8) ? 1 : r.chance(10) ? 2 : (int)r.range(2, r.chance(50) ? 12 : 150); if (r.chance(5)) n = (int)r.range(400, 1500);
    int shape = (int)r.below(6);
    std::map<H128, uint32_t> m; std::vector<std::string> pws;
    for (int i = 0; i < n; ++i) {
      uint32_t c = r.chance(80) ? (uint32_t)r.range(1, 20) : r.chance(50) ? (uint32_t)r.range(1, 0xffffffffll) : (uint32_t)r.pick(std::vector<uint64_t>{1, 0xffffffff, 0x80000000, 0x7fffffff, 256});
      if (r.chance(P == "L03" ? 70 : 15)) { std::string p; do p = genPassword(r); while (p.find(' ') != std::string::npos); pws.push_back(p); m[md5h(p)] = c; }
      else m[genHash(r, r.chance(85) ? shape : (int)r.below(6))] = c;
    }
    std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second));
    s.list["recs"] = v;
    s.num["bits"] = r.chance(80) ? r.range(1, 9) : r.chance(90) ? r.range(10, 14) : r.range(15, P == "I01" && r.chance(10) ? 20 : 17);
    s.num["index"] = P == "I01" || P == "I02" ? 1 : r.chance(P == "L02" ? 60 : 50);
    std::vector<H128> keys; for (auto &e : m) keys.push_back(e.first);
    auto aHash = [&]() -> H128 {
      if (keys.empty() || r.chance(15)) return genHash(r, (int)r.below(6));
      H128 h = r.chance(15) ? keys.front() : r.chance(15) ? keys.back() : r.pick(keys);
      if (r.chance(45)) return h;
      if (r.chance(60)) return near(h, r.chance(50) ? 1 : -1);
      uint64_t bit = r.range(40, 63); h.hi ^= 1ull << bit; return h;
    };
    if (P == "L03" || P == "T01") {
      std::vector<std::string> in; int k = (int)r.range(0, 8);
      for (int i = 0; i < k; ++i) { std::string p; if (!pws.empty() && r.chance(60)) p = r.pick(pws); else do p = genPassword(r); while (p.find(' ') != std::string::npos); in.push_back(p); }
      s.list["in"] = in; s.num["lastnl"] = r.chance(75); s.num["ws"] = r.chance(15);
    } else {
      std::vector<std::string> ops; int k = (int)r.range(1, r.chance(50) ? 8 : 60);
      for (int i = 0; i < k; ++i) {
        if (P == "L02" && r.chance(12)) { ops.push_back(r.chance(60) ? "F0" : "F1"); continue; }
        if (r.chance(10)) { ops.push_back("l:" + (!pws.empty() && r.chance(60) ? r.pick(pws) : genPassword(r))); continue; }
        ops.push_back((r.chance(P == "L01" ? 50 : 20) ? "s:" : "b:") + hex(aHash()));
      }
      if (P == "L02") { ops.push_back("F0"); for (int i = 0; i < 6; ++i) ops.push_back((r.chance(30) ? "s:" : "b:") + hex(aHash())); }
      s.list["ops"] = ops;
    }
    bool huge = r.chance(P == "I01" || P == "L01" ? 8 : P == "L02" ? 4 : 0); Huge hg;
    if (huge) { // a database of some gigabytes
      hg = genHuge(r); s.num["huge"] = 1;
      for (auto &o : s.list["ops"]) if (o[0] != 'F') o = (r.chance(P == "L01" ? 50 : 20) ? "s:" : "b:") + hex(genHugeHash(r, hg));
    }
    s.num["same"] = P == "I02" && r.chance(4) ? r.range(1, 3) : 0; // the index's name is one of the record file
    s.num["oldidx"] = P == "I02" && r.chance(50); // an index of another file is there already
    Cfg ci, cl; randomSchedule(r, ci, false); randomSchedule(r, cl, false);
    if (r.chance(25)) { cl.faultMask = MASK_BENIGN; cl.pFault = 60; ci.faultMask = MASK_BENIGN; ci.pFault = 60; }
    if (P == "I02") { if (r.chance(35)) { ci.faultMask = MASK_HARD | (s.n("same") ? 0 : MASK_DIR) | MASK_BENIGN | M(F_UNLINK_EIO) | M(F_RENAME_EIO) | (r.chance(50) ? MASK_KILL : 0); ci.pFault = (uint32_t)1 << r.range(3, 8); ci.pSticky = r.chance(30) ? 500 : 0; } }
    if (P == "L02") { cl.faultMask = M(F_READ_EIO) | MASK_BENIGN | (r.chance(20) ? M(F_OPEN_EMFILE) : 0); cl.pFault = (uint32_t)1 << r.range(3, 9); cl.pSticky = r.chance(30) ? 300 : 0; }
    if (P == "T01" && r.chance(40)) { cl.faultMask = M(F_READ_EIO) | M(F_OPEN_EMFILE); cl.pFault = (uint32_t)1 << r.range(3, 8); }
    if (P == "L03" || P == "T01") {
      std::string t; auto &in = s.l("in"); for (size_t i = 0; i < in.size(); ++i) { t += in[i]; if (i + 1 < in.size() || s.n("lastnl")) t += s.n("ws") ? (r.chance(50) ? " \n" : "\t") : "\n"; }
      size_t o = 0; while (o < t.size()) { size_t k = r.chance(50) ? t.size() - o : std::min<size_t>(t.size() - o, (size_t)r.range(1, 12)); Key key; key.bytes = t.substr(o, k); key.when = r.chance(50); key.steps = r.below(20); cl.keys.push_back(key); o += k; }
      s.list["!typed"] = {t}; cl.keyEof = true;
      cl.ttyLflag = r.chance(60) ? 0x8a3b : (uint32_t)(0x8a31 | (r.below(2) << 1) | (r.below(2) << 3)); cl.tty = !r.chance(8);
    }
    if (s.n("index")) s.procs.push_back(ci);
    if (s.n("huge")) cl.huge = hg;
    s.procs.push_back(cl);
    s.num["variants"] = P == "I02" || P == "L02";
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    size_t pi = b.prop == "I02" ? 0 : b.procs.size() - 1; if (res.size() <= pi || !res[pi].ioOps) return; uint64_t N = res[pi].ioOps;
    for (int i = 0; i < 5; ++i) {
      Scn s = b; Cfg &c = s.procs[pi]; c.seed = r.next(); s.num["variants"] = 0; c.faultMask = 0; c.pFault = 0;
      int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(N) + 1);
      if (b.prop == "I02") c.planMask = r.chance(50) ? MASK_KILL : MASK_HARD | (s.n("same") ? 0 : MASK_DIR) | M(F_UNLINK_EIO) | M(F_RENAME_EIO);
      else c.planMask = M(F_READ_EIO) | M(F_READ_SHORT);
      c.faultMask = c.planMask; c.pSticky = r.chance(30) ? 1024 : 0;
      out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const std::string &P = s.prop; std::map<H128, uint32_t> m; std::string db;
    for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10);
    for (auto &e : m) db += rec(e.first, e.second);
    c.put("db.md5", db); c.put("tmpd/keep", "");
    const Huge &hg = s.procs.back().huge; bool huge = s.n("huge");
    auto truth = [&](const H128 &h) -> uint32_t { if (huge) { uint32_t n = 0; hugeFind(hg, h, &n); return n; } auto i = m.find(h); return i == m.end() ? 0 : i->second; };
    std::string old; bool useIndex = s.n("index"); uint64_t bits = (uint64_t)s.n("bits");
    if (s.n("oldidx")) { old.assign(16, '\x14'); c.put("db.idx", old); }
    if (useIndex) {
      std::string src = "db.md5", target = "db.idx"; int alias = (int)s.n("same"); if (alias == 1) target = "./db.md5"; else if (alias) { std::string o = alias == 2 ? "alias" : "db.idx.tmp"; c.link(src, o); (alias == 2 ? target : src) = o; };
      ProcRes r = c.exec(s, "index", {"-I", src, "-O", target, "-B", std::to_string(bits)});
      if (r.crashed()) return c.violation("index-crash", "the index builder crashed: " + r.describe());
      if (r.stuck()) return c.violation("index-hang", "the index builder never ends: " + r.describe());
      bool faulty = r.hardFaults > 0, killed = r.outcome == O_KILLED;
      if (r.outcome == O_ABORT && !faulty) return c.violation("index-abort", "the index builder aborted although nothing failed: " + r.describe());
      std::string d; if (!c.get("db.md5", d) || d != db) return c.violation("altered-input", "the record file was altered by building the index");
      if (alias == 1 || alias == 2) { c.probe("output_is_input"); if (r.success() && (alias == 1 || !c.get("alias", d) || d == db)) c.violation("index-missing", "the index builder reports success, but its output is its input"); return; }
      if (alias == 3 && !r.success()) { c.probe("output_is_input"); return; }
      bool have = c.get("db.idx", d), untouched = s.n("oldidx") ? have && d == old : !have;
      if (r.success() && untouched) return c.violation("index-missing", "the index builder reports success and there is no new index");
      if (!r.success() && !faulty && !killed) return c.violation("index-failed", "nothing failed, but the index builder reports failure: " + r.describe());
      if (killed) c.probe("killed"); else if (!r.success()) c.probe("failure_reported"); else if (faulty) c.probe("success_despite_hard_fault");
      if (untouched) { c.probe("index_untouched"); return; }
      size_t n = d.size() / 8;
      if (d.size() != (8ull << bits)) return c.violation("index-incomplete", strf("%s, and the index has %zu bytes instead of %llu", killed ? "the builder was killed" : r.success() ? "success is reported" : "failure is reported", d.size(), 8ull << bits));
      // what a complete index holds: for every key the position of its first record, all ones if there is none
      bool same = true; { std::vector<uint64_t> w(n, ~0ull); uint64_t pos = 0; for (auto &e : m) { uint64_t k = e.first.hi >> (64 - bits); if (w[k] == ~0ull) w[k] = pos; pos += 20; } same = !memcmp(w.data(), d.data(), d.size()); }
      if (!same) c.probe("index_content_unexpected");
      if (huge) { if (!same) return; c.put("huge.idx", hugeIndex(hg, (unsigned)bits)); } // an index as it would be written for that database
      if (P == "I02") { // judge it by what can be found through it
        if (same) { c.probe("index_complete"); return; }
        std::vector<std::string> a{"db.md5", "db.idx"}; std::vector<H128> q; int step = (int)(m.size() / 60 + 1), i = 0; for (auto &e : m) { if (i++ % step) continue; q.push_back(e.first); q.push_back(near(e.first, 1)); q.push_back(near(e.first, -1)); }
        q.push_back(H128{0, 0}); q.push_back(H128{~0ull, ~0ull});
        for (auto &h : q) a.push_back("b:" + hex(h));
        s.procs.back().faultMask = 0; s.procs.back().planAt.clear();
        ProcRes l = c.exec(s, "inspdrv", a); if (l.outcome != O_EXIT) return c.violation("index-wrong", "lookups through the index end with " + l.describe());
        for (size_t k = 0; k < q.size() && k + 1 < l.user.size(); ++k) { unsigned cnt; if (sscanf(l.user[k + 1].c_str(), "R %u", &cnt) != 1 || cnt != truth(q[k])) return c.violation("index-wrong", "the index is not a correct index of the record file: " + hex(q[k]) + strf(" should be found %u times, but: ", truth(q[k])) + l.user[k + 1]); }
        return;
      }
    } else if (P == "I02") return;
    if (P == "L03" || P == "T01") return dialogue(s, c, truth, useIndex);
    if (huge) { c.putHuge(hg); c.probe("huge_databases"); }
    std::vector<std::string> a{huge ? "huge.md5" : "db.md5", useIndex ? huge ? "huge.idx" : "db.idx" : "-"}; auto &ops = s.l("ops"); for (auto &o : ops) a.push_back(o);
    if (P == "L02") { // the builder's faults are over
    }
    ProcRes r = c.exec(s, "inspdrv", a);
    if (r.crashed() || r.outcome == O_ABORT) return c.violation("lookup-crash", "a lookup crashed: " + r.describe() + where(ops, r));
    if (r.stuck()) return c.violation("lookup-hang", "a lookup never ends: " + r.describe() + where(ops, r));
    bool on = true; uint64_t hard = r.hardFaults;
    if (r.user.empty()) return c.violation("lookup-crash", "the driver ended early: " + r.describe());
    if (r.user[0] == "X") { if (!hard) c.violation("open-failed", "opening the search object failed although nothing failed"); return; }
    bool isOpen = r.user[0][2] == '1'; if (!isOpen && !hard) return c.violation("open-failed", "the record file could not be opened although nothing failed");
    if (isOpen) { size_t sz = strtoull(r.user[0].c_str() + 4, nullptr, 10); size_t all = huge ? (size_t)hg.n : m.size(); if (sz != all) return c.violation("wrong-size", strf("size() is %zu for %zu records", sz, all)); }
    for (size_t k = 0; k < ops.size(); ++k) {
      if (k + 1 >= r.user.size()) return c.violation("lookup-crash", "the driver ended early: " + r.describe() + where(ops, r));
      const std::string &e = r.user[k + 1];
      if (ops[k] == "F0") { on = false; continue; } if (ops[k] == "F1") { on = true; continue; }
      H128 h = ops[k][0] == 'l' ? md5h(ops[k].substr(2)) : h128FromHex(ops[k].substr(2)); uint32_t want = truth(h), got;
      if (e[0] == 'E') { if (!hard || (!on && isOpen)) return c.violation("lookup-failed", "lookup " + std::to_string(k) + " (" + ops[k] + ") reports an error although nothing fails: " + e); c.probe("lookup_reported_error"); continue; }
      sscanf(e.c_str(), "R %u", &got);
      if (got != want) return c.violation("wrong-answer", strf("lookup %zu of the history (%s)%s: %u instead of %u", k, safe(ops[k]).c_str(), useIndex ? strf(" through an index of %lu bits", (unsigned long)bits).c_str() : "", got, want));
      if (want) c.probe("hits"); else c.probe("misses");
      (void)on;
    }
  }
  static std::string where(const std::vector<std::string> &ops, const ProcRes &r) { size_t k = r.user.empty() ? 0 : r.user.size() - 1; return k < ops.size() ? " in operation " + std::to_string(k) + " (" + safe(ops[k]) + ")" : ""; }
  template <class F> void dialogue(Scn &s, Ctx &c, const F &truth, bool useIndex) {
    std::vector<std::string> a{"-I", "db.md5"}; if (useIndex) { a.push_back("-X"); a.push_back("db.idx"); }
    ProcRes r = c.exec(s, "lookup", a); bool faulty = r.hardFaults > 0; const Cfg &cf = s.procs[c.res.size() - 1];
    if (r.crashed()) return c.violation("crash", "the lookup program crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "the lookup program never ends: " + r.describe());
    if (r.outcome == O_ABORT && !faulty) return c.violation("abort", "the lookup program aborted although nothing failed: " + r.describe());
    if (r.outcome == O_EXIT && r.ttyChanged) return c.violation("terminal", strf("terminal flags are %x at exit, they were %x", r.ttyEnd, cf.ttyLflag));
    if (s.prop == "T01") return;
    std::vector<std::string> words; std::string w; for (auto &k : cf.keys) for (char ch : k.bytes) { if (strchr(" \n\t\v\f\r", ch)) { if (!w.empty()) words.push_back(w); w.clear(); } else w += ch; } if (!w.empty()) words.push_back(w);
    // every answer: the MD5 hash, then the verdict
    size_t p = 0, n = 0; std::string o = r.out;
    for (;; ++n) {
      size_t q = o.find("MD5 hash ", p); if (q == std::string::npos) break;
      if (n >= words.size()) return c.violation("dialogue", strf("more answers than passwords (%zu)", words.size()));
      H128 h = md5h(words[n]); std::string hx = o.substr(q + 9, 32); for (char &ch : hx) ch = (char)tolower(ch);
      if (hx != hex(h)) return c.violation("dialogue", "answer to password " + safe(words[n]) + " shows the hash " + safe(hx));
      size_t e = o.find("MD5 hash ", q + 9); std::string part = o.substr(q, e == std::string::npos ? std::string::npos : e - q); uint32_t want = truth(h);
      bool found = part.find(strf("Found %u times.", want)) != std::string::npos, not_ = part.find("Not found.") != std::string::npos, some = part.find("Found ") != std::string::npos;
      if (want ? !found || not_ : !not_ || some) { if (!(faulty && !not_ && !some)) return c.violation("dialogue", "password " + safe(words[n]) + strf(" occurs %u times, but the answer is: ", want) + safe(part)); }
      p = q + 9;
    }
    if (n != words.size()) return c.violation("dialogue", strf("%zu passwords were entered, %zu answered", words.size(), n));
    if (!faulty && !r.success()) return c.violation("failed", "nothing failed, but: " + r.describe());
    c.probe(strf("dialogues_%s", words.empty() ? "empty" : "nonempty"));
  }
};
static HarnessReg reg("insp", []() -> Harness * { return new Insp; });
