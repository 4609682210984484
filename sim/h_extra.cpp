// pwned-password-extractor (P01), pwned-test-set-extractor (E01), be2le (B01)
#include "ref.hpp"
#include <algorithm>
#include <cstring>
#include <bzlib.h>
#include <random>
using namespace sim;

static std::string bunzip(const std::string &d, bool &complete) {
  complete = false; std::string o; bz_stream z; memset(&z, 0, sizeof z); if (BZ2_bzDecompressInit(&z, 0, 0) != BZ_OK) return o;
  z.next_in = const_cast<char *>(d.data()); z.avail_in = (unsigned)d.size(); char b[8192]; int r = BZ_OK;
  while (r == BZ_OK) { z.next_out = b; z.avail_out = sizeof b; r = BZ2_bzDecompress(&z); if (r == BZ_OK || r == BZ_STREAM_END) o.append(b, sizeof b - z.avail_out); if (r == BZ_OK && !z.avail_in && z.avail_out) break; }
  complete = r == BZ_STREAM_END && !z.avail_in; BZ2_bzDecompressEnd(&z); return o;
}
static std::string squeeze(const std::string &t) { // blank lines say nothing
  std::string o; for (size_t p = 0; p < t.size();) { size_t e = t.find('\n', p); if (e == std::string::npos) { o += t.substr(p); break; } if (e > p) o += t.substr(p, e - p + 1); p = e + 1; } return o;
}
static std::vector<std::string> wholeLines(const std::string &t) { std::vector<std::string> v; for (size_t p = 0;;) { size_t e = t.find('\n', p); if (e == std::string::npos) return v; v.push_back(t.substr(p, e - p)); p = e + 1; } }

// stdio, unlike libstdc++, does not repeat an interrupted write: that is a failed write there
static const uint64_t SOFT = M(F_READ_SHORT) | M(F_READ_EINTR) | M(F_WRITE_SHORT);
struct Extract : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"extract"}; }
  void gen(Rng &r, Scn &s) override {
    int nf = (int)r.range(1, 6);
    static const std::vector<std::string> dirs{"", "a/", "b/", "a/c/"}, stems{"x", "x.txt2", "x.txt", "y", "long name", "w\xc3\xb6rter"};
    std::vector<std::string> names; for (int i = 0; i < nf; ++i) { std::string n; do n = r.pick(dirs) + r.pick(stems) + ".txt"; while (std::find(names.begin(), names.end(), n) != names.end()); names.push_back(n); }
    s.list["!names"] = names;
    for (int i = 0; i < nf; ++i) {
      char sep = r.pick(std::vector<char>{':', ':', ';', '\t'}); int n = r.chance(8) ? 0 : (int)r.range(1, r.chance(70) ? 8 : 60); bool big = r.chance(6); if (big) n = (int)r.range(300, 900);
      std::vector<std::string> v; for (int k = 0; k < n; ++k) { if (r.chance(4)) { v.push_back(""); continue; } if (r.chance(1)) { v.push_back("u" + std::string(1, sep) + "$HEX[" + std::string((size_t)r.range(90, 3000) * 2, '4') + "]"); continue; } std::string p = big ? genPassword(r) + std::to_string(k) : genRawPassword(r); if (r.chance(15)) p = "$HEX[" + hexEnc(p) + "]"; v.push_back((r.chance(92) ? strf("u%d@x.de", (int)r.below(50)) + sep : std::string()) + p + (r.chance(5) ? "\r" : "")); }
      s.list[strf("f%d", i)] = v; s.num[strf("nl%d", i)] = r.chance(75);
    }
    std::vector<std::string> ready; s.num["ready"] = r.chance(45); s.num["torn"] = 0;
    if (s.n("ready")) { for (auto &n : names) if (r.chance(35)) ready.push_back("in/" + n); if (r.chance(30)) ready.push_back("in/gone.txt"); if (r.chance(25)) s.num["torn"] = r.range(1, 12); }
    if (r.chance(12)) s.num["odd"] = r.range(1, 15); // links that lead nowhere or to directories, a socket
    s.list["ready"] = ready; s.num["ignore"] = r.chance(20); s.num["bz"] = r.chance(35); s.num["old"] = r.chance(25) ? r.range(1, 2) : 0; s.num["outin"] = r.chance(12);
    Cfg a, b; randomSchedule(r, a, false); randomSchedule(r, b, false);
    if (s.n("old")) { Key k; k.bytes = s.n("old") == 1 ? "y\n" : r.chance(50) ? "n\n" : "Y\n"; k.when = 1; a.keys.push_back(k); a.keyEof = true; }
    if (r.chance(30)) { a.faultMask = MASK_HARD | SOFT | (s.n("outin") ? 0 : MASK_DIR) | (r.chance(40) ? MASK_KILL : 0); a.pFault = (uint32_t)1 << r.range(3, 8); a.pSticky = r.chance(30) ? 500 : 0; }
    else if (r.chance(25)) { a.faultMask = b.faultMask = SOFT; a.pFault = b.pFault = 100; }
    s.procs = {a, b}; s.num["variants"] = 1;
  }
  void variants(const Scn &base, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.empty() || !res[0].ioOps) return;
    for (int i = 0; i < 6; ++i) {
      Scn s = base; Cfg &c = s.procs[0]; c.seed = r.next(); s.num["variants"] = 0; c.faultMask = 0; c.pFault = 0;
      int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(res[0].ioOps) + 1);
      c.planMask = r.chance(50) ? MASK_KILL : MASK_HARD | (s.n("outin") ? 0 : MASK_DIR) | (r.chance(30) ? M(F_READ_SHORT) | M(F_WRITE_SHORT) : 0); c.faultMask = c.planMask; c.pSticky = r.chance(30) ? 1024 : 0; out.push_back(s);
    }
  }
  // can `out` be read as the texts of different files one after the other, all of `must` and none of `never` among them?
  static bool parse(const std::string &out, size_t pos, std::vector<int> &left, const std::map<int, std::string> &text, const std::set<int> &must) {
    if (pos == out.size()) { bool ok = true; for (int f : left) if (must.count(f) && !text.at(f).empty()) ok = false; if (ok) return true; }
    for (size_t i = 0; i < left.size(); ++i) { int f = left[i]; const std::string &t = text.at(f); if (t.empty() || out.compare(pos, t.size(), t)) continue; left.erase(left.begin() + (long)i); if (parse(out, pos + t.size(), left, text, must)) return true; left.insert(left.begin() + (long)i, f); }
    return false;
  }
  static bool holds(const std::string &out, const std::string &t) { if (t.empty()) return true; for (size_t p = 0; (p = out.find(t, p)) != std::string::npos; ++p) if (!p || out[p - 1] == '\n') return true; return false; }
  void run(Scn &s, Ctx &c) override {
    const auto &names = s.l("!names"); std::map<int, std::string> text; std::map<std::string, std::string> before; std::map<std::string, int> id;
    for (size_t i = 0; i < names.size(); ++i) { std::string t = joinLines(s.l(strf("f%zu", i)), s.n(strf("nl%zu", i))), x; c.put("in/" + names[i], t); before["in/" + names[i]] = t; id["in/" + names[i]] = (int)i; for (auto &p : refPasswords(t, false)) x += p + "\n"; text[(int)i] = squeeze(x); }
    c.put("in/other.md", "u:nothing\n"); if (s.n("odd")) c.odd("in", ".txt", (int)s.n("odd"));
    std::string readyText; for (auto &l : s.l("ready")) readyText += l + "\n";
    if (s.n("torn")) { std::string n = "in/" + names[0]; readyText += n.substr(0, std::min<size_t>(n.size(), (size_t)s.n("torn"))); } // a run was killed while it wrote this line
    if (s.n("ready")) c.put(".ready", readyText);
    std::string outs[2];
    for (int pi = 0; pi < 2; ++pi) {
      std::string rd0; c.get(".ready", rd0); std::set<int> done0; bool ignore = pi == 0 && s.n("ignore"); for (auto &l : wholeLines(rd0)) if (id.count(l)) done0.insert(id[l]);
      std::string on = s.n("outin") ? pi ? "in/a/zz2.txt" : "in/zz.txt" : pi ? "out2.txt" : "out.txt", old = "from before\n"; if (!pi && s.n("old")) c.put(on, old);
      std::vector<std::string> a{"-S", "in", "-O", on}; if (ignore) a.push_back("--ignore-ready"); if (s.n("bz")) a.push_back("-C");
      ProcRes r = c.exec(s, "extract", a); bool faulty = r.hardFaults > 0, killed = r.outcome == O_KILLED; std::string who = pi ? "the repeated extraction" : "the extraction";
      if (r.crashed()) return c.violation("crash", who + " crashed: " + r.describe());
      if (r.stuck()) return c.violation("hang", who + " never ends: " + r.describe());
      if (r.outcome == O_ABORT && !faulty) return c.violation("abort", who + " aborted although nothing failed: " + r.describe());
      for (auto &b : before) { std::string d; if (!c.get(b.first, d) || d != b.second) return c.violation("altered-input", "the input file " + b.first + " was altered"); }
      std::string raw, got; bool have = c.get(on, raw), complete = true;
      if (!pi && s.n("old") == 2) { if (raw != old) return c.violation("declined", "the user declined to overwrite the output file, but it was changed"); if (r.success()) return c.violation("declined", "declined, and success is reported"); c.probe("declined"); return; }
      if (!pi && s.n("old") && raw == old) { got = ""; if (r.success()) return c.violation("missing", "success is reported, but the output file is the old one"); }
      else got = squeeze(s.n("bz") ? bunzip(raw, complete) : raw);
      outs[pi] = got;
      // what this run recorded as processed
      std::string rd1; c.get(".ready", rd1); std::vector<std::string> l0 = wholeLines(rd0), l1 = wholeLines(rd1); std::set<int> rec; size_t whole0 = rd0.rfind('\n') == std::string::npos ? 0 : rd0.rfind('\n') + 1; bool kept = ignore ? (faulty || killed) && rd1 == rd0 : rd1.compare(0, whole0, rd0, 0, whole0) == 0;
      for (size_t k = kept ? l0.size() : 0; k < l1.size(); ++k) if (id.count(l1[k])) rec.insert(id[l1[k]]);
      for (int f : rec) { if (!holds(got, text[f])) return c.violation("lost-file", (killed ? "the extraction was killed, " : faulty ? "the extraction met a storage fault, " : "") + std::string("in/") + names[f] + " is recorded as processed, and its passwords are not in the output" + (s.n("bz") && !complete ? " (which is not a complete bz2 stream)" : "")); c.probe(killed ? "recorded_before_kill" : "recorded"); }
      if (killed) { c.probe("killed"); if (s.n("outin")) return; continue; }
      if (!r.success() && s.n("outin") && faulty) return;
      if (!r.success()) { if (!faulty) return c.violation("failed", who + " reports failure although nothing failed: " + r.describe() + " " + safe(r.err.substr(0, 200))); c.probe("failure_reported"); continue; }
      if (!have || !complete) return c.violation("incomplete", "success is reported, and the output is missing or not a complete bz2 stream");
      std::set<int> must; std::vector<int> may;
      for (size_t f = 0; f < names.size(); ++f) {
        bool skip = !ignore && done0.count((int)f), announced = faulty && r.err.find("in/" + names[f]) != std::string::npos;
        if (!skip && !announced) must.insert((int)f);
        if (!skip || faulty) may.push_back((int)f);
      }
      if (!parse(got, 0, may, text, must)) return c.violation(faulty ? "silent-loss" : "wrong-output", who + strf(" reports success, but its output (%zu bytes) is not the passwords of the %zu files to be processed", got.size(), must.size()));
      if (faulty) c.probe("success_despite_hard_fault");
      if (s.n("outin")) { c.probe("output_in_source"); return; } // for the next run it would be another input
      if (pi) for (size_t f = 0; f < names.size(); ++f) if (std::find(s.l("ready").begin(), s.l("ready").end(), "in/" + names[f]) == s.l("ready").end() && !holds(outs[0], text[(int)f]) && !holds(outs[1], text[(int)f])) return c.violation("never-extracted", "after an interrupted and a repeated extraction the passwords of in/" + names[f] + " are in neither output");
    }
  }
};
static HarnessReg reg1("extract", []() -> Harness * { return new Extract; });

static void genDb(Rng &r, Scn &s) {
  int n = r.chance(5) ? 0 : r.chance(10) ? 1 : (int)r.range(2, r.chance(60) ? 12 : 300); if (r.chance(5)) n = (int)r.range(500, 3000);
  std::map<H128, uint32_t> m; for (int i = 0; i < n; ++i) m[H128{r.next(), r.next()}] = r.chance(70) ? (uint32_t)r.range(1, 99) : (uint32_t)r.next() | 1u;
  std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); s.list["recs"] = v;
}
struct TestSet : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"testset"}; }
  void gen(Rng &r, Scn &s) override {
    genDb(r, s); int64_t n = (int64_t)s.l("recs").size(); s.num["N"] = r.chance(10) ? r.pick(std::vector<int64_t>{0, -1, -7, 1}) : r.chance(70) ? r.range(1, std::max<int64_t>(1, n)) : r.chance(50) ? r.range(1, 30 * n + 5) : -1000000; if (s.n("N") == 1 && r.chance(50)) s.num["N"] = n;
    s.num["non"] = r.chance(35); if (s.n("non") && s.n("N") > 60) s.num["N"] = r.range(1, 60); if (s.n("non") && s.n("N") == -1000000) s.num["N"] = 3; s.num["urls"] = r.chance(25); s.num["old"] = r.chance(20); s.num["same"] = r.chance(4) ? r.range(1, 2) : 0;
    s.num["drawn"] = 0;
    bool lng = r.chance(12); // an output of several writes
    if (lng) { std::map<std::string, std::string> m; int k = (int)r.range(500, 1600); for (int i = 0; i < k; ++i) { std::string h = hex(H128{r.next(), r.next()}); m[h] = h + " " + std::to_string(r.range(1, 99)); } std::vector<std::string> v; for (auto &e : m) v.push_back(e.second); s.list["recs"] = v; s.num["N"] = s.n("non") ? r.range(450, 700) : r.range(450, (int64_t)v.size()); s.num["same"] = 0; }
    if (!lng && s.n("non") && r.chance(35)) { // a file that holds some of the hashes the tool is going to draw
      std::mt19937_64 g(31337); std::map<std::string, std::string> m; for (auto &e : s.l("recs")) m[e.substr(0, 32)] = e; int64_t k = 0;
      for (int64_t i = 0; i < std::max<int64_t>(1, s.n("N")); ++i) { uint64_t x = g(), y = g(); if (!r.chance(30)) continue; ++k; for (auto &h : {H128{x, y}, H128{y, x}}) m[hex(h)] = hex(h) + " " + std::to_string(r.range(1, 99)); }
      std::vector<std::string> v; for (auto &e : m) v.push_back(e.second); s.list["recs"] = v; s.num["drawn"] = k;
    }
    Cfg a; randomSchedule(r, a, false);
    if (r.chance(35)) { a.faultMask = MASK_HARD | MASK_BENIGN | (s.n("same") ? 0 : MASK_DIR); a.pFault = (uint32_t)1 << r.range(2, 8); a.pSticky = r.chance(40) ? 500 : 0; } else if (r.chance(30)) { a.faultMask = MASK_BENIGN; a.pFault = 100; }
    if (lng && r.chance(40)) { a.faultMask = M(F_WRITE_ENOSPC) | M(F_WRITE_EIO); a.pFault = 300; a.pSticky = 0; } // space comes and goes
    if (r.chance(8)) { s.num["huge"] = 1; s.num["drawn"] = 0; a.huge = genHuge(r); s.list["recs"].clear(); s.num["N"] = r.range(1, 100); if (s.n("non")) s.num["N"] = r.range(1, 30); s.num["same"] = 0; } // a database of some gigabytes
    s.procs = {a}; s.num["variants"] = 1;
  }
  void variants(const Scn &base, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.empty() || !res[0].ioOps) return;
    for (int i = 0; i < 4; ++i) { Scn s = base; Cfg &c = s.procs[0]; c.seed = r.next(); s.num["variants"] = 0; c.faultMask = 0; c.pFault = 0; c.planAt.push_back(r.below(res[0].ioOps) + 1); c.planMask = MASK_HARD | (r.chance(40) ? M(F_READ_SHORT) | M(F_WRITE_SHORT) : 0); c.faultMask = c.planMask; c.pSticky = r.chance(50) ? 1024 : 0; out.push_back(s); }
  }
  void run(Scn &s, Ctx &c) override {
    std::map<H128, uint32_t> m; bool huge = s.n("huge"); const Huge hg = s.procs[0].huge; size_t all; auto find = [&](const H128 &h, uint32_t &n) { if (huge) return hugeFind(hg, h, &n); auto i = m.find(h); if (i != m.end()) n = i->second; return i != m.end(); };
    std::string db; for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10); for (auto &e : m) db += rec(e.first, e.second);
    all = huge ? (size_t)hg.n : m.size(); c.put("db.md5", db); if (huge) { c.putHuge(hg); c.probe("huge_databases"); } if (s.n("old")) c.put("set", "from before"); int64_t N = s.n("N"); bool dflt = N == -1000000; if (dflt) N = 20000;
    std::vector<std::string> a{"-I", huge ? "huge.md5" : "db.md5", "-O", "set"}; if (!dflt) a.push_back("-N" + std::to_string(N)); if (s.n("non")) a.push_back("--non-existent"); std::string pre = "http://h/?hash="; if (s.n("urls")) { a.push_back("--test-urls"); a.push_back("--test-url-prefix"); a.push_back(pre); }
    if (s.n("same")) { if (s.n("same") == 2) { c.link("db.md5", "alias"); a[3] = "alias"; } else a[3] = "./db.md5"; }
    ProcRes r = c.exec(s, "testset", a); bool faulty = r.hardFaults > 0;
    if (r.crashed()) return c.violation("crash", strf("extracting %ld of %zu records crashed: ", (long)N, all) + r.describe());
    if (r.stuck()) return c.violation("hang", strf("extracting %ld of %zu records never ends: ", (long)N, all) + r.describe());
    if (r.outcome == O_ABORT && !faulty) return c.violation("abort", "aborted although nothing failed: " + r.describe() + " " + safe(r.err.substr(0, 200)));
    std::string d; if (!c.get("db.md5", d) || d != db) return c.violation("altered-input", "the record file was altered");
    if (s.n("same")) { c.probe("output_is_input"); if (r.success()) c.violation("wrong-set", "success is reported for an output that is the input, and nothing was written"); return; }
    if (N < 1) { if (r.success()) return c.violation("bad-number-accepted", strf("success is reported for %ld records", (long)N)); return; }
    if (!r.success()) { if (!faulty) return c.violation("failed", "nothing failed, but: " + r.describe() + " " + safe(r.err.substr(0, 200))); c.probe("failure_reported"); return; }
    if (faulty) c.probe("success_despite_hard_fault");
    std::vector<std::pair<H128, uint32_t>> v; if (!c.get("set", d)) return c.violation("incomplete", "success is reported and there is no test set");
    if (s.n("urls")) { for (auto &l : wholeLines(d)) { if (l.compare(0, pre.size(), pre) || l.size() != pre.size() + 32) return c.violation("malformed", "a line of the test set: " + safe(l)); H128 h = h128FromHex(l.substr(pre.size())); uint32_t n = 0; find(h, n); v.push_back({h, s.n("non") ? 0 : n}); } if (!d.empty() && d.back() != '\n') return c.violation("malformed", "the last line is not complete"); }
    else if (!parseDb(d, v)) return c.violation("malformed", strf("the test set has %zu bytes, no whole number of records", d.size()));
    const char *cls = faulty ? "silent-loss" : "wrong-set";
    if (s.n("non")) {
      std::set<H128> u; for (auto &x : v) { uint32_t n; if (find(x.first, n)) return c.violation(cls, hex(x.first) + " is in the record file"); if (x.second) return c.violation(cls, "a count that is not zero"); u.insert(x.first); }
      int64_t drawn = s.n("drawn"); if (drawn) c.probe("drawn_hashes_in_file"); if ((int64_t)v.size() > N || (int64_t)v.size() < N - drawn || u.size() != v.size()) return c.violation(cls, strf("%zu hashes (%zu different) instead of %ld", v.size(), u.size(), (long)N));
      c.probe("absent_sets"); return;
    }
    for (size_t i = 0; i < v.size(); ++i) { uint32_t n; if (!find(v[i].first, n) || n != v[i].second) return c.violation(cls, "the record of " + hex(v[i].first) + strf(" with count %u is not in the record file", v[i].second)); if (i && (v[i].first < v[i - 1].first)) return c.violation(cls, strf("record %zu is smaller than the one before", i)); if (i && v[i].first == v[i - 1].first && N <= (int64_t)all) return c.violation(cls, strf("record %zu repeats the one before", i)); }
    if (N <= (int64_t)all && (int64_t)v.size() != N) return c.violation(cls, strf("%zu records instead of %ld", v.size(), (long)N));
    if (N > (int64_t)all && all) { std::set<H128> u; for (auto &x : v) u.insert(x.first); if ((int64_t)v.size() > N) return c.violation(cls, strf("%zu records instead of at most %ld", v.size(), (long)N)); if (u.size() != all) return c.violation(cls, strf("%zu of the %zu records are in the test set, though more were asked for", u.size(), all)); c.probe("more_asked_than_there_are"); }
    c.probe("sets");
  }
};
static HarnessReg reg2("testset", []() -> Harness * { return new TestSet; });

struct Be2le : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"be2le"}; }
  void gen(Rng &r, Scn &s) override {
    genDb(r, s); s.num["tail"] = r.chance(20) ? r.range(1, 19) : 0; s.num["old"] = r.chance(25); s.num["missing"] = r.chance(4); s.num["same"] = r.chance(5) ? r.range(1, 2) : 0;
    Cfg a; randomSchedule(r, a, false);
    if (r.chance(35)) { a.faultMask = MASK_HARD | MASK_BENIGN; a.pFault = (uint32_t)1 << r.range(2, 9); a.pSticky = r.chance(40) ? 500 : 0; } else if (r.chance(40)) { a.faultMask = MASK_BENIGN; a.pFault = 200; }
    s.procs = {a}; s.num["variants"] = 1;
  }
  void variants(const Scn &base, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.empty() || !res[0].ioOps) return;
    for (int i = 0; i < 4; ++i) { Scn s = base; Cfg &c = s.procs[0]; c.seed = r.next(); s.num["variants"] = 0; c.faultMask = 0; c.pFault = 0; c.planAt.push_back(r.below(res[0].ioOps) + 1); c.planMask = MASK_HARD | (r.chance(40) ? M(F_READ_SHORT) | M(F_WRITE_SHORT) : 0); c.faultMask = c.planMask; c.pSticky = r.chance(50) ? 1024 : 0; out.push_back(s); }
  }
  void run(Scn &s, Ctx &c) override {
    std::string in, want; // the input holds the quad words in the other byte order
    for (auto &e : s.l("recs")) { std::string w = rec(h128FromHex(e.substr(0, 32)), (uint32_t)strtoull(e.c_str() + 33, nullptr, 10)); want += w; std::reverse(w.begin(), w.begin() + 8); std::reverse(w.begin() + 8, w.begin() + 16); in += w; }
    std::string whole = in; if (s.n("tail")) in += std::string((size_t)s.n("tail"), 'Z');
    bool missing = s.n("missing"); if (!missing) c.put("in.md5", in); if (s.n("old")) c.put("out.md5", std::string(3000, 'o'));
    std::string to = "out.md5"; if (s.n("same") && !missing) { if (s.n("same") == 2) c.link("in.md5", to = "alias"); else to = "./in.md5"; }
    ProcRes r = c.exec(s, "be2le", {"in.md5", to}); bool faulty = r.hardFaults > 0;
    if (r.crashed()) return c.violation("crash", "the conversion crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "the conversion never ends: " + r.describe());
    if (r.outcome == O_ABORT && !faulty) return c.violation("abort", "aborted although nothing failed: " + r.describe());
    std::string d; if (s.n("same") && !missing) { c.probe("output_is_input"); c.get("in.md5", d); if (d != (r.success() ? want : in)) c.violation("altered-input", "input and output are the same file, and " + std::string(r.success() ? "success is reported without a conversion" : "it was altered")); return; }
    if (!missing && (!c.get("in.md5", d) || d != in)) return c.violation("altered-input", "the input was altered");
    if (missing) { if (r.success()) c.violation("missing-accepted", "success is reported although there is no input"); return; }
    bool have = c.get("out.md5", d);
    if (!r.success()) { c.probe("failure_reported"); if (!faulty && !s.n("tail")) return c.violation("failed", "nothing failed, but: " + r.describe()); if (faulty) return; }
    if (faulty) c.probe("success_despite_hard_fault");
    if (!have) return c.violation("incomplete", "there is no output");
    if (d != want) return c.violation(faulty ? "silent-loss" : "wrong-output", strf("%zu records in, %zu bytes out instead of %zu", s.l("recs").size(), d.size(), want.size()) + (d.size() == want.size() ? ", contents differ" : ""));
    c.probe("exact");
  }
};
static HarnessReg reg3("be2le", []() -> Harness * { return new Be2le; });
