// pwned-markov-generator, markov::Chain, pwned-markov-lookup: K01 T01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
#include <cmath>
using namespace sim;

static std::string utf8(uint32_t c) {
  std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
static std::vector<long> points(const std::string &s) { // valid UTF-8 only
  std::vector<long> v; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; long x = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; for (int k = 1; k <= n && i + k < s.size(); ++k) x = x << 6 | ((unsigned char)s[i + k] & 63); v.push_back(x); i += n + 1; }
  return v;
}
static std::string word(Rng &r, int alpha, int len) {
  static const uint32_t ext[] = {0xe4, 0x20ac, 0x1f600, 0x7f, 0x7ff, 0x800, 0xffff - 2, 0x10000, 0x10ffff, 'Z', '0', '$'};
  std::string s; for (int i = 0; i < len; ++i) s += r.chance(8) ? utf8(ext[r.below(12)]) : utf8(33 + (uint32_t)r.below((uint64_t)alpha)); return s;
}
struct Model {
  std::map<long, uint64_t> first; std::map<long, std::map<long, uint64_t>> next; uint64_t n = 0;
  void train(const std::string &p) { auto v = points(p); if (v.empty()) return; first[v[0]]++; ++n; for (size_t i = 0; i + 1 < v.size(); ++i) next[v[i]][v[i + 1]]++; }
  double pf(long c) const { auto i = first.find(c); return i == first.end() ? 0 : double(i->second) / double(n); }
  double ps(long a, long b) const { auto i = next.find(a); if (i == next.end()) return 0; uint64_t sum = 0; for (auto &x : i->second) sum += x.second; auto k = i->second.find(b); return k == i->second.end() ? 0 : double(k->second) / double(sum); }
  double prob(const std::string &p) const { auto v = points(p); if (v.empty()) return -1; double q = pf(v[0]); for (size_t i = 0; i + 1 < v.size(); ++i) q *= ps(v[i], v[i + 1]); return q; }
};
struct Markov : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"markovgen", "markovdrv", "markovlookup"}; }
  void gen(Rng &r, Scn &s) override {
    const std::string &P = s.prop;
    int n = r.chance(5) ? 0 : r.chance(10) ? 1 : (int)r.range(2, r.chance(70) ? 12 : 200), alpha = (int)r.pick(std::vector<int>{2, 5, 20, 90}), maxLen = r.chance(12) ? 1 : (int)r.range(2, 14);
    std::vector<std::string> lines, pws; char sep = r.pick(std::vector<char>{':', ':', ';', '\t', 0});
    for (int i = 0; i < n; ++i) { std::string p = word(r, alpha, (int)r.range(1, maxLen)); pws.push_back(p); if (r.chance(4)) { lines.push_back(""); continue; } lines.push_back((sep ? std::string("u") + std::to_string(i) + sep : "") + p); }
    s.list["lines"] = lines; s.num["nl"] = r.chance(80);
    // what is loaded: whole, cut at some place, missing
    std::vector<std::string> ops; int k = (int)r.range(1, 6);
    for (int i = 0; i < k; ++i) {
      int w = (int)r.below(10);
      if (w < 4) ops.push_back("full"); else if (w < 9) ops.push_back(strf("cut%ld", (long)(r.chance(40) ? (int64_t)r.below(40) : r.chance(50) ? -(int64_t)r.range(1, 40) : (int64_t)r.below(4000)))); else ops.push_back("none");
      if (r.chance(60)) ops.push_back("P:" + (pws.empty() || r.chance(40) ? word(r, alpha, (int)r.range(1, 5)) : r.pick(pws)));
    }
    s.list["ops"] = ops;
    std::vector<std::string> in; int ni = (int)r.range(0, 5); for (int i = 0; i < ni; ++i) in.push_back(pws.empty() || r.chance(40) ? word(r, alpha, (int)r.range(1, 5)) : r.pick(pws));
    s.list["in"] = in; s.num["lk"] = r.chance(70) ? 100000 : (int64_t)r.below(200); s.num["old"] = r.chance(30); s.num["same"] = P == "K01" && r.chance(3) ? r.range(1, 2) : 0; s.num["v"] = r.chance(30); s.num["lastnl"] = r.chance(75);
    Cfg g, d, l; randomSchedule(r, g, false); randomSchedule(r, d, false); randomSchedule(r, l, false);
    if (P == "K01") {
      if (r.chance(30)) { g.faultMask = MASK_HARD | (s.n("same") ? 0 : MASK_DIR) | MASK_BENIGN | (r.chance(30) ? MASK_KILL : 0); g.pFault = (uint32_t)1 << r.range(4, 9); g.pSticky = r.chance(30) ? 500 : 0; } else if (r.chance(30)) { g.faultMask = MASK_BENIGN; g.pFault = 200; }
      if (r.chance(40)) { d.faultMask = M(F_READ_EIO) | MASK_BENIGN | M(F_OPEN_EMFILE); d.pFault = (uint32_t)1 << r.range(4, 9); } else if (r.chance(30)) { d.faultMask = MASK_BENIGN; d.pFault = 300; }
      if (r.chance(25)) { l.faultMask = M(F_READ_EIO) | MASK_BENIGN; l.pFault = 200; }
    } else if (r.chance(30)) { l.faultMask = M(F_READ_EIO) | M(F_OPEN_EMFILE); l.pFault = 300; }
    std::string t; for (size_t i = 0; i < in.size(); ++i) { t += in[i]; if (i + 1 < in.size() || s.n("lastnl")) t += "\n"; }
    size_t o = 0; while (o < t.size()) { size_t c = r.chance(50) ? t.size() - o : std::min<size_t>(t.size() - o, (size_t)r.range(1, 12)); Key key; key.bytes = t.substr(o, c); key.when = r.chance(50); key.steps = r.below(20); l.keys.push_back(key); o += c; }
    l.keyEof = true; l.ttyLflag = r.chance(60) ? 0x8a3b : (uint32_t)(0x8a31 | (r.below(2) << 1) | (r.below(2) << 3)); l.tty = !r.chance(8);
    s.procs = {g, d, l}; s.num["variants"] = P == "K01";
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    for (int i = 0; i < 5; ++i) {
      size_t p = r.below(2); if (res.size() <= p || !res[p].ioOps) continue; Scn s = b; Cfg &c = s.procs[p]; c.seed = r.next(); s.num["variants"] = 0; for (auto &q : s.procs) { q.faultMask = 0; q.pFault = 0; }
      int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(res[p].ioOps) + 1);
      c.planMask = p == 1 ? M(F_READ_EIO) | (r.chance(30) ? M(F_READ_SHORT) : 0) : r.chance(50) ? MASK_KILL : MASK_HARD | (s.n("same") ? 0 : MASK_DIR) | (r.chance(30) ? M(F_READ_SHORT) | M(F_WRITE_SHORT) : 0); c.faultMask = c.planMask; c.pSticky = r.chance(30) ? 1024 : 0; out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const std::string &P = s.prop; std::string text = joinLines(s.l("lines"), s.n("nl")); Model m; char sep = refSeparator(text);
    for (auto &l : refLines(text)) { std::string p; if (refPassword(l, sep, p)) m.train(p); }
    c.put("in.txt", text); if (s.n("old")) c.put("m.mrkv", std::string("MRKV\x02\x01\x00\x00\x00", 9) + std::string(300, '\x01'));
    std::vector<std::string> a{"-I", "in.txt", "-O", "m.mrkv"}; if (s.n("v")) a.push_back("-v");
    if (s.n("same")) { // the model's name is one of the password file
      if (s.n("same") == 2) { c.link("in.txt", "alias"); a[3] = "alias"; } else a[3] = "./in.txt";
      ProcRes g = c.exec(s, "markovgen", a); std::string d; c.get("in.txt", d); c.probe("output_is_input"); if (g.crashed() || g.stuck()) return c.violation(g.stuck() ? "hang" : "crash", "the Markov generator ends with " + g.describe());
      if (d != text) return c.violation("altered-input", "the password file was given as output, too, and was altered"); if (g.success()) c.violation("model-missing", "success is reported, and there is no model"); return;
    }
    ProcRes g = c.exec(s, "markovgen", a); bool faulty = g.hardFaults > 0, killed = g.outcome == O_KILLED;
    if (g.crashed()) return c.violation("crash", "the Markov generator crashed: " + g.describe());
    if (g.stuck()) return c.violation("hang", "the Markov generator never ends: " + g.describe());
    if (g.outcome == O_ABORT && !faulty) return c.violation("abort", "the Markov generator aborted although nothing failed: " + g.describe());
    if (!g.success() && !faulty && !killed) return c.violation("failed", "nothing failed, but the Markov generator reports failure: " + g.describe() + " " + safe(g.err.substr(0, 200)));
    std::string file; bool have = c.get("m.mrkv", file); bool stale = s.n("old") && file.size() == 309; // untouched
    if (g.success() && !have) return c.violation("model-missing", "success is reported and there is no model file");
    if (killed) c.probe("generator_killed"); else if (!g.success()) c.probe("generator_reported_failure");
    // load it, cut copies of it and missing files, in any order in one object
    std::vector<std::string> d{}; std::vector<int> kind; if (stale && !g.success()) return;
    int idx = 0; std::vector<std::string> ops = s.l("ops"); if (P == "T01") ops.clear(); bool checkFirst = P == "K01";
    if (checkFirst) { d.push_back("F0"); d.push_back("L:m.mrkv"); d.push_back("F1"); kind.push_back(0); }
    for (auto &o : ops) {
      if (o[0] == 'P') { d.push_back(o); kind.push_back(3); continue; }
      if (o == "full") { d.push_back("L:m.mrkv"); kind.push_back(0); continue; }
      if (o == "none") { d.push_back("L:nothing.mrkv"); kind.push_back(2); continue; }
      if (!have || file.empty()) continue; long cut = atol(o.c_str() + 3); size_t len = cut >= 0 ? (size_t)cut : file.size() > (size_t)-cut ? file.size() - (size_t)-cut : 0; if (len >= file.size()) len = len % file.size();
      std::string nm = strf("cut%d.mrkv", idx++); c.put(nm, file.substr(0, len)); d.push_back("L:" + nm); kind.push_back(1);
    }
    bool intact = g.success();
    if (checkFirst) {
      ProcRes r = c.exec(s, "markovdrv", d); bool hard = r.hardFaults > 0;
      if (r.crashed() || r.outcome == O_ABORT) return c.violation("crash", "loading a model crashed: " + r.describe());
      if (r.stuck()) return c.violation("hang", "loading a model never ends: " + r.describe());
      if (r.user.empty() || r.user.back() != "end") return c.violation("crash", "the driver ended early: " + r.describe());
      size_t u = 0; bool loaded = false;
      for (size_t k = 0; k < kind.size(); ++k) {
        if (u >= r.user.size()) return c.violation("crash", "the driver ended early");
        std::string e = r.user[u++];
        if (e[0] == 'X') return c.violation("crash", "an exception instead of an error code: " + e);
        if (kind[k] == 3) { if (!loaded) continue; std::string pw; size_t q = 0; for (size_t z = 0; z < d.size(); ++z) if (d[z][0] == 'P' || d[z][0] == 'L') { if (q++ == k) pw = d[z].substr(2); } double want = m.prob(pw), got = atof(e.c_str() + 2); if (std::fabs(want - got) > 1e-9 * std::max(1.0, std::fabs(want))) return c.violation("wrong-probability", strf("the loaded model gives %s the probability %.12g instead of %.12g", safe(pw).c_str(), got, want)); c.probe("probabilities_checked"); continue; }
        if (e.compare(0, 2, "L ")) return c.violation("crash", "unexpected event " + e);
        bool okc = e == "L 0 OK" || e.compare(0, 4, "L 0 ") == 0; loaded = false;
        std::map<long, double> F; std::map<std::pair<long, long>, double> S;
        while (okc && u < r.user.size()) { long x, y; double p; if (sscanf(r.user[u].c_str(), "F %ld %lf", &x, &p) == 2) { if (F.count(x)) return c.violation("wrong-model", strf("first symbol %ld occurs twice in the loaded model", x)); F[x] = p; ++u; } else if (sscanf(r.user[u].c_str(), "S %ld %ld %lf", &x, &y, &p) == 3) { S[{x, y}] = p; ++u; } else break; }
        if (kind[k] == 2) { if (okc) return c.violation("missing-accepted", "a file that does not exist was loaded without error"); continue; }
        if (kind[k] == 1) { if (okc) return c.violation("truncated-accepted", "a model file that was cut off was loaded without error: " + d[k]); c.probe("cut_files_rejected"); continue; }
        if (!okc) { c.probe("load_reported_error"); if (intact && !hard) return c.violation("load-failed", "the model was written with success, and loading it reports " + e); if (intact && k == 0) return c.violation("load-failed", std::string(faulty ? "the generator met a fault and reported success, but " : "") + "loading the model reports " + e); continue; }
        loaded = true; c.probe("models_loaded");
        for (auto &f : m.first) { auto i = F.find(f.first); if (i == F.end() || i->second != m.pf(f.first)) return c.violation(k == 0 && faulty ? "silent-loss" : "wrong-model", strf("probability of first symbol %ld: %.17g instead of %.17g", f.first, i == F.end() ? -1.0 : i->second, m.pf(f.first))); }
        if (F.size() != m.first.size()) return c.violation("wrong-model", strf("%zu first symbols instead of %zu", F.size(), m.first.size()));
        size_t ns = 0; for (auto &x : m.next) for (auto &y : x.second) { ++ns; auto i = S.find({x.first, y.first}); if (i == S.end() || i->second != m.ps(x.first, y.first)) return c.violation(k == 0 && faulty ? "silent-loss" : "wrong-model", strf("probability of %ld after %ld: %.17g instead of %.17g", y.first, x.first, i == S.end() ? -1.0 : i->second, m.ps(x.first, y.first))); }
        if (S.size() != ns) return c.violation("wrong-model", strf("%zu transitions instead of %zu", S.size(), ns));
      }
      if (!have) return;
    } else { if (!intact) return; Scn &q = s; ProcRes &r0 = c.execFn(q, []() { return 0; }); (void)r0; }
    // the lookup program on the file or a cut copy
    size_t len = (size_t)s.n("lk"); bool cut = len < file.size(); c.put("lk.mrkv", cut ? file.substr(0, len) : file);
    ProcRes l = c.exec(s, "markovlookup", {"lk.mrkv"}); const Cfg &cf = s.procs[c.res.size() - 1]; bool hard = l.hardFaults > 0;
    if (l.crashed()) return c.violation("crash", "the Markov lookup crashed: " + l.describe());
    if (l.stuck()) return c.violation("hang", "the Markov lookup never ends: " + l.describe());
    if (l.outcome == O_ABORT && !hard) return c.violation("abort", "the Markov lookup aborted: " + l.describe() + " " + safe(l.err.substr(0, 200)));
    if (l.outcome == O_EXIT && l.ttyChanged) return c.violation("terminal", strf("terminal flags are %x at exit, they were %x", l.ttyEnd, cf.ttyLflag));
    if (P == "T01") return;
    if (cut) { if (l.success() || l.out.find("p = ") != std::string::npos) return c.violation("truncated-accepted", strf("the lookup program answers from a model file that was cut off after %zu of %zu bytes", len, file.size())); return; }
    if (!intact) return;
    if (!l.success()) { if (!hard) return c.violation("failed", "nothing failed, but the Markov lookup reports failure: " + l.describe()); if (l.out.find("p = ") != std::string::npos) return c.violation("wrong-model", "answers given although loading failed"); return; }
    std::vector<std::string> words; std::string w; for (auto &k : cf.keys) for (char ch : k.bytes) { if (ch == '\n') { if (!w.empty()) words.push_back(w); w.clear(); } else w += ch; } if (!w.empty()) words.push_back(w);
    size_t pos = 0; for (size_t i = 0; i < words.size(); ++i) { size_t q = l.out.find("p = ", pos); if (q == std::string::npos) return c.violation("dialogue", strf("%zu passwords typed, %zu answered", words.size(), i)); double got = atof(l.out.c_str() + q + 4), want = m.prob(words[i]); if (std::fabs(got - want) > 1e-4 * std::fabs(want)) return c.violation("wrong-probability", strf("the lookup gives %s the probability %g instead of %g", safe(words[i]).c_str(), got, want)); pos = q + 4; c.probe("lookups_answered"); }
  }
};
static HarnessReg reg("markov", []() -> Harness * { return new Markov; });
