// every program but the server while memory or threads are refused: R01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

enum { T_CONV, T_MERGE, T_INDEX, T_INSP, T_LOOKUP, T_TESTSET, T_BE2LE, T_BENCH, T_EXTRACT, T_MGEN, T_MDRV, T_MLOOKUP, T_N };
static const char *names[] = {"conv", "merge", "index", "inspdrv", "lookup", "testset", "be2le", "benchmark", "extract", "markovgen", "markovdrv", "markovlookup"};

struct Oom : Harness {
  std::vector<std::string> tools(const std::string &) override { return std::vector<std::string>(names, names + T_N); }
  void gen(Rng &r, Scn &s) override {
    int t = (int)r.below(T_N); if (r.chance(30)) t = (int)r.below(2); s.num["tool"] = t;
    int nf = t == T_MERGE ? (int)r.range(1, 6) : t == T_CONV || t == T_EXTRACT ? (int)r.range(1, 4) : 1; s.num["files"] = nf;
    for (int f = 0; f < nf; ++f) {
      std::vector<std::string> v; int n = r.chance(5) ? 0 : (int)r.range(1, r.chance(75) ? 15 : 150);
      if (t == T_CONV || t >= T_EXTRACT) {
        char sep = r.pick(std::vector<char>{':', ';', '\t'});
        for (int i = 0; i < n; ++i) { std::string p = genPassword(r); if (r.chance(30)) p += genPassword(r) + genPassword(r); if (r.chance(10)) p = "$HEX[" + hexEnc(p) + "]"; if (r.chance(8)) p = hex(md5h(p)); v.push_back("u" + std::to_string(i) + sep + p); }
      } else { std::map<H128, uint32_t> m; for (int i = 0; i < n; ++i) m[r.chance(70) ? H128{r.next(), r.next()} : H128{r.below(9) << 60, r.below(9)}] = (uint32_t)r.range(1, 1000); for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); }
      s.list[strf("f%d", f)] = v;
    }
    s.num["idx"] = r.chance(60); s.num["bits"] = r.range(1, 9); s.num["opt"] = r.below(16); s.num["N"] = r.range(1, 40); s.num["old"] = r.chance(30); s.num["mem"] = r.chance(50) ? -1 : r.range(300, 6000);
    std::vector<std::string> ops; int no = (int)r.range(1, 15); const std::vector<std::string> rv = s.list["f0"];
    for (int i = 0; i < no; ++i) { H128 h = t > T_CONV && t < T_EXTRACT && !rv.empty() && r.chance(60) ? h128FromHex(r.pick(rv).substr(0, 32)) : H128{r.next(), r.next()}; if (r.chance(15)) h.lo++; ops.push_back((r.chance(50) ? "b:" : "s:") + hex(h)); }
    s.list["ops"] = ops;
    Cfg a, g; randomSchedule(r, a, t == T_MERGE || t == T_CONV); randomSchedule(r, g, false); a.resumeIfPaused = true; a.pauseKey = t == T_MERGE ? 'p' : ' ';
    if (t == T_LOOKUP || t == T_MLOOKUP) { std::string typed; int ni = (int)r.range(1, 4); for (int i = 0; i < ni; ++i) typed += genPassword(r) + (r.chance(20) ? genPassword(r) : "") + "\n"; Key k; k.bytes = typed; k.when = r.chance(50); a.keys.push_back(k); a.keyEof = true; a.ttyLflag = 0x8a3b; }
    else if (s.n("old") && (t == T_MERGE || t == T_EXTRACT)) { Key k; k.bytes = "y\n"; k.when = 1; a.keys.push_back(k); a.keyEof = t == T_EXTRACT; }
    s.procs = {g, a, a}; s.num["variants"] = 1;
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.size() < 3) return; const ProcRes &x = res[2];
    for (int i = 0; i < 10; ++i) {
      Scn s = b; s.num["variants"] = 0; Cfg &c = s.procs[2]; int w = (int)r.below(100);
      if (x.nThreadTry && w < 20) { c.threadAt = r.below(x.nThreadTry) + 1; c.threadMany = r.chance(60) ? 1 : 1u << 30; }
      else if (w < 40 && x.memPeak > 100) { c.memLimit = x.memPeak / 4 + r.below(x.memPeak - x.memPeak / 4); if (r.chance(40)) c.memLimit = x.memPeak - 1 - r.below(std::min<uint64_t>(x.memPeak / 2, 3000)); }
      else {
        int k = (int)r.below(3); static const uint64_t mins[] = {0, 64, 1024}; uint64_t n = x.nAlloc[k] - x.nAllocIo[k]; if (!n || !x.ioOps) continue;
        
        c.allocMin = mins[k]; c.allocAt = r.below(n) + 1; c.allocMany = r.chance(60) ? 1 : r.chance(50) ? (uint64_t)r.range(2, 10) : 1u << 30;
      }
      out.push_back(s);
    }
  }
  static std::vector<std::string> answers(const std::string &o, int t) { // the answers of the dialogues, in order
    std::vector<std::string> v; for (size_t p = 0; p < o.size();) { size_t e = o.find('\n', p); if (e == std::string::npos) e = o.size(); std::string l = o.substr(p, e - p); p = e + 1; size_t k = t == T_MLOOKUP ? l.find("p = ") : std::string::npos; if (t == T_LOOKUP && (l.compare(0, 6, "Found ") == 0 || l.compare(0, 9, "Not found") == 0)) k = 0; if (k != std::string::npos) v.push_back(l.substr(k)); } return v;
  }
  void run(Scn &s, Ctx &c) override {
    int t = (int)s.n("tool"), nf = (int)s.n("files"); int64_t opt = s.n("opt"); bool idx = s.n("idx"), old = s.n("old"); std::map<std::string, std::string> in; std::vector<std::string> a; std::string dest;
    auto file = [&](const std::string &n, const std::string &d) { in[n] = d; };
    auto db = [&](int f) { std::string d; for (auto &e : s.l(strf("f%d", f))) if (e.size() > 33) d += rec(h128FromHex(e.substr(0, 32)), (uint32_t)atol(e.c_str() + 33)); return d; };
    auto text = [&](int f) { return joinLines(s.l(strf("f%d", f)), true); };
    auto index = [&]() { uint64_t bits = (uint64_t)s.n("bits", 4); std::vector<uint64_t> w(1ull << bits, ~0ull); uint64_t pos = 0; for (auto &e : s.l("f0")) { if (e.size() <= 33) continue; uint64_t k = h128FromHex(e.substr(0, 32)).hi >> (64 - bits); if (w[k] == ~0ull) w[k] = pos; pos += 20; } return std::string((const char *)w.data(), w.size() * 8); };
    Counts truth; std::set<std::string> keys;
    switch (t) {
      case T_CONV: {
        ReaderOpts o; for (int f = 0; f < nf; ++f) file(strf("in/%d.txt", f), text(f)); a = {"--src", "in", "--dst", "out", "--ram", "1"}; if (s.n("mem") > 0) { a.push_back("--threads"); a.push_back(std::to_string(s.n("mem"))); }
        if (opt & 1) { a.push_back("--auto-md5"); o.md5 = 1; } if (opt & 2) { a.push_back("--auto-hex"); o.hex = 1; } for (int f = 0; f < nf; ++f) refCount(text(f), o, truth); break;
      }
      case T_MERGE: for (int f = 0; f < nf; ++f) file(strf("in/%d.md5", f), db(f)); dest = "out.md5"; a = {"--src", "in", "--output", dest, "--tmp", "tmp"}; if (opt & 1) { a.push_back("-n"); a.push_back("2"); } break;
      case T_INDEX: file("db.md5", db(0)); dest = "db.idx"; a = {"-I", "db.md5", "-O", dest, "-B", std::to_string(s.n("bits", 4))}; break;
      case T_INSP: file("db.md5", db(0)); if (idx) file("db.idx", index()); a = {"db.md5", idx ? "db.idx" : "-"}; for (auto &o : s.l("ops")) a.push_back(o); break;
      case T_LOOKUP: file("db.md5", db(0)); a = {"-I", "db.md5"}; if (idx) { file("db.idx", index()); a.push_back("-X"); a.push_back("db.idx"); } break;
      case T_TESTSET: file("db.md5", db(0)); dest = "set"; a = {"-I", "db.md5", "-O", dest, "-N" + std::to_string(s.n("N", 1))}; if (opt & 1) a.push_back("--non-existent"); if (opt & 2) a.push_back("--test-urls"); break;
      case T_BE2LE: file("db.md5", db(0)); dest = "out.md5"; a = {"db.md5", dest}; break;
      case T_BENCH: file("db.md5", db(0)); { std::string st; for (auto &o : s.l("ops")) st += rec(h128FromHex(o.substr(2)), 1); file("set.md5", st); } a = {"-I", "db.md5", "-S", "set.md5", "-n", "2"}; if (opt & 1) { a.push_back("-A"); a.push_back("binsearch"); } else if (idx) { file("db.idx", index()); a.push_back("-X"); a.push_back("db.idx"); } break;
      case T_EXTRACT: for (int f = 0; f < nf; ++f) file(strf("in/%d.txt", f), text(f)); dest = "out.txt"; a = {"-S", "in", "-O", dest}; if (opt & 2) a.push_back("-C"); break;
      case T_MGEN: file("in.txt", text(0)); dest = "m.mrkv"; a = {"-I", "in.txt", "-O", dest}; break;
      default: {
        c.put("in.txt", text(0)); ProcRes g = c.exec(s, "markovgen", {"-I", "in.txt", "-O", "m.mrkv"}); std::string d; if (!g.success() || !c.get("m.mrkv", d)) return; file("m.mrkv", d);
        a = t == T_MLOOKUP ? std::vector<std::string>{"m.mrkv"} : std::vector<std::string>{"L:m.mrkv", "P:password", "P:a", "P:zzz", "L:m.mrkv", "P:password"};
      }
    }
    if (t < T_MDRV) c.skip();
    std::string oldText = t == T_MERGE || t == T_INDEX ? db(0) : "from before\n"; bool hasOld = old && !dest.empty() && t != T_BE2LE;
    auto prepare = [&]() { c.cleanScratch(); for (const char *k : {"tmpd", "tmp", "out"}) c.put(std::string(k) + "/keep", ""); for (auto &f : in) c.put(f.first, f.second); if (hasOld) c.put(dest, oldText); };
    auto sumOut = [&](bool whole, Counts &sum) -> std::string { for (auto &f : c.listDir("out")) { if (f.size() > 4 && !f.compare(f.size() - 4, 4, "keep")) continue; std::string d; if (!c.get(f, d)) c.get("out/" + f, d); if (whole) { std::string e = checkDb(d, &sum); if (!e.empty()) return f + ": " + e; } else addComplete(d, sum); } return ""; };
    s.procs[1] = s.procs[2]; s.procs[1].allocAt = s.procs[1].memLimit = s.procs[1].threadAt = 0; prepare(); ProcRes h = c.exec(s, names[t], a); if (!h.success()) return; // other properties speak about that
    std::string good; if (!dest.empty() && !c.get(dest, good)) good = ""; bool hasGood = !dest.empty() && c.exists(dest);
    prepare(); ProcRes r = c.exec(s, names[t], a); uint64_t refused = r.faults[F_ALLOC] + r.faults[F_THREAD]; std::string who = strf("%s, %s refused", names[t], r.faults[F_THREAD] ? "a thread" : "memory");
    if (r.crashed()) return c.violation("crash", who + ": " + r.describe());
    if (r.stuck()) return c.violation("hang", who + ": never ends: " + r.describe());
    for (auto &f : in) { std::string d; if (!c.get(f.first, d) || d != f.second) return c.violation("altered-input", who + ": the input " + f.first + " was altered or removed"); }
    bool ok = r.success(); c.probe(std::string(names[t]) + (!refused ? "_undisturbed" : ok ? "_went_on" : r.outcome == O_ABORT ? "_aborted" : "_reported_failure"));
    if (!refused && !ok) return c.violation("failed", who + " nothing: " + r.describe());
    std::string got; bool have = !dest.empty() && c.get(dest, got);
    switch (t) {
      case T_CONV: {
        Counts sum; std::string e = sumOut(ok, sum); if (!e.empty()) return c.violation("malformed", who + ": " + e);
        e = ok ? diffCounts(truth, sum) : over(truth, sum); if (!e.empty()) return c.violation(ok ? "silent-loss" : "overcount", who + (ok ? ", success reported: " : ": ") + e); break;
      }
      case T_TESTSET: {
        if (!ok) break; if (!have || got.size() != good.size()) { if (opt & 2) { if (have && std::count(got.begin(), got.end(), '\n') == std::count(good.begin(), good.end(), '\n')) break; } return c.violation("silent-loss", who + strf(", success reported: the set has %zu bytes instead of %zu", got.size(), good.size())); } break;
      }
      case T_INSP: case T_MDRV: {
        for (size_t i = 0; i < r.user.size(); ++i) { const std::string &x = r.user[i]; if (x[0] == 'E' || x[0] == 'X') break; if (t == T_MDRV && x.compare(0, 2, "L ") == 0 && x.compare(0, 4, "L 0 ")) break; if (i >= h.user.size()) break; const std::string &y = h.user[i]; if (x == y) continue; if (t == T_INSP && x[0] == 'O') break; return c.violation("wrong-answer", who + ": " + x + " instead of " + y); }
        if (t == T_INSP) { size_t n = std::min(h.user.size(), r.user.size()); bool open = r.user.size() > 1 && r.user[0] == h.user[0]; for (size_t i = 1; i < n && open; ++i) if (r.user[i][0] == 'R' && h.user[i][0] == 'R') { unsigned x = 0, y = 0; sscanf(r.user[i].c_str(), "R %u", &x); sscanf(h.user[i].c_str(), "R %u", &y); if (x != y) return c.violation("wrong-answer", who + strf(": look-up %zu: ", i) + r.user[i] + " instead of " + h.user[i]); } }
        break;
      }
      case T_LOOKUP: case T_MLOOKUP: {
        auto x = answers(r.out, t), y = answers(h.out, t); if (x.size() > y.size()) return c.violation("wrong-answer", who + ": more answers than questions");
        for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i] && !(i + 1 == x.size() && !ok)) return c.violation("wrong-answer", who + ": answer " + safe(x[i]) + " instead of " + safe(y[i]));
        if (ok && x.size() != y.size()) return c.violation("silent-loss", who + strf(", success reported: %zu of %zu questions answered", x.size(), y.size())); break;
      }
      case T_BENCH: {
        auto num = [](const std::string &o) { std::vector<std::string> v; for (const char *w : {"\nFound: ", "\nNot found: "}) for (size_t p = 0; (p = o.find(w, p)) != std::string::npos; ++p) v.push_back(o.substr(p, o.find('\n', p + 1) - p)); return v; };
        if (ok && num(h.out) != num(r.out)) return c.violation("wrong-answer", who + ", success reported: other results"); break;
      }
      case T_EXTRACT: {
        if (ok && (have != hasGood || ((opt & 2) ? got.size() != good.size() : got != good))) return c.violation("silent-loss", who + strf(", success reported: the output has %zu bytes instead of %zu", got.size(), good.size()));
        std::string rd; c.get(".ready", rd); if (opt & 2 || (hasOld && got == oldText)) { if (hasOld && got == oldText && !(opt & 2) && !rd.empty() && !ok) return c.violation("silent-loss", who + ": files are recorded as done, and the output is the old one"); break; }
        std::string sq; for (size_t p = 0; p < got.size(); ++p) if (got[p] != '\n' || (p && got[p - 1] != '\n')) sq += got[p]; got = sq; // blank lines say nothing
        for (int f = 0; f < nf; ++f) if (rd.find(strf("in/%d.txt\n", f)) != std::string::npos) { std::string x; for (auto &p : refPasswords(text(f), false)) if (!p.empty()) x += p + "\n"; if (!x.empty() && got.find(x) == std::string::npos) return c.violation("silent-loss", who + strf(": in/%d.txt is recorded as done, and its passwords are not in the output", f)); } break;
      }
      default:
        if (ok && (have != hasGood || got != good)) return c.violation("silent-loss", who + strf(", success reported: the result has %zu bytes instead of %zu or differs", got.size(), good.size()));
        if (!ok && have && got != good && !(hasOld && got == oldText) && (t == T_INDEX || (t == T_MERGE && r.outcome == O_EXIT))) return c.violation("partial-after-failure", who + strf(", failure reported: an incomplete result of %zu bytes stays (complete: %zu)", got.size(), good.size()));
        if (!ok && t == T_MGEN && have && got != good && got != oldText) c.probe("partial_model");
    }
  }
};
static HarnessReg reg("oom", []() -> Harness * { return new Oom; });
