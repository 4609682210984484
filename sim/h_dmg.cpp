// every program on damaged files: D01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

enum { T_MERGE, T_INDEX, T_INSP, T_LOOKUP, T_TESTSET, T_BE2LE, T_BENCH, T_CONV, T_EXTRACT, T_MGEN, T_MDRV, T_MLOOKUP, T_N };
static const char *toolNames[] = {"merge", "index", "inspdrv", "lookup", "testset", "be2le", "benchmark", "conv", "extract", "markovgen", "markovdrv", "markovlookup"};
static const uint64_t ext64[] = {0, 1, 19, 20, 21, 40, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1, ~0ull - 19, ~0ull - 20, ~0ull - 39, 1000000, 1ull << 32, (1ull << 62) + 3};

// one damage: kind position length seed
void damage(std::string &d, const std::string &how) {
  char k[16]; unsigned long p = 0, n = 0, x = 0; if (sscanf(how.c_str(), "%15s %lu %lu %lu", k, &p, &n, &x) < 1) return; std::string kind = k; size_t z = d.size();
  if (kind == "flip") { if (z) d[p % z] = (char)(d[p % z] ^ (1 << (n % 8))); }
  else if (kind == "cut") { if (z) d.resize(z - 1 - p % z); }
  else if (kind == "zero") { if (z) for (size_t i = p % z, e = std::min(z, i + n); i < e; ++i) d[i] = 0; }
  else if (kind == "ones") { if (z) for (size_t i = p % z, e = std::min(z, i + n); i < e; ++i) d[i] = (char)0xff; }
  else if (kind == "del") { if (z) d.erase(p % z, n); }
  else if (kind == "dup") { if (z) { p %= z; d.insert(p, d.substr(p, n)); } }
  else if (kind == "ins") { Rng r(x); std::string t; for (size_t i = 0; i < n; ++i) t += (char)r.next(); d.insert(z ? p % z : 0, t); }
  else if (kind == "noise") { Rng r(x); std::string t; for (size_t i = 0; i < n; ++i) t += (char)r.next(); d = t; }
  else if (kind == "q") { if (z >= 8) { p = n % 2 ? p % (z - 7) : p % (z / 8) * 8; uint64_t v = ext64[x % 16]; memcpy(&d[p], &v, 8); } }
  else if (kind == "d") { if (z >= 4) { p %= z - 3; uint32_t v = (uint32_t)ext64[x % 16]; if (n % 3 == 0) v = x & 1 ? 0x01000000u : 0x7fffffffu; memcpy(&d[p], &v, 4); } }
  else if (kind == "huge") { std::string t = n % 2 ? "u:$HEX[" : "u:"; for (unsigned long i = 0; i < x; ++i) t += n % 3 ? "41" : "a1"; t += n % 2 ? "]\n" : "\n"; size_t at = z ? d.find('\n', p % z) : std::string::npos; d.insert(at == std::string::npos ? 0 : at + 1, t); }
}
std::string genDamage(Rng &r, bool text) {
  unsigned long p = r.chance(40) ? r.below(40) : r.next() % 100000, n = r.chance(70) ? r.range(1, 24) : r.range(1, 2000), x = r.next() % 1000000;
  static const std::vector<std::string> bin{"flip", "flip", "flip", "cut", "cut", "zero", "ones", "del", "dup", "ins", "noise", "q", "q", "q", "d", "d", "d"}, txt{"flip", "flip", "cut", "zero", "ones", "del", "dup", "ins", "ins", "noise", "huge"};
  std::string k = r.pick(text ? txt : bin); if (k == "huge") x = r.chance(70) ? (unsigned long)r.range(50, 3000) : (unsigned long)r.range(30000, 60000); return strf("%s %lu %lu %lu", k.c_str(), p, n, x);
}
struct Damage : Harness {
  std::vector<std::string> tools(const std::string &) override { return std::vector<std::string>(toolNames, toolNames + T_N); }
  void gen(Rng &r, Scn &s) override {
    int t = (int)r.below(T_N); if (r.chance(25)) t = r.chance(50) ? T_INSP : T_MDRV; s.num["tool"] = t;
    int nf = t == T_MERGE ? (int)r.range(1, 4) : t == T_CONV || t == T_EXTRACT ? (int)r.range(1, 3) : 1; s.num["files"] = nf;
    for (int f = 0; f < nf; ++f) {
      std::vector<std::string> v; int n = r.chance(8) ? 0 : (int)r.range(1, r.chance(80) ? 12 : 120);
      if (t >= T_CONV) { char sep = r.pick(std::vector<char>{':', ';', '\t'}); for (int i = 0; i < n; ++i) { std::string p = genPassword(r); if (r.chance(10)) p = "$HEX[" + hexEnc(p) + "]"; if (r.chance(10)) p = hex(md5h(p)); v.push_back("u" + std::to_string(i) + sep + p); } }
      else { std::map<H128, uint32_t> m; for (int i = 0; i < n; ++i) m[r.chance(80) ? H128{r.next(), r.next()} : H128{~0ull - r.below(9), r.below(9)}] = (uint32_t)r.range(1, 1000); for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); }
      s.list[strf("f%d", f)] = v;
      std::vector<std::string> dm; int k = t == T_MDRV || t == T_MLOOKUP ? 0 : r.chance(25) ? 0 : (int)r.range(1, 4); for (int i = 0; i < k; ++i) dm.push_back(genDamage(r, t >= T_CONV)); s.list[strf("d%d", f)] = dm;
    }
    // a second kind of file the program reads: index, record of processed files, test set, model
    std::vector<std::string> dm; int k = r.chance(20) ? 0 : (int)r.range(1, 4); for (int i = 0; i < k; ++i) dm.push_back(genDamage(r, t == T_EXTRACT)); s.list["d9"] = dm;
    s.num["idx"] = r.chance(70); s.num["bits"] = r.range(1, 9); s.num["opt"] = r.below(16); s.num["N"] = r.chance(80) ? r.range(1, 40) : r.range(1, 100000);
    std::vector<std::string> ops; int no = (int)r.range(1, 20); std::vector<std::string> &rv = s.list["f0"];
    for (int i = 0; i < no; ++i) { H128 h = t < T_CONV && !rv.empty() && r.chance(60) ? h128FromHex(r.pick(rv).substr(0, 32)) : H128{r.next(), r.next()}; if (r.chance(20)) h.lo += r.below(3) - 1; if (r.chance(10)) h.hi = r.chance(50) ? ~0ull : 0; ops.push_back((r.chance(50) ? "b:" : "s:") + hex(h)); }
    s.list["ops"] = ops;
    Cfg a, b; randomSchedule(r, a, t == T_MERGE || t == T_CONV); randomSchedule(r, b, false); a.maxAcc = 2000000000;
    if (r.chance(20)) { a.faultMask = MASK_BENIGN; a.pFault = 100; } else if (r.chance(15)) { a.faultMask = M(F_READ_EIO) | M(F_OPEN_EMFILE) | MASK_BENIGN; a.pFault = (uint32_t)1 << r.range(3, 8); }
    std::string typed; int ni = (int)r.range(0, 4); for (int i = 0; i < ni; ++i) typed += genPassword(r) + "\n"; if (r.chance(15)) typed += strf("%c%c", (int)r.below(256), (int)r.below(256));
    if (t == T_LOOKUP || t == T_MLOOKUP) { if (!typed.empty()) { Key key; key.bytes = typed; key.when = r.chance(50); key.steps = r.below(20); a.keys.push_back(key); } a.keyEof = true; a.ttyLflag = 0x8a3b; a.tty = !r.chance(20); }
    if (t == T_MDRV || t == T_MLOOKUP) s.procs = {b, a}; else s.procs = {a};
    s.num["variants"] = 0;
  }
  void run(Scn &s, Ctx &c) override {
    int t = (int)s.n("tool"), nf = (int)s.n("files"); std::map<std::string, std::string> in; int64_t opt = s.n("opt"); std::string plain;
    auto file = [&](const std::string &name, std::string d, const std::string &dm) { for (auto &x : s.l(dm)) damage(d, x); in[name] = d; c.put(name, d); };
    auto db = [&](int f) { std::string d; for (auto &e : s.l(strf("f%d", f))) if (e.size() > 33) d += rec(h128FromHex(e.substr(0, 32)), (uint32_t)atol(e.c_str() + 33)); return d; };
    auto text = [&](int f) { return joinLines(s.l(strf("f%d", f)), true); };
    auto index = [&]() { uint64_t bits = (uint64_t)s.n("bits", 4); std::vector<uint64_t> w(1ull << bits, ~0ull); uint64_t pos = 0; for (auto &e : s.l("f0")) { if (e.size() <= 33) continue; uint64_t k = h128FromHex(e.substr(0, 32)).hi >> (64 - bits); if (w[k] == ~0ull) w[k] = pos; pos += 20; } return std::string((const char *)w.data(), w.size() * 8); };
    std::vector<std::string> a; bool idx = s.n("idx");
    switch (t) {
      case T_MERGE: for (int f = 0; f < nf; ++f) file(strf("in/%d.md5", f), db(f), strf("d%d", f)); c.put("tmpd/keep", ""); a = {"--src", "in", "--output", "out.md5", "--tmp", "tmp"}; c.put("tmp/keep", ""); if (opt & 1) { a.push_back("-n"); a.push_back("2"); } break;
      case T_INDEX: c.put("tmpd/keep", ""); file("db.md5", db(0), "d0"); a = {"-I", "db.md5", "-O", "db.idx", "-B", std::to_string(s.n("bits", 4))}; break;
      case T_INSP: file("db.md5", db(0), "d0"); a = {"db.md5", idx ? "db.idx" : "-"}; if (idx) file("db.idx", index(), "d9"); for (auto &o : s.l("ops")) a.push_back(o); break;
      case T_LOOKUP: c.put("tmpd/keep", ""); file("db.md5", db(0), "d0"); a = {"-I", "db.md5"}; if (idx) { file("db.idx", index(), "d9"); a.push_back("-X"); a.push_back("db.idx"); } break;
      case T_TESTSET: c.put("tmpd/keep", ""); file("db.md5", db(0), "d0"); a = {"-I", "db.md5", "-O", "set", "-N" + std::to_string(s.n("N", 1))}; if (opt & 1 && s.n("N") <= 60) a.push_back("--non-existent"); if (opt & 2) a.push_back("--test-urls"); break;
      case T_BE2LE: file("db.md5", db(0), "d0"); a = {"db.md5", "out.md5"}; break;
      case T_BENCH: file("db.md5", db(0), "d0"); file("set.md5", db(0), "d9"); a = {"-I", "db.md5", "-S", "set.md5", "-n", "2"}; if (opt & 1) { a.push_back("-A"); a.push_back("binsearch"); } else if (opt & 2) { std::string d = index(); for (auto &x : s.l("d9")) damage(d, x); c.put("db.idx", d); a.push_back("-X"); a.push_back("db.idx"); } break;
      case T_CONV: for (int f = 0; f < nf; ++f) file(strf("in/%d.txt", f), text(f), strf("d%d", f)); c.put("out/keep", ""); c.put("tmpd/keep", ""); a = {"--src", "in", "--dst", "out", "--ram", "1", "--threads", "5000"}; if (opt & 1) a.push_back("--auto-md5"); if (opt & 2) a.push_back("--auto-hex"); if (opt & 4) a.push_back("--force-md5"); if (opt & 8) a.push_back("--force-hex"); break;
      case T_EXTRACT: for (int f = 0; f < nf; ++f) file(strf("in/%d.txt", f), text(f), strf("d%d", f)); if (opt & 1) { std::string rd = "in/0.txt\nin/7.txt\n"; for (auto &x : s.l("d9")) damage(rd, x); c.put(".ready", rd); } a = {"-S", "in", "-O", "out.txt"}; if (opt & 2) a.push_back("-C"); break;
      case T_MGEN: file("in.txt", text(0), "d0"); a = {"-I", "in.txt", "-O", "m.mrkv"}; break;
      default: {
        c.put("in.txt", text(0)); ProcRes g = c.exec(s, "markovgen", {"-I", "in.txt", "-O", "m0.mrkv"}); std::string d; if (!g.success() || !c.get("m0.mrkv", d)) return; file("m.mrkv", d, "d9");
        if (t == T_MLOOKUP) a = {"m.mrkv"}; else { a = {"L:m.mrkv", "P:password", "P:a", "P:zzz"}; if (opt & 1) { a.push_back("L:m0.mrkv"); a.push_back("P:secret"); } if (opt & 2) { a.push_back("L:m.mrkv"); a.push_back("P:123"); } }
      }
    }
    ProcRes r = c.exec(s, toolNames[t], a); std::string who = strf("%s on damaged files", toolNames[t]);
    if (r.crashed()) return c.violation("crash", who + " crashes: " + r.describe());
    if (r.stuck()) return c.violation("hang", who + " never ends: " + r.describe());
    if (r.outcome == O_ABORT && !r.hardFaults) return c.violation("abort", who + " aborts: " + r.describe() + " " + safe(r.err.substr(0, 200)));
    if (t == T_MDRV && r.outcome == O_EXIT) for (auto &e : r.user) if (e[0] == 'X') return c.violation("abort", who + " throws instead of reporting an error: " + e);
    for (auto &f : in) { std::string d; if (!c.get(f.first, d) || d != f.second) return c.violation("altered-input", who + " alters its input " + f.first); }
    c.probe(std::string(toolNames[t]) + (r.success() ? "_accepted" : "_rejected"));
  }
};
static HarnessReg reg("damage", []() -> Harness * { return new Damage; });
