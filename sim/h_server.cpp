// pwned-server: S01 S02 S03 S04
#include "ref.hpp"
#include <algorithm>
#include <cstring>
#include <unistd.h>
using namespace sim;

static constexpr uint64_t SEC = 1000000000ull;
static std::string tok(char c, uint64_t n) { return std::string(" ") + c + std::to_string(n); }
// sends `data` in pieces with pauses; the sum of the pauses stays below `total`
static std::string pieces(Rng &r, const std::string &data, uint64_t total, bool slow) {
  std::string s; size_t n = r.chance(50) ? 1 : (size_t)r.range(2, 6); if (slow && n < 2) n = 2; uint64_t left = total;
  std::vector<size_t> cut; for (size_t i = 1; i < n; ++i) cut.push_back(r.below(data.size() + 1)); if (r.chance(20) && data.size() > 4) cut.push_back(data.size() - (size_t)r.range(1, 4)); cut.push_back(data.size()); std::sort(cut.begin(), cut.end());
  size_t o = 0; for (size_t e : cut) { if (e == o) continue; s += " S" + hexEnc(data.substr(o, e - o)); o = e; if (o == data.size()) break; uint64_t d = slow ? left / 2 + r.below(left / 2 + 1) : r.chance(50) ? r.below(1000) : r.below(2 * SEC); if (d > left) d = left; left -= d; s += tok('@', d); }
  return s;
}
struct Server : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"server", "index"}; }
  static std::string good(Rng &r, const std::vector<std::string> &recs, std::string &label, const std::string &P) {
    std::string req, extra; int k = (int)r.below(20);
    if (r.chance(60)) extra += "Host: localhost:31337\r\n"; if (r.chance(30)) extra += "User-Agent: sim/1.0\r\nAccept: */*\r\n"; if (r.chance(10)) extra += "X-Long: " + std::string((size_t)r.range(10, 1500), 'v') + "\r\n"; if (r.chance(15)) extra += "Connection: keep-alive\r\n";
    std::string ver = r.chance(85) ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n", tgt, meth = "GET";
    if (k < 15) {
      H128 h; if (!recs.empty() && r.chance(70)) h = h128FromHex(r.pick(recs).substr(0, 32)); else { h = H128{r.next(), r.next()}; if (!recs.empty() && r.chance(50)) { h = h128FromHex(r.pick(recs).substr(0, 32)); h.lo ^= 1; } }
      std::string x = hex(h); label = "L " + x; if (r.chance(30)) for (char &c : x) c = (char)toupper(c);
      tgt = "/v1/pwned/api/lookup?"; if (r.chance(10)) tgt += "a=b&"; tgt += "hash=" + x; if (r.chance(10)) tgt += "&z=1"; 
    } else if (k < 17) { label = "I"; tgt = "/v1/pwned/api/info"; }
    else if (k < 19) { label = "N"; tgt = r.pick(std::vector<std::string>{"/", "/v1/pwned/api", "/v1/pwned/api/lookup", "/v1/pwned/api/lookup?x=y", "/favicon.ico", "/v1/pwned/api/lookup?hash"}); }
    else { label = "M"; meth = r.pick(std::vector<std::string>{"POST", "PUT", "HEAD", "DELETE", "OPTIONS"}); tgt = "/v1/pwned/api/info"; if (meth == "HEAD") meth = "POST"; if (meth == "POST") extra += "Content-Length: 5\r\n"; }
    req = meth + " " + tgt + ver + extra + "\r\n"; if (meth == "POST") req += "abcde";
    (void)P; return req;
  }
  static std::string bad(Rng &r, const std::string &goodReq) {
    std::string s = " C"; uint64_t wait = 200 * SEC;
    if (r.chance(30)) s += tok('K', (uint64_t)r.range(1, 60));
    switch (r.below(12)) {
      case 0: s += tok(r.chance(50) ? '@' : 'E', r.below(130 * SEC)); break;                       // connects and stays silent
      case 1: s += pieces(r, goodReq.substr(0, r.below(goodReq.size())), 20 * SEC, false) + tok('@', r.below(70 * SEC)); break; // partial request
      case 2: s += tok('@', r.below(3000)); break;
      case 3: s += pieces(r, goodReq, 3 * SEC, false) + tok('@', r.below(300)); break;             // leaves when the request is out
      case 4: s += tok('K', (uint64_t)r.range(1, 100)) + " P" + pieces(r, goodReq, 3 * SEC, false) + tok('@', r.below(90 * SEC)); break; // does not read
      case 5: { std::string g; int n = (int)r.range(1, 300); for (int i = 0; i < n; ++i) g += (char)r.below(256); if (r.chance(50)) g += "\r\n\r\n"; s += pieces(r, g, SEC, false) + tok('W', wait); break; }
      case 6: { std::string q = "GET /v1/pwned/api/lookup?" + std::string((size_t)r.range(4000, 12000), 'q') + " HTTP/1.1\r\n\r\n"; s += pieces(r, q, SEC, false) + tok('W', wait); break; }
      case 7: { std::string t = r.pick(std::vector<std::string>{"/v1/pwned/api/lookup?hash=", "/v1/pwned/api/lookup?hash=xyz", "/v1/pwned/api/lookup?hash=" + std::string(31, 'a'), "/v1/pwned/api/lookup?hash=" + std::string(32, 'g'), "/v1/pwned/api/lookup?hash=1=2", "/v1/pwned/api/lookup?&&==&hash&hash=", "?", "??##", "/v1/pwned/api/lookup?hash=" + std::string(7000, 'f'), "*", "/v1/pwned/api/lookup?hash=%00#x#y"}); s += pieces(r, "GET " + t + " HTTP/1.1\r\n\r\n", SEC, false) + tok('W', wait); break; }
      case 8: s += pieces(r, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + std::string(r.chance(50) ? "5\r\nabcde\r\n0\r\n\r\n" : "ffffffffffffffff\r\n"), SEC, false) + tok('W', wait); break;
      case 9: s += pieces(r, "GET / HTTP/1.1\r\nContent-Length: " + std::string(r.chance(50) ? "99999999999" : "-1") + "\r\n\r\nxx", SEC, false) + tok('W', wait); break;
      case 10: s += pieces(r, goodReq + goodReq, 2 * SEC, false) + tok('W', wait); break;           // two requests at once
      case 11: s += pieces(r, goodReq, 2 * SEC, false) + " F" + tok('W', wait); break;              // half-close
    }
    switch (r.below(5)) { case 0: s += " R"; break; case 1: case 2: s += " X"; break; case 3: s += " F" + tok('@', r.below(SEC)); break; default: break; } // reset, close, half-close, vanish
    return s;
  }
  static std::string fresh(Rng &r) { // differs each time in what stands for the tilde
    std::string d; for (int i = 0; i < 24; ++i) d += "0123456789abcdef"[r.below(16)];
    return r.pick(std::vector<std::string>{"GET /v1/pwned/api/lookup?hash=~" + d + " HTTP/1.1\r\nHost: a\r\n\r\n", "GET /v1/pwned/api/lookup?hash=" + d + "~ HTTP/1.1\r\nHost: a\r\n\r\n", "GET /~ HTTP/1.1\r\nHost: a\r\n\r\n", "GET /v1/pwned/api/info?~=~ HTTP/1.1\r\nHost: a\r\n\r\n", "GET /v1/pwned/api/info HTTP/1.1\r\nHost: ~\r\nUser-Agent: ~\r\nCookie: id=~\r\n\r\n", "~ / HTTP/1.1\r\n\r\n"});
  }
  void genLong(Rng &r, Scn &s) { // S05: the same traffic several times, and after each time a look at what the service still holds
    std::vector<std::string> v; std::map<H128, uint32_t> m; int n = (int)r.range(0, 40); for (int i = 0; i < n; ++i) m[H128{r.next(), r.next()}] = (uint32_t)r.range(1, 1000); for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); s.list["recs"] = v;
    s.num["W"] = r.pick(std::vector<int>{1, 1, 1, 2, 3}); s.num["T"] = r.pick(std::vector<int>{1, 1, 2, 3}); s.num["bits"] = r.chance(30) ? r.range(1, 5) : 0; s.num["v"] = r.chance(15); s.num["variants"] = 0;
    bool soak = r.chance(6); // thousands of connections: what is kept of each may be only a few bytes
    int K = (int)r.range(1, soak ? 3 : 5), R = (int)r.range(soak ? 1 : 3, soak ? 6 : 25), pBad = r.chance(30) ? 0 : r.chance(50) ? 20 : 60; uint64_t N = 1, PH, spread = r.pick(std::vector<uint64_t>{1, 2000, SEC}); std::vector<std::string> net;
    const int kinds = (int)r.range(1, 6); std::vector<uint64_t> seeds; for (int i = 0; i < kinds; ++i) seeds.push_back(r.next()); // few different connections, repeated
    std::vector<std::string> all; uint64_t cost = 0;
    for (int k = 0; k < K; ++k) {
      std::string once; for (int i = 0; i < R; ++i) { Rng q(r.pick(seeds)); std::string l, g = good(q, v, l, s.prop); if (q.chance(30)) once += " C O" + hexEnc(fresh(q)) + tok('W', 100000 * SEC) + " X"; else if (q.chance(pBad)) once += bad(q, g); else once += " C" + pieces(q, g, 3 * SEC, false) + tok('W', 100000 * SEC) + (q.chance(80) ? " X" : ""); }
      cost += 280 * (uint64_t)R + 12 * (uint64_t)std::count(once.begin(), once.end(), ' '); all.push_back(once);
    }
    if (soak) N = std::max<uint64_t>(2, r.range(100000, 600000) / cost);
    PH = 340 * SEC * (uint64_t)(K * R) * N + 700 * SEC;
    for (auto &once : all) {
      std::string x; for (uint64_t p = 0; p < 4; ++p) x += tok('T', SEC + p * PH + r.below(spread)) + (soak ? " A" + once + tok('J', N) : once); net.push_back("B|" + x.substr(1));
    }
    std::string x; for (uint64_t p = 0; p < 4; ++p) x += tok('T', (p + 1) * PH) + " H"; net.push_back("B|" + x.substr(1));
    for (int i = 0; i < s.n("W"); ++i) { std::string l, q = good(r, v, l, s.prop); net.push_back(l + " final|G" + tok('@', 61 * SEC) + " C S" + hexEnc(q) + tok('W', 40 * SEC) + " X"); }
    Cfg c; randomSchedule(r, c, true); c.pSpurious = 0; c.accGap = 0; c.maxSteps = 60000000; c.maxAcc = 6000000000ull; c.net = net; if (r.chance(15)) { c.faultMask = M(F_ACCEPT_EMFILE); c.pFault = 50; } if (s.n("bits")) { Cfg ci; s.procs.push_back(ci); } s.procs.push_back(c); s.num["conns"] = (int64_t)((uint64_t)(K * R) * N); s.num["soak"] = soak;
  }
  void gen(Rng &r, Scn &s) override {
    const std::string &P = s.prop; if (P == "S05") return genLong(r, s);
    std::map<H128, uint32_t> m; int n = r.chance(10) ? (int)r.below(2) : (int)r.range(2, r.chance(70) ? 30 : 400); for (int i = 0; i < n; ++i) m[H128{r.next(), r.next()}] = (uint32_t)r.range(1, r.chance(90) ? 1000 : 0xffffffffll);
    std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); s.list["recs"] = v;
    int W = (int)r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 6}), T = (int)r.pick(std::vector<int>{1, 1, 2, 2, 3, 4}); s.num["W"] = W; s.num["T"] = T; s.num["bits"] = r.chance(50) ? r.range(1, 8) : 0; s.num["v"] = r.chance(30) ? (int64_t)r.range(1, 2) : 0;
    Cfg c; randomSchedule(r, c, true); c.pSpurious = 0;
    if (P == "S01" && r.chance(8)) { c.huge = genHuge(r); s.num["huge"] = 1; s.num["bits"] = 0; for (auto &e : v) e = hex(genHugeHash(r, c.huge)) + " 1"; s.list["recs"] = v; } // a database of some gigabytes
    int nGood = (int)r.range(P == "S01" ? 3 : 1, P == "S01" ? 16 : 8), nBad = P == "S01" ? (r.chance(30) ? (int)r.range(1, 3) : 0) : P == "S02" ? (int)r.range(1, 10) : (int)r.below(P == "S04" ? 3 : 5);
    uint64_t spread = r.pick(std::vector<uint64_t>{1, 1, 2000, 200000, 3 * SEC, 100 * SEC}); std::vector<std::string> net; std::string label;
    for (int i = 0; i < nGood + nBad; ++i) {
      bool isBad = i >= nGood; std::string l, q = good(r, v, l, P), t = tok('T', SEC + 1000000 + r.below(spread));
      if (isBad) { std::string b = bad(r, q); net.push_back("B|" + t.substr(1) + b); continue; }
      bool slow = P != "S01" && r.chance(35);
      std::string x = t.substr(1) + " C"; if (r.chance(30)) x += tok('K', (uint64_t)r.range(16, 300)); if (r.chance(30)) x += tok('Z', r.chance(50) ? r.below(10000) : r.below(SEC / 10));
      x += pieces(r, q, slow ? 50 * SEC : 3 * SEC, slow); x += tok('W', 61 * SEC * (uint64_t)(nGood + nBad) + 100 * SEC) + (r.chance(80) ? " X" : "");
      net.push_back(l + "|" + x);
    }
    for (size_t i = net.size(); i > 1; --i) std::swap(net[i - 1], net[r.below(i)]);
    if (P != "S01" || r.chance(30)) { // afterwards every worker has to be there again
      uint64_t rest = 61 * SEC * (uint64_t)(nGood + nBad + 1);
      for (int i = 0; i < W; ++i) { std::string l, q = good(r, v, l, P); size_t half = 1 + r.below(q.size() - 1); net.push_back(l + " final|G" + tok('@', rest) + " C S" + hexEnc(q.substr(0, half)) + tok('@', 5 * SEC) + " S" + hexEnc(q.substr(half)) + tok('W', 40 * SEC) + " X"); }
    }
    c.net = net;
    if (P == "S02" && r.chance(20)) { c.faultMask = M(F_ACCEPT_EMFILE); c.pFault = (uint32_t)r.pick(std::vector<int>{10, 100, 400}); }
    if (P == "S03" && r.chance(35)) { c.faultMask = M(F_READ_EIO) | M(F_READ_SHORT) | M(F_READ_EINTR); c.pFault = (uint32_t)1 << r.range(3, 9); c.pSticky = r.chance(20) ? 200 : 0; }
    if (P == "S04") { // record file or index damaged
      std::vector<std::string> d0, d9; int k = (int)r.range(1, 4); if (!s.n("bits") || r.chance(50)) for (int i = 0; i < k; ++i) d0.push_back(genDamage(r, false)); if (s.n("bits") && (d0.empty() || r.chance(60))) for (int i = 0; i < k; ++i) d9.push_back(genDamage(r, false));
      s.list["d0"] = d0; s.list["d9"] = d9; if (r.chance(10)) s.num["gone"] = r.range(1, 3);
    }
    if (s.n("bits")) { Cfg ci; randomSchedule(r, ci, false); s.procs.push_back(ci); }
    s.procs.push_back(c);
    s.num["variants"] = P != "S01" && P != "S04";
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.size() != b.procs.size()) return; std::vector<uint64_t> acc, other;
    for (auto &u : res.back().user) { int i; unsigned long t; if (sscanf(u.c_str(), "acc %d %lu", &i, &t) == 2) acc.push_back(t); else if (sscanf(u.c_str(), "%*s %d %lu", &i, &t) == 2) other.push_back(t); }
    if (acc.empty()) return;
    for (int i = 0; i < 4; ++i) { // clients that arrive or act just when something else happens, above all around the request timeout
      Scn s = b; Cfg &c = s.procs.back(); c.seed = r.next(); s.num["variants"] = 0; std::vector<std::string> v = s.l("recs");
      int n = (int)r.range(1, 3);
      for (int k = 0; k < n; ++k) {
        uint64_t t = r.chance(60) ? r.pick(acc) + 60 * SEC : other.empty() ? r.pick(acc) : r.pick(other); int64_t j = (int64_t)r.below(1ull << r.below(19)); t = t + (uint64_t)(r.chance(50) ? j : -j);
        std::string l, q = good(r, v, l, b.prop); bool isBad = b.prop == "S02" && r.chance(50);
        if (isBad) c.net.insert(c.net.begin(), "B|T" + std::to_string(t) + bad(r, q));
        else { uint64_t before = r.chance(50) ? 0 : r.below(50 * SEC); if (before + SEC > t) before = 0; // connect earlier, finish the request then
          size_t half = 1 + r.below(q.size() - 1); c.net.insert(c.net.begin(), l + "|T" + std::to_string(t - before) + " C S" + hexEnc(q.substr(0, half)) + tok('T', t) + " S" + hexEnc(q.substr(half)) + tok('W', 61 * SEC * 30) + " X"); }
      }
      out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const std::string &P = s.prop; std::map<H128, uint32_t> m; std::string db;
    for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10);
    for (auto &e : m) db += rec(e.first, e.second);
    bool huge = s.n("huge"); const Huge hg = s.procs.back().huge; if (huge) { c.putHuge(hg); c.probe("huge_databases"); } uint64_t all = huge ? hg.n : m.size();
    c.put("db.md5", db); c.put("tmpd/keep", ""); std::vector<std::string> a{"-I", huge ? "huge.md5" : "db.md5", "-W", std::to_string(s.n("W")), "-T", std::to_string(s.n("T"))};
    if (s.n("bits")) { ProcRes r = c.exec(s, "index", {"-I", "db.md5", "-O", "db.idx", "-B", std::to_string(s.n("bits"))}); if (!r.success()) return c.violation("index-failed", "building the index failed: " + r.describe()); a.push_back("-X"); a.push_back("db.idx"); }
    for (int i = 0; i < s.n("v"); ++i) a.push_back("-v");
    bool dmg = P == "S04", started = false; std::string ix;
    if (dmg) { for (auto &x : s.l("d0")) damage(db, x); c.put("db.md5", db); if (s.n("bits") && c.get("db.idx", ix)) { for (auto &x : s.l("d9")) damage(ix, x); c.put("db.idx", ix); } if (s.n("gone") & 1) unlink((c.scratch + "/db.md5").c_str()); if (s.n("gone") & 2 && s.n("bits")) unlink((c.scratch + "/db.idx").c_str()); }
    ProcRes &r = c.exec(s, "server", a); const Cfg &cf = s.procs[c.res.size() - 1]; const auto &net = cf.net;
    bool faulty = r.hardFaults > 0;
    if (r.outcome == O_INTERNAL) return;
    if (r.crashed()) return c.violation("crash", "the service crashed: " + r.describe());
    if (r.outcome == O_LIVELOCK) return c.violation("livelock", "the service spins without end: " + r.describe());
    for (auto &u : r.user) if (u.compare(0, 4, "acc ") == 0) started = true;
    if (dmg && !started && r.outcome == O_EXIT && !r.success()) return c.probe("service_refuses_to_start");
    if (dmg) { std::string d; if (!(s.n("gone") & 1) && (!c.get("db.md5", d) || d != db)) return c.violation("altered-input", "the record file was altered"); if (s.n("bits") && !(s.n("gone") & 2) && (!c.get("db.idx", d) || d != ix)) return c.violation("altered-input", "the index file was altered"); }
    if (r.outcome != O_SERVED) return c.violation("service-down", "the service ended: " + r.describe() + " " + safe(r.err.substr(0, 300)));
    if (P == "S05") {
      std::vector<unsigned long> heap, bl; unsigned long t, h, b; int k, open; for (auto &u : r.user) if (sscanf(u.c_str(), "heap %d %lu %lu %lu %d", &k, &t, &h, &b, &open) == 5) { heap.push_back(h); bl.push_back(b); if (open) return c.violation("connection-kept", strf("%d connections are still open long after their clients have been served or given up", open)); }
      if (heap.size() == 4) { c.probe("long_runs"); if (s.n("soak")) c.probe("long_runs_of_thousands"); 
        long least = std::min({(long)(bl[1] - bl[0]), (long)(bl[2] - bl[1]), (long)(bl[3] - bl[2])}), grown = (long)(heap[3] - heap[0]); // the buffer of a worker may grow once or twice, and what is kept for later use varies by a few blocks
        if (least >= 5 || grown > (s.n("soak") ? 8000 + 8000 * s.n("W") : 14000 + 12000 * s.n("W"))) return c.violation("memory-kept", strf("after the same %ld connections once, twice, three and four times the service holds %lu, %lu, %lu and %lu blocks of memory (%lu, %lu, %lu and %lu bytes)", (long)s.n("conns"), bl[0], bl[1], bl[2], bl[3], heap[0], heap[1], heap[2], heap[3])); }
    }
    struct CL { uint64_t conn = 0, acc = 0, close = 0, resp = 0, end = 0; bool hasAcc = false, rst = false, wto = false, respd = false, ended = false, closed = false; std::string got; };
    std::vector<CL> cl(net.size()); uint64_t last = 0;
    for (auto &u : r.user) {
      char w[16]; int i; unsigned long t; if (sscanf(u.c_str(), "%15s %d", w, &i) != 2 || i < 0 || i >= (int)cl.size()) continue; std::string k = w;
      if (k == "got") { size_t p = u.find(' ', 4); cl[i].got = hexDec(u.substr(p + 1)); continue; }
      if (sscanf(u.c_str(), "%*s %*d %lu", &t) != 1) continue; last = std::max<uint64_t>(last, t); CL &x = cl[i];
      if (k == "conn") x.conn = t; else if (k == "acc") { x.acc = t; x.hasAcc = true; x.closed = false; } else if (k == "resp") { x.resp = t; x.respd = true; } else if (k == "wto") x.wto = true; else if (k == "end") { x.end = t; x.ended = true; x.rst = u.find("rst") != std::string::npos; }
      else if (k == "close") { x.close = t; x.closed = true; if (t - x.acc > 62 * SEC && c.judges("worker-occupied")) return c.violation("worker-occupied", strf("client %d (%s) occupied a worker for %.3f s", i, lab(net[i]).c_str(), double(t - x.acc) / 1e9)); }
    }
    for (size_t i = 0; i < cl.size(); ++i) if (cl[i].hasAcc && !cl[i].closed && last - cl[i].acc > 63 * SEC && c.judges("worker-occupied")) return c.violation("worker-occupied", strf("client %zu (%s) still occupies a worker %.3f s after it was accepted", i, lab(net[i]).c_str(), double(last - cl[i].acc) / 1e9));
    for (size_t i = 0; i < cl.size(); ++i) {
      CL &x = cl[i]; std::string l = lab(net[i]); if (l == "B") { c.probe("misbehaving_clients"); continue; }
      std::string who = strf("client %zu (%s)", i, l.c_str());
      bool fin = l.size() > 6 && l.substr(l.size() - 6) == " final";
      if (fin) { l = l.substr(0, l.size() - 6); if (!x.hasAcc || x.acc - x.conn > SEC) { c.violation("worker-lost", who + strf(": with %ld workers and no other client this connection was not accepted at once", (long)s.n("W"))); if (c.v.bad) return; continue; } }
      if (!x.respd) { c.violation(x.ended && !(fin && s.prop == "S02") ? "cut-off" : "not-served", who + ": " + (x.ended ? strf("the connection was %s %.6f s after it was accepted", x.rst ? "reset" : "closed", double(x.end - x.acc) / 1e9) : std::string("no response ever came")) + " with " + strf("%zu bytes received: ", x.got.size()) + safe(x.got.substr(0, 120))); if (c.v.bad) return; continue; }
      // exactly one valid response
      size_t h = x.got.find("\r\n\r\n"); int status = 0; if (sscanf(x.got.c_str(), "HTTP/1.%*d %d", &status) != 1 || status < 100 || status > 599) { c.violation("invalid-response", who + ": " + safe(x.got.substr(0, 100))); if (c.v.bad) return; continue; }
      std::string head = x.got.substr(0, h); for (char &ch : head) ch = (char)tolower(ch); size_t p = head.find("\r\ncontent-length:"); size_t len = p == std::string::npos ? 0 : strtoul(head.c_str() + p + 17, nullptr, 10); std::string body = x.got.substr(h + 4);
      if (body.size() != len) { c.violation("invalid-response", who + strf(": Content-Length %zu, body of %zu bytes", len, body.size())); if (c.v.bad) return; continue; }
      c.probe("well_behaved_served");
      if (l[0] == 'L' || l[0] == 'I') {
        if (status != 200) { if (status >= 500 && (faulty || dmg)) { c.probe("answered_with_error_status"); continue; } { c.violation("wrong-status", who + strf(": status %d", status)); if (c.v.bad) return; continue; } }
        if (l[0] == 'I') { uint64_t n; if (!num(body, "count", n) || (n != all && !dmg)) { c.violation("wrong-answer", who + ": there are " + std::to_string(all) + " records, the answer is " + safe(body)); if (c.v.bad) return; continue; } continue; }
        H128 q = h128FromHex(l.substr(2)); auto it = m.find(q); uint64_t want = it == m.end() ? 0 : it->second, got; if (huge) { uint32_t n = 0; hugeFind(hg, q, &n); want = n; } std::string bl = body; for (char &ch : bl) ch = (char)tolower(ch);
        if (bl.find("\"" + hex(q) + "\"") == std::string::npos) { c.violation("wrong-client", who + ": the answer is about another hash: " + safe(body)); if (c.v.bad) return; continue; }
        if (!num(body, "found", got) || (got != want && !dmg)) { c.violation("wrong-answer", who + strf(": the count is %lu, the answer is ", (unsigned long)want) + safe(body)); if (c.v.bad) return; continue; }
      } else if (l[0] == 'N' && status != 404 && status != 400) { c.violation("wrong-status", who + strf(": status %d", status)); if (c.v.bad) return; continue; }
      else if (l[0] == 'M' && (status < 400 || status > 499) && status != 501) { c.violation("wrong-status", who + strf(": status %d", status)); if (c.v.bad) return; continue; }
    }
    (void)P;
  }
  static std::string lab(const std::string &n) { return n.substr(0, n.find('|')); }
  static bool num(const std::string &b, const char *k, uint64_t &v) { size_t p = b.find(std::string("\"") + k + "\""); if (p == std::string::npos) return false; p = b.find(':', p); if (p == std::string::npos) return false; const char *q = b.c_str() + p + 1; while (*q == ' ' || *q == '"') ++q; if (!isdigit((unsigned char)*q)) return false; v = strtoull(q, nullptr, 10); return true; }
};
static HarnessReg reg("server", []() -> Harness * { return new Server; });
