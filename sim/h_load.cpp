// pwned-server/loadtest: V01
#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace sim;

static constexpr uint64_t SEC = 1000000000ull, MS = 1000000ull;
static std::string tok(char c, uint64_t n) { return std::string(" ") + c + std::to_string(n); }
struct Load : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"loadtest"}; }
  static std::string head(Rng &r, size_t len, int status = 200) {
    std::string h = "HTTP/1.1 " + std::to_string(status) + " OK\r\nServer: sim\r\nContent-Type: application/json\r\n"; if (r.chance(30)) h += "Date: Thu, 01 Jan 1970 00:00:00 GMT\r\nX-Filler: " + std::string((size_t)r.below(300), 'x') + "\r\n"; if (r.chance(30)) h += "Connection: close\r\n";
    return h + "Content-Length: " + std::to_string(len) + "\r\n\r\n";
  }
  static std::string body(Rng &r) { std::string h = hex(H128{r.next(), r.next()}); return r.chance(10) ? "{\"count\":" + std::to_string(r.below(100)) + "}" : "{\"hash\":\"" + h + "\",\"found\":" + std::to_string(r.below(1000)) + ",\"lookup-ms\":" + std::to_string(double(r.below(1000)) / 1e3) + "}" + (r.chance(50) ? "\n" : ""); }
  static std::string pieces(Rng &r, const std::string &d, uint64_t total) {
    std::string s; size_t n = r.chance(60) ? 1 : (size_t)r.range(2, 5); std::vector<size_t> cut; for (size_t i = 1; i < n; ++i) cut.push_back(r.below(d.size() + 1)); cut.push_back(d.size()); std::sort(cut.begin(), cut.end());
    size_t o = 0; for (size_t e : cut) { if (e == o) continue; s += " S" + hexEnc(d.substr(o, e - o)); o = e; if (o == d.size()) break; uint64_t x = r.below(total / n + 1); s += tok('@', x); }
    return s;
  }
  // a server that answers properly within `total`
  static std::string good(Rng &r, uint64_t think, uint64_t total) {
    std::string b = body(r), s = tok('D', r.chance(50) ? r.below(1000) : r.below(20 * MS)); if (r.chance(20)) s += tok('K', (uint64_t)r.range(16, 100)) + tok('Y', (uint64_t)r.range(8, 64)) + tok('Z', r.below(MS));
    s += tok('Q', 40 * SEC) + tok('@', think) + pieces(r, head(r, b.size(), r.chance(90) ? 200 : r.chance(50) ? 503 : 404) + b, total) + " M"; if (r.chance(30)) s += " F"; s += tok('E', 40 * SEC) + " X";
    return "srv|G" + s;
  }
  static std::string odd(Rng &r) {
    std::string b = body(r), h = head(r, b.size()), D = tok('D', r.below(20 * MS)), Q = D + tok('Q', 40 * SEC) + tok('@', r.below(200 * MS)), E = tok('E', 100 * SEC) + " X"; auto S = [](const std::string &x) { return " S" + hexEnc(x); };
    auto end = [&] { return r.chance(30) ? std::string(" R") : r.chance(50) ? " X" : tok('E', 100 * SEC) + " X"; };
    switch (r.below(18)) {
      case 0: return "srv|N" + tok('N', r.below(3 * SEC));                                   // refused
      case 1: return "srv|N V0";                                                             // no answer to the connection at all
      case 2: return "srv|N" + D + tok('@', r.below(SEC)) + (r.chance(50) ? " R" : " X");       // gone before or while the request is sent
      case 3: return "srv|N" + Q + (r.chance(50) ? " R" : " X");                              // gone after the request
      case 4: return "srv|N" + Q + S((h + b).substr(0, r.below(h.size() + b.size()))) + end(); // part of a response
      case 5: return "srv|N" + Q + tok('@', 100 * SEC) + " X";                                // never answers
      case 6: { std::string g; for (int i = (int)r.range(1, 200); i > 0; --i) g += (char)r.below(256); return "srv|N" + Q + S(g + "\r\n\r\n") + end(); }
      case 7: { std::string x = r.pick(std::vector<std::string>{"", "no json", "{", "{\"a\":}", "[1,2", "\"", std::string(1, 0), "{\"a\":1}}"}); return "srv|" + std::string(x == "{\"a\":1}}" ? "A" : "N") + Q + S(head(r, x.size()) + x) + E; }
      case 8: return "srv|A" + Q + S("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + b) + " X"; // body up to the end of the connection
      case 9: { char l[16]; snprintf(l, sizeof l, "%zx", b.size()); return "srv|A" + Q + S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + std::string(l) + "\r\n" + b + "\r\n0\r\n\r\n") + E; }
      case 10: return "srv|G" + Q + S(h + b + h + b) + " M" + E;                               // more than was asked for
      case 11: return "srv|G" + Q + S(h + b + "garbage") + " M" + E;
      case 12: return "srv|A" + D + S(h + b) + tok('Q', 40 * SEC) + E;                         // an answer before the question
      case 13: { std::string s = "srv|A" + Q; for (char ch : h + b) s += S(std::string(1, ch)) + tok('@', r.below(2) * 300 * MS); return s + E; } // drop by drop, over the time limit
      case 14: { uint64_t t = 30 * SEC; int64_t j = (int64_t)r.below(1ull << r.below(24)); return "srv|A" + D + tok('Q', 40 * SEC) + tok('@', r.chance(50) ? t + (uint64_t)j : t - (uint64_t)j) + S(h + b) + E; } // just at the time limit
      case 15: return "srv|A" + Q + S(h + b) + " R";                                           // reset directly behind the response
      case 16: return "srv|N" + Q + S("HTTP/1.1 200 OK\r\nContent-Length: " + std::string(r.chance(50) ? "99999999999" : "-5") + "\r\n\r\n" + b) + end();
      default: return "srv|A" + Q + S("HTTP/1.1 100 Continue\r\n\r\n") + S(h + b) + E;
    }
  }
  void gen(Rng &r, Scn &s) override {
    std::map<H128, uint32_t> m; int n = r.chance(8) ? 0 : (int)r.range(1, r.chance(70) ? 20 : 300); for (int i = 0; i < n; ++i) m[H128{r.next(), r.next()}] = (uint32_t)r.range(1, 1000);
    std::vector<std::string> v; for (auto &e : m) v.push_back(hex(e.first) + " " + std::to_string(e.second)); s.list["recs"] = v;
    s.num["tail"] = r.chance(5) ? r.range(1, 19) : 0; s.num["nofile"] = r.chance(4);
    int W = (int)r.pick(std::vector<int>{1, 1, 2, 3, 4, 6}), T = (int)r.pick(std::vector<int>{0, 1, 1, 2, 3, 4}); s.num["W"] = W; s.num["T"] = T; s.num["secs"] = r.range(1, 2); s.num["path"] = r.below(3);
    Cfg c; randomSchedule(r, c, true); c.pSpurious = 0; c.maxSteps = 1500000; std::vector<std::string> net;
    int hostile = r.chance(45) ? 0 : r.chance(60) ? 15 : 60; int k = (int)r.range(1, 6); uint64_t base = r.chance(20) ? 3 * SEC : r.chance(50) ? 300 * MS : 100 * MS;
    for (int i = 0; i < k; ++i) net.push_back(r.chance(hostile) ? odd(r) : good(r, base / 4 + r.below(base), base / 2));
    if (r.chance(30)) net.push_back(r.pick(std::vector<std::string>{"dns|ok 50000000", "dns|ok 2000000000", "dns|two 0", "dns|two 1000000"})); else if (r.chance(3)) net.push_back(r.chance(50) ? "dns|fail 1000" : "dns|none 0");
    c.net = net; if (r.chance(15)) { c.faultMask = M(F_READ_EIO) | MASK_BENIGN; c.pFault = (uint32_t)1 << r.range(2, 7); c.pSticky = r.chance(50) ? 300 : 0; } else if (r.chance(30)) { c.faultMask = M(F_READ_SHORT) | M(F_READ_EINTR); c.pFault = (uint32_t)1 << r.range(3, 8); }
    s.procs.push_back(c);
  }
  void run(Scn &s, Ctx &c) override {
    std::set<std::string> known; std::map<H128, uint32_t> m; std::string db; for (auto &e : s.l("recs")) m[h128FromHex(e.substr(0, 32))] = (uint32_t)strtoull(e.c_str() + 33, nullptr, 10); for (auto &e : m) { db += rec(e.first, e.second); known.insert(hex(e.first)); }
    bool tail = s.n("tail"), nofile = s.n("nofile"); if (tail) db += std::string((size_t)s.n("tail"), 'q');
    if (!nofile) c.put("db.md5", db); c.put("keep", ""); uint64_t W = (uint64_t)s.n("W"), secs = (uint64_t)s.n("secs");
    static const char *paths[] = {"/v1/pwned/api/lookup", "/", "/a/b-c/lookup.json"}; std::string path = paths[s.n("path")];
    ProcRes &r = c.exec(s, "loadtest", {"-I", "db.md5", "-A", "http://localhost:31337" + path, "--secs", std::to_string(secs), "-W", std::to_string(W), "-T", std::to_string(s.n("T"))});
    if (r.outcome == O_INTERNAL) return; const auto &net = s.procs[c.res.size() - 1].net;
    if (r.crashed()) return c.violation("crash", "the load tester crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "the load tester never ends: " + r.describe());
    if (r.outcome == O_ABORT) return c.violation("abort", "aborted: " + r.describe() + " " + safe(r.err.substr(0, 200)));
    std::string d; if (!nofile && (!c.get("db.md5", d) || d != db)) return c.violation("altered-input", "the input file was altered");
    std::vector<std::string> scripts; bool allGood = true, dnsBad = false; uint64_t dnsTime = 0;
    for (auto &e : net) { if (e.compare(0, 3, "dns") == 0) { dnsBad = e.find("fail") != std::string::npos || e.find("none") != std::string::npos; const char *p = strrchr(e.c_str(), ' '); dnsTime = p ? strtoull(p + 1, nullptr, 10) : 0; } else { scripts.push_back(e.substr(e.find('|') + 1)); if (scripts.back()[0] != 'G') allGood = false; } }
    struct CN { uint64_t conn = 0, est = 0, req = 0, full = 0, close = 0, sent = 0; bool hasReq = false, hasFull = false, hasClose = false, hasSent = false; }; std::vector<CN> cn; uint64_t last = 0, resolves = 0, resolveEnd = 0;
    for (auto &u : r.user) {
      char w[16]; unsigned i; unsigned long t; if (sscanf(u.c_str(), "%15s %u %lu", w, &i, &t) != 3) continue; std::string k = w; last = std::max<uint64_t>(last, t); if (k == "resolve") { ++resolves; continue; } if (k == "resolved") { resolveEnd = t; continue; }
      if (k == "conn") { if (cn.size() <= i) cn.resize(i + 1); cn[i].conn = t; } if (i >= cn.size()) continue; CN &x = cn[i];
      if (k == "est") x.est = t; else if (k == "full") { x.full = t; x.hasFull = true; } else if (k == "close") { x.close = t; x.hasClose = true; } else if (k == "sent") { x.sent = t; x.hasSent = true; }
      else if (k == "req") {
        if (x.hasReq) return c.violation("wrong-request", strf("two requests on connection %u", i)); x.req = t; x.hasReq = true; size_t p = u.rfind(' '); std::string q = hexDec(u.substr(p + 1)); std::string first = q.substr(0, q.find("\r\n"));
        std::string pre = "GET " + path + "?hash="; std::string h = first.size() >= pre.size() + 32 ? first.substr(pre.size(), 32) : ""; for (char &ch : h) ch = (char)tolower(ch);
        if (first.compare(0, pre.size(), pre) || first.substr(std::min(first.size(), pre.size() + 32)) != " HTTP/1.1" || !known.count(h)) return c.violation("wrong-request", "not a look-up of a hash of the input file: " + safe(q.substr(0, 200)));
        std::string lq = q; for (char &ch : lq) ch = (char)tolower(ch); if (lq.find("\r\nhost: localhost") == std::string::npos) return c.violation("wrong-request", "no host: " + safe(q.substr(0, 200)));
      }
    }
    (void)resolveEnd; (void)resolves; c.probe("connections"); for (size_t i = 1; i < cn.size(); ++i) if (i % 50 == 0) c.probe("connections_50");
    uint64_t start = cn.empty() ? 0 : cn[0].conn; for (auto &x : cn) start = std::min(start, x.conn);
    if (last > start + (secs + 62 + 1) * SEC + dnsTime * (resolves + 1)) return c.violation("late", strf("asked to run for %lu s, the load tester had connections for %.3f s", (unsigned long)secs, double(last - start) / 1e9));
    bool hard = r.hardFaults > 0;
    if (nofile) { if (r.success()) c.violation("missing-accepted", "success is reported although the input file is missing"); return; }
    size_t p = r.out.rfind('\r'); long long cnt = -1; double rt = -1, rate = -1; if (p != std::string::npos) sscanf(r.out.c_str() + p + 1, "%lld requests in %lf seconds (%lf reqs/sec)", &cnt, &rt, &rate);
    if (!r.success() || cnt < 0) { if (hard || db.empty()) { if (!r.success()) { c.probe("failure_reported"); return; } } return c.violation("failed", (r.success() ? "no result is reported: " : "nothing failed, but: ") + r.describe() + " " + safe(r.err.substr(0, 200)) + safe(p == std::string::npos ? "" : r.out.substr(p, 200))); }
    uint64_t lo = 0, hi = 0; std::vector<double> sure; double maxPossible = 0; uint64_t cycle = 0;
    for (size_t i = 0; i < cn.size(); ++i) {
      CN &x = cn[i]; char l = scripts.empty() ? 'N' : scripts[i % scripts.size()][0]; uint64_t e = x.hasClose ? x.close : last; cycle = std::max(cycle, e - x.conn);
      if (l == 'A' && x.hasSent) ++hi;
      if (l == 'G' && x.hasFull) { ++hi; if (x.full - x.est < 29 * SEC) { ++lo; sure.push_back(double(x.full - x.conn)); } }
      maxPossible = std::max(maxPossible, double(e - x.conn) + double(dnsTime) * 2 + 1e9);
    }
    c.probe(allGood ? "all_answered" : "hostile"); if (hi) c.probe("counted");
    if ((uint64_t)cnt < lo || (uint64_t)cnt > hi) return c.violation("wrong-count", strf("%lld requests are reported; %lu to %lu of %zu connections were answered", cnt, (unsigned long)lo, (unsigned long)hi, cn.size()));
    if (allGood && !hard && !dnsBad && !tail && !db.empty()) { // everybody works until the time is over
      if (cn.size() < W) return c.violation("idle-worker", strf("%lu workers, %zu connections", (unsigned long)W, cn.size()));
      uint64_t first = dnsTime * W + 100 * MS, per = cycle + 100 * MS; uint64_t least = secs * SEC > first ? W * ((secs * SEC - first) / per) : 0; if (least < W) least = W;
      if (cn.size() < least) return c.violation("idle-worker", strf("%lu workers, no request took longer than %.3f s, and in %lu s there were only %zu connections", (unsigned long)W, double(cycle) / 1e9, (unsigned long)secs, cn.size()));
      if (rt < double(secs) - 0.001) return c.violation("wrong-figures", strf("asked to run for %lu s, %f s are reported", (unsigned long)secs, rt));
      c.probe("full_load");
    }
    if (cnt > 0 && (rt <= 0 || rt > double(last) / 1e9 + 1 || std::fabs(rate - double(cnt) / rt) > 1e-3 * rate)) return c.violation("wrong-figures", strf("%lld requests, %f seconds, %f reqs/sec", cnt, rt, rate));
    if (cnt > 0) {
      double v[4]; static const char *nm[] = {"min RTT", "max RTT", "avg RTT", "median RTT"}; 
      for (int i = 0; i < 4; ++i) { size_t q = r.out.find(nm[i], p), k = q == std::string::npos ? q : r.out.find(':', q); if (k == std::string::npos) return c.violation("wrong-figures", std::string("no ") + nm[i]); v[i] = strtod(r.out.c_str() + k + 1, nullptr) * 1e6; }
      double e = 1e-5; bool exact = lo == hi; std::sort(sure.begin(), sure.end()); double sum = 0; for (double x : sure) sum += x;
      auto all = [&](const char *t) { return c.violation("wrong-figures", strf("%s: min %.0f, max %.0f, avg %.0f, median %.0f ns; answers came after %.0f to %.0f ns, %.0f on average (%zu)", t, v[0], v[1], v[2], v[3], sure.empty() ? 0.0 : sure.front(), sure.empty() ? 0.0 : sure.back(), sure.empty() ? 0.0 : sum / double(sure.size()), sure.size())); };
      if (v[0] > v[3] * (1 + e) || v[3] > v[1] * (1 + e) || v[0] > v[2] * (1 + e) || v[2] > v[1] * (1 + e)) return all("round trip times out of order");
      if (v[1] > maxPossible * (1 + e)) return all("longest time longer than any connection");
      if (exact && !sure.empty() && (v[0] < sure.front() * (1 - e) || v[1] < sure.back() * (1 - e) || v[2] < sum / double(sure.size()) * (1 - e) || v[3] < sure[sure.size() / 2] * (1 - e))) return all("round trip times shorter than the answers took");
      c.probe("figures_checked");
    }
  }
};
static HarnessReg reg("load", []() -> Harness * { return new Load; });
