// pwned-converter-cli: C01 C02 C03 C04 C05 T01
#include "ref.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;

static std::string genLine(Rng &r, char sep, int md5, int hexm) {
  if (r.chance(3)) return "";
  if (r.chance(2)) return std::string((size_t)r.range(195, 205), 'x') + (r.chance(50) ? std::string(1, sep) + "pw" : "");
  if (r.chance(1)) return "u" + std::string(1, sep) + (r.chance(50) ? "$HEX[" + std::string((size_t)r.range(90, 3000) * 2, '4') + "]" : std::string((size_t)r.range(150, 5000), 'a'));
  std::string p = genRawPassword(r);
  if (md5 && r.chance(30)) { p = hex(md5h(p)); if (r.chance(30)) for (char &c : p) c = (char)toupper(c); }
  else if (hexm && r.chance(30)) p = "$HEX[" + hexEnc(p) + "]";
  else if (r.chance(3)) p = "";
  std::string user = r.chance(5) ? "" : strf("u%d@x.de", (int)r.below(50));
  std::string l = r.chance(93) ? user + sep + p : p;
  if (r.chance(5)) l += "\r";
  return l;
}

struct Conv : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"conv"}; }
  void gen(Rng &r, Scn &s) override {
    const std::string &P = s.prop;
    int md5 = r.chance(25) ? (int)r.range(1, 2) : 0, hx = r.chance(25) ? (int)r.range(1, 2) : 0;
    s.num["md5"] = md5; s.num["hex"] = hx;
    int nf = (int)r.range(1, P == "C04" || P == "C05" ? 4 : 5);
    bool many = P == "C01" && r.chance(4); if (many) nf = (int)r.range(20, 60); // more files than may be open at once
    bool coll = P == "C01" && !many && r.chance(40); if (coll) nf = (int)r.range(2, 5); // small files of the same name in several directories
    static const std::vector<std::string> dirs{"", "a/", "b/", "a/c/", "d.txt/"}, stems{"x", "x", "x", "y", "z", "long.name", "X-0001", "w\xc3\xb6rter"};
    std::vector<std::string> names; 
    for (int i = 0; i < nf; ++i) { std::string n; do n = r.pick(dirs) + (coll ? "x" : r.pick(stems)) + (many ? std::to_string(i % 7) : "") + ".txt"; while (std::find(names.begin(), names.end(), n) != names.end()); names.push_back(n); }
    s.list["!names"] = names;
    bool big = P == "C01" && !coll && r.chance(4);
    bool lng = P == "C03" && r.chance(20); // an output of several writes
    for (int i = 0; i < nf; ++i) {
      char sep = r.pick(std::vector<char>{':', ':', ':', ';', '\t', ' '}); int lines = r.chance(8) ? 0 : (int)r.range(1, many ? 3 : coll ? 4 : r.chance(50) ? 8 : 40);
      if (big && i == 0) lines = (int)r.range(480, 620);
      if (lng && i == 0) lines = (int)r.range(450, 1500);
      std::vector<std::string> v; for (int k = 0; k < lines; ++k) v.push_back(lng && !i && k > 8 ? strf("u%cpw%d", sep, k) : genLine(r, big && k > 490 ? ';' : sep, md5, hx));
      s.list[strf("f%d", i)] = v; s.num[strf("nl%d", i)] = r.chance(75);
    }
    if (P == "C01" && !coll && r.below(24) == 0) s.num["rep"] = r.chance(60) ? r.range(65530, 65800) : r.range(250, 70000); // one password very often
    if (r.chance(P == "C01" ? 20 : 6)) s.num["odd"] = r.range(1, 15); // links that lead nowhere or to directories, a socket
    s.num["other"] = r.chance(30); // a file that is not a .txt file
    s.num["same"] = r.chance(P == "C02" ? 25 : 8); // output directory is the input directory
    std::string ext = s.n("same") && r.chance(50) ? ".txt" : r.chance(20) ? ".db" : ".md5";
    s.list["!ext"] = {ext};
    std::vector<std::string> pre; // already in the output directory
    if (r.chance(P == "C02" ? 80 : 25)) {
      int n = (int)r.range(1, 5);
      for (int i = 0; i < n; ++i) {
        std::string nm = r.pick(names); nm = nm.substr(nm.rfind('/') == std::string::npos ? 0 : nm.rfind('/') + 1); nm = nm.substr(0, nm.size() - 4);
        nm += strf("-%04x", (int)r.range(1, 4)); if (r.chance(40)) nm += strf("-%04x", (int)r.range(1, 4));
        pre.push_back(nm + ext);
      }
      if (P == "C02" && r.chance(8)) { // very many names are taken already
        std::string nm = r.pick(names); nm = nm.substr(nm.rfind('/') == std::string::npos ? 0 : nm.rfind('/') + 1); nm = nm.substr(0, nm.size() - 4);
        int f = (int)r.range(1, 2), k = (int)r.range(10, r.chance(70) ? 40 : 300); pre.push_back(nm + strf("-%04x", f) + ext); for (int i = 0; i < k; ++i) pre.push_back(nm + strf("-%04x-%04x", f, f + i) + ext);
      }
      if (r.chance(30)) pre.push_back("unrelated" + ext);
      std::sort(pre.begin(), pre.end()); pre.erase(std::unique(pre.begin(), pre.end()), pre.end());
      // a name that is also an input cannot be a pre-existing file as well
      if (s.n("same")) pre.erase(std::remove_if(pre.begin(), pre.end(), [&](const std::string &p) { return std::find(names.begin(), names.end(), p) != names.end() || (ext == ".txt"); }), pre.end());
    }
    s.list["pre"] = pre;
    s.num["ram"] = 1;
    switch (r.below(10)) { case 0: s.num["threads"] = -1; break; case 1: s.num["threads"] = (int64_t)r.pick(std::vector<int>{2000000, 1048577, 4000000}); break; case 2: s.num["threads"] = 0; break; default: s.num["threads"] = r.range(500, 20000); }
    if (r.chance(3)) s.num["ram"] = 0;
    if (big) s.num["threads"] = r.range(100, 500);
    if (lng) s.num["threads"] = r.range(1, 30);
    if (s.n("rep")) { s.num["threads"] = r.range(1, 4); s.num["ram"] = r.chance(70) ? r.range(20, 60) : r.range(1, 20); }
    Cfg c; randomSchedule(r, c, true); if (s.n("rep")) c.maxSteps = 4000000;
    c.ttyLflag = r.chance(70) ? 0x8a3b : (uint32_t)(0x8a31 | (r.below(2) << 1) | (r.below(2) << 3)); c.tty = !r.chance(8);
    uint64_t after = (uint64_t)nf + 1;
    c.resumeIfPaused = true; if (r.chance(50)) after = 1; if (many) c.maxFd = 18;
    s.num["cancel"] = 0;
    auto pauses = [&](int n) { for (int i = 0; i < n; ++i) { Key k; k.bytes = r.chance(8) ? "x" : " "; if (r.chance(40)) k.when = 1; else { k.io = i ? 0 : after + r.below(20); k.steps = r.below(1 << r.below(10)); } c.keys.push_back(k); } };
    auto cancel = [&](bool any) { Key k; k.bytes = "q"; if (any && r.chance(15)) k.io = r.below(after + 1); else if (r.chance(25)) k.when = 1; else { k.io = c.keys.empty() ? after + r.below(30) : 0; k.steps = r.below(1 << r.below(10)); } c.keys.push_back(k); s.num["cancel"] = 1; };
    if (P == "C04") { pauses((int)r.range(1, 7)); c.keyBoost = r.chance(70); }
    else if (P == "C05") { if (r.chance(40)) pauses((int)r.range(1, 3)); cancel(true); c.keyBoost = r.chance(70); }
    else if (P == "T01") { int k = (int)r.below(5); if (k == 1) pauses((int)r.range(1, 3)); else if (k == 2) cancel(true); else if (k == 3) { pauses(1); cancel(true); } else if (k == 4) { c.faultMask = MASK_HARD; c.pFault = 20; } if (c.keys.empty() && r.chance(15)) c.keyEof = true; }
    else if (P == "C02") { if (r.chance(20)) { pauses(1); } if (r.chance(15)) cancel(true); if (r.chance(25)) { c.faultMask = MASK_HARD | MASK_BENIGN; c.pFault = 16; } if (r.chance(30)) c.alien = r.chance(50) ? 1ull << r.below(6) : r.next() & r.next() & 0xfff; }
    else if (P == "C03") { c.faultMask = MASK_DIR; if (r.chance(30)) { c.faultMask = MASK_HARD | MASK_BENIGN; c.pFault = (uint32_t)1 << r.below(7); c.pSticky = r.chance(40) ? 400 : 0; if (r.chance(30)) c.faultMask = r.chance(50) ? MASK_BENIGN : M(F_WRITE_ENOSPC) | M(F_WRITE_SHORT); } if (r.chance(15)) pauses(1); }
    if (lng && r.chance(40)) { c.faultMask = M(F_WRITE_ENOSPC) | M(F_WRITE_EIO); c.pFault = 300; c.pSticky = 0; } // space comes and goes
    s.procs.push_back(c);
    s.num["variants"] = P == "C03" || P == "C04" || P == "C05" || P == "T01";
  }
  void variants(const Scn &b, const std::vector<ProcRes> &res, Rng &r, std::vector<Scn> &out) override {
    if (res.empty()) return;
    uint64_t N = res[0].ioOps; if (!N) return;
    for (int i = 0; i < 5; ++i) {
      Scn s = b; Cfg &c = s.procs[0]; c.seed = r.next(); s.num["variants"] = 0;
      if (b.prop == "C03") {
        int n = (int)r.range(1, 2); for (int k = 0; k < n; ++k) c.planAt.push_back(r.below(N) + 1);
        c.planMask = (r.chance(70) ? MASK_HARD : r.chance(50) ? MASK_BENIGN : (MASK_HARD | MASK_BENIGN)) | MASK_DIR; c.pSticky = r.chance(40) ? 1024 : 0; c.faultMask = c.planMask; c.pFault = 0;
        if (r.chance(25)) { c.pFault = 8; }
      } else if (!c.keys.empty()) {
        Key &k = c.keys[b.prop == "C05" ? c.keys.size() - 1 : 0];
        { k.when = 0; k.io = std::min<uint64_t>(N, 1 + r.below(N)); k.steps = r.below(1 << r.below(8)); }
      } else return;
      out.push_back(s);
    }
  }
  void run(Scn &s, Ctx &c) override {
    const std::string &P = s.prop; const auto &names = s.l("!names"); std::string ext = s.l("!ext").at(0);
    bool sameDir = s.n("same"); std::string dst = sameDir ? "in" : "out";
    ReaderOpts ro; ro.md5 = (int)s.n("md5"); ro.hex = (int)s.n("hex");
    Counts want; std::map<std::string, std::string> before;
    for (size_t i = 0; i < names.size(); ++i) { std::string t = joinLines(s.l(strf("f%zu", i)), s.n(strf("nl%zu", i))); if (!i && s.n("rep")) { std::string u; for (int64_t k = s.n("rep"); k > 0; --k) u += "u:a\n"; t = u + t; } c.put("in/" + names[i], t); before["in/" + names[i]] = t; refCount(t, ro, want); }
    if (s.n("odd")) c.odd("in", ".txt", (int)s.n("odd"));
    if (s.n("other")) { c.put("in/readme.md", "u:notapassword\n"); before["in/readme.md"] = "u:notapassword\n"; }
    for (auto &p : s.l("pre")) { std::string t = "previous contents of " + p; c.put(dst + "/" + p, t); before[dst + "/" + p] = t; }
    c.put(dst + "/keep", ""); before[dst + "/keep"] = "";
    std::vector<std::string> a{"--src", "in", "--dst", dst, "--ext", ext, "--ram", strf("%ld", (long)s.n("ram"))};
    if (s.n("threads") >= 0) { a.push_back("--threads"); a.push_back(strf("%ld", (long)s.n("threads"))); }
    if (ro.md5) a.push_back(ro.md5 == 2 ? "--force-md5" : "--auto-md5");
    if (ro.hex) a.push_back(ro.hex == 2 ? "--force-hex" : "--auto-hex");
    ProcRes &r = c.exec(s, "conv", a);
    const Cfg &cf = s.procs[0];
    bool cancel = false; size_t ci = 0; for (size_t i = 0; i < cf.keys.size(); ++i) if (!cancel && cf.keys[i].bytes == "q" && i < r.keysDelivered) { cancel = true; ci = i; }
    bool faulty = r.hardFaults > 0;
    for (auto &u : r.user) if (u.compare(0, 7, "!alien ") == 0) { c.probe("name_taken_by_another_program"); before[u.substr(7)] = "contents of another program's file"; }
    // input files and earlier output files
    for (auto &b : before) { std::string d; if (!c.get(b.first, d)) { if (c.judges("lost-file")) return c.violation("lost-file", b.first + " was not made by this run and is gone"); } else if (d != b.second && c.judges("altered-file")) return c.violation("altered-file", b.first + " was not made by this run and has been altered"); }
    for (auto &u : r.user) if (u.compare(0, 8, "!shared ") == 0 && c.judges("shared-output")) return c.violation("shared-output", "two conversions wrote into the same output file " + safe(u.substr(8)));
    if (r.crashed()) return c.violation("crash", "the converter crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "the converter never ends: " + r.describe());
    if (r.outcome == O_ABORT && !faulty) return c.violation("abort", "the converter aborted although nothing failed: " + r.describe() + " " + safe(r.err.substr(0, 300)));
    Counts got; int nNew = 0;
    for (auto &f : c.listDir("")) {
      if (before.count(f)) continue;
      ++nNew;
      if (f.compare(0, dst.size() + 1, dst + "/") || f.size() < ext.size() || f.compare(f.size() - ext.size(), ext.size(), ext)) return c.violation("stray-file", "unexpected file " + f);
      std::string d; c.get(f, d);
      if (!faulty) { std::string e = checkDb(d, &got); if (!e.empty()) return c.violation("malformed", "output file " + safe(f) + ": " + e); }
      else if (r.success()) { std::string e = checkDb(d, &got); if (!e.empty()) return c.violation("success-malformed", "success reported, but in output file " + safe(f) + ": " + e); }
      else addComplete(d, got);
    }
    std::string o = over(want, got);
    if (!o.empty()) return c.violation("overcount", o);
    if (!faulty && !cancel && !r.success()) return c.violation("failed", "nothing failed, but the converter reports failure: " + r.describe() + " " + safe(r.err.substr(0, 300)));
    if (r.success() && !cancel) {
      if (r.hardFaults) c.probe("success_despite_hard_fault");
      std::string d = diffCounts(want, got); if (!d.empty()) return c.violation(faulty ? "silent-loss" : "wrong-counts", (faulty ? "success is reported although a storage fault was met and data is missing: " : "") + d);
    }
    if (!r.success()) c.probe("failure_reported");
    if (r.outcome == O_ABORT) c.probe("ended_by_abort");
    if (r.outcome == O_EXIT && r.ttyChanged) return c.violation("terminal", strf("terminal flags are %x at exit, they were %x", r.ttyEnd, cf.ttyLflag));
    if (nNew > (int)names.size()) c.probe("several_chunks");
    if (cancel) c.probe(nNew ? "cancelled_with_output" : "cancelled_without_output");
    if (cancel && diffCounts(want, got) != "") c.probe("cancel_was_early");
    (void)P;
    // while paused or after cancellation only conversions already running may still finish the chunk they are at
    if (cf.keyBoost && !faulty) {
      bool paused = false; uint64_t most = (uint64_t)std::min<size_t>((size_t)cf.cpus, names.size()); // conversions at a time
      for (size_t i = 0; i < r.keysHandled && i < 15 && i < cf.keys.size(); ++i) {
        const std::string &k = cf.keys[i].bytes;
        if (k == " ") paused = !paused; 
        if (k == "q") { if (r.createdTotal - r.filesAtKey[i] > most) return c.violation("cancel-late", strf("%lu files were created after the user had cancelled, with %lu conversions at a time", (unsigned long)(r.createdTotal - r.filesAtKey[i]), (unsigned long)most)); break; }
        if (paused && i + 1 <= 16 && r.filesAtPress[i + 1] > r.filesAtKey[i] + most) return c.violation("pause-ignored", strf("%lu files were created while the conversion was paused, with %lu conversions at a time", (unsigned long)(r.filesAtPress[i + 1] - r.filesAtKey[i]), (unsigned long)most));
      }
      (void)ci;
    }
  }
};
static HarnessReg reg("conv", []() -> Harness * { return new Conv; });
