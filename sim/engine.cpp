#include "scn.hpp"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
using namespace sim;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) / 1e9; }
uint64_t mix2(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next(); }
std::string strf(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
std::string hexEnc(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
std::string hexDec(const std::string &s) { std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(v(s[i]) << 4 | v(s[i + 1])); return r; }

// ------------------------------------------------ MD5 (RFC 1321), independent of the code under test
std::string md5raw(const std::string &msg) {
  static const uint32_t K[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  std::string m = msg; uint64_t bits = uint64_t(msg.size()) * 8; m += char(0x80); while (m.size() % 64 != 56) m += char(0);
  for (int i = 0; i < 8; ++i) m += char(bits >> (8 * i));
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; ++i) { const unsigned char *p = (const unsigned char *)m.data() + o + 4 * i; w[i] = p[0] | p[1] << 8 | p[2] << 16 | uint32_t(p[3]) << 24; }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) f = (b & c) | (~b & d), g = i; else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16; else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = (7 * i) % 16;
      uint32_t t = d; d = c; c = b; uint32_t x = a + f + K[i] + w[g]; b = b + (x << S[i] | x >> (32 - S[i])); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  std::string r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r += char(h[i] >> (8 * j));
  return r;
}
static H128 fromRaw(const std::string &r) { H128 h{0, 0}; for (int i = 0; i < 8; ++i) { h.hi = h.hi << 8 | (unsigned char)r[i]; h.lo = h.lo << 8 | (unsigned char)r[8 + i]; } return h; }
H128 md5h(const std::string &s) { return fromRaw(md5raw(s)); }
H128 h128FromHex(const std::string &s) { std::string t; for (char c : s) t += (char)tolower(c); return fromRaw(hexDec(t)); }
std::string hex(const H128 &h) { return strf("%016lx%016lx", (unsigned long)h.hi, (unsigned long)h.lo); }
std::string rec(const H128 &h, uint32_t c) { std::string r; r.append((const char *)&h.hi, 8); r.append((const char *)&h.lo, 8); r.append((const char *)&c, 4); return r; }
bool parseDb(const std::string &d, std::vector<std::pair<H128, uint32_t>> &v) {
  v.clear();
  for (size_t o = 0; o + 20 <= d.size(); o += 20) { H128 h; uint32_t c; memcpy(&h.hi, &d[o], 8); memcpy(&h.lo, &d[o + 8], 8); memcpy(&c, &d[o + 16], 4); v.push_back({h, c}); }
  return d.size() % 20 == 0;
}

// ------------------------------------------------ serialisation
static std::string esc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += (char)c; }
  return r + "\"";
}
static std::string unesc(const char *&p) {
  std::string r; while (*p && *p != '"') ++p; if (*p) ++p;
  while (*p && *p != '"') {
    if (*p == '\\') { ++p; if (*p == 'x') { char b[3] = {p[1], p[2], 0}; r += (char)strtol(b, nullptr, 16); p += 3; } else r += *p++; }
    else r += *p++;
  }
  if (*p) ++p; return r;
}
std::string serialise(const Scn &s) {
  std::ostringstream o;
  o << "pwsim-replay 1\nharness " << s.harness << "\nprop " << s.prop << "\nseed " << s.seed << "\n";
  for (auto &k : s.num) o << "num " << k.first << " " << k.second << "\n";
  for (auto &k : s.list) { o << "list " << k.first << " " << k.second.size() << "\n"; for (auto &e : k.second) o << " " << esc(e) << "\n"; }
  for (auto &c : s.procs) {
    o << "proc seed=" << c.seed << " replay=" << c.replay << " policy=" << c.policy << " pSwitch=" << c.pSwitch << " accGap=" << c.accGap << " pctDepth=" << c.pctDepth << " pctLen=" << c.pctLen
      << " pSpurious=" << c.pSpurious << " faultMask=" << c.faultMask << " pFault=" << c.pFault << " pSticky=" << c.pSticky << " planMask=" << c.planMask << " cpus=" << c.cpus << " keyEof=" << c.keyEof
      << " resume=" << c.resumeIfPaused << " pkey=" << (int)c.pauseKey << " boost=" << c.keyBoost << " tty=" << c.tty << " lflag=" << c.ttyLflag << " memKB=" << c.memKB << " maxSteps=" << c.maxSteps << " maxAcc=" << c.maxAcc << " exitSteps=" << c.extraExitSteps << " maxFd=" << c.maxFd << " alien=" << c.alien;
    if (c.allocAt) o << " allocAt=" << c.allocAt << " allocMany=" << c.allocMany << " allocMin=" << c.allocMin;
    if (c.memLimit) o << " memLimit=" << c.memLimit;
    if (c.threadAt) o << " threadAt=" << c.threadAt << " threadMany=" << c.threadMany;
    if (c.huge.n) o << " hugeN=" << c.huge.n << " hugeBase=" << c.huge.base << " hugeStep=" << c.huge.step << " hugeSeed=" << c.huge.seed;
    o << "\n";
    if (!c.faultPath.empty()) o << "faultPath " << esc(c.faultPath) << "\n";
    for (auto &n : c.net) o << "net " << esc(n) << "\n";
    for (auto p : c.planAt) o << "plan " << p << "\n";
    for (auto &k : c.keys) o << "key " << esc(k.bytes) << " " << (int)k.when << " " << k.io << " " << k.steps << "\n";
    for (auto &d : c.decs) o << "dec " << (int)d.kind << " " << d.idx << " " << d.val << "\n";
  }
  o << "end\n";
  return o.str();
}
bool parseScn(const std::string &t, Scn &s) {
  std::istringstream in(t); std::string line; bool ok = false;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string w; l >> w;
    if (w == "harness") l >> s.harness; else if (w == "prop") l >> s.prop; else if (w == "seed") l >> s.seed;
    else if (w == "num") { std::string k; int64_t v; l >> k >> v; s.num[k] = v; }
    else if (w == "list") { std::string k; size_t n; l >> k >> n; auto &v = s.list[k]; for (size_t i = 0; i < n && std::getline(in, line); ++i) { const char *p = line.c_str(); v.push_back(unesc(p)); } }
    else if (w == "proc") {
      Cfg c; std::string kv;
      while (l >> kv) {
        size_t e = kv.find('='); std::string k = kv.substr(0, e); uint64_t v = strtoull(kv.c_str() + e + 1, nullptr, 10);
        if (k == "seed") c.seed = v; else if (k == "replay") c.replay = v; else if (k == "policy") c.policy = (int)v; else if (k == "pSwitch") c.pSwitch = (uint32_t)v; else if (k == "accGap") c.accGap = v;
        else if (k == "pctDepth") c.pctDepth = (int)v; else if (k == "pctLen") c.pctLen = v; else if (k == "pSpurious") c.pSpurious = (uint32_t)v; else if (k == "faultMask") c.faultMask = v; else if (k == "pFault") c.pFault = (uint32_t)v;
        else if (k == "pSticky") c.pSticky = (uint32_t)v; else if (k == "planMask") c.planMask = v; else if (k == "cpus") c.cpus = (int)v; else if (k == "keyEof") c.keyEof = v; else if (k == "resume") c.resumeIfPaused = v; else if (k == "pkey") c.pauseKey = (char)v; else if (k == "boost") c.keyBoost = v;
        else if (k == "tty") c.tty = v; else if (k == "lflag") c.ttyLflag = (uint32_t)v; else if (k == "memKB") c.memKB = v; else if (k == "maxSteps") c.maxSteps = v; else if (k == "maxAcc") c.maxAcc = v; else if (k == "exitSteps") c.extraExitSteps = v; else if (k == "maxFd") c.maxFd = (int)v; else if (k == "alien") c.alien = v; else if (k == "allocAt") c.allocAt = v; else if (k == "allocMany") c.allocMany = v; else if (k == "allocMin") c.allocMin = v; else if (k == "memLimit") c.memLimit = v; else if (k == "threadAt") c.threadAt = v; else if (k == "threadMany") c.threadMany = v; else if (k == "hugeN") c.huge.n = v; else if (k == "hugeBase") c.huge.base = v; else if (k == "hugeStep") c.huge.step = v; else if (k == "hugeSeed") c.huge.seed = v;
      }
      s.procs.push_back(c);
    }
    else if (w == "faultPath") { const char *p = line.c_str(); s.procs.back().faultPath = unesc(p); }
    else if (w == "net") { const char *p = line.c_str(); s.procs.back().net.push_back(unesc(p)); }
    else if (w == "plan") { uint64_t v; l >> v; s.procs.back().planAt.push_back(v); }
    else if (w == "key") { const char *p = line.c_str(); Key k; k.bytes = unesc(p); unsigned a; unsigned long b, c; sscanf(p, "%u %lu %lu", &a, &b, &c); k.when = (uint8_t)a; k.io = b; k.steps = c; s.procs.back().keys.push_back(k); }
    else if (w == "dec") { unsigned a; uint64_t i, v; l >> a >> i >> v; s.procs.back().decs.push_back({(uint8_t)a, i, v}); }
    else if (w == "end") ok = true;
  }
  return ok;
}

// ------------------------------------------------ tools
static std::string toolDir = []() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string p(b, n > 0 ? (size_t)n : 0); return p.substr(0, p.rfind('/')); }(); // the programs lie beside the simulator
static std::map<std::string, mainfn> mains;
mainfn toolMain(const std::string &name) {
  auto i = mains.find(name); if (i != mains.end()) return i->second;
  void *h = dlopen((toolDir + "/" + name + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "pwsim: %s\n", dlerror()); _exit(2); }
  std::string base = name + "_main"; mainfn f = nullptr;
  for (const char *sfx : {"iPPKc", "iPPc", "iPKPKc", "iPKPc", "v", ""}) {
    std::string sym = *sfx ? strf("_Z%zu%s%s", base.size(), base.c_str(), sfx) : base;
    if ((f = (mainfn)dlsym(h, sym.c_str()))) break;
  }
  if (!f) { fprintf(stderr, "pwsim: no main in %s\n", name.c_str()); _exit(2); }
  return mains[name] = f;
}

// ------------------------------------------------ context
std::string ProcRes::describe() const { return strf("%s%s%s", outcomeName[outcome], outcome == O_EXIT ? strf(" %d", status).c_str() : "", msg.empty() ? "" : (" (" + msg + ")").c_str()); }
static std::vector<uint64_t> g_probeSum(PR_NK);
struct Totals { uint64_t procs = 0, steps = 0, acc = 0, io = 0, simNs = 0, sw = 0, keys = 0, faults[F_NK] = {0}, probes[PR_NK] = {0}, outcomes[16] = {0}; };
static Totals *tot; static uint64_t *seenTab; constexpr uint64_t SEEN = 1 << 22; struct Prog { volatile int stop; uint64_t seenN; uint64_t runs, bases, viol, irrep; uint64_t dummy; }; static Prog *prog;
static void note(uint64_t h) {
  if (!seenTab || !h) return;
  for (uint64_t i = h % SEEN, k = 0; k < 64; ++k, i = (i + 1) % SEEN) {
    uint64_t o = 0; if (seenTab[i] == h) return;
    if (__atomic_compare_exchange_n(&seenTab[i], &o, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __sync_fetch_and_add(&prog->seenN, 1); return; }
    if (o == h) return;
  }
}
ProcRes &Ctx::execFn(Scn &s, const std::function<int()> &fn) {
  size_t i = res.size();
  if (i >= s.procs.size()) { Cfg c; c.seed = mix2(s.seed, i + 1000); s.procs.push_back(c); }
  Cfg &c = s.procs[i]; c.scratch = scratch;
  runProcess(c, sh, fn);
  res.emplace_back(); ProcRes &r = res.back();
  r.outcome = sh->outcome; r.status = sh->status; r.msg = sh->msg; r.hash = sh->hash; r.shash = sh->shash; r.steps = sh->steps; r.acc = sh->acc; r.ioOps = sh->ioOps; r.createdTotal = sh->createdTotal; r.simNs = sh->simNs;
  r.out.assign(sh->out, std::min<uint64_t>(sh->nOut, OUTCAP)); r.err.assign(sh->err, std::min<uint64_t>(sh->nErr, ERRCAP));
  for (uint64_t o = 0; o < sh->nUser;) { std::string u(sh->user + o); o += u.size() + 1; r.user.push_back(u); }
  for (int k = 1; k < F_NK; ++k) { r.faults[k] = sh->faults[k]; if (k != F_SPURIOUS) r.nFaults += sh->faults[k]; if ((M(k) & (MASK_HARD | MASK_DIR | M(F_UNLINK_EIO) | M(F_RENAME_EIO) | M(F_MKDIR_ENOSPC) | M(F_ALLOC) | M(F_THREAD)))) r.hardFaults += sh->faults[k]; }
  for (int k = 0; k < 16; ++k) r.filesAtKey[k] = sh->filesAtKey[k];
  for (int k = 0; k < 17; ++k) r.filesAtPress[k] = sh->filesAtPress[k];
  r.spaces = sh->spaces; r.keysDelivered = sh->keysDelivered; r.keysHandled = sh->keysHandled; r.ttyEnd = sh->ttyLflagEnd; r.ttyChanged = sh->ttyChanged; r.threads = sh->threads; memcpy(r.nAlloc, sh->nAlloc, sizeof r.nAlloc); memcpy(r.nAllocIo, sh->nAllocIo, sizeof r.nAllocIo); r.memPeak = sh->memPeak; r.fdPeak = sh->fdPeak; r.thrPeak = sh->thrPeak; r.nThreadTry = sh->nThreadTry;
  r.decOverflow = sh->nDec > DECCAP; r.decs.assign(sh->decs, sh->decs + std::min<uint64_t>(sh->nDec, DECCAP));
  hash = mix2(hash ^ r.hash, (uint64_t)r.outcome * 256 + (uint64_t)(r.status & 255));
  if (r.outcome == O_INTERNAL) { internal = true; internalMsg = r.msg; }
  if (tot) {
    static FILE *const margins = getenv("PWSIM_MARGINS") ? fopen(getenv("PWSIM_MARGINS"), "a") : nullptr; static double ma = 0.02, ms = 0.02; // how near runs come to the bounds behind which they are taken for endless
    if (margins && r.outcome != O_LIVELOCK) { double a = (double)r.acc / (double)c.maxAcc, b = (double)r.steps / (double)(c.maxSteps * 3); if (a > ma) { ma = a; fprintf(margins, "margin %s acc %.3f of %lu seed %lu\n", s.harness.c_str(), a, (unsigned long)c.maxAcc, (unsigned long)s.seed); } if (b > ms) { ms = b; fprintf(margins, "margin %s steps %.3f of %lu seed %lu\n", s.harness.c_str(), b, (unsigned long)(c.maxSteps * 3), (unsigned long)s.seed); } fflush(margins); }
    tot->procs++; tot->steps += r.steps; tot->acc += r.acc; tot->io += r.ioOps; tot->simNs += r.simNs; tot->sw += sh->switches; tot->keys += r.keysDelivered;
    for (int k = 0; k < F_NK; ++k) tot->faults[k] += sh->faults[k];
    for (int k = 0; k < PR_NK; ++k) tot->probes[k] += sh->probes[k];
    tot->outcomes[r.outcome]++;
    note(r.threads > 1 ? r.shash : mix2(r.hash, r.shash)); // one thread: the course is what was read, written and decided
  }
  if (getenv("PWSIM_SHOW")) fprintf(stderr, "--- process %zu: %s\n--- stdout\n%s\n--- stderr\n%s\n", i, r.describe().c_str(), r.out.c_str(), r.err.c_str());
  return r;
}
ProcRes &Ctx::exec(Scn &s, const std::string &tool, const std::vector<std::string> &args) {
  mainfn f = toolMain(tool);
  static std::vector<const char *> av; static std::vector<std::string> keep; keep = args; keep.insert(keep.begin(), tool);
  av.clear(); for (auto &a : keep) av.push_back(a.c_str()); av.push_back(nullptr);
  int n = (int)keep.size();
  return execFn(s, [f, n] { return f(n, av.data()); });
}
static void rmTree(const std::string &d) {
  DIR *D = opendir(d.c_str()); if (!D) return;
  std::vector<std::string> v; while (struct dirent *e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  closedir(D);
  for (auto &n : v) { std::string p = d + "/" + n; if (unlink(p.c_str()) != 0) { rmTree(p); rmdir(p.c_str()); } }
}
void Ctx::skip() { res.emplace_back(); }
void Ctx::cleanScratch() { rmTree(scratch); }
void Ctx::putHuge(const sim::Huge &h) { std::string p = scratch + "/huge.md5"; int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0 || ftruncate(fd, (off_t)(h.n * 20)) != 0) { internal = true; internalMsg = "put " + p; } if (fd >= 0) close(fd); }
void Ctx::put(const std::string &name, const std::string &data) {
  std::string p = scratch + "/" + name;
  for (size_t i = scratch.size() + 1; (i = p.find('/', i)) != std::string::npos; ++i) mkdir(p.substr(0, i).c_str(), 0777);
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) { internal = true; internalMsg = "put " + p; return; }
  size_t o = 0; while (o < data.size()) { ssize_t r = write(fd, data.data() + o, data.size() - o); if (r <= 0) break; o += (size_t)r; }
  close(fd);
}
void Ctx::link(const std::string &name, const std::string &other) { if (::link((scratch + "/" + name).c_str(), (scratch + "/" + other).c_str())) { internal = true; internalMsg = "link " + other; } }
void Ctx::odd(const std::string &dir, const std::string &ext, int bits) {
  auto p = [&](int k) { odds.push_back(dir + "/zz" + std::to_string(k) + ext); return scratch + "/" + odds.back(); }; bool ok = true;
  if (bits & 1) ok = ok && !::symlink("nowhere", p(0).c_str());
  if (bits & 2) ok = ok && !::symlink(".", p(1).c_str());
  if (bits & 4) ok = ok && !::symlink("..", (scratch + "/" + (odds.push_back(dir + "/zzup"), odds.back())).c_str());
  if (bits & 8) ok = ok && !mknod(p(3).c_str(), S_IFSOCK | 0666, 0);
  if (!ok) { internal = true; internalMsg = "odd entries in " + dir; } else probe("odd_entries");
}
bool Ctx::get(const std::string &name, std::string &data) {
  data.clear(); int fd = open((scratch + "/" + name).c_str(), O_RDONLY); if (fd < 0) return false;
  char b[65536]; ssize_t r; while ((r = read(fd, b, sizeof b)) > 0) data.append(b, (size_t)r);
  close(fd); return r == 0;
}
bool Ctx::exists(const std::string &name) { return access((scratch + "/" + name).c_str(), F_OK) == 0; }
static void walk(const std::string &base, const std::string &rel, std::vector<std::string> &out) {
  DIR *D = opendir((base + "/" + rel).c_str()); if (!D) return;
  std::vector<std::pair<std::string, bool>> v;
  while (struct dirent *e = readdir(D)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back({e->d_name, e->d_type == DT_DIR});
  closedir(D); std::sort(v.begin(), v.end());
  for (auto &e : v) { std::string p = rel.empty() ? e.first : rel + "/" + e.first; if (e.second) walk(base, p, out); else out.push_back(p); }
}
std::vector<std::string> Ctx::listDir(const std::string &name) { std::vector<std::string> o; walk(scratch, name, o); for (auto &x : odds) o.erase(std::remove_if(o.begin(), o.end(), [&](const std::string &f) { return f == x || name + "/" + f == x; }), o.end()); return o; }

void randomSchedule(Rng &r, Cfg &c, bool threads) {
  c.seed = r.next();
  if (!threads) { c.policy = 0; return; }
  switch (r.below(10)) {
    case 0: c.policy = 0; break;
    case 1: case 2: case 3: c.policy = 2; c.pctDepth = (int)r.range(1, 6); c.pctLen = (uint64_t)1 << r.range(6, 13); break;
    default: c.policy = 1; c.pSwitch = (uint32_t)1 << r.range(1, 9); break;
  }
  switch (r.below(4)) { case 0: c.accGap = 0; break; case 1: c.accGap = 20; break; case 2: c.accGap = 300; break; default: c.accGap = 4000; }
  if (r.chance(25)) c.pSpurious = (uint32_t)1 << r.range(1, 6);
  c.extraExitSteps = r.chance(50) ? (uint64_t)r.range(1, 60) : 0;
  c.cpus = (int)r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 8});
}

// ------------------------------------------------ harness registry
static std::map<std::string, Harness *(*)()> &registry() { static std::map<std::string, Harness *(*)()> m; return m; }
HarnessReg::HarnessReg(const char *n, Harness *(*f)()) { registry()[n] = f; }
Harness *makeHarness(const std::string &n) { auto i = registry().find(n); return i == registry().end() ? nullptr : i->second(); }

// ------------------------------------------------ what each property is about
bool Ctx::inScope(const std::string &prop, const std::string &cls) {
  static const std::map<std::string, std::string> only{
    {"C01", " crash hang abort failed wrong-counts malformed overcount stray-file "},
    {"C02", " lost-file altered-file shared-output "},
    {"C03", " crash hang abort silent-loss wrong-counts success-malformed malformed overcount failed "},
    {"C04", " crash hang abort failed wrong-counts malformed overcount pause-ignored "},
    {"C05", " crash hang abort cancel-late altered-file lost-file malformed overcount "},
    {"T01", " terminal "},
    {"M01", " crash hang abort failed wrong-merge altered-input lost-file "},
    {"M02", " crash hang abort failed silent-loss wrong-merge partial-after-failure altered-input lost-file "},
    {"M04", " crash hang abort failed partial-after-cancel altered-input lost-file left-over wrong-merge "},
    {"I02", " index-crash index-hang index-abort index-missing index-failed index-incomplete index-wrong altered-input "},
    {"L01", " lookup-crash lookup-hang lookup-failed wrong-answer open-failed wrong-size "},
    {"L02", " wrong-answer lookup-crash lookup-hang lookup-failed "},
    {"L03", " dialogue crash hang abort failed "},
    {"S01", " wrong-answer wrong-client invalid-response wrong-status "},
    {"S02", " crash livelock service-down worker-occupied worker-lost not-served "},
    {"S04", " crash livelock service-down worker-occupied worker-lost not-served cut-off invalid-response wrong-client wrong-answer wrong-status altered-input "},
    {"S05", " connection-kept memory-kept crash livelock service-down worker-lost not-served "},
    {"S03", " cut-off not-served invalid-response wrong-status wrong-answer service-down crash livelock "},
  };
  if (prop != "T01" && cls == "terminal") return false;
  auto i = only.find(prop);
  return i == only.end() || i->second.find(" " + cls + " ") != std::string::npos;
}

// ------------------------------------------------ running and minimising
static Ctx runScn(Harness *h, Scn &s, Shared *sh, const std::string &scratch) {
  Ctx c; c.sh = sh; c.scratch = scratch; c.prop = s.prop; c.cleanScratch();
  h->run(s, c);
  return c;
}
static Scn toReplay(const Scn &s, const Ctx &c, bool &ok) {
  Scn r = s; ok = true;
  for (size_t i = 0; i < c.res.size() && i < r.procs.size(); ++i) {
    if (r.procs[i].replay) continue;
    if (c.res[i].decOverflow) { ok = false; continue; } // stays seed-driven: still a pure function of the file
    r.procs[i].replay = true; r.procs[i].decs = c.res[i].decs; r.procs[i].planAt.clear();
  }
  return r;
}
static bool same(Harness *h, Scn s, Shared *sh, const std::string &scratch, const std::string &cls, Scn *norm = nullptr) {
  Ctx c = runScn(h, s, sh, scratch);
  if (c.internal || !c.v.bad || c.v.cls != cls) return false;
  if (norm) *norm = s;
  return true;
}
template <class T, class F> static void ddmin(std::vector<T> &v, double deadline, const F &test) {
  size_t n = 2;
  while (!v.empty() && now() < deadline) {
    size_t chunk = std::max<size_t>(1, (v.size() + n - 1) / n); bool red = false;
    for (size_t o = 0; o < v.size() && now() < deadline;) {
      std::vector<T> t(v.begin(), v.begin() + (long)o); size_t e = std::min(v.size(), o + chunk); t.insert(t.end(), v.begin() + (long)e, v.end());
      if (test(t)) { v = t; red = true; } else o = e;
    }
    if (chunk == 1) { if (!red) break; }
    else n = red ? 2 : n * 2;
    if (n > v.size() * 2 + 2) n = v.size() + 1;
  }
}
static Scn minimise(Harness *h, Scn s, Shared *sh, const std::string &scratch, const std::string &cls, double seconds) {
  double dl = now() + seconds;
  auto test = [&](const Scn &t) { return same(h, t, sh, scratch, cls); };
  for (int round = 0; round < 3 && now() < dl; ++round) {
    size_t before = serialise(s).size();
    for (size_t i = 0; i < s.procs.size(); ++i) { // scheduling decisions first: they are the bulk
      auto &d = s.procs[i].decs;
      if (d.size() > 4) for (uint8_t k : {(uint8_t)D_ACC, (uint8_t)D_SCHED, (uint8_t)D_WAKE, (uint8_t)D_RAND}) {
        std::vector<Dec> t; for (auto &x : d) if (x.kind != k) t.push_back(x);
        if (t.size() < d.size()) { Scn u = s; u.procs[i].decs = t; if (test(u)) { s = u; } }
      }
      std::vector<Dec> v = s.procs[i].decs;
      ddmin(v, dl, [&](const std::vector<Dec> &t) { Scn u = s; u.procs[i].decs = t; return test(u); });
      s.procs[i].decs = v;
      std::vector<std::string> nc = s.procs[i].net;
      if (nc.size() > 1) { ddmin(nc, dl, [&](const std::vector<std::string> &t) { if (t.empty()) return false; Scn u = s; u.procs[i].net = t; return test(u); }); s.procs[i].net = nc; }
      std::vector<Key> k = s.procs[i].keys;
      if (!k.empty()) { ddmin(k, dl, [&](const std::vector<Key> &t) { Scn u = s; u.procs[i].keys = t; return test(u); }); s.procs[i].keys = k; }
    }
    for (auto &l : s.list) {
      if (l.first[0] == '!' || l.second.empty()) continue;
      std::vector<std::string> v = l.second; std::string name = l.first;
      ddmin(v, dl, [&](const std::vector<std::string> &t) { Scn u = s; u.list[name] = t; return test(u); });
      l.second = v;
    }
    if (serialise(s).size() >= before) break;
  }
  return s;
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += (char)c; } return r; }

struct Found { int set; char cls[128]; char text[1800]; char file[300]; uint64_t seed; uint64_t decsBefore, decsAfter; };

static void worker(int w, int W, const std::string &harness, const std::string &prop, uint64_t baseSeed, double deadline, uint64_t maxSeeds, const std::string &scratchRoot, const std::string &replayDir, Found *found, const std::string &statFile, const std::vector<std::string> &known) {
  cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs); sched_setaffinity(0, sizeof cs, &cs);
  std::string scratch = scratchRoot + strf("/w%d", w); mkdir(scratch.c_str(), 0777);
  std::vector<std::string> hn; { std::istringstream hs(harness); std::string x; while (std::getline(hs, x, ',')) hn.push_back(x); }
  std::vector<Harness *> hv; for (auto &n : hn) { Harness *h = makeHarness(n); hv.push_back(h); for (auto &t : h->tools(prop)) toolMain(t); }
  Shared *sh = newShared(); tot = new Totals;
  std::map<std::string, uint64_t> probes, knownHits; uint64_t runs = 0, seeds = 0, irrep = 0, internals = 0, dupChecks = 0; std::string lastInternal;
  std::map<std::string, uint64_t> samples;
  std::string sampleOut;
  for (uint64_t k = (uint64_t)w; now() < deadline && !prog->stop && k < maxSeeds; k += (uint64_t)W) {
    uint64_t seed = mix2(baseSeed, k); ++seeds;
    Rng rng(seed); Scn base; size_t hi = (size_t)(k / (uint64_t)W) % hv.size(); Harness *h = hv[hi]; base.harness = hn[hi]; base.prop = prop; base.seed = seed;
    h->gen(rng, base);
    std::vector<Scn> todo{base}; bool first = true;
    for (size_t ti = 0; ti < todo.size() && now() < deadline && !prog->stop; ++ti) {
      Scn s = todo[ti];
      Ctx c = runScn(h, s, sh, scratch); ++runs;
      for (auto &p : c.probes) probes[p.first] += p.second;
      if (c.internal) { ++internals; lastInternal = strf("seed %lu variant %zu: %s", (unsigned long)seed, ti, c.internalMsg.c_str()); break; }
      if (!c.v.bad) {
        if (first && s.n("variants", 0)) { std::vector<Scn> more; h->variants(base, c.res, rng, more); todo.insert(todo.end(), more.begin(), more.end()); }
        first = false;
        if (runs % 97 == 5) { // determinism sample: the same scenario once more must take exactly the same course
          Scn s2 = todo[ti]; Totals *keep = tot; tot = nullptr; Ctx c2 = runScn(h, s2, sh, scratch); tot = keep; ++dupChecks;
          if (c2.hash != c.hash) { ++internals; lastInternal = strf("seed %lu variant %zu is not deterministic", (unsigned long)seed, ti); }
        }
        if (sampleOut.empty() && (w == 0) && runs > 20) { bool ok; sampleOut = serialise(toReplay(s, c, ok)); }
        continue;
      }
      bool isKnown = false; for (auto &kf : known) if (kf == c.v.cls) isKnown = true;
      if (isKnown) { knownHits[c.v.cls]++; break; }
      // gate: the same seed must take the same course, and the recorded decisions must reproduce it
      Totals *keep = tot; tot = nullptr;
      Scn again = todo[ti]; Ctx c2 = runScn(h, again, sh, scratch);
      bool det = c2.v.bad && c2.v.cls == c.v.cls && c2.hash == c.hash;
      bool ok; Scn rep = toReplay(s, c, ok);
      bool rok = det && same(h, rep, sh, scratch, c.v.cls);
      if (!det || !rok) { ++irrep; lastInternal = strf("violation %s at seed %lu variant %zu does not %s: %s", c.v.cls.c_str(), (unsigned long)seed, ti, det ? "replay" : "repeat", c.v.text.c_str()); tot = keep; break; }
      if (__sync_bool_compare_and_swap(&prog->stop, 0, 1)) {
        uint64_t nb = 0, na = 0; for (auto &p : rep.procs) nb += p.decs.size();
        Scn m = minimise(h, rep, sh, scratch, c.v.cls, getenv("PWSIM_NOMIN") ? 0 : 45);
        for (auto &p : m.procs) na += p.decs.size();
        Ctx fin = runScn(h, m, sh, scratch);
        std::string file = replayDir + "/" + prop + "-" + strf("%lu", (unsigned long)seed) + ".replay";
        std::string head = "# " + prop + ": " + c.v.cls + "\n"; for (char ch : fin.v.text) { head += ch == '\n' ? std::string("\n# ") : std::string(1, ch); if (head.size() == 4) head += ' '; }
        std::ofstream f(file); f << serialise(m) << "# violation " << c.v.cls << ": "; for (char ch : fin.v.text) { f << ch; if (ch == '\n') f << "# "; } f << "\n"; f.close();
        found->seed = seed; found->decsBefore = nb; found->decsAfter = na;
        snprintf(found->cls, sizeof found->cls, "%s", c.v.cls.c_str()); snprintf(found->text, sizeof found->text, "%s", fin.v.text.c_str()); snprintf(found->file, sizeof found->file, "%s", file.c_str());
        __sync_synchronize(); found->set = 1;
      }
      tot = keep;
      break;
    }
  }
  std::ofstream f(statFile);
  f << "seeds " << seeds << "\nruns " << runs << "\nprocs " << tot->procs << "\nsteps " << tot->steps << "\nacc " << tot->acc << "\nio " << tot->io << "\nsimms " << tot->simNs / 1000000 << "\nswitches " << tot->sw << "\nkeys " << tot->keys << "\nirrep " << irrep << "\ninternals " << internals << "\ndup " << dupChecks << "\n";
  for (int k = 1; k < F_NK; ++k) f << "fault." << faultName[k] << " " << tot->faults[k] << "\n";
  static const char *pn[] = {"preempted_at_memory_access", "preempted_at_sync_point", "mutex_contended", "condition_waited", "signal_with_no_waiter", "key_while_running", "key_when_quiescent", "threads_ge_4", "timer_fired", "existing_file_opened_for_writing", "clock_jump", "static_init_contended", "net_connections", "net_closed_by_timeout", "net_reset_seen", "net_epipe", "net_responses"};
  for (int k = 0; k < PR_USER0; ++k) f << "probe." << pn[k] << " " << tot->probes[k] << "\n";
  for (int k = 0; k < 11; ++k) f << "outcome." << outcomeName[k] << " " << tot->outcomes[k] << "\n";
  for (auto &p : probes) f << "probe." << p.first << " " << p.second << "\n";
  for (auto &p : knownHits) f << "known." << p.first << " " << p.second << "\n";
  if (!lastInternal.empty()) f << "#internal " << lastInternal << "\n";
  f.close();
  if (!sampleOut.empty()) { std::ofstream g(statFile + ".sample"); g << sampleOut; }
  rmTree(scratch); rmdir(scratch.c_str());
  _exit(0);
}

int main(int argc, char **argv) {
  if (!getenv("PWSIM_NOASLR")) { setenv("PWSIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  std::map<std::string, std::string> o; std::vector<std::string> pos, known;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { size_t e = a.find('='); std::string k = a.substr(2, e == std::string::npos ? e : e - 2), v = e == std::string::npos ? "1" : a.substr(e + 1); if (k == "known") known.push_back(v); else o[k] = v; } else pos.push_back(a); }
  if (o.count("tools")) toolDir = o["tools"];
  if (pos.empty()) { fprintf(stderr, "usage: pwsim explore|replay|seed ...\n"); return 2; }
  std::string root = strf("/dev/shm/pwsim.%07d", (int)getpid()); if (mkdir(root.c_str(), 0700) != 0) { root = strf("/tmp/pwsim.%07d", (int)getpid()); mkdir(root.c_str(), 0700); }
  int rc = 0;
  if (pos[0] == "replay" || pos[0] == "seed") {
    Scn s;
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); sched_setaffinity(0, sizeof cs, &cs);
    if (pos[0] == "replay") {
      std::ifstream f(pos[1]); std::stringstream b; b << f.rdbuf();
      if (!parseScn(b.str(), s)) { fprintf(stderr, "pwsim: bad replay file\n"); rmdir(root.c_str()); return 2; }
    }
    if (pos[0] == "seed") { s.harness = o["harness"]; s.prop = o["prop"]; s.seed = strtoull(pos[1].c_str(), nullptr, 10); }
    Harness *h = makeHarness(s.harness); if (!h) { fprintf(stderr, "no harness %s\n", s.harness.c_str()); return 2; }
    for (auto &t : h->tools(s.prop)) toolMain(t);
    Shared *sh = newShared(); std::string top = root; root += "/w0"; mkdir(root.c_str(), 0777);
    std::vector<Scn> todo;
    if (pos[0] == "seed") { Rng r(s.seed); h->gen(r, s); Ctx c = runScn(h, s, sh, root); Scn s0; s0.harness = s.harness; s0.prop = s.prop; s0.seed = s.seed; Rng r2(s.seed); h->gen(r2, s0); std::vector<Scn> more; int v = o.count("variant") ? atoi(o["variant"].c_str()) : 0; if (v > 0) { h->variants(s0, c.res, r2, more); s0 = more.at((size_t)v - 1); } s = s0; if (o.count("dump")) fputs(serialise(s).c_str(), stdout); }
    setTrace(o.count("trace"));
    Ctx c = runScn(h, s, sh, root);
    if (o.count("save")) { bool ok; std::ofstream f(o["save"]); f << serialise(toReplay(s, c, ok)); }
    for (size_t i = 0; i < c.res.size(); ++i) fprintf(stderr, "process %zu: %s, %lu steps, %lu accesses, %lu file operations, %zu decisions\n", i, c.res[i].describe().c_str(), (unsigned long)c.res[i].steps, (unsigned long)c.res[i].acc, (unsigned long)c.res[i].ioOps, c.res[i].decs.size());
    fprintf(stderr, "hash %016lx\n", (unsigned long)c.hash);
    if (o.count("keep")) { fprintf(stderr, "scratch kept: %s\n", root.c_str()); return 0; }
    if (c.internal) { fprintf(stderr, "internal: %s\n", c.internalMsg.c_str()); rc = 2; }
    else if (c.v.bad) { printf("violated property=%s class=%s %s\n", s.prop.c_str(), c.v.cls.c_str(), c.v.text.c_str()); rc = 1; }
    else printf("held property=%s\n", s.prop.c_str());
    rmTree(top); rmdir(top.c_str());
    return rc;
  }
  if (pos[0] == "explore") {
    int W = o.count("workers") ? atoi(o["workers"].c_str()) : 8; uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10); double secs = atof(o["seconds"].c_str());
    std::string prop = o["prop"], harness = o["harness"], replays = o["replays"], stat = o["stats"]; uint64_t maxSeeds = o.count("seeds") ? strtoull(o["seeds"].c_str(), nullptr, 10) : UINT64_MAX;
    uint64_t ps = 0; for (char ch : prop) ps = ps * 131 + (unsigned char)ch;
    prog = (Prog *)mmap(nullptr, sizeof(Prog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    seenTab = (uint64_t *)mmap(nullptr, SEEN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Found *found = (Found *)mmap(nullptr, sizeof(Found), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(), dl = t0 + secs; std::vector<pid_t> kids;
    for (int w = 0; w < W; ++w) { pid_t p = fork(); if (p == 0) worker(w, W, harness, prop, mix2(base, ps), dl, maxSeeds, root, replays, found, stat + strf(".%d", w), known); kids.push_back(p); }
    int bad = 0; for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    std::ofstream f(stat); f << "distinct " << prog->seenN << "\nwall " << now() - t0 << "\nworkers " << W << "\nbadworkers " << bad << "\n";
    if (found->set) { f << "found.class " << found->cls << "\nfound.seed " << found->seed << "\nfound.file " << found->file << "\nfound.decs " << found->decsBefore << " -> " << found->decsAfter << "\nfound.text " << jesc(found->text) << "\n"; rc = 1; }
    f.close();
    rmTree(root); rmdir(root.c_str());
    return rc;
  }
  fprintf(stderr, "pwsim: unknown command\n"); return 2;
}
