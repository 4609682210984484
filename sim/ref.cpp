#include "ref.hpp"
#include <cstring>
#include <algorithm>
#include <cctype>

std::vector<std::string> refLines(const std::string &t) {
  std::vector<std::string> v; size_t p = 0;
  while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) { v.push_back(t.substr(p)); return v; } v.push_back(t.substr(p, e - p)); p = e + 1; }
  return v;
}
static std::string noCr(const std::string &s) { std::string r; for (char c : s) if (c != '\r') r += c; return r; }
static std::vector<std::string> sniffed(const std::string &t) { auto v = refLines(t); if (v.size() > 500) v.resize(500); return v; }
char refSeparator(const std::string &t) {
  int best = 0; char sep = 0;
  for (char c : {'\t', ' ', ':', ';'}) { // ties go to the smallest character
    int n = 0; for (auto &l : sniffed(t)) if (noCr(l).find(c) != std::string::npos) ++n;
    if (n > best) { best = n; sep = c; }
  }
  return sep;
}
bool refPassword(const std::string &line, char sep, std::string &pwd) {
  if (line.empty() || line.size() > 200) return false;
  std::string l = noCr(line); size_t p = sep ? l.find(sep) : std::string::npos;
  pwd = p == std::string::npos ? l : l.substr(p + 1);
  return !pwd.empty();
}
static bool isHexBlob(const std::string &s, size_t at, size_t *end) { // $HEX[....]
  if (s.compare(at, 5, "$HEX[")) return false;
  size_t i = at + 5, n = 0; while (i < s.size() && isalnum((unsigned char)s[i])) ++i, ++n;
  if (n < 2 || n % 2 || i >= s.size() || s[i] != ']') return false;
  *end = i + 1; return true;
}
std::vector<std::string> refPasswords(const std::string &t, bool autoHex) {
  char sep = refSeparator(t); bool hx = false; size_t e; std::vector<std::string> v;
  if (autoHex) for (auto &l0 : sniffed(t)) if (l0.size() <= 200 && l0.find(sep) != std::string::npos) for (size_t i = 0; i < l0.size(); ++i) if (isHexBlob(l0, i, &e)) hx = true;
  for (auto &l : refLines(t)) {
    std::string p; if (!refPassword(l, sep, p)) continue;
    if (hx && isHexBlob(p, 0, &e) && e == p.size()) { std::string b = p.substr(5, p.size() - 6); for (char &ch : b) ch = (char)tolower(ch); p = hexDec(b); }
    v.push_back(p);
  }
  return v;
}
void refCount(const std::string &t, ReaderOpts o, Counts &c) {
  char sep = refSeparator(t); bool md5 = o.md5 == 2, hx = o.hex == 2;
  for (auto &l0 : sniffed(t)) {
    if (l0.find(sep) == std::string::npos) continue;
    size_t e; if (o.hex == 1 && l0.size() <= 200) for (size_t i = 0; i < l0.size(); ++i) if (isHexBlob(l0, i, &e)) hx = true;
    if (o.md5 == 1) { std::string l = noCr(l0); size_t run = 0; if (l.size() <= 200) for (unsigned char ch : l) { run = isalnum(ch) ? run + 1 : 0; if (run >= 32) md5 = true; } }
  }
  for (auto &l : refLines(t)) {
    std::string p; if (!refPassword(l, sep, p)) continue;
    bool allHex = p.size() == 32; for (unsigned char ch : p) if (!isxdigit(ch)) allHex = false;
    if (md5 && allHex) { c[h128FromHex(p)]++; continue; }
    size_t e; if (hx && isHexBlob(p, 0, &e) && e == p.size()) { std::string b = p.substr(5, p.size() - 6); for (char &ch : b) ch = (char)tolower(ch); p = hexDec(b); }
    c[md5h(p)]++;
  }
}
std::string dbOf(const Counts &c) { std::string r; for (auto &k : c) r += rec(k.first, (uint32_t)k.second); return r; }
std::string checkDb(const std::string &d, Counts *sum) {
  std::vector<std::pair<H128, uint32_t>> v;
  if (!parseDb(d, v)) return strf("its size %zu is not a multiple of the record size", d.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if (i && !(v[i - 1].first < v[i].first)) return strf("records %zu and %zu are not strictly ascending", i - 1, i);
    if (!v[i].second) return strf("record %zu has count 0", i);
    if (sum) (*sum)[v[i].first] += v[i].second;
  }
  return "";
}
void addComplete(const std::string &d, Counts &sum) { std::vector<std::pair<H128, uint32_t>> v; parseDb(d, v); for (auto &r : v) sum[r.first] += r.second; }
std::string diffCounts(const Counts &w, const Counts &g) {
  for (auto &k : w) { auto i = g.find(k.first); uint64_t h = i == g.end() ? 0 : i->second; if (h != k.second) return strf("hash %s should have count %lu but has %lu", hex(k.first).c_str(), (unsigned long)k.second, (unsigned long)h); }
  for (auto &k : g) if (k.second && !w.count(k.first)) return strf("hash %s has count %lu but does not occur in the input", hex(k.first).c_str(), (unsigned long)k.second);
  return "";
}
std::string over(const Counts &lim, const Counts &g) {
  for (auto &k : g) { auto i = lim.find(k.first); uint64_t l = i == lim.end() ? 0 : i->second; if (k.second > l) return strf("hash %s has count %lu, the input justifies %lu", hex(k.first).c_str(), (unsigned long)k.second, (unsigned long)l); }
  return "";
}
std::string joinLines(const std::vector<std::string> &v, bool nl) { std::string r; for (size_t i = 0; i < v.size(); ++i) { r += v[i]; if (nl || i + 1 < v.size()) r += '\n'; } return r; }
std::string genPassword(Rng &r) {
  static const char *common[] = {"123456", "password", "qwerty", "hunter2", "letmein", "a", "ab", "secret", "dragon", "p@ss w0rd"};
  if (r.chance(60)) return common[r.below(10)];
  std::string s; int n = r.chance(6) ? (int)r.range(13, r.chance(70) ? 70 : 185) : (int)r.range(1, 12); for (int i = 0; i < n; ++i) s += (char)r.range(33, 126);
  if (r.chance(4)) { s.resize(std::min<size_t>(s.size(), 30)); int k = (int)r.below(6); std::string x = hexEnc(s); if (k == 3) x += 'f'; return k == 0 ? hex(md5h(s)) : k >= 4 ? "$HEX[" + x : "$HEX[" + x + "]"; } // taken literally unless the program is told otherwise
  if (r.chance(10)) s += "\xc3\xa4";
  return s;
}
std::string genRawPassword(Rng &r) {
  if (!r.chance(5)) return genPassword(r);
  std::string s; int n = (int)r.range(1, 12); for (int i = 0; i < n; ++i) { char c; do c = r.chance(30) ? 0 : (char)r.below(256); while (c == '\n' || c == '\r'); s += c; }
  return s;
}
std::string safe(const std::string &s) { std::string r; for (unsigned char c : s) if (c >= 32 && c < 127) r += (char)c; else r += strf("\\x%02x", c); return r; }

// ---- a database that is only computed
void sim::Huge::fill(void *buf, uint64_t off, size_t len) const {
  unsigned char *o = (unsigned char *)buf; uint64_t i = off / 20; size_t skip = (size_t)(off % 20), done = 0;
  while (done < len) {
    unsigned char b[20]; uint64_t h = hi(i), l = lo(i); uint32_t c = count(i); memcpy(b, &h, 8); memcpy(b + 8, &l, 8); memcpy(b + 16, &c, 4);
    size_t k = std::min<size_t>(20 - skip, len - done); memcpy(o + done, b + skip, k); done += k; skip = 0; ++i;
  }
}
H128 hugeKey(const sim::Huge &h, uint64_t i) { return H128{h.hi(i), h.lo(i)}; }
bool hugeFind(const sim::Huge &h, const H128 &k, uint32_t *count) { uint64_t i = h.firstFrom(k.hi); if (i >= h.n || h.hi(i) != k.hi || h.lo(i) != k.lo) return false; if (count) *count = h.count(i); return true; }
sim::Huge genHuge(Rng &r) {
  sim::Huge h; static const uint64_t G = 1ull << 30; uint64_t bytes;
  switch (r.below(4)) { case 0: bytes = r.pick(std::vector<uint64_t>{2 * G, 4 * G, 8 * G, 16 * G}) + r.below(100000); break; case 1: bytes = 2 * G + r.below(2 * G); break; case 2: bytes = 4 * G + r.below(12 * G); break; default: bytes = G / 4 + r.below(60 * G); }
  h.n = bytes / 20; h.seed = r.next(); uint64_t all = ~0ull / h.n; h.step = r.chance(60) ? all : std::max<uint64_t>(2, all >> r.below(20)); uint64_t span = h.step * (h.n - 1) + h.step; h.base = r.chance(50) ? 0 : r.below(~0ull - span);
  return h;
}
H128 genHugeHash(Rng &r, const sim::Huge &h) {
  if (r.chance(10)) return H128{r.next(), r.next()};
  uint64_t i = r.below(h.n); static const uint64_t G = 1ull << 30;
  switch (r.below(8)) { case 0: i = r.below(3); break; case 1: i = h.n - 1 - r.below(3); break; case 2: i = r.pick(std::vector<uint64_t>{2 * G, 4 * G, 8 * G, 6 * G}) / 20 + r.below(5) - 2; break; case 3: i = h.n / 2 + r.below(3) - 1; break; }
  if (i >= h.n) i = h.n - 1;
  H128 k = hugeKey(h, i); if (r.chance(25)) { if (r.chance(50)) k.lo++; else k.hi += r.chance(50) ? 1 : ~0ull; }
  return k;
}
std::string hugeIndex(const sim::Huge &h, unsigned bits) {
  std::string d; for (uint64_t k = 0; k < 1ull << bits; ++k) { uint64_t i = h.firstFrom(k << (64 - bits)), p = i < h.n && h.hi(i) >> (64 - bits) == k ? i * 20 : ~0ull; d.append((const char *)&p, 8); }
  return d;
}
