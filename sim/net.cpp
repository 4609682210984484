// Simulated network: one listening host with scripted clients, or scripted servers the program connects to ("srv|"); sockets, epoll, eventfd and timerfd with Linux semantics.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <dlfcn.h>

namespace sim {
constexpr int FD0 = 6000, NFD = 512;
enum NK { N_FREE, N_EPOLL, N_EVENT, N_TIMER, N_SOCKET, N_LISTEN, N_CONN };
struct Conn { // one connection, seen from both sides
  int client; std::string in; size_t inPos = 0; bool inFin = false, reset = false, resetSeen = false; // towards the server
  std::string out; size_t cap = 1 << 16; bool outFin = false, srvClosed = false, reading = true; uint64_t drainDelay = 0; size_t drainMax = 1 << 20; bool drainArmed = false; // towards the client
  bool cliClosed = false, shutRd = false; uint16_t port = 0; uint64_t accNs = 0; int fd = -1;
};
struct NFd { NK kind = N_FREE; bool nonblock = false, linger0 = false, connecting = false; int soErr = 0; uint64_t cnt = 0; bool armed = false; uint64_t expire = 0, gen = 0; Conn *c = nullptr; uint16_t port = 0;
  std::vector<Conn *> *backlog = nullptr; struct Reg { int fd; epoll_event ev; bool edge; bool dead; }; std::vector<Reg> *regs = nullptr; int epoll = -1; };
static NFd *nf; static uint16_t listenPort; static int listenFd = -1; static int nOpen; static uint32_t nAccepted;
struct Client { std::string script; size_t pos = 0; Conn *c = nullptr; std::string got; bool done = false, waiting = false, late = false, ended = false, waitG = false; uint64_t gen = 0; uint64_t waitUntil = 0; bool quiet = false; size_t loopAt = 0; uint64_t loops = 0, nResp = 0, nNone = 0; };
static std::vector<Client> *clients; static int nDone, nDoneEarly, nLate; static uint32_t nUniq;
static bool srvMode; static std::vector<std::string> *srvScripts; static std::string *dnsScript; static int nResolved; // the program is the client
static void clientStep(void *);
static NFd &F(int fd) { return nf[fd - FD0]; }
bool netIsFd(int fd) { return fd >= FD0 && fd < FD0 + NFD && nf && F(fd).kind != N_FREE; }
static int newFd(NK k) { for (int i = 0; i < NFD; ++i) if (nf[i].kind == N_FREE) { nf[i] = NFd(); nf[i].kind = k; ++nOpen; return FD0 + i; } errno = EMFILE; return -1; }
static int connsOpen() { int k = 0; for (int i = 0; i < NFD; ++i) k += nf[i].kind == N_CONN; return k; }
static void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void rec(const char *t) { size_t n = strlen(t) + 1; if (g_sh->nUser + n < USERCAP) { memcpy(g_sh->user + g_sh->nUser, t, n); g_sh->nUser += n; } mixBytes(t, n); tracef("net: %s", t); }
static void ev(const char *fmt, ...) { char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); rec(b); }
static bool loud(int id) { return !(*clients)[(size_t)id].quiet; } // of a client that connects thousands of times only the totals are kept
#define EVC(id, ...) do { if (loud(id)) ev(__VA_ARGS__); } while (0)

// ---- readiness
static uint32_t ready(int fd) {
  NFd &f = F(fd);
  switch (f.kind) {
    case N_EVENT: return f.cnt ? EPOLLIN | EPOLLOUT : EPOLLOUT;
    case N_TIMER: return f.armed && g_ns >= f.expire ? EPOLLIN : 0;
    case N_LISTEN: return f.backlog->empty() ? 0 : EPOLLIN;
    case N_SOCKET: return EPOLLOUT | EPOLLHUP | (f.soErr ? EPOLLIN | EPOLLERR : 0);
    case N_CONN: if (f.connecting) return 0; else { Conn &c = *f.c; uint32_t e = 0; if (c.inPos < c.in.size() || c.inFin || c.reset || c.shutRd) e |= EPOLLIN; if (c.inFin || c.reset) e |= EPOLLRDHUP; if (c.reset) e |= EPOLLHUP | EPOLLOUT | (c.resetSeen ? 0 : EPOLLERR); if (c.inFin && c.outFin) e |= EPOLLHUP; if (c.out.size() < c.cap) e |= EPOLLOUT; return e; }
    default: return 0;
  }
}
static void edge(int fd) { // something happened at fd: those who watch it get to know
  if (fd < 0) return; NFd &f = F(fd); if (f.epoll < 0 || !netIsFd(f.epoll)) return;
  for (auto &r : *F(f.epoll).regs) if (r.fd == fd) r.edge = true;
  wakeAll(W_EPOLL, &F(f.epoll));
}

// ---- clients
static void drain(void *p) {
  OwnAlloc own;
  Client &k = *(Client *)p; Conn *c = k.c; if (!c) return; c->drainArmed = false;
  if (!c->reading || c->cliClosed) return;
  size_t n = std::min(c->out.size(), c->drainMax); bool was = c->out.size() >= c->cap;
  if (n) { k.got.append(c->out, 0, n); c->out.erase(0, n); if (was && c->fd >= 0) edge(c->fd); }
  if (!c->out.empty()) { c->drainArmed = true; addEvent(g_ns + c->drainDelay + 1, drain, p); }
  bool end = (c->outFin && c->out.empty()) || (c->reset && c->srvClosed);
  if (end && !k.ended) { k.ended = true; EVC(c->client, "end %d %lu %s", c->client, (unsigned long)g_ns, c->reset ? "rst" : "fin"); }
  if (k.waiting) clientStep(&k);
}
static void kick(Conn *c) { if (c->cliClosed || c->drainArmed) return; c->drainArmed = true; addEvent(g_ns + c->drainDelay, drain, &(*clients)[(size_t)c->client]); }
static bool complete(const std::string &g) { // one complete HTTP response
  size_t h = g.find("\r\n\r\n"); if (h == std::string::npos) return false;
  std::string head = g.substr(0, h); for (char &ch : head) if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32);
  size_t p = head.find("\r\ncontent-length:"); if (p == std::string::npos) return false;
  size_t n = strtoul(head.c_str() + p + 17, nullptr, 10); return g.size() >= h + 4 + n;
}
struct Tok { char op; uint64_t n; std::string data; };
static bool nextTok(Client &k, Tok &t, size_t &end) {
  const std::string &s = k.script; size_t p = k.pos; while (p < s.size() && s[p] == ' ') ++p; if (p >= s.size()) return false;
  t.op = s[p++]; size_t e = s.find(' ', p); if (e == std::string::npos) e = s.size(); std::string a = s.substr(p, e - p); end = e;
  t.n = strtoull(a.c_str(), nullptr, 10); t.data.clear();
  if (t.op == 'S' || t.op == 'O') for (size_t i = 0; i + 1 < a.size(); i += 2) { char b[3] = {a[i], a[i + 1], 0}; t.data += (char)strtol(b, nullptr, 16); }
  return true;
}
struct Resume { Client *k; uint64_t gen; };
static void resumeCl(void *p) { OwnAlloc own; Resume r = *(Resume *)p; delete (Resume *)p; if (r.gen == r.k->gen) { r.k->gen++; clientStep(r.k); } }
static void sleepUntil(Client &k, uint64_t at) { Resume *r = new Resume{&k, k.gen}; addEvent(at, resumeCl, r); }
static void cliReset(Client &k) {
  Conn *c = k.c; if (!c || c->cliClosed) return; c->cliClosed = true; c->reset = true; c->out.clear(); g_sh->faults[F_NET_RST]++;
  if (c->fd >= 0) edge(c->fd);
}
static void maybeLate() { if (nDoneEarly == (int)clients->size() - nLate) for (auto &k : *clients) if (k.waitG) { k.waitG = false; addEvent(g_ns + 1, clientStep, &k); } }
static void clientStep(void *p) {
  OwnAlloc own; Client &k = *(Client *)p; if (k.done) return; int id = (int)(&k - &(*clients)[0]); Tok t; size_t end;
  for (;;) {
    if (!nextTok(k, t, end)) {
      k.done = true; ++nDone; if (!k.late) ++nDoneEarly;
      if (srvMode) { k.waiting = false; return; }
      ev("done %d %lu", id, (unsigned long)g_ns); maybeLate();
      if (nDone == (int)clients->size()) { // hand over what was received and end the run
        for (size_t i = 0; i < clients->size(); ++i) { static const char *d = "0123456789abcdef"; std::string s = "got " + std::to_string(i) + " "; for (unsigned char ch : (*clients)[i].got) { s += d[ch >> 4]; s += d[ch & 15]; } rec(s.c_str()); }
        finish(O_SERVED, 0, "%s", "");
      }
      return;
    }
    switch (t.op) {
      case '@': k.pos = end; sleepUntil(k, g_ns + t.n); return;
      case 'T': k.pos = end; if (t.n > g_ns) { sleepUntil(k, t.n); return; } break; // absolute time
      case 'G': k.pos = end; if (nDoneEarly != (int)clients->size() - nLate) { k.waitG = true; return; } break;
      case 'C': {
        if (listenFd < 0) { sleepUntil(k, g_ns + 10000000); if (g_ns > 600000000000ull) k.pos = k.script.size(); return; }
        k.pos = end; Conn *c = new Conn; c->client = id; k.c = c; k.got.clear(); k.ended = false; F(listenFd).backlog->push_back(c); PROBE(PR_NET_CONN);
        EVC(id, "conn %d %lu", id, (unsigned long)g_ns); edge(listenFd); break;
      }
      case 'K': if (k.c) k.c->cap = t.n; k.pos = end; break;
      case 'Z': if (k.c) k.c->drainDelay = t.n; k.pos = end; if (t.n) g_sh->faults[F_NET_DELAY]++; break;
      case 'Y': if (k.c) k.c->drainMax = t.n ? t.n : 1; k.pos = end; break;
      case 'O': { char u[16]; snprintf(u, sizeof u, "%08x", ++nUniq * 0x9e3779b1u); for (size_t i; (i = t.data.find('~')) != std::string::npos;) t.data.replace(i, 1, u); } [[fallthrough]]; // a request that has not been made before
      case 'S': if (k.c && !k.c->cliClosed) { if (k.c->srvClosed) { /* answered by a reset */ if (!k.c->reset) { k.c->reset = true; } } else { k.c->in += t.data; edge(k.c->fd); } } k.pos = end; EVC(id, "sent %d %lu", id, (unsigned long)g_ns); break;
      case 'P': if (k.c) k.c->reading = false; g_sh->faults[F_NET_STALL]++; k.pos = end; break;
      case 'U': if (k.c) { k.c->reading = true; kick(k.c); } k.pos = end; break;
      case 'F': if (k.c && !k.c->cliClosed) { k.c->inFin = true; edge(k.c->fd); } k.pos = end; break;
      case 'X': if (k.c && !k.c->cliClosed) { if (!k.c->out.empty()) cliReset(k); else { k.c->inFin = true; k.c->cliClosed = true; edge(k.c->fd); } } k.pos = end; break;
      case 'R': cliReset(k); k.pos = end; break;
      case 'W': // until a complete response has arrived or the connection has ended, at most n ns
        if (k.c && (complete(k.got) || k.ended || k.c->cliClosed)) { if (complete(k.got)) { PROBE(PR_NET_RESP); k.nResp += k.quiet; EVC(id, "resp %d %lu", id, (unsigned long)g_ns); } k.waiting = false; k.waitUntil = 0; k.gen++; k.pos = end; break; }
        if (!k.waiting) { k.waiting = true; k.waitUntil = g_ns + t.n; sleepUntil(k, k.waitUntil); return; }
        if (g_ns >= k.waitUntil) { k.nNone += k.quiet; EVC(id, "wto %d %lu", id, (unsigned long)g_ns); k.waiting = false; k.gen++; k.pos = end; break; }
        return;
      case 'E': // until the connection has ended
        if (k.ended || !k.c) { k.waiting = false; k.gen++; k.pos = end; break; }
        if (!k.waiting) { k.waiting = true; k.waitUntil = g_ns + t.n; sleepUntil(k, k.waitUntil); return; }
        if (g_ns >= k.waitUntil) { EVC(id, "eto %d %lu", id, (unsigned long)g_ns); k.waiting = false; k.gen++; k.pos = end; break; }
        return;
      case 'Q': { // (server) until a request has arrived; the rest is left out if none comes
        size_t h = k.got.find("\r\n\r\n");
        if (h != std::string::npos) { std::string q = "req " + std::to_string(id) + " " + std::to_string(g_ns) + " "; static const char *dg = "0123456789abcdef"; for (size_t i = 0; i < h; ++i) { q += dg[(unsigned char)k.got[i] >> 4]; q += dg[k.got[i] & 15]; } rec(q.c_str()); k.got.erase(0, h + 4); k.waiting = false; k.gen++; k.pos = end; break; }
        if (k.ended || !k.c || k.c->cliClosed) { k.waiting = false; k.gen++; k.pos = k.script.size(); break; }
        if (!k.waiting) { k.waiting = true; k.waitUntil = g_ns + t.n; sleepUntil(k, k.waitUntil); return; }
        if (g_ns >= k.waitUntil) { k.waiting = false; k.gen++; k.pos = k.script.size(); break; }
        return; }
      case 'H': ev("heap %d %lu %lu %lu %d", id, (unsigned long)g_ns, (unsigned long)memLiveNow(), (unsigned long)blocksNow(), connsOpen()); k.pos = end; break;
      case 'A': k.quiet = true; k.loopAt = end; k.loops = 0; k.nResp = k.nNone = 0; k.pos = end; break; // what follows many times over
      case 'J': if (++k.loops < t.n) k.pos = k.loopAt; else { ev("loop %d %lu %lu %lu %lu", id, (unsigned long)g_ns, (unsigned long)k.loops, (unsigned long)k.nResp, (unsigned long)k.nNone); k.pos = end; } break;
      case 'M': if (k.c && !k.ended && !k.c->srvClosed && !k.c->outFin) EVC(id, "full %d %lu", id, (unsigned long)g_ns); k.pos = end; break;
      case 'D': case 'V': case 'N': k.pos = end; break; // how the connection comes about
      default: finish(O_INTERNAL, 0, "client script: %c", t.op);
    }
  }
}
constexpr size_t MAXSRV = 16384;
void netReset() {
  srvMode = false; srvScripts = nullptr; dnsScript = nullptr; nResolved = 0;
  nf = nullptr; listenFd = -1; nDone = nDoneEarly = nLate = nOpen = 0; nUniq = 0; clients = nullptr;
  if (g_cfg->net.empty()) return;
  if (g_cfg->net[0].compare(0, 3, "srv") == 0 || g_cfg->net[0].compare(0, 3, "dns") == 0) {
    nf = new NFd[NFD]; srvMode = true; clients = new std::vector<Client>; clients->reserve(MAXSRV); srvScripts = new std::vector<std::string>; dnsScript = new std::string("ok 0");
    for (auto &n : g_cfg->net) { size_t b = n.find('|'); if (n.compare(0, 3, "dns") == 0) *dnsScript = n.substr(b + 1); else srvScripts->push_back(n.substr(std::min(n.size(), b + 2))); } // a label of one letter, then the script
    if (srvScripts->empty()) srvScripts->push_back("N0");
    return;
  }
  nf = new NFd[NFD]; clients = new std::vector<Client>(g_cfg->net.size());
  for (size_t i = 0; i < clients->size(); ++i) { Client &k = (*clients)[i]; const std::string &s = g_cfg->net[i]; size_t b = s.find('|'); k.script = b == std::string::npos ? s : s.substr(b + 1); if (k.script.find('G') != std::string::npos) { k.late = true; ++nLate; } }
  for (auto &k : *clients) addEvent(g_ns + 1, clientStep, &k);
}

// ---- system calls on simulated descriptors
static void listenInit() { if (!nf) finish(O_INTERNAL, 0, "network use in a run without network"); }
static void fdClosed(int fd) {
  NFd &f = F(fd);
  if (f.epoll >= 0 && netIsFd(f.epoll)) { auto &v = *F(f.epoll).regs; for (size_t i = 0; i < v.size(); ++i) if (v[i].fd == fd) { v.erase(v.begin() + (long)i); break; } }
  if (f.kind == N_CONN) {
    Conn *c = f.c; c->srvClosed = true; if (f.connecting) (*clients)[(size_t)c->client].done = true; c->fd = -1; EVC(c->client, "close %d %lu %lu", c->client, (unsigned long)g_ns, (unsigned long)c->accNs);
    bool unread = c->inPos < c->in.size() || f.linger0; // both are answered by a reset
    if (unread && !c->reset) { c->reset = true; if (!c->cliClosed) { /* Linux resets the connection; what was not yet sent is lost */ std::string s = c->out; c->out.clear(); Client &k = (*clients)[(size_t)c->client]; if (!k.ended) { k.ended = true; EVC(c->client, "end %d %lu rst", c->client, (unsigned long)g_ns); } if (k.waiting) addEvent(g_ns + 1, clientStep, &k); } }
    else if (!c->outFin) { c->outFin = true; kick(c); }
    if (c->reset) kick(c);
  }
  if (f.kind == N_LISTEN) listenFd = -1;
  f.kind = N_FREE; --nOpen;
}
int netClose(int fd) { point(0x60); fdClosed(fd); return 0; }
static ssize_t connRead(int fd, char *b, size_t n, int flags) {
  NFd &f = F(fd); if (f.kind != N_CONN || f.connecting) { errno = ENOTCONN; return -1; } Conn &c = *f.c;
  point(0x61);
  for (;;) {
    size_t a = c.in.size() - c.inPos;
    if (a) { size_t k = std::min(a, n); memcpy(b, c.in.data() + c.inPos, k); if (!(flags & MSG_PEEK)) { c.inPos += k; if (c.inPos == c.in.size()) { c.in.clear(); c.inPos = 0; } } mixBytes(b, k); tracef("recv c%d = %zu", c.client, k); return (ssize_t)k; }
    if (n == 0) return 0;
    if (c.reset) { if (!c.resetSeen) { c.resetSeen = true; PROBE(PR_NET_RST_SEEN); errno = ECONNRESET; return -1; } return 0; }
    if (c.inFin || c.shutRd) return 0;
    if (f.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    blockOn(W_SLEEP, nullptr, g_ns + 1000000);
  }
}
static ssize_t connWrite(int fd, const char *b, size_t n, int flags) {
  NFd &f = F(fd); if (f.kind != N_CONN || f.connecting) { errno = ENOTCONN; return -1; } Conn &c = *f.c;
  point(0x62);
  for (;;) {
    if (c.reset) { PROBE(PR_NET_EPIPE); if (!c.resetSeen) { c.resetSeen = true; errno = ECONNRESET; } else errno = EPIPE; if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) finish(O_SIGNAL, 141, "killed by SIGPIPE"); return -1; }
    if (c.outFin) { errno = EPIPE; if (!(flags & MSG_NOSIGNAL)) finish(O_SIGNAL, 141, "killed by SIGPIPE"); return -1; }
    if (n == 0) return 0;
    if (c.cliClosed) { c.reset = true; tracef("send to a closed client"); edge(fd); return (ssize_t)n; } // accepted by the kernel, answered with RST
    if (c.out.size() < c.cap) { OwnAlloc own; size_t k = std::min(n, c.cap - c.out.size()); c.out.append(b, k); mixBytes(b, k); tracef("send c%d %zu = %zu", c.client, n, k); if (k < n) g_sh->faults[F_NET_SPLIT]++; kick(&c); return (ssize_t)k; }
    if (f.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    blockOn(W_SLEEP, nullptr, g_ns + 1000000);
  }
}
ssize_t netRead(int fd, void *b, size_t n) {
  NFd &f = F(fd);
  if (f.kind == N_EVENT) { point(0x63); if (!f.cnt) { errno = EAGAIN; return -1; } if (n >= 8) memcpy(b, &f.cnt, 8); f.cnt = 0; return 8; }
  if (f.kind == N_TIMER) { point(0x63); if (!(f.armed && g_ns >= f.expire)) { errno = EAGAIN; return -1; } uint64_t one = 1; memcpy(b, &one, 8); f.armed = false; return 8; }
  return connRead(fd, (char *)b, n, 0);
}
ssize_t netWrite(int fd, const void *b, size_t n) {
  NFd &f = F(fd);
  if (f.kind == N_EVENT) { point(0x63); uint64_t v; memcpy(&v, b, 8); f.cnt += v; edge(fd); return 8; }
  return connWrite(fd, (const char *)b, n, 0);
}
int netIoctl(int fd, unsigned long req, void *arg) {
  NFd &f = F(fd);
  if (req == FIONBIO) { f.nonblock = *(int *)arg != 0; return 0; }
  if (req == FIONREAD) { *(int *)arg = f.c ? int(f.c->in.size() - f.c->inPos) : 0; return 0; }
  errno = ENOTTY; return -1;
}
int netFcntl(int fd, int cmd, long arg, bool &h) {
  h = netIsFd(fd); if (!h) return -1; NFd &f = F(fd);
  if (cmd == F_GETFL) return O_RDWR | (f.nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f.nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
static int doAccept(int fd, struct sockaddr *a, socklen_t *l, int flags) {
  if (!netIsFd(fd) || F(fd).kind != N_LISTEN) { errno = EINVAL; return -1; }
  point(0x64); NFd &f = F(fd);
  uint64_t fv = f.backlog->empty() ? 0 : ioFault(C_ACCEPT, "accept", 0);
  if ((fv & 255) == F_ACCEPT_EMFILE) { errno = EMFILE; return -1; }
  while (f.backlog->empty()) { if (f.nonblock) { errno = EAGAIN; return -1; } blockOn(W_SLEEP, nullptr, g_ns + 1000000); }
  Conn *c = f.backlog->front(); f.backlog->erase(f.backlog->begin());
  int n = newFd(N_CONN); if (n < 0) return -1;
  F(n).c = c; F(n).nonblock = flags & SOCK_NONBLOCK; F(n).linger0 = F(fd).linger0; c->fd = n; c->accNs = g_ns; c->port = (uint16_t)(1024 + nAccepted++ % 64000); EVC(c->client, "acc %d %lu", c->client, (unsigned long)g_ns);
  if (a && l) { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(c->port); s.sin_addr.s_addr = htonl(0x0a000001u + (uint32_t)c->client); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
  return n;
}
static void connected(void *p) { // an attempt to connect is over
  int fd = (int)((uintptr_t)p & 0xffff); uint64_t g = (uintptr_t)p >> 16; if (!netIsFd(fd) || F(fd).kind != N_CONN || !F(fd).connecting || (F(fd).gen & 0xffffffffffffull) != g) return;
  NFd &f = F(fd); Client &k = (*clients)[(size_t)f.c->client]; f.connecting = false;
  Tok t; size_t e; if (nextTok(k, t, e) && t.op == 'N') { f.kind = N_SOCKET; f.soErr = ECONNREFUSED; k.done = true; ev("refused %d %lu", f.c->client, (unsigned long)g_ns); }
  else { EVC(f.c->client, "est %d %lu", f.c->client, (unsigned long)g_ns); f.c->accNs = g_ns; addEvent(g_ns + 1, clientStep, &k); }
  edge(fd);
}
static int doConnect(int fd) {
  if (!netIsFd(fd)) { errno = EBADF; return -1; } if (!srvMode) finish(O_INTERNAL, 0, "connect"); NFd &f = F(fd); point(0x6b);
  if (f.kind == N_CONN) { errno = f.connecting ? EALREADY : EISCONN; return -1; } if (f.kind != N_SOCKET) { errno = EINVAL; return -1; }
  if (clients->size() >= MAXSRV) { errno = ECONNREFUSED; return -1; }
  int id = (int)clients->size(); clients->push_back(Client()); Client &k = clients->back(); k.script = (*srvScripts)[(size_t)id % srvScripts->size()];
  Conn *c = new Conn; c->client = id; c->fd = fd; k.c = c; f.kind = N_CONN; f.c = c; f.connecting = true; f.soErr = 0; PROBE(PR_NET_CONN); EVC(id, "conn %d %lu", id, (unsigned long)g_ns);
  static uint64_t gens; f.gen = ++gens; Tok t{}; size_t e; bool any = nextTok(k, t, e); 
  if (!any || t.op != 'V') addEvent(g_ns + 1 + (any && (t.op == 'D' || t.op == 'N') ? t.n : 0), connected, (void *)((uintptr_t)fd | (uintptr_t)(f.gen & 0xffffffffffffull) << 16)); // V: no one ever answers
  if (f.nonblock) { errno = EINPROGRESS; return -1; }
  while (f.connecting) blockOn(W_SLEEP, nullptr, g_ns + 1000000);
  if (f.soErr) { errno = f.soErr; f.soErr = 0; return -1; }
  return 0;
}
short netPoll(int fd, short want) { uint32_t e = ready(fd); short r = 0; if (e & EPOLLIN) r |= POLLIN; if (e & EPOLLOUT) r |= POLLOUT; r &= want; if (e & EPOLLERR) r |= POLLERR; if (e & EPOLLHUP) r |= POLLHUP; return r; }
static void timerDue(void *p) { int fd = (int)((uintptr_t)p & 0xffff); uint64_t g = (uintptr_t)p >> 16; if (netIsFd(fd) && F(fd).kind == N_TIMER && (F(fd).gen & 0xffffffffffffull) == g && F(fd).armed) edge(fd); }
static void pollWake(void *) {}
} // namespace sim
using namespace sim;

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" {
int socket(int d, int t, int p) __THROW { if (!live()) return REAL(socket)(d, t, p); listenInit(); point(0x65); int fd = newFd(N_SOCKET); if (fd >= 0) F(fd).nonblock = t & SOCK_NONBLOCK; return fd; }
int bind(int fd, const struct sockaddr *a, socklen_t l) __THROW { if (!live()) return REAL(bind)(fd, a, l); if (!netIsFd(fd)) { errno = EBADF; return -1; } F(fd).port = ntohs(((const sockaddr_in *)a)->sin_port); return 0; }
int listen(int fd, int n) __THROW { if (!live()) return REAL(listen)(fd, n); if (!netIsFd(fd)) { errno = EBADF; return -1; } F(fd).kind = N_LISTEN; F(fd).backlog = new std::vector<Conn *>; listenFd = fd; listenPort = F(fd).port; return 0; }
int accept(int fd, struct sockaddr *a, socklen_t *l) { return live() ? doAccept(fd, a, l, 0) : REAL(accept)(fd, a, l); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { return live() ? doAccept(fd, a, l, fl) : REAL(accept4)(fd, a, l, fl); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { return live() ? doConnect(fd) : REAL(connect)(fd, a, l); }
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) __THROW { if (!live()) return REAL(setsockopt)(fd, lv, o, v, l); if (netIsFd(fd) && lv == SOL_SOCKET && o == SO_LINGER && l >= sizeof(struct linger)) { const struct linger *g = (const struct linger *)v; F(fd).linger0 = g->l_onoff && !g->l_linger; } return 0; }
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) __THROW { if (!live()) return REAL(getsockopt)(fd, lv, o, v, l); if (v && l) memset(v, 0, *l); if (netIsFd(fd) && o == SO_ERROR && F(fd).soErr) { *(int *)v = F(fd).soErr; F(fd).soErr = 0; } else if (netIsFd(fd) && o == SO_ERROR && F(fd).kind == N_CONN && F(fd).c->reset && !F(fd).c->resetSeen) { F(fd).c->resetSeen = true; *(int *)v = ECONNRESET; } return 0; }
static int name(int fd, struct sockaddr *a, socklen_t *l, bool peer) {
  if (!netIsFd(fd)) { errno = EBADF; return -1; } NFd &f = F(fd); point(0x66);
  if (peer && (f.kind != N_CONN || f.c->reset || f.connecting)) { errno = ENOTCONN; return -1; }
  sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(peer ? f.c->port : listenPort); s.sin_addr.s_addr = htonl(peer ? 0x0a000001u + (uint32_t)f.c->client : 0x7f000001); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) __THROW { return live() ? name(fd, a, l, false) : REAL(getsockname)(fd, a, l); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) __THROW { return live() ? name(fd, a, l, true) : REAL(getpeername)(fd, a, l); }
int shutdown(int fd, int how) __THROW {
  if (!live()) return REAL(shutdown)(fd, how);
  if (!netIsFd(fd)) { errno = EBADF; return -1; } point(0x67); NFd &f = F(fd); if (f.kind != N_CONN || f.c->reset || f.connecting) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !f.c->outFin) { f.c->outFin = true; kick(f.c); } if (how != SHUT_WR) f.c->shutRd = true; edge(fd); return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!live()) return REAL(recv)(fd, b, n, fl); if (!netIsFd(fd)) { errno = EBADF; return -1; } return connRead(fd, (char *)b, n, fl); }
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!live()) return REAL(send)(fd, b, n, fl); if (!netIsFd(fd)) { errno = EBADF; return -1; } return connWrite(fd, (const char *)b, n, fl); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  if (!live()) return REAL(recvmsg)(fd, m, fl); if (!netIsFd(fd)) { errno = EBADF; return -1; }
  ssize_t tot = 0; m->msg_flags = 0; m->msg_controllen = 0;
  for (size_t i = 0; i < m->msg_iovlen; ++i) { if (!m->msg_iov[i].iov_len) continue; if (tot && F(fd).c->inPos >= F(fd).c->in.size()) break; ssize_t r = connRead(fd, (char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < m->msg_iov[i].iov_len) break; }
  return tot;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (!live()) return REAL(sendmsg)(fd, m, fl); if (!netIsFd(fd)) { errno = EBADF; return -1; }
  std::string all; for (size_t i = 0; i < m->msg_iovlen; ++i) all.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return connWrite(fd, all.data(), all.size(), fl);
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (!live()) return REAL(recvfrom)(fd, b, n, fl, a, l); return recv(fd, b, n, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (!live()) return REAL(sendto)(fd, b, n, fl, a, l); return send(fd, b, n, fl); }
int eventfd(unsigned c, int fl) __THROW { if (!live()) return (int)syscall(SYS_eventfd2, c, fl); listenInit(); int fd = newFd(N_EVENT); F(fd).cnt = c; F(fd).nonblock = fl & EFD_NONBLOCK; return fd; }
int timerfd_create(int c, int fl) __THROW { if (!live()) return (int)syscall(SYS_timerfd_create, c, fl); listenInit(); return newFd(N_TIMER); }
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) __THROW {
  if (!live()) return (int)syscall(SYS_timerfd_settime, fd, fl, n, o);
  point(0x68); NFd &f = F(fd); uint64_t v = (uint64_t)n->it_value.tv_sec * 1000000000ull + (uint64_t)n->it_value.tv_nsec; if (o) memset(o, 0, sizeof *o);
  f.gen++; f.armed = v != 0; if (!v) return 0;
  if (v > 4000000000000000000ull) v = 4000000000000000000ull;
  f.expire = fl & TFD_TIMER_ABSTIME ? v : g_ns + v;
  if (g_ns >= f.expire) edge(fd); else if (f.expire - g_ns < 1000000000ull * 100000) addEvent(f.expire, timerDue, (void *)((uintptr_t)fd | (uintptr_t)(f.gen & 0xffffffffffffull) << 16));
  return 0;
}
static addrinfo *mkAddr(const addrinfo *h, uint32_t ip, uint16_t port, addrinfo *next) {
  struct Both { addrinfo a; sockaddr_in s; }; Both *b = (Both *)calloc(1, sizeof(Both)); b->s.sin_family = AF_INET; b->s.sin_port = htons(port); b->s.sin_addr.s_addr = htonl(ip);
  b->a.ai_family = AF_INET; b->a.ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; b->a.ai_protocol = IPPROTO_TCP; b->a.ai_addrlen = sizeof(sockaddr_in); b->a.ai_addr = (sockaddr *)&b->s; b->a.ai_next = next; return &b->a;
}
int getaddrinfo(const char *node, const char *svc, const addrinfo *h, addrinfo **out) {
  if (!live()) return REAL(getaddrinfo)(node, svc, h, out);
  listenInit(); point(0x6c); int n = nResolved++; ev("resolve %d %lu", n, (unsigned long)g_ns); unsigned long delay = 0; char what[16] = "ok"; if (dnsScript) sscanf(dnsScript->c_str(), "%15s %lu", what, &delay);
  if (delay) { uint64_t end = g_ns + delay; while (g_ns < end) blockOn(W_SLEEP, nullptr, end); }
  ev("resolved %d %lu", n, (unsigned long)g_ns);
  if (!strcmp(what, "fail")) return EAI_AGAIN; if (!strcmp(what, "none")) return EAI_NONAME;
  uint16_t port = (uint16_t)(svc ? atoi(svc) : 0); *out = mkAddr(h, 0x7f000001, port, !strcmp(what, "two") ? mkAddr(h, 0x7f000002, port, nullptr) : nullptr); return 0;
}
void freeaddrinfo(addrinfo *a) { if (!live()) return REAL(freeaddrinfo)(a); while (a) { addrinfo *n = a->ai_next; free(a); a = n; } }
int epoll_create1(int fl) __THROW { if (!live()) return (int)syscall(SYS_epoll_create1, fl); listenInit(); int fd = newFd(N_EPOLL); F(fd).regs = new std::vector<NFd::Reg>; return fd; }
int epoll_create(int) __THROW { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) __THROW {
  if (!live()) return (int)syscall(SYS_epoll_ctl, ep, op, fd, e);
  if (!netIsFd(ep) || F(ep).kind != N_EPOLL) { errno = EBADF; return -1; }
  if (!netIsFd(fd)) { errno = EPERM; return -1; }
  point(0x69); auto &v = *F(ep).regs; size_t i = 0; while (i < v.size() && v[i].fd != fd) ++i;
  if (op == EPOLL_CTL_DEL) { if (i == v.size()) { errno = ENOENT; return -1; } v.erase(v.begin() + (long)i); F(fd).epoll = -1; return 0; }
  if (op == EPOLL_CTL_ADD) { if (i < v.size()) { errno = EEXIST; return -1; } v.push_back({fd, *e, true, false}); F(fd).epoll = ep; }
  else { if (i == v.size()) { errno = ENOENT; return -1; } v[i].ev = *e; v[i].edge = true; }
  if (ready(fd) & (e->events | EPOLLERR | EPOLLHUP)) wakeAll(W_EPOLL, &F(ep));
  return 0;
}
int epoll_pwait(int ep, struct epoll_event *out, int max, int ms, const sigset_t *) {
  if (!netIsFd(ep)) { errno = EBADF; return -1; }
  point(0x6a); uint64_t dl = ms < 0 ? 0 : g_ns + (uint64_t)ms * 1000000ull;
  for (;;) {
    int n = 0;
    auto &v = *F(ep).regs;
    for (size_t i = 0; i < v.size() && n < max; ++i) {
      auto &r = v[i]; bool et = r.ev.events & EPOLLET; if (et && !r.edge) continue;
      uint32_t e = ready(r.fd) & (r.ev.events | EPOLLERR | EPOLLHUP); r.edge = false;
      if (!e) continue;
      out[n] = r.ev; out[n].events = e; ++n; tracef("epoll: fd %d events %x", r.fd, e); mix(0xE0 + (uint64_t)r.fd * 64 + e);
    }
    if (n) return n;
    if (ms == 0 || (dl && g_ns >= dl)) return 0;
    blockOn(W_EPOLL, &F(ep), dl);
  }
}
int epoll_wait(int ep, struct epoll_event *out, int max, int ms) { if (!live()) return (int)syscall(SYS_epoll_pwait, ep, out, max, ms, nullptr, 8); return epoll_pwait(ep, out, max, ms, nullptr); }
}
