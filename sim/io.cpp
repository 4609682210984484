// Simulated file system calls, terminal and standard streams. Files live in a scratch directory on tmpfs; every
// operation on them is a schedule point and a place where a fault or a process death can be injected. Nothing
// outside the scratch directory can be modified.
#include "core.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <algorithm>
#include <vector>
#include <string>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <termios.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <stdio_ext.h>

#define REALF(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t real_##name() { static name##_t f = (name##_t)sim::realSym(#name); return f; }
REALF(FILE *, fdopen, int, const char *)
REALF(int, fclose, FILE *)
REALF(size_t, fwrite, const void *, size_t, size_t, FILE *)
REALF(size_t, fread, void *, size_t, size_t, FILE *)
REALF(int, fflush, FILE *)
REALF(int, fputs, const char *, FILE *)
REALF(int, fputc, int, FILE *)
REALF(int, fgetc, FILE *)
REALF(int, ungetc, int, FILE *)
REALF(int, ferror, FILE *)
REALF(int, feof, FILE *)
REALF(void, clearerr, FILE *)
REALF(FILE *, fopen, const char *, const char *)
REALF(DIR *, opendir, const char *)
REALF(DIR *, fdopendir, int)
REALF(int, closedir, DIR *)
REALF(struct dirent *, readdir, DIR *)
REALF(void, rewinddir, DIR *)
REALF(int, vfprintf, FILE *, const char *, va_list)
REALF(int, setvbuf, FILE *, char *, int, size_t)
REALF(int, fseeko, FILE *, off_t, int)
REALF(off_t, ftello, FILE *)
REALF(int, tcgetattr, int, struct termios *)
REALF(int, tcsetattr, int, int, const struct termios *)
REALF(int, poll, struct pollfd *, nfds_t, int)
REALF(int, isatty, int)
REALF(char *, fgets, char *, int, FILE *)
REALF(ssize_t, getdelim, char **, size_t *, int, FILE *)

extern "C" int sim_stdin_getc();
extern "C" void sim_stdin_unget();
namespace sim {
// net.cpp
short netPoll(int fd, short want); ssize_t netRead(int fd, void *b, size_t n); ssize_t netWrite(int fd, const void *b, size_t n); int netClose(int fd);
int netIoctl(int fd, unsigned long req, void *arg); int netFcntl(int fd, int cmd, long arg, bool &handled);

constexpr int MAXFD = 1024;
struct FdI { off_t next; bool sim; bool faulty; bool dir; bool huge; char path[400]; uint64_t ino; bool w; int by; };
// Which simulated thread created a file in this run: a file written by two conversions at a time, or one that replaces
// what another has written, is reported to the harness as "!shared NAME".
struct Made { uint64_t ino; int by; }; static Made made[2048]; static int nMade;
static FdI fdi[MAXFD];
struct SFile { FILE *f; int fd; char w[4096]; size_t wn; char r[4096]; size_t rp, rn; bool err, eof, nobuf; };
constexpr int MAXSF = 256; static SFile *sfs[MAXSF];
static struct termios tio0, tio;
static std::string *scratchReal;
static bool stdinEofSeen;
static int nCreat; static uint64_t nSeeks, nReadBytes; // what has been read so far: places that were gone to, and bytes

void ioReset() {
  memset(fdi, 0, sizeof fdi); nMade = 0; nCreat = 0; nSeeks = nReadBytes = 0;
  memset(&tio0, 0, sizeof tio0);
  tio0.c_iflag = ICRNL | IXON; tio0.c_oflag = OPOST | ONLCR; tio0.c_cflag = CS8 | CREAD; tio0.c_lflag = g_cfg->ttyLflag;
  tio0.c_cc[VMIN] = 1; tio0.c_cc[VTIME] = 0; tio0.c_cc[VINTR] = 3; tio0.c_cc[VEOF] = 4; tio = tio0;
  scratchReal = new std::string(g_cfg->scratch);
  for (auto &p : sfs) p = nullptr;
}
static SFile *sf(FILE *f) { for (int i = 0; i < MAXSF; ++i) if (sfs[i] && sfs[i]->f == f) return sfs[i]; return nullptr; }

// absolute, normalised name; returns true if it lies in the scratch directory
static bool norm(int dirfd, const char *p, char *out) {
  char t[1200];
  if (p[0] == '/') snprintf(t, sizeof t, "%s", p);
  else if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < MAXFD && fdi[dirfd].sim) snprintf(t, sizeof t, "%s/%s", fdi[dirfd].path, p);
  else if (dirfd != AT_FDCWD) { snprintf(out, 400, "?/%s", p); return false; }
  else snprintf(t, sizeof t, "%s/%s", scratchReal->c_str(), p);
  // normalise
  char *seg[128]; int n = 0; char *save = nullptr;
  for (char *s = strtok_r(t, "/", &save); s; s = strtok_r(nullptr, "/", &save)) {
    if (!strcmp(s, ".")) continue;
    if (!strcmp(s, "..")) { if (n) --n; continue; }
    if (n < 128) seg[n++] = s;
  }
  size_t l = 0; out[0] = 0;
  for (int i = 0; i < n && l < 390; ++i) l += (size_t)snprintf(out + l, 400 - l, "/%s", seg[i]);
  if (!l) strcpy(out, "/");
  size_t k = scratchReal->size();
  return !strncmp(out, scratchReal->c_str(), k) && (out[k] == 0 || out[k] == '/');
}
static const char *shortName(const char *abs) { size_t k = scratchReal->size(); return strlen(abs) > k ? abs + k + 1 : "."; }
static bool faulty(const char *abs) { return g_cfg->faultPath.empty() || strstr(shortName(abs), g_cfg->faultPath.c_str()); }
static uint64_t nameHash(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
static bool toleratedOutside(const char *p) { return !strncmp(p, "/dev/null", 9) || !strncmp(p, "/dev/tty", 8); }
static int escape(const char *what, const char *p) { finish(O_ESCAPE, 0, "%s %s", what, p); }

static int memFile(const void *d, size_t n) {
  int fd = (int)syscall(SYS_memfd_create, "sim", 0);
  if (fd >= 0) { syscall(SYS_write, fd, d, n); syscall(SYS_lseek, fd, 0, SEEK_SET); if (fd < MAXFD) fdi[fd].sim = false; }
  return fd;
}
const char *memInfoText() {
  static char b[400];
  unsigned long kb = (unsigned long)g_cfg->memKB;
  snprintf(b, sizeof b, "MemTotal:       %8lu kB\nMemFree:        %8lu kB\nMemAvailable:   %8lu kB\nBuffers:               0 kB\nCached:                0 kB\nSwapTotal:             0 kB\nSwapFree:              0 kB\n", kb, kb, kb);
  return b;
}

extern "C" void sim_user_event(const char *);
static void sharedEvent(const char *abs) { char b[460]; snprintf(b, sizeof b, "!shared %s", shortName(abs)); sim_user_event(b); }
static int maker(uint64_t ino) { for (int i = 0; i < nMade; ++i) if (made[i].ino == ino) return made[i].by; return -1; }
static void unmake(uint64_t ino) { for (int i = 0; i < nMade; ++i) if (made[i].ino == ino) { made[i] = made[--nMade]; return; } }
static void checkReplace(const char *path, const char *abs) { // the file at `path` is about to be replaced or cut to nothing
  struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) != 0) return;
  int by = maker((uint64_t)st.st_ino); if (by >= 0 && by != tl_me->id && st.st_size > 0) sharedEvent(abs);
}
static int doOpen(int dirfd, const char *p, int flags, mode_t mode) {
  char a[400]; bool in = norm(dirfd, p, a);
  bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!in) {
    if (!strcmp(a, "/proc/meminfo")) { const char *t = memInfoText(); return memFile(t, strlen(t)); }
    if (!strcmp(a, "/dev/urandom") || !strcmp(a, "/dev/random")) { static char rb[65536]; extern ssize_t simRandom(void *, size_t); simRandom(rb, sizeof rb); return memFile(rb, sizeof rb); }
    if (w && !toleratedOutside(a)) escape("open for writing", a);
    return (int)syscall(SYS_openat, dirfd, p, flags, mode);
  }
  point(w ? 0x41 : 0x40);
  bool existed = syscall(SYS_faccessat, dirfd, p, F_OK) == 0;
  uint64_t fv = (flags & O_DIRECTORY) || !faulty(a) ? 0 : ioFault(w ? C_CREATE : C_OPEN, shortName(a), nameHash(shortName(a)));
  switch (fv & 255) {
    case F_OPEN_EMFILE: errno = EMFILE; return -1;
    case F_OPEN_EACCES: errno = EACCES; return -1;
    case F_OPEN_ENOSPC: if (!existed) { errno = ENOSPC; return -1; } break;
  }
  if (g_cfg->maxFd) { int n = 0; for (auto &x : fdi) n += x.sim; if (n >= g_cfg->maxFd) { tracef("open %s: too many open files", shortName(a)); errno = EMFILE; return -1; } }
  if (g_cfg->alien && w && (flags & O_CREAT) && !existed && nCreat < 64 && (g_cfg->alien >> nCreat++ & 1)) { // another program was quicker
    int o = (int)syscall(SYS_openat, dirfd, p, O_WRONLY | O_CREAT | O_EXCL, 0644);
    if (o >= 0) { static const char t[] = "contents of another program's file"; (void)!syscall(SYS_write, o, t, sizeof t - 1); syscall(SYS_close, o); existed = true; tracef("another program creates %s", shortName(a)); char b[460]; snprintf(b, sizeof b, "!alien %s", shortName(a)); sim_user_event(b); }
  }
  if (w && existed && (flags & O_ACCMODE) != O_RDONLY && dirfd == AT_FDCWD) checkReplace(p, a);
  int fd = (int)syscall(SYS_openat, dirfd, p, flags, mode);
  tracef("open %s flags %o = %d", shortName(a), flags, fd);
  if (fd >= 0) {
    if (fd >= MAXFD) finish(O_INTERNAL, 0, "too many open files");
    fdi[fd] = {}; fdi[fd].next = -1; fdi[fd].sim = true; fdi[fd].faulty = faulty(a); strcpy(fdi[fd].path, a);
    fdi[fd].huge = g_cfg->huge.n && !strcmp(shortName(a), "huge.md5"); if (fdi[fd].huge && w) finish(O_INTERNAL, 0, "the computed database is opened for writing");
    struct stat st; if (syscall(SYS_fstat, fd, &st) == 0) {
      fdi[fd].dir = S_ISDIR(st.st_mode); fdi[fd].ino = (uint64_t)st.st_ino; fdi[fd].w = (flags & O_ACCMODE) != O_RDONLY && !fdi[fd].dir; fdi[fd].by = tl_me->id;
      if (fdi[fd].w) {
        for (int i = 0; i < MAXFD; ++i) if (i != fd && fdi[i].sim && fdi[i].w && fdi[i].ino == fdi[fd].ino && fdi[i].by != tl_me->id) sharedEvent(a);
        if (!existed) { unmake(fdi[fd].ino); if (nMade < 2048) made[nMade++] = {fdi[fd].ino, tl_me->id}; }
      }
    }
    uint64_t open = 0; for (auto &x : fdi) open += x.sim && !x.dir; g_sh->fdPeak = std::max(g_sh->fdPeak, open);
    if (w && !existed) g_sh->createdTotal++;
    if (w && existed && (flags & (O_TRUNC | O_CREAT))) PROBE(PR_OPEN_EXISTING_W);
  }
  if ((fv & 255) == F_KILL_AFTER) killNow("open");
  return fd;
}
// how many of n bytes (of which `avail` exist) a shortened transfer moves: anywhere, or within the first or last record
static size_t shortLen(size_t n, uint64_t avail, uint64_t k) {
  size_t m = (size_t)std::min<uint64_t>(n, avail); if (m < 2) return n;
  switch (k & 3) { case 0: return 1 + (k >> 2) % std::min<size_t>(m - 1, 40); case 1: return m - 1 - (k >> 2) % std::min<size_t>(m - 1, 24); default: return 1 + (k >> 2) % (m - 1); }
}
extern "C" void sim_read_cost(uint64_t *places, uint64_t *bytes) { *places = nSeeks; *bytes = nReadBytes; }
static uint64_t remaining(int fd) { struct stat st; off_t o = (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR); return o >= 0 && syscall(SYS_fstat, fd, &st) == 0 && st.st_size > o ? (uint64_t)(st.st_size - o) : 0; }
static ssize_t simRead(int fd, void *b, size_t n) {
  FdI &d = fdi[fd];
  point(0x42);
  uint64_t fv = d.faulty ? ioFault(C_READ, shortName(d.path), 0) : 0;
  switch (fv & 255) {
    case F_READ_EIO: errno = EIO; return -1;
    case F_READ_EINTR: errno = EINTR; return -1;
    case F_READ_SHORT: if (n > 1) n = shortLen(n, remaining(fd), fv >> 16); break;
  }
  off_t at = (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
  ssize_t r = syscall(SYS_read, fd, b, n);
  if (r > 0) { if (at != d.next) ++nSeeks; d.next = at + r; nReadBytes += (uint64_t)r; }
  if (d.huge && r > 0) g_cfg->huge.fill(b, (uint64_t)at, (size_t)r);
  tracef("read %s (%zu) = %zd", shortName(d.path), n, r);
  if (r > 0) mixBytes(b, (size_t)r);
  if ((fv & 255) == F_KILL_AFTER) killNow("read");
  return r;
}
static ssize_t simWrite(int fd, const void *b, size_t n) {
  FdI &d = fdi[fd];
  point(0x43);
  uint64_t fv = d.faulty ? ioFault(C_WRITE, shortName(d.path), 0) : 0;
  switch (fv & 255) {
    case F_WRITE_ENOSPC: errno = ENOSPC; return -1;
    case F_WRITE_EIO: errno = EIO; return -1;
    case F_WRITE_EINTR: errno = EINTR; return -1;
    case F_WRITE_SHORT: if (n > 1) n = shortLen(n, n, fv >> 16); break;
    case F_KILL_TORN: n = n > 1 ? shortLen(n, n, fv >> 16) : 0; break;
  }
  ssize_t r = syscall(SYS_write, fd, b, n);
  tracef("write %s (%zu) = %zd", shortName(d.path), n, r);
  if (r > 0) mixBytes(b, (size_t)r);
  if ((fv & 255) == F_KILL_AFTER || (fv & 255) == F_KILL_TORN) killNow("write");
  return r;
}
static int simCloseFault(int fd) { // decides; the caller closes
  FdI &d = fdi[fd];
  point(0x44);
  uint64_t fv = d.faulty && !d.dir ? ioFault(C_CLOSE, shortName(d.path), 0) : 0;
  tracef("close %s", shortName(d.path));
  d.sim = false;
  if ((fv & 255) == F_KILL_AFTER) killNow("close");
  return (fv & 255) == F_CLOSE_EIO ? -1 : 0;
}
static bool tracked(int fd) { return live() && fd >= 0 && fd < MAXFD && fdi[fd].sim; }

// ---- standard output
static void capture(FILE *f, const void *p, size_t n) {
  bool e = f == stderr;
  char *buf = e ? g_sh->err : g_sh->out; size_t cap = e ? ERRCAP : OUTCAP; uint64_t &k = e ? g_sh->nErr : g_sh->nOut;
  size_t c = k < cap ? std::min(n, cap - (size_t)k) : 0;
  memcpy(buf + k, p, c); k += c;
  mixBytes(p, n);
}
static bool isStd(FILE *f) { return f == stdout || f == stderr; }

// ---- FILE
static bool sfFlush(SFile *s) {
  size_t o = 0;
  while (o < s->wn) { // like glibc: a failing write gives up, a short one goes on
    ssize_t r = simWrite(s->fd, s->w + o, s->wn - o);
    if (r < 0) { s->err = true; memmove(s->w, s->w + o, s->wn - o); s->wn -= o; return false; }
    o += (size_t)r;
  }
  s->wn = 0; return true;
}
static size_t sfWrite(SFile *s, const char *p, size_t n) {
  size_t done = 0;
  if (s->rn) { syscall(SYS_lseek, s->fd, (off_t)s->rp - (off_t)s->rn, SEEK_CUR); s->rp = s->rn = 0; }
  while (done < n) {
    if (s->wn == sizeof s->w && !sfFlush(s)) return done;
    size_t c = std::min(n - done, sizeof s->w - s->wn);
    memcpy(s->w + s->wn, p + done, c); s->wn += c; done += c;
  }
  if (s->nobuf && !sfFlush(s)) return 0;
  return done;
}
static int sfGet(SFile *s) {
  if (s->rp == s->rn) {
    if (s->eof) return EOF;
    if (s->wn && !sfFlush(s)) return EOF;
    ssize_t r = simRead(s->fd, s->r, sizeof s->r);
    if (r < 0) { s->err = true; return EOF; }
    if (r == 0) { s->eof = true; return EOF; }
    s->rp = 0; s->rn = (size_t)r;
  }
  return (unsigned char)s->r[s->rp++];
}
static int modeFlags(const char *m) {
  int f = 0; bool plus = strchr(m, '+') != nullptr;
  switch (m[0]) { case 'r': f = plus ? O_RDWR : O_RDONLY; break; case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; }
  if (strchr(m, 'x')) f |= O_EXCL;
  if (strchr(m, 'e')) f |= O_CLOEXEC;
  return f;
}
static FILE *simFopen(const char *p, const char *m) {
  int fd = doOpen(AT_FDCWD, p, modeFlags(m), 0666);
  if (fd < 0) return nullptr;
  FILE *f = real_fdopen()(fd, m);
  if (!f) { syscall(SYS_close, fd); return nullptr; }
  if (fdi[fd].sim) {
    int i = 0; while (i < MAXSF && sfs[i]) ++i;
    if (i == MAXSF) finish(O_INTERNAL, 0, "too many FILEs");
    SFile *s = (SFile *)calloc(1, sizeof(SFile)); s->f = f; s->fd = fd; sfs[i] = s;
  }
  return f;
}

// ---- directories
struct DirS { DIR *d; std::vector<struct dirent> v; size_t i; int fd; bool loaded; };
static std::vector<DirS *> *dirs;
static DirS *dirOf(DIR *d) { if (dirs) for (auto *x : *dirs) if (x->d == d) return x; return nullptr; }
static DIR *regDir(DIR *d) { OwnAlloc own; if (d) { if (!dirs) dirs = new std::vector<DirS *>; auto *x = new DirS; x->d = d; x->i = 0; x->loaded = false; dirs->push_back(x); } return d; }
static void loadDir(DirS *x) {
  OwnAlloc own; x->loaded = true;
  while (struct dirent *e = real_readdir()(x->d)) x->v.push_back(*e);
  std::sort(x->v.begin(), x->v.end(), [](const struct dirent &a, const struct dirent &b) { return strcmp(a.d_name, b.d_name) < 0; });
  for (size_t i = 0; i + 1 < x->v.size(); ++i) { size_t j = i + (size_t)recChoice(x->v.size() - i); if (j != i) std::swap(x->v[i], x->v[j]); }
}
static struct dirent *nextDir(DIR *d) {
  DirS *x = dirOf(d); if (!x) return real_readdir()(d);
  if (!x->loaded) loadDir(x);
  if (x->i >= x->v.size()) return nullptr;
  return &x->v[x->i++];
}
extern "C" ssize_t getrandom(void *, size_t, unsigned);
ssize_t simRandom(void *b, size_t n) { return getrandom(b, n, 0); }

static int modOp(Cls c, uint32_t kind, int dirfd, const char *p, const char *what, uint64_t &fv) { // checks containment, decides a fault
  char a[400];
  if (!norm(dirfd, p, a)) return escape(what, a);
  point(kind);
  fv = faulty(a) ? ioFault(c, shortName(a), nameHash(shortName(a))) : 0;
  tracef("%s %s", what, shortName(a));
  return 0;
}
static int after(uint64_t fv, long r, const char *w) { int e = errno; if ((fv & 255) == F_KILL_AFTER) killNow(w); errno = e; return (int)r; }
} // namespace sim
using namespace sim;

// asking for a file's status or reading a directory fails (only in scenarios that name these faults)
static bool nameFault(Cls c, uint32_t kind, int dirfd, const char *p) {
  if (!((g_cfg->faultMask | g_cfg->planMask) & M(kind))) return false;
  char a[400]; if (!norm(dirfd, p, a) || !faulty(a)) return false;
  return (ioFault(c, shortName(a), nameHash(shortName(a))) & 255) == kind;
}
static bool statPoint(int d, const char *p) { if (!live()) return true; point(0x4a); if (p && *p && nameFault(C_STAT, F_STAT_EIO, d, p)) { errno = EIO; return false; } return true; }
static const time_t FTIME = 1600000000; // file times are the same in every run
template <class S> static int fixTime(int r, S *s) { if (r == 0 && live()) { s->st_mtim.tv_sec = s->st_ctim.tv_sec = s->st_atim.tv_sec = FTIME; s->st_mtim.tv_nsec = s->st_ctim.tv_nsec = s->st_atim.tv_nsec = 0; } return r; }
extern "C" {
// ================================================= open / close
int open(const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return live() ? doOpen(AT_FDCWD, p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return live() ? doOpen(AT_FDCWD, p, fl, m) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int openat(int d, const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return live() ? doOpen(d, p, fl, m) : (int)syscall(SYS_openat, d, p, fl, m);
}
int openat64(int d, const char *p, int fl, ...) {
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return live() ? doOpen(d, p, fl, m) : (int)syscall(SYS_openat, d, p, fl, m);
}
int __open_2(const char *p, int fl) { return live() ? doOpen(AT_FDCWD, p, fl, 0) : (int)syscall(SYS_openat, AT_FDCWD, p, fl, 0); }
int __open64_2(const char *p, int fl) { return __open_2(p, fl); }
int __openat_2(int d, const char *p, int fl) { return live() ? doOpen(d, p, fl, 0) : (int)syscall(SYS_openat, d, p, fl, 0); }
int __openat64_2(int d, const char *p, int fl) { return __openat_2(d, p, fl); }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) {
  if (live() && netIsFd(fd)) return netClose(fd);
  if (!tracked(fd)) return (int)syscall(SYS_close, fd);
  int r = simCloseFault(fd); syscall(SYS_close, fd);
  if (r) { errno = EIO; return -1; }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  if (live() && netIsFd(fd)) return netRead(fd, b, n);
  if (live() && fd == 0) {
    int c; size_t k = 0; char *o = (char *)b;
    while (k < n) { if (k && !stdinAvail()) break; if (!stdinRead1(c, true)) break; o[k++] = (char)c; if (c == '\n') break; }
    return (ssize_t)k;
  }
  return tracked(fd) ? simRead(fd, b, n) : syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  if (live() && netIsFd(fd)) return netWrite(fd, b, n);
  if (live() && (fd == 1 || fd == 2)) { capture(fd == 1 ? stdout : stderr, b, n); return (ssize_t)n; }
  return tracked(fd) ? simWrite(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!live() || (!tracked(fd) && !netIsFd(fd))) return syscall(SYS_writev, fd, v, c);
  ++g_ownAlloc; std::string s; for (int i = 0; i < c; ++i) s.append((const char *)v[i].iov_base, v[i].iov_len);
  --g_ownAlloc; return write(fd, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_readv, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = simRead(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, o);
  off_t old = syscall(SYS_lseek, fd, 0, SEEK_CUR); syscall(SYS_lseek, fd, o, SEEK_SET);
  ssize_t r = simRead(fd, b, n); int e = errno; syscall(SYS_lseek, fd, old, SEEK_SET); errno = e; return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  off_t old = syscall(SYS_lseek, fd, 0, SEEK_CUR); syscall(SYS_lseek, fd, o, SEEK_SET);
  ssize_t r = simWrite(fd, b, n); int e = errno; syscall(SYS_lseek, fd, old, SEEK_SET); errno = e; return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { if (tracked(fd)) point(0x45); off_t r = syscall(SYS_lseek, fd, o, w); if (live() && tracked(fd)) mix((uint64_t)r); return r; }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  if (!tracked(out) && !tracked(in)) return syscall(SYS_sendfile, out, in, o, n);
  errno = EINVAL; return -1; // callers fall back to read and write
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { return sendfile(out, in, o, n); }
int fsync(int fd) { if (!tracked(fd)) return (int)syscall(SYS_fsync, fd); point(0x46); return 0; }
int fdatasync(int fd) { return fsync(fd); }
void sync(void) { if (live()) { point(0x46); return; } syscall(SYS_sync); }
int ftruncate(int fd, off_t n) {
  if (!tracked(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  point(0x43); uint64_t fv = fdi[fd].faulty ? ioFault(C_WRITE, shortName(fdi[fd].path), 0) : 0;
  if ((fv & 255) == F_WRITE_EIO || (fv & 255) == F_WRITE_ENOSPC) { errno = EIO; return -1; }
  return after(fv, syscall(SYS_ftruncate, fd, n), "ftruncate");
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (live()) { bool h = false; int r = netFcntl(fd, cmd, a, h); if (h) return r; }
  return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (live()) { bool h = false; int r = netFcntl(fd, cmd, a, h); if (h) return r; }
  return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (live() && netIsFd(fd)) return netIoctl(fd, req, a);
  if (live() && fd >= 0 && fd <= 2) { if (req == FIONREAD && fd == 0) { *(int *)a = stdinAvail(); return 0; } errno = ENOTTY; return -1; }
  return (int)syscall(SYS_ioctl, fd, req, a);
}
// ================================================= names
int unlink(const char *p) {
  if (!live()) return (int)syscall(SYS_unlink, p);
  uint64_t fv = 0; modOp(C_UNLINK, 0x47, AT_FDCWD, p, "unlink", fv);
  if ((fv & 255) == F_UNLINK_EIO) { errno = EIO; return -1; }
  return after(fv, syscall(SYS_unlink, p), "unlink");
}
int unlinkat(int d, const char *p, int fl) {
  if (!live()) return (int)syscall(SYS_unlinkat, d, p, fl);
  uint64_t fv = 0; modOp(C_UNLINK, 0x47, d, p, "unlink", fv);
  if ((fv & 255) == F_UNLINK_EIO) { errno = EIO; return -1; }
  return after(fv, syscall(SYS_unlinkat, d, p, fl), "unlink");
}
int rmdir(const char *p) {
  if (!live()) return (int)syscall(SYS_rmdir, p);
  uint64_t fv = 0; modOp(C_UNLINK, 0x47, AT_FDCWD, p, "rmdir", fv);
  if ((fv & 255) == F_UNLINK_EIO) { errno = EIO; return -1; }
  return after(fv, syscall(SYS_rmdir, p), "rmdir");
}
int remove(const char *p) {
  if (!live()) { int r = (int)syscall(SYS_unlink, p); if (r && (errno == EISDIR || errno == EPERM)) r = (int)syscall(SYS_rmdir, p); return r; }
  int r = unlink(p); if (r && errno == EISDIR) r = rmdir(p); return r;
}
int rename(const char *a, const char *b) {
  if (!live()) return (int)syscall(SYS_rename, a, b);
  char t[400]; if (!norm(AT_FDCWD, b, t)) return escape("rename to", t);
  uint64_t fv = 0; modOp(C_RENAME, 0x48, AT_FDCWD, a, "rename", fv);
  if ((fv & 255) == F_RENAME_EIO) { errno = EIO; return -1; }
  checkReplace(b, t);
  bool ex = syscall(SYS_access, b, F_OK) == 0; long r = syscall(SYS_rename, a, b);
  if (r == 0 && ex) PROBE(PR_OPEN_EXISTING_W);
  return after(fv, r, "rename");
}
int renameat(int d, const char *a, int e, const char *b) { if (!live()) return (int)syscall(SYS_renameat, d, a, e, b); if (d != AT_FDCWD || e != AT_FDCWD) finish(O_INTERNAL, 0, "renameat"); return rename(a, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned fl) {
  if (!live()) return (int)syscall(SYS_renameat2, d, a, e, b, fl);
  char t[400]; if (!norm(e, b, t)) return escape("rename to", t);
  uint64_t fv = 0; modOp(C_RENAME, 0x48, d, a, "rename", fv);
  if ((fv & 255) == F_RENAME_EIO) { errno = EIO; return -1; }
  return after(fv, syscall(SYS_renameat2, d, a, e, b, fl), "rename");
}
int link(const char *a, const char *b) { if (live()) { char t[400]; if (!norm(AT_FDCWD, b, t)) return escape("link to", t); uint64_t fv; modOp(C_RENAME, 0x48, AT_FDCWD, a, "link", fv); if ((fv & 255) == F_RENAME_EIO) { errno = EIO; return -1; } return after(fv, syscall(SYS_link, a, b), "link"); } return (int)syscall(SYS_link, a, b); }
int symlink(const char *a, const char *b) { if (live()) { char t[400]; if (!norm(AT_FDCWD, b, t)) return escape("symlink to", t); point(0x48); } return (int)syscall(SYS_symlink, a, b); }
int mkdir(const char *p, mode_t m) {
  if (!live()) return (int)syscall(SYS_mkdir, p, m);
  uint64_t fv = 0; modOp(C_MKDIR, 0x49, AT_FDCWD, p, "mkdir", fv);
  if ((fv & 255) == F_MKDIR_ENOSPC) { errno = ENOSPC; return -1; }
  return after(fv, syscall(SYS_mkdir, p, m), "mkdir");
}
int chmod(const char *p, mode_t m) { if (live()) { char t[400]; if (!norm(AT_FDCWD, p, t)) return escape("chmod", t); } return (int)syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { return (int)syscall(SYS_fchmod, fd, m); }
int fchmodat(int d, const char *p, mode_t m, int fl) { if (live()) { char t[400]; if (!norm(d, p, t)) return escape("chmod", t); } (void)fl; return (int)syscall(SYS_fchmodat, d, p, m); }
int utimensat(int d, const char *p, const struct timespec ts[2], int fl) { if (live() && p) { char t[400]; if (!norm(d, p, t)) return escape("utimensat", t); } return (int)syscall(SYS_utimensat, d, p, ts, fl); }
int truncate(const char *p, off_t n) { if (live()) { uint64_t fv = 0; modOp(C_WRITE, 0x43, AT_FDCWD, p, "truncate", fv); if ((fv & 255) == F_WRITE_EIO || (fv & 255) == F_WRITE_ENOSPC) { errno = EIO; return -1; } return after(fv, syscall(SYS_truncate, p, n), "truncate"); } return (int)syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int chdir(const char *p) { if (live()) finish(O_INTERNAL, 0, "chdir"); return (int)syscall(SYS_chdir, p); }
int stat(const char *p, struct stat *s) { if (!statPoint(AT_FDCWD, p)) return -1; return fixTime((int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0), s); }
int lstat(const char *p, struct stat *s) { if (!statPoint(AT_FDCWD, p)) return -1; return fixTime((int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW), s); }
int stat64(const char *p, struct stat64 *s) { if (!statPoint(AT_FDCWD, p)) return -1; return fixTime((int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0), s); }
int fstatat(int d, const char *p, struct stat *s, int fl) { if (!statPoint(d, p)) return -1; return fixTime((int)syscall(SYS_newfstatat, d, p, s, fl), s); }
int access(const char *p, int m) { if (live()) point(0x4a); return (int)syscall(SYS_access, p, m); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) { if (!statPoint(d, p)) return -1; int r = (int)syscall(SYS_statx, d, p, fl, m, s); if (r == 0 && live()) { s->stx_mtime.tv_sec = s->stx_ctime.tv_sec = s->stx_atime.tv_sec = s->stx_btime.tv_sec = FTIME; s->stx_mtime.tv_nsec = s->stx_ctime.tv_nsec = s->stx_atime.tv_nsec = s->stx_btime.tv_nsec = 0; } return r; }
static bool dirFault() { return ((g_cfg->faultMask | g_cfg->planMask) & M(F_DIR_EIO)) && (ioFault(C_DIR, "directory", 0) & 255) == F_DIR_EIO; }
DIR *opendir(const char *p) { if (!live()) return real_opendir()(p); point(0x4b); if (nameFault(C_DIR, F_DIR_EIO, AT_FDCWD, p)) { errno = EIO; return nullptr; } return regDir(real_opendir()(p)); }
DIR *fdopendir(int fd) { if (!live()) return real_fdopendir()(fd); point(0x4b); if (tracked(fd)) { DIR *d = regDir(real_fdopendir()(fd)); return d; } return real_fdopendir()(fd); }
struct dirent *readdir(DIR *d) { if (live() && dirFault()) { errno = EIO; return nullptr; } return live() ? nextDir(d) : real_readdir()(d); }
struct dirent64 *readdir64(DIR *d) { if (live() && dirFault()) { errno = EIO; return nullptr; } return (struct dirent64 *)(live() ? nextDir(d) : real_readdir()(d)); }
int closedir(DIR *d) {
  if (live()) if (DirS *x = dirOf(d)) { int fd = dirfd(d); if (fd >= 0 && fd < MAXFD) fdi[fd].sim = false; dirs->erase(std::find(dirs->begin(), dirs->end(), x)); delete x; }
  return real_closedir()(d);
}
// ================================================= FILE
FILE *fopen(const char *p, const char *m) { return live() ? simFopen(p, m) : real_fopen()(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) {
  FILE *f = real_fdopen()(fd, m);
  if (f && tracked(fd)) { int i = 0; while (i < MAXSF && sfs[i]) ++i; if (i == MAXSF) finish(O_INTERNAL, 0, "too many FILEs"); SFile *s = (SFile *)calloc(1, sizeof(SFile)); s->f = f; s->fd = fd; sfs[i] = s; }
  return f;
}
int fclose(FILE *f) {
  SFile *s = live() ? sf(f) : nullptr;
  if (!s) return real_fclose()(f);
  bool ok = sfFlush(s) && !s->err;
  int r = simCloseFault(s->fd);
  for (auto &p : sfs) if (p == s) p = nullptr;
  free(s); real_fclose()(f);
  if (r) { errno = EIO; return EOF; }
  return ok ? 0 : EOF;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) {
  if (live()) {
    if (isStd(f)) { capture(f, p, sz * n); return n; }
    if (SFile *s = sf(f)) { size_t r = sfWrite(s, (const char *)p, sz * n); return sz ? r / sz : 0; }
  }
  return real_fwrite()(p, sz, n, f);
}
size_t fwrite_unlocked(const void *p, size_t sz, size_t n, FILE *f) { return fwrite(p, sz, n, f); }
int fputs(const char *t, FILE *f) { if (live() && (isStd(f) || sf(f))) { size_t n = strlen(t); return fwrite(t, 1, n, f) == n ? 1 : EOF; } return real_fputs()(t, f); }
int fputc(int c, FILE *f) { if (live() && (isStd(f) || sf(f))) { char ch = (char)c; return fwrite(&ch, 1, 1, f) == 1 ? (unsigned char)c : EOF; } return real_fputc()(c, f); }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char *t) { if (fputs(t, stdout) < 0) return EOF; return fputc('\n', stdout); }
int fflush(FILE *f) {
  if (live()) {
    if (!f) { bool ok = true; for (auto *s : sfs) if (s) ok &= sfFlush(s); return ok ? 0 : EOF; }
    if (isStd(f)) return 0;
    if (SFile *s = sf(f)) return sfFlush(s) ? 0 : EOF;
  }
  return real_fflush()(f);
}
static int vfp(FILE *f, const char *fmt, va_list ap) {
  if (live() && (isStd(f) || sf(f))) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > 0) fwrite(b, 1, std::min<size_t>((size_t)n, sizeof b - 1), f); return n; }
  return real_vfprintf()(f, fmt, ap);
}
int vfprintf(FILE *f, const char *fmt, va_list ap) { return vfp(f, fmt, ap); }
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfp(f, fmt, ap); va_end(ap); return r; }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfp(f, fmt, ap); va_end(ap); return r; }
int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfp(stdout, fmt, ap); va_end(ap); return r; }
int __printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfp(stdout, fmt, ap); va_end(ap); return r; }
int ferror(FILE *f) { if (live()) { if (isStd(f)) return 0; if (SFile *s = sf(f)) return s->err; } return real_ferror()(f); }
int feof(FILE *f) { if (live()) { if (f == stdin) return stdinEofSeen; if (SFile *s = sf(f)) return s->eof && s->rp == s->rn; } return real_feof()(f); }
void clearerr(FILE *f) { if (live()) { if (f == stdin) { stdinEofSeen = false; return; } if (SFile *s = sf(f)) { s->err = s->eof = false; return; } } real_clearerr()(f); }
int fgetc(FILE *f) {
  if (live()) {
    if (f == stdin) { int c = sim_stdin_getc(); if (c == EOF) stdinEofSeen = true; return c; }
    if (SFile *s = sf(f)) return sfGet(s);
  }
  return real_fgetc()(f);
}
int getc(FILE *f) { return fgetc(f); }
int _IO_getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *f) {
  if (live()) {
    if (f == stdin) { if (c != EOF) sim_stdin_unget(); return c; }
    if (SFile *s = sf(f)) { if (c != EOF && s->rp) { s->r[--s->rp] = (char)c; s->eof = false; } return c; }
  }
  return real_ungetc()(c, f);
}
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
  if (live() && (f == stdin || sf(f))) {
    size_t t = sz * n, k = 0; char *o = (char *)p;
    while (k < t) { int c = fgetc(f); if (c == EOF) break; o[k++] = (char)c; }
    return sz ? k / sz : 0;
  }
  return real_fread()(p, sz, n, f);
}
char *fgets(char *b, int n, FILE *f) {
  if (live() && (f == stdin || sf(f))) { int k = 0; while (k + 1 < n) { int c = fgetc(f); if (c == EOF) break; b[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
  return real_fgets()(b, n, f);
}
int setvbuf(FILE *f, char *b, int m, size_t n) { if (live()) { if (isStd(f) || f == stdin) return 0; if (SFile *s = sf(f)) { s->nobuf = m == _IONBF; return 0; } } return real_setvbuf()(f, b, m, n); }
int fseeko(FILE *f, off_t o, int w) {
  if (live()) if (SFile *s = sf(f)) { if (!sfFlush(s)) return -1; if (w == SEEK_CUR) o += (off_t)s->rp - (off_t)s->rn; s->rp = s->rn = 0; s->eof = false; return lseek(s->fd, o, w) < 0 ? -1 : 0; }
  return real_fseeko()(f, o, w);
}
int fseeko64(FILE *f, off_t o, int w) { return fseeko(f, o, w); }
int fseek(FILE *f, long o, int w) { return fseeko(f, o, w); }
off_t ftello(FILE *f) { if (live()) if (SFile *s = sf(f)) return syscall(SYS_lseek, s->fd, 0, SEEK_CUR) + (off_t)s->wn - (off_t)(s->rn - s->rp); return real_ftello()(f); }
off_t ftello64(FILE *f) { return ftello(f); }
long ftell(FILE *f) { return ftello(f); }
void rewind(FILE *f) { fseeko(f, 0, SEEK_SET); clearerr(f); }

// ================================================= terminal
int tcgetattr(int fd, struct termios *t) {
  if (!live()) return real_tcgetattr()(fd, t);
  point(0x50);
  if (!g_cfg->tty || fd < 0 || fd > 2) { errno = ENOTTY; return -1; }
  *t = tio; return 0;
}
int tcsetattr(int fd, int a, const struct termios *t) {
  if (!live()) return real_tcsetattr()(fd, a, t);
  point(0x51);
  if (!g_cfg->tty || fd < 0 || fd > 2) { errno = ENOTTY; return -1; }
  tio = *t; g_sh->ttyLflagEnd = tio.c_lflag;
  g_sh->ttyChanged = tio.c_lflag != tio0.c_lflag || tio.c_iflag != tio0.c_iflag || tio.c_oflag != tio0.c_oflag || memcmp(tio.c_cc, tio0.c_cc, sizeof tio.c_cc) != 0;
  mix(0x7710 + tio.c_lflag); tracef("tcsetattr lflag %x", tio.c_lflag);
  return 0;
}
int isatty(int fd) { if (!live()) return real_isatty()(fd); if (fd >= 0 && fd <= 2 && g_cfg->tty) return 1; errno = ENOTTY; return 0; }
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!live()) return real_poll()(p, n, ms);
  uint64_t end = ms >= 0 ? g_ns + uint64_t(ms) * 1000000ull : 0;
  for (;;) {
    point(0x52);
    int r = 0; bool net = false;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd == 0) { if (stdinAvail()) p[i].revents = POLLIN & p[i].events; }
      else if (netIsFd(p[i].fd)) { p[i].revents = netPoll(p[i].fd, p[i].events); net = true; }
      else if (p[i].fd >= 0) p[i].revents = (short)(p[i].events & (POLLIN | POLLOUT));
      if (p[i].revents) ++r;
    }
    if (r || (ms >= 0 && g_ns >= end)) return r;
    if (net) { uint64_t t = g_ns + 1000000; blockOn(W_SLEEP, nullptr, ms >= 0 ? std::min(end, t) : t); continue; }
    blockOn(W_STDIN, nullptr, ms >= 0 ? end : 0);
  }
}

// ================================================= raw system calls
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (live() && __builtin_return_address(0)) {
    // only calls from outside the simulator matter here; its own calls use the numbers below never for these
    Dl_info di; 
    switch (n) {
      case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
      case SYS_copy_file_range: errno = ENOSYS; return -1;
      case SYS_futex: {
        static void *self = nullptr; if (!self && dladdr((void *)&syscall, &di)) self = di.dli_fbase;
        if (dladdr(__builtin_return_address(0), &di) && di.dli_fbase == self) break;
        int op = int(b) & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
          point(0x0f);
          if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
          blockOn(W_COND, (void *)a, 0); return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { long k = 0; while (k < c && wakeOne(W_COND, (void *)a)) ++k; point(0x0f); return k; }
        finish(O_INTERNAL, 0, "futex operation %d", op);
      }
      default: break;
    }
  }
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}
}
