// Simulated environment: see env.h.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <ucontext.h>
#include "env.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

extern "C" int zmdp_main(int argc, char **argv);
extern "C" int genls_main(int argc, char **argv);
extern "C" int gentl_main(int argc, char **argv);
extern "C" int dumpmap_main(int argc, char **argv);

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

namespace sim {

static const char *clsNames[C_NCLS] = {"any",   "clock", "rand",   "openr",  "openw",  "read",  "write",  "close",
                                       "system", "rename", "unlink", "backup", "trial", "alloc", "stdout", "end"};
static const char *actNames[A_NACT] = {"sigint", "crash", "torn", "err", "short", "jump", "rand", "nomem", "flip", "eof"};
const char *clsName(int c) { return clsNames[c]; }
const char *actName(int a) { return actNames[a]; }

// ------------------------------------------------------------ shared arena
static const size_t SH_SIZE = 96u << 20;
static const int MAXINO = 256, MAXDENT = 128, MAXH = 256;

struct Inode {
  bool used;
  size_t off, len, cap;
};
struct Dent {
  bool used;
  char name[240];
  int ino;
};
struct Shared {
  // file system
  Inode ino[MAXINO];
  Dent dent[MAXDENT];
  size_t bump;
  // results
  int crashed, hang, invariant, oom, unknownShell, sigKilled;
  char msg[4096];
  long events;
  long cnt[C_NCLS];
  long fired[A_NACT];
  char faultFired[64];
  long long simMicros, clock;
  uint64_t hash, backupHash;
  long sigints, sigintEvent, trialsAfter, trialsTotal;
  size_t obsLen;
  char obs[4 << 20];
  char data[1];
};
static Shared *S;
static long probeLocal[NPROBE];
long *probeCounts = probeLocal;
std::string lastObsLog;

// ------------------------------------------------------------ child state
static int active = 0;     // in a simulated process
static int paused = 0;     // observer code running
static const Plan *P;
static Observer *OBS;
static long faultSeen[64];
static long long clk;
static Rng clkRng(1), rndRng(1);
static struct sigaction sigActs[65];
static long long usedBytes;

struct Handle {
  bool used, rd, wr, app, eofForced;
  int ino;
  size_t pos;
  char name[240];
  FILE *fp;
  int fd;
};
static Handle H[MAXH];
static const int FDBASE = 5000;

static inline bool on() { return active && !paused; }
bool inSim() { return active; }
long long simNow() { return clk; }
void pauseSim() { paused++; }
void resumeSim() { paused--; }

// ------------------------------------------------------------ real functions
static FILE *(*r_fopen)(const char *, const char *);
static int (*r_fclose)(FILE *);
static int (*r_fileno)(FILE *);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static off_t (*r_lseek)(int, off_t, int);
static int (*r_close)(int);
static int (*r_fstat)(int, struct stat *);
static int (*r_stat)(const char *, struct stat *);
static int (*r_lstat)(const char *, struct stat *);
static int (*r_access)(const char *, int);
static int (*r_rename)(const char *, const char *);
static int (*r_remove)(const char *);
static int (*r_unlink)(const char *);
static int (*r_gettimeofday)(struct timeval *, void *);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static int (*r_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*r_select)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
static int (*r_ioctl)(int, unsigned long, ...);
static int (*r_poll)(struct pollfd *, nfds_t, int);
static int (*r_isatty)(int);
static int (*r_usleep)(useconds_t);
static int (*r_nanosleep)(const struct timespec *, struct timespec *);
static int (*r_ftruncate)(int, off_t);
static int (*r_fsync)(int);
static pid_t (*r_fork)(void);
static bool resolved;
template <class T> static void rs(T &p, const char *n) { p = (T)dlsym(RTLD_NEXT, n); }
static void resolve() {
  if (resolved) return;
  resolved = true;
  rs(r_fopen, "fopen"); rs(r_fclose, "fclose"); rs(r_fileno, "fileno");
  rs(r_read, "read"); rs(r_write, "write"); rs(r_writev, "writev"); rs(r_lseek, "lseek");
  rs(r_close, "close"); rs(r_fstat, "fstat"); rs(r_stat, "stat"); rs(r_lstat, "lstat"); rs(r_access, "access");
  rs(r_rename, "rename"); rs(r_remove, "remove"); rs(r_unlink, "unlink");
  rs(r_gettimeofday, "gettimeofday"); rs(r_clock_gettime, "clock_gettime");
  rs(r_sigaction, "sigaction"); rs(r_select, "select"); rs(r_ioctl, "ioctl"); rs(r_poll, "poll");
  rs(r_isatty, "isatty"); rs(r_usleep, "usleep"); rs(r_nanosleep, "nanosleep"); rs(r_ftruncate, "ftruncate"); rs(r_fsync, "fsync"); rs(r_fork, "fork");
}

// ------------------------------------------------------------ helpers
static inline void hmix(uint64_t v) {
  uint64_t h = S->hash;
  for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; }
  S->hash = h;
}
static void hbytes(const void *p, size_t n) {
  uint64_t h = S->hash;
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  S->hash = h;
}
[[noreturn]] static void die(int code) {
  S->clock = clk;
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
static void setMsg(const char *m) {
  strncpy(S->msg, m, sizeof S->msg - 1);
  S->msg[sizeof S->msg - 1] = 0;
}
void failInvariant(const std::string &m) {
  if (!S->invariant) {
    S->invariant = 1;
    setMsg(m.c_str());
  }
  die(79);
}
void probe(int i, long n) { __atomic_add_fetch(&probeCounts[i], n, __ATOMIC_RELAXED); }
void obsLog(const std::string &s) {
  size_t n = s.size();
  if (S->obsLen + n > sizeof S->obs) n = sizeof S->obs - S->obsLen;
  memcpy(S->obs + S->obsLen, s.data(), n);
  S->obsLen += n;
}

static void deliverSigint() {
  S->sigints++;
  if (S->sigintEvent < 0) S->sigintEvent = S->events;
  struct sigaction sa = sigActs[SIGINT];
  if (sa.sa_handler == SIG_IGN) return;
  if (sa.sa_handler == SIG_DFL) {
    S->sigKilled = SIGINT;
    die(128 + SIGINT);
  }
  if (sa.sa_flags & SA_RESETHAND) sigActs[SIGINT].sa_handler = SIG_DFL;
  int e = errno;
  if (sa.sa_flags & SA_SIGINFO)
    sa.sa_sigaction(SIGINT, nullptr, nullptr);
  else
    sa.sa_handler(SIGINT);
  errno = e;
}

static void jump(long long us) {
  clk += us;
  if (us > 0) S->simMicros += us;
}

// One observable event.  Returns the fault to apply to the operation, if any.
static const Fault *event(int cls, const char *file) {
  S->cnt[cls]++;
  if (cls != C_ALLOC) {  // allocations only count for faults that name them
    S->events++;
    hmix(cls);
    if (file) hbytes(file, strlen(file));
    if (S->events > P->maxEvents) {
      S->hang = 1;
      die(78);
    }
  }
  const Fault *res = nullptr;
  size_t n = std::min<size_t>(P->faults.size(), 64);
  for (size_t i = 0; i < n; i++) {
    const Fault &f = P->faults[i];
    if (f.cls == C_ANY ? cls == C_ALLOC : f.cls != cls) continue;
    if (!f.file.empty() && (!file || f.file != file)) continue;
    long k = ++faultSeen[i];
    if (!(k == f.nth || (f.sticky && k > f.nth))) continue;
    // actions that need an operation of the right kind
    bool rd = cls == C_READ, wr = cls == C_WRITE;
    if (f.act == A_TORN && !wr) continue;
    if (f.act == A_SHORT && !(rd || wr)) continue;
    if ((f.act == A_FLIP || f.act == A_EOF) && !rd) continue;
    if (f.act == A_RAND && cls != C_RAND) continue;
    if (f.act == A_NOMEM && cls != C_ALLOC) continue;
    if (f.act == A_ERR && (cls == C_CLOCK || cls == C_RAND || cls == C_BACKUP || cls == C_TRIAL || cls == C_ALLOC ||
                           cls == C_SPAWN_END))
      continue;
    S->fired[f.act]++;
    S->faultFired[i] = 1;
    hmix(1000 + f.act);
    switch (f.act) {
      case A_SIGINT: deliverSigint(); break;
      case A_CRASH:
        S->crashed = 1;
        die(77);
      case A_JUMP: jump(f.arg); break;
      default:
        if (!res) res = &f;
    }
  }
  return res;
}

static long long clockRead() {
  event(C_CLOCK, nullptr);
  long long st = P->clockStep > 0 ? (long long)(clkRng.u() * 2 * P->clockStep) : 0;
  jump(st);
  hmix(clk);
  return clk;
}

// ------------------------------------------------------------ file system
static int findDent(const char *n) {
  for (int i = 0; i < MAXDENT; i++)
    if (S->dent[i].used && !strcmp(S->dent[i].name, n)) return i;
  return -1;
}
static const char *norm(const char *n) {
  while (n[0] == '.' && n[1] == '/') n += 2;
  return n;
}
static int newIno() {
  for (int i = 0; i < MAXINO; i++)
    if (!S->ino[i].used) {
      S->ino[i] = Inode{true, 0, 0, 0};
      return i;
    }
  return -1;
}
static bool grow(Inode &in, size_t need) {
  if (need <= in.cap) return true;
  size_t cap = std::max<size_t>(4096, in.cap * 2);
  while (cap < need) cap *= 2;
  size_t avail = SH_SIZE - offsetof(Shared, data) - 4096;
  if (S->bump + cap > avail) return false;
  char *d = S->data + S->bump;
  if (in.len) memcpy(d, S->data + in.off, in.len);
  in.off = S->bump;
  in.cap = cap;
  S->bump += cap;
  return true;
}
static bool dirExists(const char *n) {
  // a path component "d/" exists iff some file lives below it or "d/" is listed
  const char *sl = strrchr(n, '/');
  if (!sl) return true;
  size_t k = sl - n + 1;
  for (int i = 0; i < MAXDENT; i++)
    if (S->dent[i].used && !strncmp(S->dent[i].name, n, k)) return true;
  return false;
}
static int addDent(const char *n, int ino) {
  for (int i = 0; i < MAXDENT; i++)
    if (!S->dent[i].used) {
      S->dent[i].used = true;
      strncpy(S->dent[i].name, n, sizeof S->dent[i].name - 1);
      S->dent[i].name[sizeof S->dent[i].name - 1] = 0;
      S->dent[i].ino = ino;
      return i;
    }
  return -1;
}
static int newHandle() {
  for (int i = 0; i < MAXH; i++)
    if (!H[i].used) {
      memset(&H[i], 0, sizeof H[i]);
      H[i].used = true;
      H[i].fd = FDBASE + i;
      return i;
    }
  return -1;
}
static bool isDevNull(const char *n) { return !strcmp(n, "/dev/null"); }

// returns handle or -1 with errno
static int vopen(const char *path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl = false) {
  const char *n = norm(path);
  const Fault *f = event(wr ? C_OPEN_W : C_OPEN_R, n);
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  int ino = -1;
  if (isDevNull(n)) {
    ino = -2;
  } else {
    if (n[0] == '/' || strlen(n) > 230) {
      errno = n[0] == '/' ? ENOENT : ENAMETOOLONG;
      return -1;
    }
    int d = findDent(n);
    if (d < 0) {
      if (!creat) {
        errno = ENOENT;
        return -1;
      }
      if (!dirExists(n)) {
        errno = ENOENT;
        return -1;
      }
      ino = newIno();
      if (ino < 0) {
        errno = ENOSPC;
        return -1;
      }
      addDent(n, ino);
    } else {
      if (excl && creat) {
        errno = EEXIST;
        return -1;
      }
      ino = S->dent[d].ino;
      if (trunc) {
        usedBytes -= S->ino[ino].len;
        S->ino[ino].len = 0;
      }
    }
  }
  int h = newHandle();
  if (h < 0) {
    errno = EMFILE;
    return -1;
  }
  H[h].rd = rd;
  H[h].wr = wr;
  H[h].app = app;
  H[h].ino = ino;
  strncpy(H[h].name, n, sizeof H[h].name - 1);
  return h;
}
static ssize_t vread(int h, void *buf, size_t n) {
  Handle &x = H[h];
  const Fault *f = event(C_READ, x.name);
  if (!x.rd) {
    errno = EBADF;
    return -1;
  }
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  if (f && f->act == A_EOF) x.eofForced = true;
  if (x.ino < 0 || x.eofForced) return 0;
  Inode &in = S->ino[x.ino];
  size_t av = x.pos < in.len ? in.len - x.pos : 0;
  size_t k = std::min(n, av);
  if (P->chunkMax > 0) k = std::min<size_t>(k, P->chunkMax);
  if (f && f->act == A_SHORT && f->arg > 0) k = std::min<size_t>(k, (size_t)f->arg);
  memcpy(buf, S->data + in.off + x.pos, k);
  if (f && f->act == A_FLIP && k) ((char *)buf)[f->arg % k] ^= (char)(1 + (f->arg / k) % 127);
  x.pos += k;
  hmix(k);
  return k;
}
static ssize_t vwrite(int h, const void *buf, size_t n) {
  Handle &x = H[h];
  const Fault *f = event(C_WRITE, x.name);
  if (!x.wr) {
    errno = EBADF;
    return -1;
  }
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  if (x.ino < 0) return n;
  Inode &in = S->ino[x.ino];
  if (x.app) x.pos = in.len;
  size_t k = n;
  bool torn = f && f->act == A_TORN;
  if (torn) k = std::min<size_t>(k, (size_t)f->arg);
  if (f && f->act == A_SHORT && f->arg > 0) k = std::min<size_t>(k, (size_t)f->arg);
  if (P->diskCapacity >= 0) {
    long long growth = (long long)(x.pos + k) - (long long)in.len;
    if (growth > 0 && usedBytes + growth > P->diskCapacity) {
      long long room = P->diskCapacity - usedBytes;
      if (room < 0) room = 0;
      long long k2 = (long long)k - (growth - room);
      if (k2 <= 0) {
        S->fired[A_ERR]++;
        errno = ENOSPC;
        return -1;
      }
      k = k2;
    }
  }
  if (!grow(in, x.pos + k)) {
    S->oom = 1;
    errno = ENOSPC;
    return -1;
  }
  if (x.pos > in.len) memset(S->data + in.off + in.len, 0, x.pos - in.len);
  memcpy(S->data + in.off + x.pos, buf, k);
  x.pos += k;
  if (x.pos > in.len) {
    usedBytes += x.pos - in.len;
    in.len = x.pos;
  }
  hbytes(buf, k);
  if (torn) {
    S->crashed = 1;
    die(77);
  }
  return k;
}
static long long vseek(int h, long long off, int wh) {
  Handle &x = H[h];
  long long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)x.pos : (x.ino >= 0 ? (long long)S->ino[x.ino].len : 0);
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  x.pos = base + off;
  return x.pos;
}
static int vclose(int h) {
  Handle &x = H[h];
  const Fault *f = event(C_CLOSE, x.name);
  x.used = false;
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  return 0;
}
static int vrename(const char *a, const char *b, bool ev = true) {
  a = norm(a);
  b = norm(b);
  const Fault *f = event(C_RENAME, a);
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  int d = findDent(a);
  if (d < 0 || !dirExists(b)) {
    errno = ENOENT;
    return -1;
  }
  hbytes(b, strlen(b));
  int e = findDent(b);
  if (e == d) return 0;
  if (e >= 0) {
    usedBytes -= S->ino[S->dent[e].ino].len;
    S->dent[e].used = false;
  }
  strncpy(S->dent[d].name, b, sizeof S->dent[d].name - 1);
  return 0;
}
static int vunlink(const char *a) {
  a = norm(a);
  const Fault *f = event(C_UNLINK, a);
  if (f && f->act == A_ERR) {
    errno = (int)f->arg;
    return -1;
  }
  int d = findDent(a);
  if (d < 0) {
    errno = ENOENT;
    return -1;
  }
  usedBytes -= S->ino[S->dent[d].ino].len;
  S->dent[d].used = false;
  return 0;
}
static int vstat(const char *a, struct stat *st) {
  a = norm(a);
  memset(st, 0, sizeof *st);
  if (isDevNull(a)) {
    st->st_mode = S_IFCHR | 0666;
    return 0;
  }
  int d = findDent(a);
  if (d < 0) {
    std::string s = std::string(a) + "/x";
    if (!strcmp(a, ".") || (a[0] != '/' && dirExists(s.c_str()))) {
      st->st_mode = S_IFDIR | 0755;
      return 0;
    }
    errno = ENOENT;
    return -1;
  }
  st->st_mode = S_IFREG | 0644;
  st->st_size = S->ino[S->dent[d].ino].len;
  st->st_nlink = 1;
  return 0;
}

// ------------------------------------------------------------ mini shell
// Emulates what dash (this system's /bin/sh) does for the few commands the
// program uses: mv, rm, cp with redirections.  ">& word" where word is not a
// number is "Bad fd number" in dash: the command does not run.
static int shellCmd(const char *cmd) {
  const Fault *f = event(C_SYSTEM, nullptr);
  hbytes(cmd, strlen(cmd));
  if (f && f->act == A_ERR) return f->arg < 0 ? -1 : (int)(f->arg & 255) << 8;
  std::vector<std::string> w;
  {
    std::string cur;
    bool any = false;
    char q = 0;
    auto push = [&]() {
      if (any) w.push_back(cur);
      cur.clear();
      any = false;
    };
    for (const char *p = cmd; *p; p++) {
      if (q) {
        if (*p == q) q = 0;
        else cur += *p;
        continue;
      }
      if (*p == '\'' || *p == '"') { q = *p; any = true; continue; }
      if (*p == '\\' && p[1]) { cur += *++p; any = true; continue; }
      if (*p == ' ' || *p == '\t') { push(); continue; }
      if (*p == '>' || *p == '<') {
        std::string fdn;
        if (any && cur.size() == 1 && cur[0] >= '0' && cur[0] <= '9') { fdn = cur; cur.clear(); any = false; }
        push();
        std::string op(1, *p);
        if (p[1] == '>') { op += '>'; p++; }
        else if (p[1] == '&') { op += '&'; p++; }
        w.push_back("\x01" + fdn + op);
        continue;
      }
      if (*p == ';' || *p == '|' || *p == '&' || *p == '`' || *p == '$' || *p == '*' || *p == '?' || *p == '(') {
        S->unknownShell = 1;
        return 127 << 8;
      }
      cur += *p;
      any = true;
    }
    push();
  }
  std::vector<std::string> a;
  for (size_t i = 0; i < w.size(); i++) {
    if (w[i][0] == 1) {
      if (i + 1 >= w.size()) return 2 << 8;
      std::string op = w[i], arg = w[++i];
      if (op.back() == '&') {
        if (!(arg == "-" || (arg.size() == 1 && isdigit(arg[0])))) return 2 << 8;  // Bad fd number
      } else if (!isDevNull(arg.c_str())) {
        int h = op.find('<') != std::string::npos ? vopen(arg.c_str(), true, false, false, false, false)
                                                  : vopen(arg.c_str(), false, true, true, true, false);
        if (h < 0) return 2 << 8;
        vclose(h);
      }
    } else
      a.push_back(w[i]);
  }
  if (a.empty()) return 0;
  std::string c = a[0];
  bool force = false;
  std::vector<std::string> ops;
  bool endo = false;
  for (size_t i = 1; i < a.size(); i++) {
    if (!endo && a[i] == "--") endo = true;
    else if (!endo && a[i].size() > 1 && a[i][0] == '-') { if (a[i].find('f') != std::string::npos) force = true; }
    else ops.push_back(a[i]);
  }
  if (c == "mv" || c == "/bin/mv") {
    if (ops.size() != 2) return 1 << 8;
    return vrename(ops[0].c_str(), ops[1].c_str()) ? 1 << 8 : 0;
  }
  if (c == "rm" || c == "/bin/rm") {
    int rc = 0;
    for (auto &o : ops)
      if (vunlink(o.c_str()) && !(force && errno == ENOENT)) rc = 1;
    return rc << 8;
  }
  if (c == "cp" || c == "/bin/cp") {
    if (ops.size() != 2) return 1 << 8;
    int h = vopen(ops[0].c_str(), true, false, false, false, false);
    if (h < 0) return 1 << 8;
    int g = vopen(ops[1].c_str(), false, true, true, true, false);
    if (g < 0) { vclose(h); return 1 << 8; }
    static char b[4096];
    ssize_t k;
    int rc = 0;
    while ((k = vread(h, b, sizeof b)) > 0)
      if (vwrite(g, b, k) != k) { rc = 1; break; }
    if (k < 0) rc = 1;
    vclose(h);
    if (vclose(g)) rc = 1;
    return rc << 8;
  }
  if (c == "true" || c == ":") return 0;
  S->unknownShell = 1;
  return 127 << 8;
}

// ------------------------------------------------------------ heap
// Inside a simulated process all memory comes from an arena at a fixed address
// whose layout and initial contents depend only on the plan.
#if !SIM_ASAN
}  // namespace sim
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
namespace sim {
static char *const HB = (char *)0x200000000000ull;
static const size_t HSIZE = 3ull << 30;
static char *hp, *hend;
static bool heapOn;
static void *freeL[64];
static unsigned char hfill;
static const size_t HLIM_DEFAULT = 2ull << 30;
static inline bool mine(const void *p) { return (char *)p >= HB && (char *)p < HB + HSIZE; }
static inline int cls2(size_t n) {  // classes: 32, 48, 64, 96, 128, 192 ...
  if (n <= 32) return 0;
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg < n <= 2^(lg+1)
  size_t mid = (size_t)3 << (lg - 1);
  return n <= mid ? 2 * (lg - 5) + 1 : 2 * (lg - 5) + 2;
}
static inline size_t clsSize(int c) {
  if (c == 0) return 32;
  int lg = (c - 1) / 2 + 5;
  return (c & 1) ? (size_t)3 << (lg - 1) : (size_t)2 << lg;
}
struct Hdr { size_t size; int cls; unsigned magic; };
static void *amalloc(size_t n) {
  if (on()) {
    const Fault *f = event(C_ALLOC, nullptr);
    if (f && f->act == A_NOMEM) { errno = ENOMEM; return nullptr; }
  }
  if (n > HLIM_DEFAULT) { errno = ENOMEM; return nullptr; }
  int c = cls2(n + sizeof(Hdr));
  Hdr *h = (Hdr *)freeL[c];
  if (h) {
    freeL[c] = *(void **)(h + 1);
  } else {
    size_t sz = (clsSize(c) + 15) & ~(size_t)15;
    if (hp + sz > hend) {
      S->oom = 1;
      errno = ENOMEM;
      return nullptr;
    }
    h = (Hdr *)hp;
    hp += sz;
  }
  h->size = n;
  h->cls = c;
  h->magic = 0x51A110C;
  memset(h + 1, hfill, n);
  return h + 1;
}
static void afree(void *p) {
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != 0x51A110C) {
    if (!S->invariant) { S->invariant = 2; setMsg("free() of a block that is not allocated (double free or corruption)"); }
    die(79);
  }
  h->magic = 0xF4EED;
  memset(p, (unsigned char)~hfill, std::min<size_t>(h->size, 4096));
  *(void **)p = freeL[h->cls];
  freeL[h->cls] = h;
}
#endif

}  // namespace sim

using namespace sim;

#if !SIM_ASAN
extern "C" {
void *malloc(size_t n) { return heapOn ? amalloc(n) : __libc_malloc(n); }
void free(void *p) {
  if (!p) return;
  if (mine(p)) { afree(p); return; }
  if (heapOn) return;  // allocated before the fork: leave it
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  if (!heapOn) return __libc_calloc(a, b);
  if (b && a > (size_t)-1 / b) return nullptr;
  void *p = amalloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!heapOn) return __libc_realloc(p, n);
  if (!p) return amalloc(n);
  size_t old = mine(p) ? ((Hdr *)p - 1)->size : malloc_usable_size(p);
  void *q = amalloc(n);
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n));
  if (mine(p)) afree(p);
  return q;
}
void *memalign(size_t al, size_t n) {
  if (!heapOn) return __libc_memalign(al, n);
  if (al <= 16) return amalloc(n);
  // over-aligned blocks are never given back
  char *p = (char *)(((size_t)hp + sizeof(Hdr) + al - 1) / al * al);
  if (p + n > hend) return nullptr;
  Hdr *h = (Hdr *)p - 1;
  h->size = n; h->cls = 0; h->magic = 0x51A110C;
  hp = (char *)(((size_t)p + std::max<size_t>(n, 32) + 15) & ~(size_t)15);
  return p;
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) {
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
}
#endif

// ------------------------------------------------------------ interposers
static int byFile(FILE *f) {
  for (int i = 0; i < MAXH; i++)
    if (H[i].used && H[i].fp == f) return i;
  return -1;
}
static inline int byFd(int fd) { return fd >= FDBASE && fd < FDBASE + MAXH && H[fd - FDBASE].used ? fd - FDBASE : -1; }

static ssize_t ck_read(void *c, char *b, size_t n) { return vread((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t done = 0;
  while (done < n) {
    ssize_t k = vwrite((int)(long)c, b + done, n - done);
    if (k < 0) {
      if (errno == EINTR) continue;
      return done ? (ssize_t)done : 0;
    }
    done += k;
  }
  return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
  long long r = vseek((int)(long)c, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) { return vclose((int)(long)c); }

static FILE *simFopen(const char *path, const char *mode) {
  bool plus = strchr(mode, '+');
  bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
  int h = vopen(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x') != nullptr);
  if (h < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(long)h, mode, io);
  H[h].fp = f;
  return f;
}

static int oflags(const char *path, int fl) {
  int acc = fl & O_ACCMODE;
  int h = vopen(path, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
  return h < 0 ? -1 : H[h].fd;
}

extern "C" {
FILE *fopen(const char *p, const char *m) {
  resolve();
  return on() ? simFopen(p, m) : r_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *freopen(const char *p, const char *m, FILE *f) {
  if (on()) { errno = EINVAL; return nullptr; }
  static FILE *(*r)(const char *, const char *, FILE *) = (FILE * (*)(const char *, const char *, FILE *)) dlsym(RTLD_NEXT, "freopen");
  return r(p, m, f);
}
int fclose(FILE *f) {
  resolve();
  return r_fclose(f);
}
int fileno(FILE *f) noexcept {
  resolve();
  if (active) {
    int h = byFile(f);
    if (h >= 0) return H[h].fd;
  }
  return r_fileno(f);
}
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (on()) return oflags(p, fl);
  return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (on()) return oflags(p, fl);
  return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) return vread(h, b, n);
  if (on() && fd == 0) return 0;
  return r_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) return vwrite(h, b, n);
  return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) {
    static char buf[1 << 20];
    size_t n = 0;
    for (int i = 0; i < c; i++) {
      size_t k = std::min(v[i].iov_len, sizeof buf - n);
      memcpy(buf + n, v[i].iov_base, k);
      n += k;
      if (k < v[i].iov_len) break;
    }
    return vwrite(h, buf, n);
  }
  return r_writev(fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) return vseek(h, o, w);
  return r_lseek(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) return vclose(h);
  return r_close(fd);
}
int fsync(int fd) {
  resolve();
  if (active && byFd(fd) >= 0) return 0;
  return r_fsync(fd);
}
int ftruncate(int fd, off_t n) noexcept {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) {
    if (H[h].ino < 0) return 0;
    Inode &in = S->ino[H[h].ino];
    if (!grow(in, n)) { errno = ENOSPC; return -1; }
    if ((size_t)n > in.len) memset(S->data + in.off + in.len, 0, n - in.len);
    usedBytes += (long long)n - (long long)in.len;
    in.len = n;
    return 0;
  }
  return r_ftruncate(fd, n);
}
int fstat(int fd, struct stat *st) noexcept {
  resolve();
  int h;
  if (active && (h = byFd(fd)) >= 0) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = H[h].ino >= 0 ? S->ino[H[h].ino].len : 0;
    return 0;
  }
  return r_fstat(fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept {
  resolve();
  return on() ? vstat(p, st) : r_stat(p, st);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept {
  resolve();
  return on() ? vstat(p, st) : r_lstat(p, st);
}
int access(const char *p, int m) noexcept {
  resolve();
  if (on()) {
    struct stat st;
    return vstat(p, &st);
  }
  return r_access(p, m);
}
int isatty(int fd) noexcept {
  resolve();
  if (active) { errno = ENOTTY; return 0; }
  return r_isatty(fd);
}
int rename(const char *a, const char *b) noexcept {
  resolve();
  return on() ? vrename(a, b) : r_rename(a, b);
}
int remove(const char *a) noexcept {
  resolve();
  return on() ? vunlink(a) : r_remove(a);
}
int unlink(const char *a) noexcept {
  resolve();
  return on() ? vunlink(a) : r_unlink(a);
}
int unlinkat(int d, const char *a, int fl) noexcept {
  if (on()) return vunlink(a);
  return syscall(SYS_unlinkat, d, a, fl);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  resolve();
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  int h;
  if (active && (h = byFd(fd)) >= 0) {
    if (req == FIONREAD && H[h].ino >= 0) {
      size_t len = S->ino[H[h].ino].len;
      *(int *)arg = H[h].pos < len ? len - H[h].pos : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return r_ioctl(fd, req, arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  resolve();
  if (on()) {
    for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events;
    return n;
  }
  return r_poll(p, n, t);
}
int gettimeofday(struct timeval *tv, void *tz) noexcept {
  resolve();
  if (!on()) return r_gettimeofday(tv, tz);
  long long t = clockRead();
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
time_t time(time_t *o) noexcept {
  resolve();
  time_t t;
  if (on()) {
    t = clockRead() / 1000000;
  } else {
    struct timespec ts;
    r_clock_gettime(CLOCK_REALTIME, &ts);
    t = ts.tv_sec;
  }
  if (o) *o = t;
  return t;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  resolve();
  if (!on()) return r_clock_gettime(c, ts);
  long long t = clockRead();
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = t % 1000000 * 1000;
  return 0;
}
clock_t clock(void) noexcept {
  if (on()) return (clock_t)(clockRead() - P->clockStart);
  struct timespec ts;
  resolve();
  r_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int usleep(useconds_t u) {
  resolve();
  if (on()) { event(C_CLOCK, nullptr); jump(u); return 0; }
  return r_usleep(u);
}
unsigned sleep(unsigned s) {
  if (on()) { event(C_CLOCK, nullptr); jump(s * 1000000ll); return 0; }
  struct timespec ts = {(time_t)s, 0};
  resolve();
  r_nanosleep(&ts, nullptr);
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  resolve();
  if (on()) { event(C_CLOCK, nullptr); jump(a->tv_sec * 1000000ll + a->tv_nsec / 1000); return 0; }
  return r_nanosleep(a, b);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
  resolve();
  if (on()) {
    event(C_CLOCK, nullptr);
    if (t) jump(t->tv_sec * 1000000ll + t->tv_usec);
    return 0;
  }
  return r_select(n, r, w, e, t);
}
static long simRand() {
  const Fault *f = event(C_RAND, nullptr);
  long v;
  uint64_t x = rndRng.next();
  v = (long)(x >> 33) & 0x7fffffff;
  if (P->randExtreme > 0 && (double)((x & 0xffffff)) / 16777216.0 < P->randExtreme) {
    int k = (x >> 24) & 7;
    v = k < 3 ? 0 : k < 6 ? 0x7fffffff : k == 6 ? 1 : 0x7ffffffe;
  }
  if (f && f->act == A_RAND) v = f->arg & 0x7fffffff;
  hmix(v);
  return v;
}
static Rng hostRng(7);
int rand(void) noexcept { return on() ? (int)simRand() : (int)(hostRng.next() >> 33); }
long random(void) noexcept { return on() ? simRand() : (long)(hostRng.next() >> 33); }
int rand_r(unsigned *) noexcept { return rand(); }
double drand48(void) noexcept { return rand() / 2147483648.0; }
long lrand48(void) noexcept { return rand(); }
void srand(unsigned) noexcept { if (on()) hmix(0x5a5a); }
void srandom(unsigned) noexcept {}
void srand48(long) noexcept {}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept {
  resolve();
  if (on() && s > 0 && s < 65) {
    if (o) *o = sigActs[s];
    if (a) sigActs[s] = *a;
    return 0;
  }
  return r_sigaction(s, a, o);
}
sighandler_t signal(int s, sighandler_t h) noexcept {
  struct sigaction a, o;
  memset(&a, 0, sizeof a);
  a.sa_handler = h;
  a.sa_flags = SA_RESTART;
  if (sigaction(s, &a, &o)) return SIG_ERR;
  return o.sa_handler;
}
int system(const char *c) {
  if (on()) {
    if (!c) return 1;
    int rc = shellCmd(c);
    if (OBS) obsLog("S " + std::to_string(rc) + " " + c + "\n");
    return rc;
  }
  return -1;
}
pid_t fork(void) noexcept {
  if (on()) { S->unknownShell = 1; errno = EAGAIN; return -1; }
  resolve();
  return r_fork();
}
FILE *popen(const char *, const char *) { if (S) S->unknownShell = 1; errno = EAGAIN; return nullptr; }
}

// ------------------------------------------------------------ hooks in /repo
namespace sla { struct cvector_entry; }
extern "C" {
void zmdpSimBackup(const sla::cvector_entry *e, unsigned n, double lb, double ub, int numBackups) {
  if (!on()) return;
  const SV *s = (const SV *)e;
  uint64_t h = 1469598103934665603ull;
  for (unsigned i = 0; i < n; i++) {
    uint64_t q = (uint64_t)(long long)(s[i].val * 1e7 + (s[i].val < 0 ? -0.5 : 0.5));
    h = (h ^ s[i].idx) * 1099511628211ull;
    h = (h ^ q) * 1099511628211ull;
  }
  uint64_t b = S->backupHash;
  b ^= h; b *= 1099511628211ull; b ^= b >> 29;
  S->backupHash = b;
  hmix(h);
  if (!P->clockFree && P->backupCost > 0) jump((long long)(clkRng.u() * 2 * P->backupCost));
  event(C_BACKUP, nullptr);
  if (OBS) {
    paused++;
    OBS->onBackup(s, n, lb, ub, numBackups);
    paused--;
  }
}
int zmdpSimTrial(bool done, double lb, double ub, int nb, int nt, int ne) {
  if (!on()) return 0;
  S->trialsTotal++;
  if (S->sigints) S->trialsAfter++;
  event(C_TRIAL, nullptr);
  if (!OBS) return 0;
  paused++;
  TrialInfo t = {done, lb, ub, nb, nt, ne};
  if (OBS->onTrial(t)) return 1;
  paused--;
  return 0;
}
void zmdpSimValue(const sla::cvector_entry *s, unsigned n, bool term, double lb, double ub, double lbq, double ubq) {
  if (OBS) OBS->onValue((const SV *)s, n, term, lb, ub, lbq, ubq);
}
void zmdpSimTrialEnd(void) {
  if (OBS) OBS->onTrialEnd();
  paused--;
}
}
namespace sim {
// ------------------------------------------------------------ running
static void onProf(int) {
  S->hang = 1;
  die(78);
}
static int fdOut = -1, fdErr = -1;

void initEnv() {
  resolve();
  S = (Shared *)mmap(nullptr, SH_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); exit(3); }
  probeCounts = (long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fdOut = memfd_create("simout", 0);
  fdErr = memfd_create("simerr", 0);
#if !SIM_ASAN
  void *p = mmap(HB, HSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != HB) { fprintf(stderr, "cannot map the simulated heap\n"); exit(3); }
#endif
}

static std::string slurp(int fd) {
  struct stat st;
  r_fstat(fd, &st);
  std::string s(st.st_size, 0);
  if (st.st_size) { ssize_t k = pread(fd, &s[0], st.st_size, 0); (void)k; }
  return s;
}

[[noreturn]] static __attribute__((noinline)) void childMain(const std::vector<std::string> &argv, const Plan &plan) {
  // everything the child allocates before the heap switches is copied from the parent
  static char *av[64];
  int n = 0;
  for (auto &a : argv) av[n++] = strdup(a.c_str());
  av[n] = nullptr;
  P = &plan;
  clk = plan.clockStart;
  clkRng = Rng(plan.clockSeed);
  rndRng = Rng(plan.randSeed);
  memset(sigActs, 0, sizeof sigActs);
  memset(H, 0, sizeof H);
  memset(faultSeen, 0, sizeof faultSeen);
  usedBytes = 0;
  for (int i = 0; i < MAXDENT; i++)
    if (S->dent[i].used) usedBytes += S->ino[S->dent[i].ino].len;
  struct itimerval it;
  memset(&it, 0, sizeof it);
#ifdef __SANITIZE_ADDRESS__
  double limit = plan.cpuLimit * 8;   // instrumented code is slow
#else
  double limit = plan.cpuLimit;
#endif
  it.it_value.tv_sec = (long)limit;
  it.it_value.tv_usec = (long)((limit - (long)limit) * 1e6);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onProf;
  r_sigaction(SIGPROF, &sa, nullptr);
  setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
#if !SIM_ASAN
  hp = HB;
  // vary the layout a little with the plan
  hp += (plan.randSeed % 64) * 16;
  hend = HB + HLIM_DEFAULT;
  memset(freeL, 0, sizeof freeL);
  hfill = (unsigned char)plan.heapByte;
  heapOn = true;
#endif
  static char obuf[1 << 16];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  active = 1;
  int (*prog)(int, char **) = zmdp_main;
  if (!strcmp(av[0], "gen_LifeSurvey")) prog = genls_main;
  if (!strcmp(av[0], "genTargetLocations")) prog = gentl_main;
  if (!strcmp(av[0], "dumpMap")) prog = dumpmap_main;
  int rc = prog(n, av);
  exit(rc);
}
static __attribute__((noinline)) void dirtyStack(int b) {
  volatile char a[256 * 1024];
  memset((char *)a, b, sizeof a);
  asm volatile("" ::"r"(a) : "memory");
}
#if !SIM_ASAN
// a stack of its own, of the size the plan asks for, with a guard page
static const std::vector<std::string> *stArgv;
static const Plan *stPlan;
static void stackMain() { childMain(*stArgv, *stPlan); }
static void onStack(const std::vector<std::string> &argv, const Plan &plan) {
  (void)dirtyStack;
  size_t n = (size_t)(plan.stackKB > 0 ? plan.stackKB : 8192) * 1024, page = 4096, guard = 1 << 20;
  n = (n + page - 1) / page * page;
  char *p = (char *)mmap(nullptr, n + guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p + guard, n, PROT_READ | PROT_WRITE)) { perror("stack"); abort(); }
  size_t d = n < 256 * 1024 ? n : 256 * 1024;
  memset(p + guard + n - d, plan.heapByte, d);
  stArgv = &argv;
  stPlan = &plan;
  static ucontext_t uc, back;
  getcontext(&uc);
  uc.uc_stack.ss_sp = p + guard;
  uc.uc_stack.ss_size = n;
  uc.uc_link = nullptr;
  makecontext(&uc, stackMain, 0);
  swapcontext(&back, &uc);
  abort();
}
#endif
static void atExit() {
  if (!active) return;
  S->clock = clk;
  if (on()) {
    event(C_SPAWN_END, nullptr);
    if (OBS) {
      paused++;
      OBS->onExit();
      paused--;
    }
  }
}

Proc runProc(const std::vector<std::string> &argv, const Plan &plan, Files &files, Observer *obs) {
  static bool once = false;
  if (!once) { once = true; }
  // load the file system
  memset(S, 0, offsetof(Shared, msg));
  S->msg[0] = 0;
  S->events = 0;
  memset(S->cnt, 0, sizeof S->cnt);
  memset(S->fired, 0, sizeof S->fired);
  memset(S->faultFired, 0, sizeof S->faultFired);
  S->simMicros = S->clock = 0;
  S->hash = S->backupHash = 1469598103934665603ull;
  S->sigints = 0; S->sigintEvent = -1; S->trialsAfter = 0; S->trialsTotal = 0;
  S->obsLen = 0;
  for (auto &kv : files) {
    int i = newIno();
    if (i < 0 || !grow(S->ino[i], kv.second.size())) { fprintf(stderr, "sim file system full\n"); abort(); }
    memcpy(S->data + S->ino[i].off, kv.second.data(), kv.second.size());
    S->ino[i].len = kv.second.size();
    addDent(kv.first.c_str(), i);
  }
  if (r_ftruncate(fdOut, 0) || r_ftruncate(fdErr, 0)) abort();
  r_lseek(fdOut, 0, SEEK_SET);
  r_lseek(fdErr, 0, SEEK_SET);
  fflush(stdout);
  fflush(stderr);
  OBS = obs;
  pid_t pid = r_fork();
  if (pid < 0) { perror("fork"); abort(); }
  if (pid == 0) {
    dup2(fdOut, 1);
    dup2(fdErr, 2);
    atexit(atExit);
#if SIM_ASAN
    dirtyStack(plan.heapByte);
    childMain(argv, plan);
#else
    onStack(argv, plan);
#endif
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Proc r;
  if (WIFEXITED(st)) r.exitCode = WEXITSTATUS(st);
  if (WIFSIGNALED(st)) r.signal = WTERMSIG(st);
  if (S->sigKilled) { r.signal = S->sigKilled; r.exitCode = -1; }
  r.crashed = S->crashed;
  r.hang = S->hang;
  r.invariant = S->invariant;
  r.invMsg = S->msg;
  if (r.crashed || r.hang || r.invariant) r.exitCode = -1;
  r.oomExit = S->oom;
  r.out = slurp(fdOut);
  r.err = slurp(fdErr);
  r.events = S->events;
  memcpy(r.cnt, S->cnt, sizeof r.cnt);
  memcpy(r.fired, S->fired, sizeof r.fired);
  for (size_t i = 0; i < plan.faults.size() && i < 64; i++) r.faultFired.push_back(S->faultFired[i]);
  r.simMicros = S->simMicros;
  r.finalClock = S->clock;
  r.hash = S->hash;
  r.backupHash = S->backupHash;
  r.sigintsDelivered = S->sigints;
  r.sigintEvent = S->sigintEvent;
  r.trialsAfterSigint = S->trialsAfter;
  r.unknownShell = S->unknownShell;
  lastObsLog.assign(S->obs, S->obsLen);
  Files nf;
  uint64_t fh = r.hash;
  for (int i = 0; i < MAXDENT; i++)
    if (S->dent[i].used) {
      Inode &in = S->ino[S->dent[i].ino];
      nf[S->dent[i].name] = std::string(S->data + in.off, in.len);
    }
  for (auto &kv : nf)
    for (unsigned char c : kv.first + "\n" + kv.second) { fh ^= c; fh *= 1099511628211ull; }
  for (unsigned char c : r.out) { fh ^= c; fh *= 1099511628211ull; }
  r.hash = fh;
  files.swap(nf);
  return r;
}
}  // namespace sim

#ifdef __SANITIZE_ADDRESS__
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
#endif
