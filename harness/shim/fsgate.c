/* Preloaded into the program under test: turns its file system calls into gates.
 *
 *   VP_SOCK, VP_ID   each call on a path starting with VP_PREFIX is announced on the socket and made only when
 *                    granted; its result is announced too (stepping several processes)
 *   VP_LOG           every gate is appended to this file
 *   VP_K, VP_MODE    at gate number VP_K: kill, sig<n> (raise the signal), fail<errno> or unlink (the file the
 *                    call is about is removed first)
 *
 * Stores to a shared writable mapping count as gates once per page. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

static int sock = -1, logfd = -1, gates, target = -1, failerr;
static void *dbmap;      /* a mapping of the database (stepping) */
static char mode[16];
static const char *prefix = "/nonexistent";
static size_t prefixlen;
static int ready;
static struct sigaction next_segv;
static char *mapbase; static size_t maplen;

static long raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }
static long raw_read(int fd, void *p, size_t n) { long r; do r = syscall(SYS_read, fd, p, n); while (r < 0 && errno == EINTR); return r; }

static void on_segv(int s, siginfo_t *si, void *u);

__attribute__((constructor)) static void start(void)
{
  char *e;
  if (ready) return;
  ready = 1;
  if ((e = getenv("VP_PREFIX"))) { prefix = e; prefixlen = strlen(e); }
  if ((e = getenv("VP_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if ((e = getenv("VP_K"))) target = atoi(e);
  if ((e = getenv("VP_MODE"))) { strncpy(mode, e, 15); if (!strncmp(mode, "fail", 4)) failerr = atoi(mode + 4); }
  if ((e = getenv("VP_SOCK"))) {
    struct sockaddr_un a;
    char *id = getenv("VP_ID");
    sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, e, sizeof(a.sun_path) - 1);
    if (connect(sock, (struct sockaddr *) &a, sizeof a) < 0) _exit(99);
    dprintf(sock, "hello %s %d\n", id ? id : "0", (int) getpid());
  }
}

static int mine(const char *p) { return p && prefixlen && !strncmp(p, prefix, prefixlen); }

static const char *fdpath(int fd, char *buf, size_t n)
{
  char l[40];
  long r;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  r = syscall(SYS_readlinkat, AT_FDCWD, l, buf, n - 1);
  if (r < 0) return "";
  buf[r] = 0;
  return buf;
}

/* Returns 1 if the call is to fail */
static int gate(const char *call, const char *path, const char *path2, int failable)
{
  char line[1200];
  int n, save = errno, res = 0;
  start();
  if (logfd >= 0 || target >= 0) {
    int k = gates++;
    if (logfd >= 0) {
      n = snprintf(line, sizeof line, "%d %s %d %s %s\n", k, call, failable && (mine(path) || mine(path2)), path ? path : "-", path2 ? path2 : "-");
      raw_write(logfd, line, n);
    }
    if (k == target) {
      if (!strcmp(mode, "kill")) { kill(getpid(), SIGKILL); for (;;) pause(); }
      if (!strncmp(mode, "sig", 3)) kill(getpid(), atoi(mode + 3));
      if (!strcmp(mode, "unlink") && path) syscall(SYS_unlinkat, AT_FDCWD, path, 0);
      if (failerr) { errno = failerr; return 1; }
    }
  }
  if (sock >= 0 && (mine(path) || mine(path2))) {
    char c;
    n = snprintf(line, sizeof line, "call %s %s %s\n", call, path ? path : "-", path2 ? path2 : "-");
    raw_write(sock, line, n);
    if (raw_read(sock, &c, 1) <= 0) _exit(98);
    res = 0;
  }
  errno = save;
  return res;
}
static void done(const char *path, const char *path2, long r)
{
  char line[64];
  int save = errno, n;
  if (sock >= 0 && (mine(path) || mine(path2))) {
    n = snprintf(line, sizeof line, "done %ld\n", r);
    raw_write(sock, line, n);
  }
  errno = save;
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name)) dlsym(RTLD_NEXT, #name); f; })

static int do_open(const char *path, int flags, mode_t m, int (*f)(const char *, int, ...))
{
  int r;
  const char *c = (flags & O_CREAT) ? "create" : (flags & O_ACCMODE) != O_RDONLY ? "openw" : "open";
  if (gate(c, path, NULL, 1)) return -1;
  r = f(path, flags, m);
  done(path, NULL, r < 0 ? -errno : 0);
  return r;
}
int open(const char *path, int flags, ...)
{
  va_list a; mode_t m = 0;
  va_start(a, flags); if (flags & O_CREAT) m = va_arg(a, mode_t); va_end(a);
  return do_open(path, flags, m, REAL(open));
}
int open64(const char *path, int flags, ...)
{
  va_list a; mode_t m = 0;
  va_start(a, flags); if (flags & O_CREAT) m = va_arg(a, mode_t); va_end(a);
  return do_open(path, flags, m, REAL(open64));
}
int creat(const char *path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }

FILE *fopen(const char *path, const char *md)
{
  FILE *r;
  if (gate(md[0] == 'r' ? "open" : "create", path, NULL, 1)) return NULL;
  r = REAL(fopen)(path, md);
  done(path, NULL, r ? 0 : -errno);
  return r;
}
FILE *fopen64(const char *path, const char *md) { return fopen(path, md); }

#define TWO(name, tag) int name(const char *a, const char *b) { int r; if (gate(tag, a, b, 1)) return -1; r = REAL(name)(a, b); done(a, b, r < 0 ? -errno : 0); return r; }
TWO(link, "link")
TWO(symlink, "symlink")
TWO(rename, "rename")
int unlink(const char *a) { int r; if (gate("unlink", a, NULL, 1)) return -1; r = REAL(unlink)(a); done(a, NULL, r < 0 ? -errno : 0); return r; }
int remove(const char *a) { int r; if (gate("unlink", a, NULL, 1)) return -1; r = REAL(remove)(a); done(a, NULL, r < 0 ? -errno : 0); return r; }
int stat(const char *a, struct stat *sb) { int r; if (gate("stat", a, NULL, 0)) return -1; r = REAL(stat)(a, sb); done(a, NULL, r < 0 ? -errno : 0); return r; }
int lstat(const char *a, struct stat *sb) { int r; if (gate("stat", a, NULL, 0)) return -1; r = REAL(lstat)(a, sb); done(a, NULL, r < 0 ? -errno : 0); return r; }
int truncate(const char *a, off_t l) { int r; if (gate("truncate", a, NULL, 1)) return -1; r = REAL(truncate)(a, l); done(a, NULL, r < 0 ? -errno : 0); return r; }
/* Changing the signal mask is no call on a file, but a place where a signal may arrive (stepping) */
int sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
  int r;
  if (sock >= 0) gate("mask", prefix, NULL, 0);
  r = REAL(sigprocmask)(how, set, old);
  if (sock >= 0) done(prefix, NULL, r);
  return r;
}
DIR *opendir(const char *a) { if (gate("opendir", a, NULL, 0)) return NULL; return REAL(opendir)(a); }

/* Calls on descriptors: gates only when counting */
#define FDGATE(tag, fd, failable) ({ char b_[512]; int g_ = 0; if (logfd >= 0 || target >= 0) { const char *p_ = fdpath(fd, b_, sizeof b_); if (p_[0] == '/') g_ = gate(tag, p_, NULL, failable); } g_; })
ssize_t write(int fd, const void *p, size_t n) { if (FDGATE("write", fd, 1)) return -1; return REAL(write)(fd, p, n); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { if (FDGATE("write", fd, 1)) return -1; return REAL(pwrite)(fd, p, n, o); }
off_t lseek(int fd, off_t o, int w) { if (FDGATE("lseek", fd, 1)) return -1; return REAL(lseek)(fd, o, w); }
int ftruncate(int fd, off_t l) { if (FDGATE("ftruncate", fd, 1)) return -1; return REAL(ftruncate)(fd, l); }
int fsync(int fd) { if (FDGATE("fsync", fd, 1)) return -1; return REAL(fsync)(fd); }
int fdatasync(int fd) { if (FDGATE("fsync", fd, 1)) return -1; return REAL(fdatasync)(fd); }
int close(int fd) { if (FDGATE("close", fd, 0)) return -1; return REAL(close)(fd); }
int fclose(FILE *f) { if (FDGATE("close", fileno(f), 0)) return -1; return REAL(fclose)(f); }

static void on_segv(int s, siginfo_t *si, void *u)
{
  char *a = (char *) ((unsigned long) si->si_addr & ~4095UL);
  (void) s; (void) u;
  if (mapbase && a >= mapbase && a < mapbase + maplen) {
    mprotect(a, 4096, PROT_READ | PROT_WRITE);
    gate("store", prefix, NULL, 0);
    return;
  }
  signal(SIGSEGV, SIG_DFL);
}
static void watch(void *p, size_t len)
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, &next_segv);
  mapbase = p; maplen = (len + 4095) & ~4095UL;
  mprotect(mapbase, maplen, PROT_NONE);
}
void *mmap(void *p, size_t n, int prot, int flags, int fd, off_t o)
{
  char b[512];
  void *r;
  const char *path;
  if (fd >= 0 && sock >= 0) {
    int m = mine(fdpath(fd, b, sizeof b));
    if (m) gate("mmap", b, NULL, 0);
    r = (void *) syscall(SYS_mmap, p, n, prot, flags, fd, o);
    if (m) { done(b, NULL, 0); dbmap = r; }
    return r;
  }
  if (fd < 0 || (logfd < 0 && target < 0)) return (void *) syscall(SYS_mmap, p, n, prot, flags, fd, o);
  path = fdpath(fd, b, sizeof b);
  if (gate("mmap", path, NULL, 1)) return MAP_FAILED;
  r = (void *) syscall(SYS_mmap, p, n, prot, flags, fd, o);
  if (r != MAP_FAILED && (prot & PROT_WRITE) && (flags & MAP_SHARED) && mine(path)) watch(r, n);
  return r;
}
void *mmap64(void *p, size_t n, int prot, int flags, int fd, off_t o) { return mmap(p, n, prot, flags, fd, o); }
int munmap(void *p, size_t n)
{
  if (sock >= 0 && p == dbmap && p) { gate("munmap", prefix, NULL, 0); done(prefix, NULL, 0); dbmap = NULL; }
  if (mapbase && p == mapbase && (logfd >= 0 || target >= 0)) {
    if (gate("munmap", prefix, NULL, 1)) return -1;
    mapbase = NULL;
  }
  return syscall(SYS_munmap, p, n);
}
int msync(void *p, size_t n, int f) { if ((logfd >= 0 || target >= 0) && mapbase && gate("msync", prefix, NULL, 1)) return -1; return REAL(msync)(p, n, f); }
