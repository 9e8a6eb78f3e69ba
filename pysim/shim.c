/* Preloaded into the Python that runs the code generator. In a process that called shim_on(), every
   file operation on the simulated directory (and on standard output) asks the scheduler first, and the
   process identity, clock and randomness come from the simulation. Elsewhere it passes everything through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, RENAME, UNLINK, TRUNC, SYNC, CHMOD, ACCESS, MKDIR, LINK, SEEK, STAT, UTIME, ALLOC };
enum { GO, FAIL, SHORT, CRASH, TEAR, AFTER, INTR, LOSE, FAILAFTER };

struct req { int op, fd, flags, pad; long n; char path[480], path2[480]; };
struct rsp { int act, err; long n; };

static int on, rfd, wfd, simpid, isroot;
static pid_t realpid;
static char root[480];
static size_t rootlen;
static unsigned long long rnd, clk;
#define NFD 256
static char* names[NFD];

#define REAL(name) ({ static __typeof__(&name) p; if(!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

static int act(void){ return on && syscall(SYS_getpid) == realpid; }

void shim_on(int r, int w, const char* dir, int pid, unsigned long long seed, int root_user){
  rfd = r; wfd = w; simpid = pid; realpid = syscall(SYS_getpid); rnd = seed * 2 + 1; clk = 1700000000ull * 1000000000ull + (seed % 1000) * 1000000ull;
  snprintf(root, sizeof root, "%s", dir); rootlen = strlen(root); isroot = root_user;
  memset(names, 0, sizeof names);
  names[1] = strdup("<stdout>"); names[2] = strdup("<stderr>");
  on = 1;
}

static void die(void){ syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for(;;) pause(); }

/* the path below the simulated directory, or null */
static const char* inside(int dirfd, const char* p, char* buf){
  if(!p) return 0;
  if(p[0] != '/'){
    char d[480];
    if(dirfd == AT_FDCWD){ if(!getcwd(d, sizeof d)) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t k = REAL(readlink)(l, d, sizeof d - 1); if(k < 0) return 0; d[k] = 0; }
    snprintf(buf, 480, "%s/%s", d, p);
  } else snprintf(buf, 480, "%s", p);
  if(strncmp(buf, root, rootlen) || (buf[rootlen] != '/' && buf[rootlen])) return 0;
  return buf[rootlen] ? buf + rootlen + 1 : buf + rootlen;
}

static struct rsp ask(int op, int fd, int flags, long n, const char* p, const char* p2){
  static struct req q; struct rsp r; int e = errno;
  memset(&q, 0, sizeof q);
  q.op = op; q.fd = fd; q.flags = flags; q.n = n;
  if(p) snprintf(q.path, sizeof q.path, "%s", p);
  if(p2) snprintf(q.path2, sizeof q.path2, "%s", p2);
  if(syscall(SYS_write, wfd, &q, sizeof q) != sizeof q) die();
  char* b = (char*)&r; size_t have = 0;
  while(have < sizeof r){
    long k = syscall(SYS_read, rfd, b + have, sizeof r - have);
    if(k < 0 && errno == EINTR) continue;
    if(k <= 0) die();
    have += k;
  }
  if(r.act == CRASH) die();
  if(r.act == INTR) raise(SIGINT);
  errno = e;
  return r;
}

/* run `call` as answered; `bad` is its failure value */
#define SIMPLE(r, call, bad) do { \
    if((r).act == FAIL){ errno = (r).err; return bad; } \
    __typeof__(call) res_ = (call); \
    if((r).act == AFTER) die(); \
    if((r).act == FAILAFTER){ errno = (r).err; return bad; } \
    return res_; } while(0)

static int do_open(int (*how)(int, const char*, int, mode_t), int dirfd, const char* path, int flags, mode_t mode){
  char b[480]; const char* p;
  if(!act() || !(p = inside(dirfd, path, b))) return how(dirfd, path, flags, mode);
  struct rsp r = ask(OPEN, -1, flags, 0, p, 0);
  if(r.act == FAIL){ errno = r.err; return -1; }
  if(!isroot){
    struct stat s;
    if(REAL(fstatat)(dirfd, path, &s, 0) == 0){
      int w = (flags & O_ACCMODE) != O_RDONLY;
      if((w && !(s.st_mode & S_IWUSR)) || ((flags & O_ACCMODE) != O_WRONLY && !(s.st_mode & S_IRUSR))){ errno = EACCES; return -1; }
    } else if(flags & O_CREAT){
      char d[480]; snprintf(d, sizeof d, "%s", path); char* e = strrchr(d, '/'); if(e) *e = 0; else strcpy(d, ".");
      if(REAL(fstatat)(dirfd, d, &s, 0) == 0 && !(s.st_mode & S_IWUSR)){ errno = EACCES; return -1; }
    }
  }
  int fd = how(dirfd, path, flags, mode);
  if(r.act == AFTER) die();
  if(r.act == FAILAFTER){ if(fd >= 0) REAL(close)(fd); errno = r.err; return -1; }
  if(fd >= 0 && fd < NFD) names[fd] = strdup(p);
  return fd;
}
static int h_open(int d, const char* p, int f, mode_t m){ (void)d; return REAL(open64)(p, f, m); }
static int h_openat(int d, const char* p, int f, mode_t m){ return REAL(openat64)(d, p, f, m); }
#define MODE mode_t m = 0; if(f & (O_CREAT | O_TMPFILE)){ va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char* p, int f, ...){ MODE return do_open(h_open, AT_FDCWD, p, f, m); }
int open64(const char* p, int f, ...){ MODE return do_open(h_open, AT_FDCWD, p, f, m); }
int openat(int d, const char* p, int f, ...){ MODE return do_open(h_openat, d, p, f, m); }
int openat64(int d, const char* p, int f, ...){ MODE return do_open(h_openat, d, p, f, m); }
int creat(const char* p, mode_t m){ return do_open(h_open, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static const char* nm(int fd){ return fd >= 0 && fd < NFD && act() ? names[fd] : 0; }

ssize_t read(int fd, void* b, size_t n){
  const char* p = nm(fd);
  if(!p) return REAL(read)(fd, b, n);
  struct rsp r = ask(READ, fd, 0, n, p, 0);
  if(r.act == SHORT && r.n > 0 && (size_t)r.n < n) n = r.n;
  SIMPLE(r, REAL(read)(fd, b, n), -1);
}
static ssize_t do_write(int fd, const void* b, size_t n, off64_t at, int positioned){
  const char* p = nm(fd);
#define W(k) (positioned ? REAL(pwrite64)(fd, b, k, at) : REAL(write)(fd, b, k))
  if(!p) return W(n);
  struct rsp r = ask(WRITE, fd, 0, n, p, 0);
  if(r.act == TEAR){ if(r.n > 0) { ssize_t k = W((size_t)r.n < n ? (size_t)r.n : n); (void)k; } die(); }
  if(r.act == SHORT && r.n > 0 && (size_t)r.n < n) n = r.n;
  SIMPLE(r, W(n), -1);
}
ssize_t write(int fd, const void* b, size_t n){ return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t at){ return do_write(fd, b, n, at, 1); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t at){ return do_write(fd, b, n, at, 1); }
ssize_t sendfile64(int o, int i, off64_t* at, size_t n){ if(nm(o)){ errno = EINVAL; return -1; } return REAL(sendfile64)(o, i, at, n); }
ssize_t sendfile(int o, int i, off_t* at, size_t n){ if(nm(o)){ errno = EINVAL; return -1; } return REAL(sendfile)(o, i, at, n); }
ssize_t copy_file_range(int i, off64_t* a, int o, off64_t* c, size_t n, unsigned f){ if(nm(o)){ errno = EXDEV; return -1; } return REAL(copy_file_range)(i, a, o, c, n, f); }

int close(int fd){
  const char* p = nm(fd);
  if(!p) return REAL(close)(fd);
  struct rsp r = ask(CLOSE, fd, 0, 0, p, 0);
  names[fd] = 0;
  if(r.act == LOSE){ /* delayed write-back fails: the tail never reached the disk */
    struct stat s;
    if(REAL(fstat)(fd, &s) == 0 && S_ISREG(s.st_mode) && s.st_size > 0){ int k = REAL(ftruncate64)(fd, s.st_size * (r.n % 100) / 100); (void)k; }
    REAL(close)(fd); errno = r.err; return -1;
  }
  if(r.act == FAIL || r.act == FAILAFTER){ REAL(close)(fd); errno = r.err; return -1; }
  SIMPLE(r, REAL(close)(fd), -1);
}
static int dupname(int o, int n){ if(act() && n >= 0 && n < NFD) names[n] = o >= 0 && o < NFD ? names[o] : 0; return n; }
int dup(int o){ return dupname(o, REAL(dup)(o)); }
int dup2(int o, int n){ int k = REAL(dup2)(o, n); return k < 0 ? k : dupname(o, k); }
int dup3(int o, int n, int f){ int k = REAL(dup3)(o, n, f); return k < 0 ? k : dupname(o, k); }

#define PATH1(op, d, path, fl, call) do { char b_[480]; const char* p_; \
    if(!act() || !(p_ = inside(d, path, b_))) return call; \
    struct rsp r_ = ask(op, -1, fl, 0, p_, 0); SIMPLE(r_, call, -1); } while(0)
#define PATH2(op, d, path, d2, path2, call) do { char b_[480], c_[480]; const char *p_, *q_; \
    if(!act()) return call; \
    p_ = inside(d, path, b_); q_ = inside(d2, path2, c_); if(!p_ && !q_) return call; \
    struct rsp r_ = ask(op, -1, 0, 0, p_ ? p_ : path, q_ ? q_ : path2); SIMPLE(r_, call, -1); } while(0)

int rename(const char* a, const char* b){ PATH2(RENAME, AT_FDCWD, a, AT_FDCWD, b, REAL(rename)(a, b)); }
int renameat(int d, const char* a, int e, const char* b){ PATH2(RENAME, d, a, e, b, REAL(renameat)(d, a, e, b)); }
int link(const char* a, const char* b){ PATH2(LINK, AT_FDCWD, a, AT_FDCWD, b, REAL(link)(a, b)); }
int linkat(int d, const char* a, int e, const char* b, int f){ PATH2(LINK, d, a, e, b, REAL(linkat)(d, a, e, b, f)); }
int unlink(const char* a){ PATH1(UNLINK, AT_FDCWD, a, 0, REAL(unlink)(a)); }
int unlinkat(int d, const char* a, int f){ PATH1(UNLINK, d, a, f, REAL(unlinkat)(d, a, f)); }
int truncate64(const char* a, off64_t n){ PATH1(TRUNC, AT_FDCWD, a, 0, REAL(truncate64)(a, n)); }
int truncate(const char* a, off_t n){ PATH1(TRUNC, AT_FDCWD, a, 0, REAL(truncate)(a, n)); }
int ftruncate64(int fd, off64_t n){ const char* p = nm(fd); if(!p) return REAL(ftruncate64)(fd, n); struct rsp r = ask(TRUNC, fd, 0, n, p, 0); SIMPLE(r, REAL(ftruncate64)(fd, n), -1); }
int ftruncate(int fd, off_t n){ const char* p = nm(fd); if(!p) return REAL(ftruncate)(fd, n); struct rsp r = ask(TRUNC, fd, 0, n, p, 0); SIMPLE(r, REAL(ftruncate)(fd, n), -1); }
int fsync(int fd){ const char* p = nm(fd); if(!p) return REAL(fsync)(fd); struct rsp r = ask(SYNC, fd, 0, 0, p, 0); SIMPLE(r, 0, -1); }
int fdatasync(int fd){ const char* p = nm(fd); if(!p) return REAL(fdatasync)(fd); struct rsp r = ask(SYNC, fd, 0, 0, p, 0); SIMPLE(r, 0, -1); }
int chmod(const char* a, mode_t m){ PATH1(CHMOD, AT_FDCWD, a, 0, REAL(chmod)(a, m)); }
int fchmodat(int d, const char* a, mode_t m, int f){ PATH1(CHMOD, d, a, 0, REAL(fchmodat)(d, a, m, f)); }
int fchmod(int fd, mode_t m){ const char* p = nm(fd); if(!p) return REAL(fchmod)(fd, m); struct rsp r = ask(CHMOD, fd, 0, 0, p, 0); SIMPLE(r, REAL(fchmod)(fd, m), -1); }
int mkdir(const char* a, mode_t m){ PATH1(MKDIR, AT_FDCWD, a, 0, REAL(mkdir)(a, m)); }
static int mayaccess(int d, const char* a, int m, int k){
  struct stat s;
  if(k || isroot || REAL(fstatat)(d, a, &s, 0)) return k;
  if(((m & W_OK) && !(s.st_mode & S_IWUSR)) || ((m & R_OK) && !(s.st_mode & S_IRUSR))){ errno = EACCES; return -1; }
  return 0;
}
int access(const char* a, int m){ PATH1(ACCESS, AT_FDCWD, a, m, mayaccess(AT_FDCWD, a, m, REAL(access)(a, m))); }
int faccessat(int d, const char* a, int m, int f){ PATH1(ACCESS, d, a, m, mayaccess(d, a, m, REAL(faccessat)(d, a, m, f))); }
/* whether an operation that succeeded is applied to a read-only simulated user's files is decided by mode bits above */
uid_t getuid(void){ return act() && !isroot ? 1000 : REAL(getuid)(); }
uid_t geteuid(void){ return act() && !isroot ? 1000 : REAL(geteuid)(); }
pid_t getpid(void){ return act() ? simpid : (pid_t)syscall(SYS_getpid); }

static unsigned long long next(void){ rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
ssize_t getrandom(void* b, size_t n, unsigned f){
  if(!act()) return REAL(getrandom)(b, n, f);
  for(size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = next() >> 24;
  return n;
}
int getentropy(void* b, size_t n){ return act() ? (getrandom(b, n, 0), 0) : REAL(getentropy)(b, n); }
int clock_gettime(clockid_t c, struct timespec* t){
  if(!act()) return REAL(clock_gettime)(c, t);
  clk += 1000000; t->tv_sec = clk / 1000000000ull; t->tv_nsec = clk % 1000000000ull; return 0;
}
time_t time(time_t* t){ struct timespec s; if(!act()) return REAL(time)(t); clock_gettime(0, &s); if(t) *t = s.tv_sec; return s.tv_sec; }
int gettimeofday(struct timeval* t, void* z){
  if(!act()) return REAL(gettimeofday)(t, z);
  struct timespec s; clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
void shim_clock(long long delta){ clk += delta; }
