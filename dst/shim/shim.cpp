// Preloaded between the process and libc.  Faults are injected only while armed,
// only into I/O on files below one scratch directory, and only into allocations
// made from the address ranges of chosen modules.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <unwind.h>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

// ---- I/O ------------------------------------------------------------------

enum Kind { OPEN_R, OPEN_W, READ, WRITE, SEEK, TRUNC, CLOSE, SYNC, UNLINK, NKIND };
// effects
enum { ERRNO = 1, SHORT = 2, EOFR = 3, CRASH = 4, TORN = 5 };

struct Fault {
  int kind, nth, effect, arg, sticky, fired;
};
static const int MAXF = 64, MAXFD = 4096, MAXLOG = 65536;
static Fault faults[MAXF];
static int nfaults = 0;
static char prefix[512];
static size_t prefix_len = 0;
static bool armed = false;
static bool tracked[MAXFD];
static long counts[NKIND];
static long applied[NKIND];
static long disk_left = -1; // bytes that may still be written, or -1
static long disk_full_hits = 0;
static long bad_lo = 0, bad_hi = 0, bad_hits = 0; // unreadable part of each file
static int tag = -1;
static struct LogRec {
  int kind, tag, effect, fd;
} logrec[MAXLOG];
static int nlog = 0;

#define REAL(name, type)                                                       \
  static type real = nullptr;                                                  \
  if (!real)                                                                   \
    real = (type)dlsym(RTLD_NEXT, name);

extern "C" {
void shim_reset() {
  armed = false;
  nfaults = nlog = 0;
  memset(counts, 0, sizeof counts);
  memset(applied, 0, sizeof applied);
  memset(tracked, 0, sizeof tracked);
  disk_left = -1;
  disk_full_hits = 0;
  bad_lo = bad_hi = bad_hits = 0;
  tag = -1;
}
void shim_bad(long lo, long hi) {
  bad_lo = lo;
  bad_hi = hi;
}
long shim_bad_hits() { return bad_hits; }
void shim_prefix(const char *p) {
  strncpy(prefix, p, sizeof prefix - 1);
  prefix_len = strlen(prefix);
}
void shim_arm(int on) { armed = on; }
void shim_tag(int t) { tag = t; }
int shim_fault(int kind, int nth, int effect, int arg, int sticky) {
  if (nfaults == MAXF)
    return -1;
  faults[nfaults] = {kind, nth, effect, arg, sticky, 0};
  return nfaults++;
}
void shim_disk(long n) { disk_left = n; }
long shim_count(int kind) { return counts[kind]; }
long shim_applied(int kind) { return applied[kind]; }
long shim_full_hits() { return disk_full_hits; }
int shim_nlog() { return nlog; }
int shim_log(int i, int *out) {
  out[0] = logrec[i].kind;
  out[1] = logrec[i].tag;
  out[2] = logrec[i].effect;
  out[3] = logrec[i].fd;
  return 0;
}
}

static bool ours(const char *path) {
  if (!prefix_len || !path)
    return false;
  return strncmp(path, prefix, prefix_len) == 0;
}
static bool fd_ours(int fd) {
  if (!armed || fd < 0)
    return false;
  if (fd < MAXFD && tracked[fd])
    return true;
  return false;
}
static bool fd_path_ours(int fd) {
  if (!armed || fd < 0)
    return false;
  char ln[64], buf[1024];
  snprintf(ln, sizeof ln, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(ln, buf, sizeof buf - 1);
  if (n <= 0)
    return false;
  buf[n] = 0;
  return ours(buf);
}

// counts the operation; the fault it meets, or null
static Fault *meet(int kind, int fd) {
  long n = ++counts[kind];
  Fault *f = nullptr;
  for (int i = 0; i < nfaults; ++i) {
    Fault &g = faults[i];
    if (g.kind == kind && (n == g.nth || (g.sticky && n > g.nth))) {
      f = &g;
      break;
    }
  }
  if (nlog < MAXLOG)
    logrec[nlog++] = {kind, tag, f ? f->effect : 0, fd};
  if (f) {
    f->fired++;
    applied[kind]++;
    if (f->effect == CRASH)
      _exit(77);
  }
  return f;
}

typedef int (*open_t)(const char *, int, ...);
typedef ssize_t (*read_t)(int, void *, size_t);
typedef ssize_t (*pread_t)(int, void *, size_t, off_t);
typedef ssize_t (*write_t)(int, const void *, size_t);
typedef ssize_t (*pwrite_t)(int, const void *, size_t, off_t);
typedef int (*close_t)(int);
typedef off_t (*lseek_t)(int, off_t, int);
typedef int (*trunc_t)(int, off_t);
typedef int (*sync_t)(int);
typedef int (*unlink_t)(const char *);
typedef int (*rename_t)(const char *, const char *);
typedef FILE *(*fopen_t)(const char *, const char *);
typedef FILE *(*fdopen_t)(int, const char *);

static int do_open(open_t real, const char *path, int flags, mode_t mode) {
  if (!armed || !ours(path))
    return real(path, flags, mode);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  Fault *f = meet(w ? OPEN_W : OPEN_R, -1);
  if (f && f->effect == ERRNO) {
    errno = f->arg;
    return -1;
  }
  int fd = real(path, flags, mode);
  if (fd >= 0 && fd < MAXFD)
    tracked[fd] = true;
  return fd;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, bool at) {
  REAL("read", read_t);
  static pread_t preal = nullptr;
  if (!preal)
    preal = (pread_t)dlsym(RTLD_NEXT, "pread64");
  if (!fd_ours(fd))
    return at ? preal(fd, buf, n, off) : real(fd, buf, n);
  Fault *f = meet(READ, fd);
  if (f) {
    if (f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
    if (f->effect == EOFR)
      return 0;
    if (f->effect == SHORT && n > 1)
      n = n / (size_t)(f->arg < 2 ? 2 : f->arg) + 1 < n ? n / (size_t)(f->arg < 2 ? 2 : f->arg) + 1 : 1;
  }
  if (bad_hi > bad_lo) {
    static lseek_t tell = (lseek_t)dlsym(RTLD_NEXT, "lseek64");
    long pos = at ? off : tell(fd, 0, SEEK_CUR);
    if (pos < bad_hi && pos + (long)n > bad_lo) {
      ++bad_hits;
      if (pos >= bad_lo) {
        errno = EIO;
        return -1;
      }
      n = bad_lo - pos;
    }
  }
  return at ? preal(fd, buf, n, off) : real(fd, buf, n);
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, bool at) {
  REAL("write", write_t);
  static pwrite_t preal = nullptr;
  if (!preal)
    preal = (pwrite_t)dlsym(RTLD_NEXT, "pwrite64");
  if (!fd_ours(fd))
    return at ? preal(fd, buf, n, off) : real(fd, buf, n);
  Fault *f = meet(WRITE, fd);
  if (f) {
    if (f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
    if (f->effect == SHORT || f->effect == TORN) {
      size_t m = n / (size_t)(f->arg < 2 ? 2 : f->arg);
      if (m < 1)
        m = 1;
      if (m < n)
        n = m;
    }
  }
  if (disk_left >= 0) {
    if (disk_left == 0 && n > 0) {
      ++disk_full_hits;
      errno = ENOSPC;
      return -1;
    }
    if ((long)n > disk_left)
      n = disk_left;
  }
  ssize_t r = at ? preal(fd, buf, n, off) : real(fd, buf, n);
  if (r > 0 && disk_left >= 0)
    disk_left -= r;
  if (f && f->effect == TORN)
    _exit(77);
  return r;
}

static int do_close(int fd) {
  REAL("close", close_t);
  if (!fd_ours(fd))
    return real(fd);
  Fault *f = meet(CLOSE, fd);
  tracked[fd] = false;
  int r = real(fd);
  if (f && f->effect == ERRNO) {
    errno = f->arg;
    return -1;
  }
  return r;
}

static off_t do_seek(int fd, off_t off, int wh) {
  REAL("lseek64", lseek_t);
  if (!fd_ours(fd))
    return real(fd, off, wh);
  Fault *f = meet(SEEK, fd);
  if (f && f->effect == ERRNO) {
    errno = f->arg;
    return -1;
  }
  return real(fd, off, wh);
}

// stdio streams on our files go through the functions above
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n, 0, false); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  ssize_t done = 0;
  while ((size_t)done < n) { // stdio itself retries short writes
    ssize_t r = do_write((int)(intptr_t)c, b + done, n - done, 0, false);
    if (r <= 0)
      return done ? done : 0;
    done += r;
  }
  return done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  off_t r = do_seek((int)(intptr_t)c, *off, wh);
  if (r < 0)
    return -1;
  *off = r;
  return 0;
}
static struct {
  FILE *f;
  int fd;
} streams[256];
static int ck_close(void *c) {
  int fd = (int)(intptr_t)c;
  for (auto &s : streams)
    if (s.f && s.fd == fd)
      s.f = nullptr;
  return do_close(fd);
}

static FILE *stream(int fd, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  for (auto &s : streams)
    if (f && !s.f) {
      s = {f, fd};
      break;
    }
  return f;
}

static int mode_flags(const char *m) {
  int plus = strchr(m, '+') != nullptr;
  switch (m[0]) {
  case 'r':
    return plus ? O_RDWR : O_RDONLY;
  case 'w':
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  default:
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
}

extern "C" {
#define MODE                                                                   \
  mode_t mode = 0;                                                             \
  if (flags & (O_CREAT | O_TMPFILE)) {                                         \
    va_list ap;                                                                \
    va_start(ap, flags);                                                       \
    mode = va_arg(ap, mode_t);                                                 \
    va_end(ap);                                                                \
  }
int open(const char *path, int flags, ...) {
  MODE REAL("open", open_t);
  return do_open(real, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  MODE REAL("open64", open_t);
  return do_open(real, path, flags, mode);
}
typedef int (*openat_t)(int, const char *, int, ...);
int openat(int dir, const char *path, int flags, ...) {
  MODE REAL("openat", openat_t);
  if (armed && ours(path)) {
    static open_t o = (open_t)dlsym(RTLD_NEXT, "open");
    return do_open(o, path, flags, mode);
  }
  return real(dir, path, flags, mode);
}
int openat64(int dir, const char *path, int flags, ...) {
  MODE REAL("openat64", openat_t);
  if (armed && ours(path)) {
    static open_t o = (open_t)dlsym(RTLD_NEXT, "open64");
    return do_open(o, path, flags, mode);
  }
  return real(dir, path, flags, mode);
}
FILE *fopen(const char *path, const char *m) {
  REAL("fopen", fopen_t);
  if (!armed || !ours(path))
    return real(path, m);
  int fd = open(path, mode_flags(m), 0666);
  if (fd < 0)
    return nullptr;
  return stream(fd, m);
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }
FILE *fdopen(int fd, const char *m) {
  REAL("fdopen", fdopen_t);
  if (!fd_path_ours(fd))
    return real(fd, m);
  if (fd < MAXFD)
    tracked[fd] = true;
  return stream(fd, m);
}
int fileno(FILE *f) noexcept {
  typedef int (*fileno_t)(FILE *);
  REAL("fileno", fileno_t);
  for (auto &s : streams)
    if (s.f == f)
      return s.fd;
  return real(f);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, true); }
off_t lseek(int fd, off_t o, int w) noexcept { return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return do_seek(fd, o, w); }
int close(int fd) { return do_close(fd); }
static int do_trunc(int fd, off_t n) {
  REAL("ftruncate64", trunc_t);
  if (!fd_ours(fd))
    return real(fd, n);
  Fault *f = meet(TRUNC, fd);
  if (f && f->effect == ERRNO) {
    errno = f->arg;
    return -1;
  }
  return real(fd, n);
}
int ftruncate(int fd, off_t n) noexcept { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return do_trunc(fd, n); }
int fsync(int fd) {
  REAL("fsync", sync_t);
  if (fd_ours(fd)) {
    Fault *f = meet(SYNC, fd);
    if (f && f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
  }
  return real(fd);
}
int fdatasync(int fd) {
  REAL("fdatasync", sync_t);
  if (fd_ours(fd)) {
    Fault *f = meet(SYNC, fd);
    if (f && f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
  }
  return real(fd);
}
int unlink(const char *p) noexcept {
  REAL("unlink", unlink_t);
  if (armed && ours(p)) {
    Fault *f = meet(UNLINK, -1);
    if (f && f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
  }
  return real(p);
}
int rename(const char *a, const char *b) noexcept {
  REAL("rename", rename_t);
  if (armed && (ours(a) || ours(b))) {
    Fault *f = meet(UNLINK, -1);
    if (f && f->effect == ERRNO) {
      errno = f->arg;
      return -1;
    }
  }
  return real(a, b);
}
}

// ---- allocation -------------------------------------------------------------

static const int MAXR = 65536;
static struct {
  uintptr_t lo, hi;
  int what; // 0: refuse nothing, 1: operator new and new[], 2: operator new only
} ranges[MAXR]; // disjoint and sorted
static int nranges = 0;
static bool a_armed = false;
static long a_count = 0, a_nth = -1, a_fired = 0, a_min = 0;
static int a_len = 1;
static bool np_on = false;
static const long MAXSITES = 1 << 20;
static uint64_t a_site[MAXSITES];

extern "C" {
void shim_alloc_reset() {
  a_armed = false;
  nranges = 0;
  a_count = a_fired = 0;
  a_nth = -1;
  a_len = 1;
  a_min = 0;
  np_on = false;
}
int shim_alloc_range(uintptr_t lo, uintptr_t hi, int what) {
  if (nranges == MAXR)
    return -1;
  ranges[nranges].lo = lo;
  ranges[nranges].hi = hi;
  ranges[nranges++].what = what;
  return 0;
}
// the nth matching allocation of at least `min` bytes fails, and the len-1 after it
void shim_alloc_arm(long nth, int len, long min) {
  a_count = a_fired = 0;
  a_nth = nth;
  a_len = len;
  a_min = min;
  a_armed = true;
}
void shim_alloc_disarm() { a_armed = false; }
long shim_alloc_count() { return a_count; }
// where the counted requests came from (numpy: their size)
long shim_alloc_sites(uint64_t *out, long n) {
  long k = a_count < MAXSITES ? a_count : MAXSITES;
  k = k < n ? k : n;
  for (long i = 0; i < k; ++i)
    out[i] = a_site[i];
  return k;
}
long shim_alloc_fired() { return a_fired; }
}

static bool refuse(void *from, size_t n, bool array) {
  if (!a_armed || (long)n < a_min)
    return false;
  uintptr_t a = (uintptr_t)from;
  int lo = 0, hi = nranges; // the last range that starts below
  while (lo < hi) {
    int m = (lo + hi) / 2;
    if (ranges[m].lo < a)
      lo = m + 1;
    else
      hi = m;
  }
  if (!lo || a > ranges[lo - 1].hi || !ranges[lo - 1].what || (array && ranges[lo - 1].what == 2))
    return false;
  long k = ++a_count;
  if (k <= MAXSITES)
    a_site[k - 1] = a;
  if (a_nth > 0 && k >= a_nth && k < a_nth + a_len) {
    ++a_fired;
    return true;
  }
  return false;
}

// numpy's array data (PyDataMem_SetHandler). Only requests made while an array
// is created are refused: numpy itself dies when the work space of a sort is.
static uintptr_t np_lo = 0, np_hi = 0;
struct Walk {
  int depth;
  bool found;
};
static _Unwind_Reason_Code frame(_Unwind_Context *c, void *arg) {
  Walk *w = (Walk *)arg;
  uintptr_t ip = _Unwind_GetIP(c);
  if (ip > np_lo && ip <= np_hi) {
    w->found = true;
    return _URC_END_OF_STACK;
  }
  return ++w->depth > 6 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
static bool for_array() {
  Walk w = {0, false};
  _Unwind_Backtrace(frame, &w);
  return w.found;
}
static bool refuse_np(size_t n) {
  if (!a_armed || (long)n < a_min || !np_on)
    return false;
  if (!for_array())
    return false;
  long k = ++a_count;
  if (k <= MAXSITES)
    a_site[k - 1] = n;
  if (a_nth > 0 && k >= a_nth && k < a_nth + a_len) {
    ++a_fired;
    return true;
  }
  return false;
}
extern "C" {
void shim_np(int on) { np_on = on; }
void shim_np_creator(uintptr_t lo, uintptr_t hi) {
  np_lo = lo;
  np_hi = hi;
}
void *shim_np_malloc(void *, size_t n) { return refuse_np(n) ? nullptr : __libc_malloc(n ? n : 1); }
void *shim_np_calloc(void *, size_t k, size_t n) { return refuse_np(k * n) ? nullptr : __libc_calloc(k ? k : 1, n ? n : 1); }
void *shim_np_realloc(void *, void *p, size_t n) { return refuse_np(n) ? nullptr : __libc_realloc(p, n ? n : 1); }
void shim_np_free(void *, void *p, size_t) { free(p); }
}

static void *fresh(size_t n) {
  void *p = __libc_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
// (the extensions do not call these now; code that does has to check)
extern "C" {
void *malloc(size_t n) noexcept {
  if (a_armed && refuse(__builtin_return_address(0), n, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_malloc(n);
}
void *calloc(size_t k, size_t n) noexcept {
  if (a_armed && refuse(__builtin_return_address(0), k * n, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_calloc(k, n);
}
void *realloc(void *p, size_t n) noexcept {
  if (a_armed && n && refuse(__builtin_return_address(0), n, true)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_realloc(p, n);
}
}
void *operator new(size_t n) {
  if (a_armed && refuse(__builtin_return_address(0), n, false))
    throw std::bad_alloc();
  return fresh(n);
}
void *operator new[](size_t n) {
  if (a_armed && refuse(__builtin_return_address(0), n, true))
    throw std::bad_alloc();
  return fresh(n);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  if (a_armed && refuse(__builtin_return_address(0), n, false))
    return nullptr;
  return __libc_malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  if (a_armed && refuse(__builtin_return_address(0), n, true))
    return nullptr;
  return __libc_malloc(n ? n : 1);
}
void *operator new(size_t n, std::align_val_t al) {
  if (a_armed && refuse(__builtin_return_address(0), n, false))
    throw std::bad_alloc();
  void *p = __libc_memalign((size_t)al, n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t al) {
  if (a_armed && refuse(__builtin_return_address(0), n, true))
    throw std::bad_alloc();
  void *p = __libc_memalign((size_t)al, n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
