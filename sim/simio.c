// Simulated disk (fault injection + write log) and clocks, by symbol interposition.
#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define ACTIVE (W && sim_rank >= 0)
#define MAXFD 1024
static char *fdpath[MAXFD];
static int fdappend[MAXFD];

int sd_is_sim_path(const char *path) {
  if (!ACTIVE || !path) return 0;
  if (path[0] != '/') return 1; // ranks run inside the scratch directory
  size_t n = strlen(W->P.scratch);
  return n && !strncmp(path, W->P.scratch, n);
}
static const char *rel(const char *path) {
  size_t n = strlen(W->P.scratch);
  if (path[0] == '/' && !strncmp(path, W->P.scratch, n)) {
    path += n;
    while (*path == '/') path++;
  }
  while (path[0] == '.' && path[1] == '/') path += 2;
  return path;
}

static void logop(uint32_t op, const char *path, const char *path2, int64_t off, const void *data, int64_t len) {
  if (!W->P.log_io) return;
  SimLog *l = sim_alloc(sizeof *l);
  memset(l, 0, sizeof *l);
  l->op = (uint32_t)W->step;
  l->cls = op;
  l->rank = sim_rank;
  l->off = off;
  l->len = len;
  snprintf(l->path, sizeof l->path, "%s", path ? rel(path) : "");
  snprintf(l->path2, sizeof l->path2, "%s", path2 ? rel(path2) : "");
  if (data && len > 0) {
    l->data = sim_alloc(len);
    memcpy(l->data, data, len);
  }
  if (W->log_tail)
    W->log_tail->next = l;
  else
    W->log_head = l;
  W->log_tail = l;
}

static const char *cname[] = {"io:open", "io:read", "io:write", "io:close", "io:sync", "io:trunc", "io:unlink", "io:rename"};

// Called before each simulated I/O operation. Returns the fault to apply, if any.
static SimFault *io_op(int cls) {
  sim_sched(cname[cls]);
  int64_t n = (int64_t)W->io_count[cls]++;
  uint32_t h[2] = {0xD15C, (uint32_t)cls};
  sim_hash(h, sizeof h);
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->fired || f->cls != cls || f->n != n) continue;
    if (f->kind == F_IO_CRASH || f->kind == F_IO_EIO || f->kind == F_IO_SHORT || f->kind == F_IO_TORN) {
      f->fired = 1;
      W->fired[f->kind]++;
      if (f->kind == F_IO_CRASH && (cls != IO_WRITE || f->b <= 0)) sim_die(OUT_CRASHFAULT, 0, "injected crash at %s %ld", cname[cls], (long)n);
      return f;
    }
  }
  return NULL;
}

static int raw_open(const char *p, int fl, int mode) { return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }

int sd_open(const char *path, int flags, int mode) {
  SimFault *f = io_op(IO_OPEN);
  if (f) {
    errno = (flags & O_CREAT) && (f->a & 1) ? ENOSPC : EIO;
    return -1;
  }
  int existed = !syscall(SYS_access, path, F_OK);
  if (W->disk_full && (flags & O_CREAT) && !existed) {
    errno = ENOSPC;
    return -1;
  }
  int app = flags & O_APPEND;
  int fd = raw_open(path, flags & ~O_APPEND, mode);
  if (fd >= 0 && fd < MAXFD) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(path);
    fdappend[fd] = !!app;
    if ((flags & O_CREAT) && !existed) logop(IO_OPEN, path, NULL, 0, NULL, 0);
    if ((flags & O_TRUNC) && existed) logop(IO_TRUNC, path, NULL, 0, NULL, 0);
  }
  return fd;
}
static int issim(int fd) { return ACTIVE && fd >= 0 && fd < MAXFD && fdpath[fd]; }

static int check_space(int64_t n) { // returns bytes that fit
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->kind == F_IO_ENOSPC) {
      int64_t left = f->n - (int64_t)W->io_bytes;
      if (left < 0) left = 0;
      if (n > left) {
        if (!f->fired) {
          f->fired = 1;
          W->fired[F_IO_ENOSPC]++;
        }
        W->disk_full = 1;
        return (int)left;
      }
    }
  }
  return (int)(n > 0x7fffffff ? 0x7fffffff : n);
}

// partial: how many bytes land before an error
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
  ssize_t r = n ? syscall(SYS_pwrite64, fd, buf, n, off) : 0;
  if (r > 0) {
    logop(IO_WRITE, fdpath[fd], NULL, off, buf, r);
    W->io_bytes += r;
  }
  return r;
}

ssize_t sd_pwrite(int fd, const void *buf, size_t n, off_t off) {
  SimFault *f = io_op(IO_WRITE);
  if (f) {
    if (f->kind == F_IO_EIO) {
      errno = EIO;
      return -1;
    }
    size_t k = n ? (size_t)(f->b % (int64_t)(n + 1)) : 0;
    if (f->kind == F_IO_SHORT) {
      if (k == 0) k = 1;
      if (k > n) k = n;
      return do_pwrite(fd, buf, k, off);
    }
    do_pwrite(fd, buf, k, off);
    if (f->kind == F_IO_CRASH) sim_die(OUT_CRASHFAULT, 0, "injected crash inside write (%ld of %ld bytes landed)", (long)k, (long)n);
    errno = EIO;
    return -1;
  }
  int fit = check_space(n);
  if ((size_t)fit < n) {
    if (fit > 0) return do_pwrite(fd, buf, fit, off);
    errno = ENOSPC;
    return -1;
  }
  return do_pwrite(fd, buf, n, off);
}

ssize_t sd_pread(int fd, void *buf, size_t n, off_t off) {
  SimFault *f = io_op(IO_READ);
  if (f) {
    if (f->kind == F_IO_SHORT && n > 1) {
      n = 1 + (size_t)(f->b % (int64_t)(n - 1));
      return syscall(SYS_pread64, fd, buf, n, off);
    }
    errno = EIO;
    return -1;
  }
  return syscall(SYS_pread64, fd, buf, n, off);
}

int sd_close(int fd) {
  SimFault *f = io_op(IO_CLOSE);
  if (fd >= 0 && fd < MAXFD) {
    free(fdpath[fd]);
    fdpath[fd] = NULL;
  }
  int r = syscall(SYS_close, fd);
  if (f) {
    errno = EIO;
    return -1;
  }
  return r;
}
int sd_fsync(int fd) {
  SimFault *f = io_op(IO_SYNC);
  if (f) {
    errno = EIO;
    return -1;
  }
  if (fd < MAXFD && fdpath[fd]) logop(IO_SYNC, fdpath[fd], NULL, 0, NULL, 0);
  return 0;
}
int sd_ftruncate(int fd, off_t len) {
  SimFault *f = io_op(IO_TRUNC);
  if (f) {
    errno = EIO;
    return -1;
  }
  int r = syscall(SYS_ftruncate, fd, len);
  if (!r) logop(IO_TRUNC, fdpath[fd], NULL, len, NULL, 0);
  return r;
}
off_t sd_size(int fd) {
  struct stat st;
  if (syscall(SYS_fstat, fd, &st)) return -1;
  return st.st_size;
}

// ---------------------------------------------------------------- POSIX
int open(const char *path, int flags, ...) {
  int mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (sd_is_sim_path(path)) return sd_open(path, flags, mode);
  return raw_open(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  int mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (sd_is_sim_path(path)) return sd_open(path, flags, mode);
  return raw_open(path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write(int fd, const void *buf, size_t n) {
  if (!issim(fd)) return syscall(SYS_write, fd, buf, n);
  off_t off = fdappend[fd] ? sd_size(fd) : lseek(fd, 0, SEEK_CUR);
  ssize_t r = sd_pwrite(fd, buf, n, off);
  if (r > 0) lseek(fd, off + r, SEEK_SET);
  return r;
}
ssize_t read(int fd, void *buf, size_t n) {
  if (!issim(fd)) return syscall(SYS_read, fd, buf, n);
  off_t off = lseek(fd, 0, SEEK_CUR);
  ssize_t r = sd_pread(fd, buf, n, off);
  if (r > 0) lseek(fd, off + r, SEEK_SET);
  return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (!issim(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
  return sd_pwrite(fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  if (!issim(fd)) return syscall(SYS_pread64, fd, buf, n, off);
  return sd_pread(fd, buf, n, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
int close(int fd) {
  if (!issim(fd)) return syscall(SYS_close, fd);
  return sd_close(fd);
}
int fsync(int fd) {
  if (!issim(fd)) return syscall(SYS_fsync, fd);
  return sd_fsync(fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t len) {
  if (!issim(fd)) return syscall(SYS_ftruncate, fd, len);
  return sd_ftruncate(fd, len);
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
int unlink(const char *p) {
  if (sd_is_sim_path(p)) {
    SimFault *f = io_op(IO_UNLINK);
    if (f) {
      errno = EIO;
      return -1;
    }
    int r = syscall(SYS_unlink, p);
    if (!r) logop(IO_UNLINK, p, NULL, 0, NULL, 0);
    return r;
  }
  return syscall(SYS_unlink, p);
}
int remove(const char *p) {
  struct stat st;
  if (!stat(p, &st) && S_ISDIR(st.st_mode)) return syscall(SYS_rmdir, p);
  return unlink(p);
}
int rename(const char *a, const char *b) {
  if (sd_is_sim_path(a) && sd_is_sim_path(b)) {
    SimFault *f = io_op(IO_RENAME);
    if (f) {
      errno = EIO;
      return -1;
    }
    int r = syscall(SYS_rename, a, b);
    if (!r) logop(IO_RENAME, a, b, 0, NULL, 0);
    return r;
  }
  return syscall(SYS_rename, a, b);
}

// ---------------------------------------------------------------- stdio
typedef struct {
  int fd;
  off_t pos;
  int append;
} Cookie;
static ssize_t ck_read(void *c, char *b, size_t n) {
  Cookie *k = c;
  ssize_t r = sd_pread(k->fd, b, n, k->pos);
  if (r > 0) k->pos += r;
  return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  Cookie *k = c;
  off_t p = k->append ? sd_size(k->fd) : k->pos;
  ssize_t r = sd_pwrite(k->fd, b, n, p);
  if (r > 0) k->pos = p + r;
  return r < 0 ? 0 : r; // fopencookie: 0 means error
}
static int ck_seek(void *c, off64_t *o, int wh) {
  Cookie *k = c;
  off_t p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? k->pos + *o : sd_size(k->fd) + *o;
  if (p < 0) return -1;
  *o = k->pos = p;
  return 0;
}
static int ck_close(void *c) {
  Cookie *k = c;
  int r = sd_close(k->fd);
  free(k);
  return r;
}
static FILE *(*real_fopen)(const char *, const char *);
static FILE *sim_fopen(const char *path, const char *mode) {
  int fl = 0, app = 0;
  int plus = strchr(mode, '+') != NULL;
  if (mode[0] == 'r')
    fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w')
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else {
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT;
    app = 1;
  }
  int fd = sd_open(path, fl, 0666);
  if (fd < 0) return NULL;
  Cookie *k = calloc(1, sizeof *k);
  k->fd = fd;
  k->append = app;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(k, mode, io);
  return f;
}
FILE *fopen(const char *path, const char *mode) {
  if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
  if (sd_is_sim_path(path)) return sim_fopen(path, mode);
  return real_fopen(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

// ---------------------------------------------------------------- clocks
static uint64_t clock_read(void) {
  W->vtime += 137;
  int64_t t = (int64_t)W->vtime + W->clockoff[sim_rank] * 1000;
  return (uint64_t)t;
}
double MPI_Wtime(void) {
  if (!ACTIVE) return 0;
  return clock_read() * 1e-9;
}
double MPI_Wtick(void) { return 1e-9; }
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  if (!ACTIVE) {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
  }
  uint64_t t = clock_read();
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = t % 1000000000ull / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!ACTIVE) return syscall(SYS_clock_gettime, id, ts);
  uint64_t t = clock_read();
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
time_t time(time_t *p) {
  time_t t;
  if (!ACTIVE) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    t = ts.tv_sec;
  } else
    t = clock_read() / 1000000000ull;
  if (p) *p = t;
  return t;
}
clock_t clock(void) {
  if (!ACTIVE) return 0;
  return (clock_t)((clock_read() / 1000) & 0x7fffffff);
}
clock_t times(struct tms *b) {
  memset(b, 0, sizeof *b);
  if (!ACTIVE) return 0;
  b->tms_utime = clock_read() / 10000000ull;
  return b->tms_utime;
}
int getrusage(int who, struct rusage *u) {
  if (!ACTIVE) return syscall(SYS_getrusage, who, u);
  memset(u, 0, sizeof *u);
  uint64_t t = clock_read();
  u->ru_utime.tv_sec = t / 1000000000ull;
  u->ru_utime.tv_usec = t % 1000000000ull / 1000;
  return 0;
}
void sd_adopt(int fd, const char *path) {
  if (fd >= 0 && fd < MAXFD) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(path);
    fdappend[fd] = 0;
  }
}

// the working directory has one name in every simulated execution
char *getcwd(char *buf, size_t size) {
  if (!ACTIVE) {
    static char *(*real)(char *, size_t);
    if (!real) real = (char *(*)(char *, size_t))dlsym(RTLD_NEXT, "getcwd");
    return real(buf, size);
  }
  if (!buf) return strdup("/sim");
  if (size < 5) {
    errno = ERANGE;
    return NULL;
  }
  strcpy(buf, "/sim");
  return buf;
}
