/* Preloaded into the program under test: a world it cannot choose.
 *
 * BF_LOG    file that one line is appended to for everything the program creates,
 *           changes or removes ("W path"), every injected failure ("F op path")
 *           and the first split read or write of a path ("S path")
 * BF_CHUNK  most bytes one read or write of a file moves (the amount varies)
 * BF_FAULT  op|path|k|errno: from its k-th time on, op (open, read, write, mkdir)
 *           fails on that path; if errno is 0, the process is killed there
 * BF_KILL   k: the process is killed at its k-th operation on a file
 * BF_DELAY  most microseconds the process waits before operations on files, in
 *           all about a tenth of a second
 * BF_MIX    seed of the sizes and delays
 * BF_TIME   seconds the clock is off by
 * BF_PID    process id reported
 * BF_SEED   seed of the random bytes the system gives
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define FDS 256
#define LEN 4096

static int ready, log_fd = -1, fault_errno;
static char fault_op[16], fault_path[LEN];
static long fault_k, fault_seen, chunk, shift, fake_pid, kill_at, done_ops, delay, waited;
static uint64_t mix = 88172645463325252ull, dice;
static char *paths[FDS];
static char split[FDS];

#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))

static void start(void) {
  if (ready) return;
  ready = 1;
  const char *e;
  if ((e = getenv("BF_LOG"))) log_fd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if ((e = getenv("BF_CHUNK"))) chunk = atol(e);
  if ((e = getenv("BF_TIME"))) shift = atol(e);
  if ((e = getenv("BF_PID"))) fake_pid = atol(e);
  if ((e = getenv("BF_SEED"))) dice = strtoull(e, NULL, 10) * 2654435769u + 1;
  if ((e = getenv("BF_KILL"))) kill_at = atol(e);
  if ((e = getenv("BF_DELAY"))) delay = atol(e);
  if ((e = getenv("BF_MIX"))) mix ^= strtoull(e, NULL, 10) * 0x9E3779B97F4A7C15ull;
  if (!mix) mix = 1;
  if ((e = getenv("BF_FAULT"))) sscanf(e, "%15[^|]|%4095[^|]|%ld|%d", fault_op, fault_path, &fault_k, &fault_errno);
}
__attribute__((constructor)) static void init(void) { start(); }

static void note(const char *what, const char *path) {
  if (log_fd < 0) return;
  char line[LEN + 32];
  int n = snprintf(line, sizeof line, "%s %s\n", what, path);
  if (n > 0) syscall(SYS_write, log_fd, line, (size_t) (n < (int) sizeof line ? n : (int) sizeof line - 1));
}

/* Absolute, without "." and "//". */
static void place(int dir, const char *p, char *out) {
  char full[2 * LEN];
  if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
  else if (dir >= 0 && dir < FDS && paths[dir]) snprintf(full, sizeof full, "%s/%s", paths[dir], p);
  else {
    char cwd[LEN];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) cwd[0] = 0;
    snprintf(full, sizeof full, "%s/%s", cwd, p);
  }
  size_t n = 0;
  for (char *t = full; *t && n < LEN - 1;) {
    if (t[0] == '/' && (t[1] == '/' || t[1] == 0)) { t++; continue; }
    if (t[0] == '/' && t[1] == '.' && (t[2] == '/' || t[2] == 0)) { t += 2; continue; }
    out[n++] = *t++;
  }
  out[n] = 0;
}

static uint64_t roll(void) {
  mix ^= mix << 13; mix ^= mix >> 7; mix ^= mix << 17;
  return mix;
}

static void end_here(const char *op, const char *path) {
  char w[32];
  snprintf(w, sizeof w, "F kill %s", op);
  note(w, path);
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
}

static int fails(const char *op, const char *path) {
  int system = !strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5) || !strncmp(path, "/dev/", 5) || !strncmp(path, "/etc/", 5) || strstr(path, ".so");
  /* of the reads and writes, there may be many */
  if (delay > 0 && waited < 100000 && !system && (strcmp(op, "read") && strcmp(op, "write") ? 1 : roll() % 8 == 0)) {
    long us = roll() % (uint64_t) delay;
    waited += us;
    struct timespec t = {0, us * 1000};
    syscall(SYS_nanosleep, &t, NULL);
  }
  if (kill_at > 0 && !system && ++done_ops >= kill_at) end_here(op, path);
  if (strcmp(op, fault_op) || strcmp(path, fault_path)) return 0;
  if (++fault_seen < fault_k) return 0;
  if (!fault_errno) end_here(op, path);
  char w[32];
  snprintf(w, sizeof w, "F %s", op);
  note(w, path);
  errno = fault_errno;
  return 1;
}

static size_t part(int fd, size_t n) {
  if (chunk <= 0 || n <= 1 || fd < 0 || fd >= FDS || !paths[fd]) return n;
  size_t most = 1 + roll() % (uint64_t) chunk;
  if (most >= n) return n;
  if (!split[fd]) { split[fd] = 1; note("S", paths[fd]); }
  return most;
}

static int opened(int dir, const char *p, int flags, mode_t mode) {
  start();
  char full[LEN];
  place(dir, p, full);
  if (fails("open", full)) return -1;
  if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) note("W", full);
  int fd = syscall(SYS_openat, dir, p, flags, mode);
  if (fd >= 0 && fd < FDS) {
    free(paths[fd]);
    /* /proc, /dev, ... are not files */
    int system = !strncmp(full, "/proc/", 6) || !strncmp(full, "/sys/", 5) || !strncmp(full, "/dev/", 5);
    paths[fd] = system ? NULL : strdup(full);
    split[fd] = 0;
  }
  return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return opened(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return opened(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return opened(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return opened(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return opened(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return creat(p, mode); }

int close(int fd) {
  if (fd >= 0 && fd < FDS) { free(paths[fd]); paths[fd] = NULL; }
  return syscall(SYS_close, fd);
}

static const char *of(int fd) { return fd >= 0 && fd < FDS ? paths[fd] : NULL; }

ssize_t read(int fd, void *b, size_t n) {
  if (of(fd) && fails("read", of(fd))) return -1;
  return syscall(SYS_read, fd, b, part(fd, n));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t at) {
  if (of(fd) && fails("read", of(fd))) return -1;
  return syscall(SYS_pread64, fd, b, part(fd, n), at);
}
ssize_t pread(int fd, void *b, size_t n, off_t at) { return pread64(fd, b, n, at); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (of(fd) && fails("read", of(fd))) return -1;
  if (chunk > 0 && of(fd) && n > 0) return syscall(SYS_read, fd, v[0].iov_base, part(fd, v[0].iov_len));
  return syscall(SYS_readv, fd, v, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (of(fd) && fails("write", of(fd))) return -1;
  return syscall(SYS_write, fd, b, part(fd, n));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) {
  if (of(fd) && fails("write", of(fd))) return -1;
  return syscall(SYS_pwrite64, fd, b, part(fd, n), at);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return pwrite64(fd, b, n, at); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (of(fd) && fails("write", of(fd))) return -1;
  if (chunk > 0 && of(fd))
    for (int i = 0; i < n; i++)
      if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, part(fd, v[i].iov_len));
  return syscall(SYS_writev, fd, v, n);
}
/* The kernel copies in one go; std falls back to read and write. */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (chunk > 0 || fault_op[0]) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *at, size_t n) {
  if (chunk > 0 || fault_op[0]) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, o, i, at, n);
}
ssize_t sendfile(int o, int i, off_t *at, size_t n) { return sendfile64(o, i, at, n); }

#define CHANGED(dir, p) char full[LEN]; start(); place(dir, p, full); (void) fails("change", full); note("W", full)
int mkdir(const char *p, mode_t m) {
  char full[LEN];
  start();
  place(AT_FDCWD, p, full);
  if (fails("mkdir", full)) return -1;
  int r = syscall(SYS_mkdir, p, m);
  if (r == 0) note("W", full);
  return r;
}
int mkdirat(int d, const char *p, mode_t m) { CHANGED(d, p); return syscall(SYS_mkdirat, d, p, m); }
int rmdir(const char *p) { CHANGED(AT_FDCWD, p); return syscall(SYS_rmdir, p); }
int unlink(const char *p) { CHANGED(AT_FDCWD, p); return syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { CHANGED(d, p); return syscall(SYS_unlinkat, d, p, f); }
int truncate64(const char *p, off64_t n) { CHANGED(AT_FDCWD, p); return syscall(SYS_truncate, p, n); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { CHANGED(AT_FDCWD, p); return syscall(SYS_chmod, p, m); }
int rename(const char *a, const char *b) {
  { CHANGED(AT_FDCWD, a); }
  CHANGED(AT_FDCWD, b);
  return syscall(SYS_rename, a, b);
}
int link(const char *a, const char *b) { CHANGED(AT_FDCWD, b); return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { CHANGED(e, b); return syscall(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { CHANGED(AT_FDCWD, b); return syscall(SYS_symlink, a, b); }

int clock_gettime(clockid_t c, struct timespec *t) {
  start();
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift;
  return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  start();
  int r = syscall(SYS_gettimeofday, t, z);
  if (r == 0) t->tv_sec += shift;
  return r;
}
time_t time(time_t *out) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
pid_t getpid(void) {
  start();
  return fake_pid ? (pid_t) fake_pid : (pid_t) syscall(SYS_getpid);
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
  start();
  if (!dice) return syscall(SYS_getrandom, b, n, flags);
  for (size_t i = 0; i < n; i++) {
    dice = dice * 6364136223846793005ull + 1442695040888963407ull;
    ((unsigned char *) b)[i] = dice >> 56;
  }
  return n;
}
