// Link-time seams (-Wl,--wrap=...): every OS service the code under test can
// reach through libstdc++ or the C library lands in sim::Sim while a simulated
// process runs, and in the real implementation otherwise.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <utime.h>
#include <unistd.h>
#include <new>
#include <map>

using sim::g;
using sim::in_sim;
#define LIVE (in_sim && g && g->cur >= 0)
#define KG (sim::Kernel(), g)               // inside the simulated kernel until the end of the full expression

struct CookieFile { int fd; };
static std::map<FILE*, int>& cookies() { static std::map<FILE*, int> m; return m; }
static ssize_t ck_read(void* c, char* b, size_t n) { return KG->sys_read(((CookieFile*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = KG->sys_write(((CookieFile*)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { long r = KG->sys_lseek(((CookieFile*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int r = KG->sys_close(((CookieFile*)c)->fd); delete (CookieFile*)c; return r; }

static int mode_flags(const char* m) {
  int f = 0; bool plus = strchr(m, '+') != nullptr;
  if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
static FILE* wrap_fd(int fd, const char* mode) {
  sim::Kernel k;
  sim::Outside o;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  CookieFile* c = new CookieFile{fd};
  char m[4] = {mode[0], 0, 0, 0}; if (strchr(mode, '+')) m[1] = '+';
  FILE* f = fopencookie(c, m, io);
  cookies()[f] = fd;
  return f;
}
template <class S> static int fill_fd(int fd, S* st) {
  sim::OpenFile* f = g->file(fd);
  if (!f) { errno = EBADF; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (long)f->ino->data.size(); st->st_nlink = 1; st->st_ino = (ino_t)(uintptr_t)f->ino.get(); st->st_dev = 7;
  return 0;
}
template <class S> static int fill_path(const char* p, S* st, bool follow) {
  long sz = 0; int k = KG->sys_exists(p, &sz);
  if (k < 0) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = k == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = sz; st->st_nlink = 1; st->st_dev = 7;
  sim::Kernel kk; std::string r = g->resolve(p); auto it = g->dir.find(r); st->st_ino = it == g->dir.end() ? (ino_t)sim::fnv(r) : (ino_t)(uintptr_t)it->second.get();
  if (!follow && k == 1 && g->links.count(p[0] == '/' ? std::string(p) : g->cwd + "/" + p)) st->st_mode = S_IFLNK | 0777;
  return 0;
}
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(FILE*, fopen, const char*, const char*);
REAL(FILE*, fopen64, const char*, const char*);
REAL(FILE*, fdopen, int, const char*);
REAL(int, fclose, FILE*);
REAL(int, fileno, FILE*);
REAL(int, open, const char*, int, ...);
REAL(int, open64, const char*, int, ...);
REAL(int, creat, const char*, mode_t);
REAL(int, close, int);
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(ssize_t, writev, int, const struct iovec*, int);
REAL(off_t, lseek, int, off_t, int);
REAL(off64_t, lseek64, int, off64_t, int);
REAL(int, fstat, int, struct stat*);
REAL(int, fstat64, int, struct stat64*);
REAL(int, stat, const char*, struct stat*);
REAL(int, stat64, const char*, struct stat64*);
REAL(int, lstat, const char*, struct stat*);
REAL(int, lstat64, const char*, struct stat64*);
REAL(int, poll, struct pollfd*, nfds_t, int);
REAL(int, ioctl, int, unsigned long, void*);
REAL(int, access, const char*, int);
REAL(int, remove, const char*);
REAL(int, unlink, const char*);
REAL(int, rename, const char*, const char*);
REAL(int, renameat, int, const char*, int, const char*);
REAL(int, link, const char*, const char*);
REAL(int, symlink, const char*, const char*);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate, int, off_t);
REAL(int, chmod, const char*, mode_t);
REAL(int, fchmod, int, mode_t);
REAL(int, mkstemp, char*);
REAL(int, mkostemp, char*, int);
REAL(int, mkstemps, char*, int);
REAL(int, openat, int, const char*, int, ...);
REAL(int, unlinkat, int, const char*, int);
REAL(int, mkdir, const char*, mode_t);
REAL(int, rmdir, const char*);
REAL(ssize_t, pread, int, void*, size_t, off_t);
REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
REAL(ssize_t, readlink, const char*, char*, size_t);
REAL(int, utime, const char*, const struct utimbuf*);
REAL(int, utimes, const char*, const struct timeval*);
REAL(int, utimensat, int, const char*, const struct timespec*, int);
REAL(int, futimens, int, const struct timespec*);
REAL(int, chown, const char*, uid_t, gid_t);
REAL(int, lchown, const char*, uid_t, gid_t);
REAL(int, fchown, int, uid_t, gid_t);
REAL(int, flock, int, int);
REAL(int, lockf, int, int, off_t);
REAL(ssize_t, sendfile, int, int, off_t*, size_t);
REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned);
REAL(char*, mkdtemp, char*);
REAL(char*, realpath, const char*, char*);
REAL(FILE*, tmpfile, void);
REAL(clock_t, clock, void);
REAL(time_t, time, time_t*);
REAL(struct tm*, localtime, const time_t*);
REAL(struct tm*, localtime_r, const time_t*, struct tm*);
REAL(int, gettimeofday, struct timeval*, void*);
REAL(int, clock_gettime, clockid_t, struct timespec*);
REAL(int, rand, void);
REAL(void, srand, unsigned);
REAL(long, random, void);
REAL(void, srandom, unsigned);
REAL(ssize_t, getrandom, void*, size_t, unsigned);
REAL(int, getentropy, void*, size_t);
REAL(int, getpid, void);
REAL(void, exit, int) __attribute__((noreturn));
REAL(void, abort, void) __attribute__((noreturn));
REAL(unsigned, sleep, unsigned);
REAL(int, usleep, useconds_t);
REAL(int, nanosleep, const struct timespec*, struct timespec*);
REAL(unsigned int, _ZNSt13random_device9_M_getvalEv, void*);

FILE* __wrap_fopen(const char* p, const char* m) {
  if (!LIVE) return __real_fopen(p, m);
  int fd = KG->sys_open(p, mode_flags(m));
  return fd < 0 ? nullptr : wrap_fd(fd, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return LIVE ? __wrap_fopen(p, m) : __real_fopen64(p, m); }
FILE* __wrap_fdopen(int fd, const char* m) { return LIVE ? wrap_fd(fd, m) : __real_fdopen(fd, m); }
int __wrap_fclose(FILE* f) {
  auto it = cookies().find(f);
  if (it != cookies().end()) cookies().erase(it);
  return __real_fclose(f);
}
int __wrap_fileno(FILE* f) {
  auto it = cookies().find(f);
  if (it != cookies().end()) return it->second;
  return __real_fileno(f);
}
int __wrap_open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  if (!LIVE) return __real_open(p, fl, md);
  return KG->sys_open(p, fl);
}
int __wrap_open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  if (!LIVE) return __real_open64(p, fl, md);
  return KG->sys_open(p, fl);
}
int __wrap_creat(const char* p, mode_t m) { return LIVE ? KG->sys_open(p, O_WRONLY | O_CREAT | O_TRUNC) : __real_creat(p, m); }
int __wrap_close(int fd) { return LIVE && fd >= sim::FD_BASE ? KG->sys_close(fd) : __real_close(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (LIVE && fd >= sim::FD_BASE) return KG->sys_read(fd, b, n);
  if (LIVE && fd == 0) return 0;
  return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (LIVE && fd >= sim::FD_BASE) return KG->sys_write(fd, b, n);
  if (LIVE && (fd == 1 || fd == 2)) { sim::Kernel k; sim::me()->out.append((const char*)b, n); return (ssize_t)n; }
  return __real_write(fd, b, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  if (LIVE && (fd >= sim::FD_BASE || fd == 1 || fd == 2)) {
    sim::Kernel k; std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return __wrap_write(fd, s.data(), s.size());
  }
  return __real_writev(fd, v, c);
}
off_t __wrap_lseek(int fd, off_t o, int w) { return LIVE && fd >= sim::FD_BASE ? KG->sys_lseek(fd, o, w) : __real_lseek(fd, o, w); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { return LIVE && fd >= sim::FD_BASE ? KG->sys_lseek(fd, o, w) : __real_lseek64(fd, o, w); }
int __wrap_fstat(int fd, struct stat* s) { return LIVE && fd >= sim::FD_BASE ? fill_fd(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat64* s) { return LIVE && fd >= sim::FD_BASE ? fill_fd(fd, s) : __real_fstat64(fd, s); }
int __wrap_stat(const char* p, struct stat* s) { return LIVE ? fill_path(p, s, true) : __real_stat(p, s); }
int __wrap_stat64(const char* p, struct stat64* s) { return LIVE ? fill_path(p, s, true) : __real_stat64(p, s); }
int __wrap_lstat(const char* p, struct stat* s) { return LIVE ? fill_path(p, s, false) : __real_lstat(p, s); }
int __wrap_lstat64(const char* p, struct stat64* s) { return LIVE ? fill_path(p, s, false) : __real_lstat64(p, s); }
int __wrap_poll(struct pollfd* p, nfds_t n, int t) {
  if (LIVE && n == 1 && p[0].fd >= sim::FD_BASE) { p[0].revents = p[0].events & (POLLIN | POLLOUT); return 1; }
  return __real_poll(p, n, t);
}
int __wrap_ioctl(int fd, unsigned long rq, void* a) {
  if (LIVE && fd >= sim::FD_BASE) {
    if (rq == FIONREAD) { sim::OpenFile* f = g->file(fd); *(int*)a = f ? (int)(f->ino->data.size() - f->off) : 0; return 0; }
    errno = ENOTTY; return -1;
  }
  return __real_ioctl(fd, rq, a);
}
int __wrap_access(const char* p, int m) {
  if (!LIVE) return __real_access(p, m);
  int k = KG->sys_exists(p, nullptr);
  if (k < 0) { errno = ENOENT; return -1; }
  if ((m & W_OK) && k == 1 && g->dir[g->resolve(p)]->readonly) { errno = EACCES; return -1; }
  return 0;
}
static bool is_dir(const char* p) { sim::Kernel k; return g->dirs.count(g->resolve(p)) && !g->links.count(p); }
int __wrap_remove(const char* p) { return LIVE ? is_dir(p) ? KG->sys_dir(p, false) : KG->sys_unlink(p) : __real_remove(p); }
int __wrap_unlinkat(int d, const char* p, int f) { return LIVE ? f & AT_REMOVEDIR ? KG->sys_dir(p, false) : KG->sys_unlink(p) : __real_unlinkat(d, p, f); }
int __wrap_mkdir(const char* p, mode_t m) { return LIVE ? KG->sys_dir(p, true) : __real_mkdir(p, m); }
int __wrap_rmdir(const char* p) { return LIVE ? KG->sys_dir(p, false) : __real_rmdir(p); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return LIVE && fd >= sim::FD_BASE ? KG->sys_pio(fd, b, nullptr, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return LIVE && fd >= sim::FD_BASE ? KG->sys_pio(fd, nullptr, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_readlink(const char* p, char* b, size_t n) {
  if (!LIVE) return __real_readlink(p, b, n);
  sim::Kernel k; auto it = g->links.find(p[0] == '/' ? std::string(p) : g->cwd + "/" + p);
  if (it == g->links.end()) { long z; errno = g->sys_exists(p, &z) < 0 ? ENOENT : EINVAL; return -1; }
  size_t m = it->second.size() < n ? it->second.size() : n; memcpy(b, it->second.data(), m); return (ssize_t)m;
}
// owner, mode and times of a file are not part of the simulated disk; a lock is granted at once
int __wrap_utime(const char* p, const struct utimbuf* t) { return LIVE ? 0 : __real_utime(p, t); }
int __wrap_utimes(const char* p, const struct timeval* t) { return LIVE ? 0 : __real_utimes(p, t); }
int __wrap_utimensat(int d, const char* p, const struct timespec* t, int f) { return LIVE ? 0 : __real_utimensat(d, p, t, f); }
int __wrap_futimens(int fd, const struct timespec* t) { return LIVE ? 0 : __real_futimens(fd, t); }
int __wrap_chown(const char* p, uid_t u, gid_t q) { return LIVE ? 0 : __real_chown(p, u, q); }
int __wrap_lchown(const char* p, uid_t u, gid_t q) { return LIVE ? 0 : __real_lchown(p, u, q); }
int __wrap_fchown(int fd, uid_t u, gid_t q) { return LIVE ? 0 : __real_fchown(fd, u, q); }
int __wrap_flock(int fd, int op) { return LIVE && fd >= sim::FD_BASE ? 0 : __real_flock(fd, op); }
int __wrap_lockf(int fd, int op, off_t n) { return LIVE && fd >= sim::FD_BASE ? 0 : __real_lockf(fd, op, n); }
static ssize_t sim_copy(int from, off_t* at, int to, size_t n) {
  char b[4096]; size_t done = 0; sim::Kernel k;
  while (done < n) {
    size_t m = n - done < sizeof b ? n - done : sizeof b; ssize_t r = at ? g->sys_pio(from, b, nullptr, m, *at) : g->sys_read(from, b, m); if (r < 0) return done ? (ssize_t)done : -1; if (!r) break;
    ssize_t w = g->sys_write(to, b, r); if (w < 0) return done ? (ssize_t)done : -1; done += w; if (at) *at += w; if (w < r) { if (!at) g->sys_lseek(from, w - r, SEEK_CUR); break; }
  }
  return (ssize_t)done;
}
ssize_t __wrap_sendfile(int to, int from, off_t* at, size_t n) { return LIVE && from >= sim::FD_BASE ? sim_copy(from, at, to, n) : __real_sendfile(to, from, at, n); }
ssize_t __wrap_copy_file_range(int from, off64_t* a, int to, off64_t* b, size_t n, unsigned f) { return LIVE && from >= sim::FD_BASE ? b ? (errno = EINVAL, -1) : sim_copy(from, a, to, n) : __real_copy_file_range(from, a, to, b, n, f); }
char* __wrap_mkdtemp(char* t) {
  if (!LIVE) return __real_mkdtemp(t);
  size_t n = strlen(t);
  for (int tries = 0; tries < 100; tries++) {
    for (size_t i = n - 6; i < n; i++) t[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(sim::Kernel(), sim::me())->entropy.below(36)];
    int k = KG->sys_dir(t, true); if (!k) return t; if (errno != EEXIST) return nullptr;
  }
  return nullptr;
}
int __wrap_unlink(const char* p) { return LIVE ? KG->sys_unlink(p) : __real_unlink(p); }
int __wrap_rename(const char* a, const char* b) { return LIVE ? KG->sys_rename(a, b) : __real_rename(a, b); }
int __wrap_renameat(int d1, const char* a, int d2, const char* b) { return LIVE ? KG->sys_rename(a, b) : __real_renameat(d1, a, d2, b); }
int __wrap_link(const char* a, const char* b) { return LIVE ? KG->sys_link(a, b, false) : __real_link(a, b); }
int __wrap_symlink(const char* a, const char* b) { return LIVE ? KG->sys_link(a, b, true) : __real_symlink(a, b); }
int __wrap_fsync(int fd) { return LIVE && fd >= sim::FD_BASE ? 0 : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return LIVE && fd >= sim::FD_BASE ? 0 : __real_fdatasync(fd); }
int __wrap_ftruncate(int fd, off_t n) { return LIVE && fd >= sim::FD_BASE ? KG->sys_truncate(fd, n) : __real_ftruncate(fd, n); }
int __wrap_chmod(const char* p, mode_t m) { return LIVE ? 0 : __real_chmod(p, m); }
int __wrap_fchmod(int fd, mode_t m) { return LIVE ? 0 : __real_fchmod(fd, m); }
static int temp(char* t, int suf) {
  size_t n = strlen(t) - suf;
  for (int tries = 0; tries < 100; tries++) {
    for (size_t i = n - 6; i < n; i++) t[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(sim::Kernel(), sim::me())->entropy.below(36)];
    int fd = KG->sys_open(t, O_RDWR | O_CREAT | O_EXCL);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int __wrap_mkstemp(char* t) { return LIVE ? temp(t, 0) : __real_mkstemp(t); }
int __wrap_mkstemps(char* t, int suf) { return LIVE ? temp(t, suf) : __real_mkstemps(t, suf); }
int __wrap_mkostemp(char* t, int fl) { return LIVE ? temp(t, 0) : __real_mkostemp(t, fl); }
int __wrap_openat(int d, const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
  return LIVE ? KG->sys_open(p, fl) : __real_openat(d, p, fl, md);
}
struct tm* __wrap_localtime(const time_t* t) { static struct tm r; return LIVE ? gmtime_r(t, &r) : __real_localtime(t); }
struct tm* __wrap_localtime_r(const time_t* t, struct tm* r) { return LIVE ? gmtime_r(t, r) : __real_localtime_r(t, r); }
char* __wrap_realpath(const char* p, char* out) {
  if (!LIVE) return __real_realpath(p, out);
  sim::Kernel k; std::string r = g->resolve(p);
  if (!g->dirs.count(r) && !g->dir.count(r)) { errno = ENOENT; return nullptr; }
  if (!out) out = (char*)malloc(4096);
  strcpy(out, r.c_str()); return out;
}
clock_t __wrap_clock(void) { return LIVE ? (clock_t)KG->clock_us() : __real_clock(); }
time_t __wrap_time(time_t* t) {
  if (!LIVE) return __real_time(t);
  time_t v = (time_t)(KG->wall() / 1000000); if (t) *t = v; return v;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
  if (!LIVE) return __real_gettimeofday(tv, tz);
  long long w = KG->wall(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!LIVE) return __real_clock_gettime(id, ts);
  long long w = id == CLOCK_REALTIME ? KG->wall() : KG->clock_us();
  ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0;
}
static sim::Proc* rproc() { return g->cfg.threads ? g->procs[0].get() : sim::me(); }
int __wrap_rand(void) {
  if (!LIVE) return __real_rand();
  sim::Proc* p = rproc(); p->libc_rand = p->libc_rand * 6364136223846793005ull + 1442695040888963407ull;
  return (int)((p->libc_rand >> 33) & 0x7fffffff);
}
void __wrap_srand(unsigned s) { if (LIVE) rproc()->libc_rand = s; else __real_srand(s); }
long __wrap_random(void) { return LIVE ? __wrap_rand() : __real_random(); }
void __wrap_srandom(unsigned s) { if (LIVE) rproc()->libc_rand = s; else __real_srandom(s); }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) {
  if (!LIVE) return __real_getrandom(b, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)(sim::Kernel(), sim::me())->entropy.next();
  return (ssize_t)n;
}
int __wrap_getentropy(void* b, size_t n) { if (!LIVE) return __real_getentropy(b, n); __wrap_getrandom(b, n, 0); return 0; }
unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void* self) {
  return LIVE ? (unsigned)(sim::Kernel(), sim::me())->entropy.next() : __real__ZNSt13random_device9_M_getvalEv(self);
}
int __wrap_getpid(void) { return LIVE ? 4000 + (g->cfg.threads ? 0 : sim::me()->id) : __real_getpid(); }
void __wrap_exit(int c) { if (LIVE) g->exit_current(c); __real_exit(c); }
unsigned __wrap_sleep(unsigned s) { if (!LIVE) return __real_sleep(s); g->wall_us += s * 1000000ll; g->sim_elapsed_us += s * 1000000ll; return 0; }
int __wrap_usleep(useconds_t s) { if (!LIVE) return __real_usleep(s); g->wall_us += s; g->sim_elapsed_us += s; return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!LIVE) return __real_nanosleep(a, b);
  long long us = a->tv_sec * 1000000ll + a->tv_nsec / 1000; g->wall_us += us; g->sim_elapsed_us += us; return 0;
}
// libstdc++'s buffered output reaches the streams through these when glibc aliases are used
int __wrap___xstat(int, const char* p, struct stat* s) { return __wrap_stat(p, s); }
}

#ifndef SIM_NO_NEW
// Heap seam: fills fresh memory with a junk pattern and injects allocation failure.
static void* sim_alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (LIVE && !sim::in_kernel) {
    sim::Proc* q = sim::me();
    q->allocs++;
    if (g->cfg.alloc_fail_at > 0 && q->allocs == g->cfg.alloc_fail_at) { g->fault_count["alloc_failure"]++; free(p); throw std::bad_alloc(); }
    if (g->cfg.junk >= 0) memset(p, g->cfg.junk, n);
  }
  return p;
}
void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
