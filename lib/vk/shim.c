/* LD_PRELOAD shim: numbers every file-changing libc call made while armed, and can die before, inside or after
   one of them, or make it fail. Everything else passes through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE = 0, BEFORE = 1, INSIDE = 2, FAIL = 3, SHORT = 4 };
static volatile int armed = 0, target = -1, mode = 0, err = 0, count = 0, follow = -1;
#define MAXLOG 4000
static char names[MAXLOG][112];

void vk_arm(int t, int m, int e) { count = 0; target = t; mode = m; err = e; follow = -1; armed = 1; }
void vk_disarm(void) { armed = 0; }
int vk_count(void) { return count; }
const char *vk_name(int i) { return names[i]; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, name)

static int hit(const char *op, const char *p) {
    if (!armed) return NONE;
    int i = count++;
    if (i < MAXLOG) snprintf(names[i], sizeof names[i], "%s %s", op, p ? p : "");
    if (i == follow) { errno = err; return FAIL; }
    if (i != target) return NONE;
    if (mode == BEFORE) _exit(137);
    if (mode == FAIL) errno = err;
    return mode;
}
static int hitfd(const char *op, int fd) {
    char b[24];
    snprintf(b, sizeof b, "fd%d", fd);
    return hit(op, b);
}
/* for calls without a middle: INSIDE means right after */
#define SIMPLE(call) { int m_ = (h); if (m_ == FAIL) return -1; int r_ = (call); if (m_ == INSIDE) _exit(137); return r_; }

static int wflags(int f) { return (f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; }
#define OPEN(fn) int fn(const char *p, int f, ...) { REAL(int, #fn, const char *, int, ...); mode_t md = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); md = va_arg(a, mode_t); va_end(a); } \
    if (!wflags(f) || !strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm", 8)) return real(p, f, md); int h = hit("open", p); SIMPLE(real(p, f, md)) }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) int fn(int d, const char *p, int f, ...) { REAL(int, #fn, int, const char *, int, ...); mode_t md = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); md = va_arg(a, mode_t); va_end(a); } \
    if (!wflags(f)) return real(d, p, f, md); int h = hit("openat", p); SIMPLE(real(d, p, f, md)) }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(int, "creat", const char *, mode_t); int h = hit("creat", p); SIMPLE(real(p, m)) }

static ssize_t part(int m, size_t n) { (void)m; return n > 1 ? (ssize_t)(n / 2) : (ssize_t)n; }
#define DATA(half, full) if (m_ == FAIL) return -1; if (m_ == INSIDE) { (void)!(half); _exit(137); } if (m_ == SHORT) { follow = count; return (half); } return (full);
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fd <= 2) return real(fd, b, n);
    int m_ = hitfd("write", fd);
    DATA(real(fd, b, part(m_, n)), real(fd, b, n))
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    int m_ = hitfd("pwrite", fd);
    DATA(real(fd, b, part(m_, n), o), real(fd, b, n, o))
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fd <= 2) return real(fd, v, c);
    int h = hitfd("writev", fd);
    SIMPLE(real(fd, v, c))
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    int m_ = hitfd("sendfile", o);
    if (m_ == INSIDE || m_ == SHORT) { struct stat s; if (!fstat(i, &s) && (size_t)s.st_size < n) n = s.st_size; }
    DATA(real(o, i, off, part(m_, n)), real(o, i, off, n))
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    int m_ = hitfd("sendfile", o);
    if (m_ == INSIDE || m_ == SHORT) { struct stat s; if (!fstat(i, &s) && (size_t)s.st_size < n) n = s.st_size; }
    DATA(real(o, i, off, part(m_, n)), real(o, i, off, n))
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    int m_ = hitfd("copy_file_range", o);
    if (m_ == INSIDE || m_ == SHORT) { struct stat s; if (!fstat(i, &s) && (size_t)s.st_size < n) n = s.st_size; }
    DATA(real(i, io, o, oo, part(m_, n), f), real(i, io, o, oo, n, f))
}
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); int h = hit("rename", b); SIMPLE(real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); int h = hit("renameat", b); SIMPLE(real(x, a, y, b)) }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); int h = hit("link", b); SIMPLE(real(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); int h = hit("linkat", b); SIMPLE(real(x, a, y, b, f)) }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); int h = hit("symlink", b); SIMPLE(real(a, b)) }
int unlink(const char *a) { REAL(int, "unlink", const char *); int h = hit("unlink", a); SIMPLE(real(a)) }
int remove(const char *a) { REAL(int, "remove", const char *); int h = hit("unlink", a); SIMPLE(real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); int h = hit("unlinkat", a); SIMPLE(real(d, a, f)) }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); int h = hit("rmdir", a); SIMPLE(real(a)) }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); int h = hit("mkdir", a); SIMPLE(real(a, m)) }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); int h = hit("mkdirat", a); SIMPLE(real(d, a, m)) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); int h = hitfd("ftruncate", fd); SIMPLE(real(fd, n)) }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); int h = hitfd("ftruncate", fd); SIMPLE(real(fd, n)) }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); int h = hit("truncate", p); SIMPLE(real(p, n)) }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); int h = hit("chmod", p); SIMPLE(real(p, m)) }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); int h = hitfd("fchmod", fd); SIMPLE(real(fd, m)) }
int fsync(int fd) { REAL(int, "fsync", int); int h = hitfd("fsync", fd); SIMPLE(real(fd)) }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec *, int); int h = hit("utimensat", p); SIMPLE(real(d, p, t, f)) }
