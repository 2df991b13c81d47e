/* File operations of a process as scheduling and crash points (loaded by LD_PRELOAD, asleep until mc_arm is called).
 * Every operation on a path below `root` is announced on `out` as one line; the process then waits for one line on `in`:
 *   "g"   go on          "k"  be killed before the operation          "t N"  write N bytes of this write, then be killed */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed = 0, out = -1, in = -1;
static char root[PATH_MAX];
static char mine[4096][256]; /* name of the files below root open in this process */

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static ssize_t rawwrite(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    return real(fd, b, n);
}

static const char *below(int dirfd, const char *path, char *buf) {
    /* path relative to root, or NULL */
    if (!armed || !path || !*path) return NULL;
    char full[PATH_MAX * 2];
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return NULL; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, cwd, sizeof cwd - 1); if (n < 0) return NULL; cwd[n] = 0; }
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    }
    size_t n = strlen(root);
    if (strncmp(full, root, n) || full[n] != '/') return NULL;
    snprintf(buf, 256, "%s", full + n + 1);
    for (char *c = buf; *c; c++) if (*c == '\n' || *c == ' ') *c = '_';
    return buf;
}

/* returns the number of bytes to write before being killed, or -1 */
static long point(const char *op, const char *name, size_t n) {
    char b[512];
    int e = errno;
    int k = snprintf(b, sizeof b, "%s %s %zu\n", op, name, n);
    if (rawwrite(out, b, k) != k) _exit(99);
    char a[32];
    size_t i = 0;
    while (i < sizeof a - 1) {
        ssize_t r = read(in, a + i, 1);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) kill(getpid(), SIGKILL);
        if (a[i] == '\n') break;
        i++;
    }
    a[i] = 0;
    errno = e;
    if (a[0] == 'k') { kill(getpid(), SIGKILL); pause(); }
    if (a[0] == 't') return atol(a + 1);
    return -1;
}

void mc_disarm(void) { armed = 0; }
void mc_arm(int o, int i, const char *r) { out = o; in = i; snprintf(root, sizeof root, "%s", r); memset(mine, 0, sizeof mine); armed = 1; }

static void mark(int fd, const char *name) { if (fd >= 0 && fd < 4096) snprintf(mine[fd], 256, "%s", name ? name : ""); }

#define OPEN(NAME, CREATE) \
    int NAME(const char *path, int flags, ...) { \
        REAL(int, #NAME, const char *, int, ...); \
        va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap); \
        char b[256]; const char *p = below(AT_FDCWD, path, b); \
        if (p) point(flags & (O_WRONLY | O_RDWR | O_CREAT) ? "openw" : "openr", p, (flags & O_TRUNC ? 1 : 0) + (flags & O_EXCL ? 2 : 0) + (flags & O_CREAT ? 4 : 0)); \
        int fd = real(path, flags, mode); if (armed) mark(fd, p); return fd; }
OPEN(open, 0)
OPEN(open64, 0)
#define OPENAT(NAME) \
    int NAME(int d, const char *path, int flags, ...) { \
        REAL(int, #NAME, int, const char *, int, ...); \
        va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap); \
        char b[256]; const char *p = below(d, path, b); \
        if (p) point(flags & (O_WRONLY | O_RDWR | O_CREAT) ? "openw" : "openr", p, (flags & O_TRUNC ? 1 : 0) + (flags & O_EXCL ? 2 : 0) + (flags & O_CREAT ? 4 : 0)); \
        int fd = real(d, path, flags, mode); if (armed) mark(fd, p); return fd; }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(NAME) \
    FILE *NAME(const char *path, const char *m) { \
        REAL(FILE *, #NAME, const char *, const char *); \
        char b[256]; const char *p = below(AT_FDCWD, path, b); \
        if (p) point(m[0] == 'r' && !strchr(m, '+') ? "openr" : "openw", p, m[0] == 'w' ? 5 : m[0] == 'a' ? 4 : 0); \
        FILE *f = real(path, m); if (armed && f) mark(fileno(f), p); return f; }
FOPEN(fopen)
FOPEN(fopen64)
#define NAMEOF(fd) ((armed && (fd) >= 0 && (fd) < 4096 && mine[fd][0]) ? mine[fd] : NULL)

ssize_t write(int fd, const void *b, size_t n) {
    const char *p = NAMEOF(fd);
    if (p) { long t = point("write", p, n); if (t >= 0) { rawwrite(fd, b, (size_t)t < n ? (size_t)t : n); kill(getpid(), SIGKILL); pause(); } }
    return rawwrite(fd, b, n);
}
#define PWRITE(NAME, OFF) \
    ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
        REAL(ssize_t, #NAME, int, const void *, size_t, OFF); \
        const char *p = NAMEOF(fd); \
        if (p) { long t = point("write", p, n); if (t >= 0) { real(fd, b, (size_t)t < n ? (size_t)t : n, o); kill(getpid(), SIGKILL); pause(); } } \
        return real(fd, b, n, o); }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    const char *p = NAMEOF(fd);
    if (p) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; point("write", p, n); }
    return real(fd, v, c);
}
#define TRUNC(NAME, OFF) \
    int NAME(int fd, OFF n) { REAL(int, #NAME, int, OFF); const char *p = NAMEOF(fd); if (p) point("truncate", p, n); return real(fd, n); }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
int close(int fd) {
    REAL(int, "close", int);
    const char *p = NAMEOF(fd);
    if (p) { point("close", p, 0); mine[fd][0] = 0; }
    return real(fd);
}
int fclose(FILE *f) {
    REAL(int, "fclose", FILE *);
    int fd = fileno(f);
    const char *p = NAMEOF(fd);
    if (p) { point("close", p, 0); mine[fd][0] = 0; }
    return real(f);
}
#define PATH1(NAME, OP) \
    int NAME(const char *path) { REAL(int, #NAME, const char *); char b[256]; const char *p = below(AT_FDCWD, path, b); if (p) point(OP, p, 0); return real(path); }
PATH1(unlink, "unlink")
PATH1(rmdir, "rmdir")
PATH1(remove, "unlink")
int unlinkat(int d, const char *path, int f) { REAL(int, "unlinkat", int, const char *, int); char b[256]; const char *p = below(d, path, b); if (p) point("unlink", p, 0); return real(d, path, f); }
int mkdir(const char *path, mode_t m) { REAL(int, "mkdir", const char *, mode_t); char b[256]; const char *p = below(AT_FDCWD, path, b); if (p) point("mkdir", p, 0); return real(path, m); }
int rename(const char *a, const char *c) {
    REAL(int, "rename", const char *, const char *);
    char b[256]; const char *p = below(AT_FDCWD, c, b); if (p) point("rename", p, 0); return real(a, c); }
int renameat(int d, const char *a, int d2, const char *c) {
    REAL(int, "renameat", int, const char *, int, const char *);
    char b[256]; const char *p = below(d2, c, b); if (p) point("rename", p, 0); return real(d, a, d2, c); }
int link(const char *a, const char *c) {
    REAL(int, "link", const char *, const char *);
    char b[256]; const char *p = below(AT_FDCWD, c, b); if (p) point("link", p, 0); return real(a, c); }
#define STAT(NAME, ST) \
    int NAME(const char *path, ST *s) { REAL(int, #NAME, const char *, ST *); char b[256]; const char *p = below(AT_FDCWD, path, b); if (p) point("stat", p, 0); return real(path, s); }
STAT(stat, struct stat)
STAT(stat64, struct stat64)
STAT(lstat, struct stat)
STAT(lstat64, struct stat64)
#define FSTATAT(NAME, ST) \
    int NAME(int d, const char *path, ST *s, int f) { REAL(int, #NAME, int, const char *, ST *, int); char b[256]; const char *p = below(d, path, b); if (p) point("stat", p, 0); return real(d, path, s, f); }
FSTATAT(fstatat, struct stat)
FSTATAT(fstatat64, struct stat64)
int access(const char *path, int m) { REAL(int, "access", const char *, int); char b[256]; const char *p = below(AT_FDCWD, path, b); if (p) point("stat", p, 0); return real(path, m); }
int faccessat(int d, const char *path, int m, int f) { REAL(int, "faccessat", int, const char *, int, int); char b[256]; const char *p = below(d, path, b); if (p) point("stat", p, 0); return real(d, path, m, f); }
