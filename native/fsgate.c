/* fsgate: crash points and schedules at file-system calls (LD_PRELOAD).
 *
 * Counts the state-changing libc file calls a process makes below one directory and can
 *   - end the process before the n-th of them (or half-way through it, when it is a write),
 *   - hold the process before each of them until a controller lets it go on.
 * Calls outside the directory are passed through untouched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char g_prefix[PATH_MAX];
static size_t g_plen = 0;
static long g_count = 0;     /* calls seen */
static long g_crash_at = 0;  /* 1-based; 0 = never */
static int g_torn = 0;
static int g_step_out = -1, g_step_in = -1;
static int g_log_fd = -1;
static __thread int g_busy = 0;

#define REAL(name) \
    static __typeof__(name) *real = 0; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void fsgate_arm(const char *prefix, long crash_at, int torn) {
    strncpy(g_prefix, prefix, sizeof g_prefix - 1);
    g_plen = strlen(g_prefix);
    g_count = 0;
    g_crash_at = crash_at;
    g_torn = torn;
}
void fsgate_step(int out, int in) { g_step_out = out; g_step_in = in; }
void fsgate_log(int fd) { g_log_fd = fd; }
void fsgate_disarm(void) { g_plen = 0; g_crash_at = 0; g_step_out = g_step_in = -1; g_log_fd = -1; }
long fsgate_count(void) { return g_count; }

static void normalize(char *p) { /* collapse "//", "/./" and "/../" textually */
    char *parts[512]; int n = 0; char tmp[PATH_MAX];
    strncpy(tmp, p, sizeof tmp - 1); tmp[sizeof tmp - 1] = 0;
    char *save = 0;
    for (char *t = strtok_r(tmp, "/", &save); t && n < 512; t = strtok_r(0, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        parts[n++] = t;
    }
    char out[PATH_MAX]; size_t o = 0; out[0] = 0;
    for (int i = 0; i < n; i++) {
        size_t l = strlen(parts[i]);
        if (o + l + 2 >= sizeof out) break;
        out[o++] = '/'; memcpy(out + o, parts[i], l); o += l; out[o] = 0;
    }
    strcpy(p, o ? out : "/");
}

static int fd_path(int fd, char *buf) {
    char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, buf, PATH_MAX - 1);
    if (k < 0) return 0;
    buf[k] = 0; return 1;
}

static int full_path(int dirfd, const char *path, char *buf) {
    if (!path) return 0;
    if (path[0] == '/') { strncpy(buf, path, PATH_MAX - 1); buf[PATH_MAX - 1] = 0; }
    else {
        if (dirfd == AT_FDCWD) { if (!getcwd(buf, PATH_MAX)) return 0; }
        else if (!fd_path(dirfd, buf)) return 0;
        size_t l = strlen(buf);
        snprintf(buf + l, PATH_MAX - l, "/%s", path);
    }
    normalize(buf);
    return 1;
}

static int under(const char *p) {
    return g_plen && !strncmp(p, g_prefix, g_plen) && (p[g_plen] == '/' || p[g_plen] == 0);
}

/* returns 1 when the caller must do half of its write and then die */
static int gate(const char *op, const char *path, int is_write) {
    if (g_busy) return 0;
    g_busy = 1;
    g_count++;
    if (g_log_fd >= 0) { dprintf(g_log_fd, "%s %s\n", op, path + g_plen); }
    if (g_step_out >= 0 && !strstr(path + g_plen, "sqlite")) { /* no stops inside a transaction */
        dprintf(g_step_out, "%s %s\n", op, path + g_plen);
        char c = 0;
        ssize_t r;
        do { r = read(g_step_in, &c, 1); } while (r < 0 && errno == EINTR);
        if (r != 1 || c == 'k') _exit(137);
    }
    int half = 0;
    if (g_crash_at && g_count == g_crash_at) {
        if (g_torn && is_write) half = 1; else _exit(137);
    }
    g_busy = 0;
    return half;
}

static void gate_path(const char *op, int dirfd, const char *path) {
    if (!g_plen || g_busy) return;
    int e = errno; char b[PATH_MAX];
    if (full_path(dirfd, path, b) && under(b)) gate(op, b, 0);
    errno = e;
}
static int gate_fd(const char *op, int fd, int is_write) {
    if (!g_plen || g_busy) return 0;
    int e = errno, h = 0; char b[PATH_MAX];
    if (fd_path(fd, b) && under(b)) h = gate(op, b, is_write);
    errno = e;
    return h;
}

static int mutating(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }

#define OPEN_BODY(fn, dirfd, CALL) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    REAL(fn); \
    if (mutating(flags) && !(flags & O_DIRECTORY)) gate_path("open", dirfd, path); \
    return CALL;

int open(const char *path, int flags, ...) { OPEN_BODY(open, AT_FDCWD, real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64, AT_FDCWD, real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(openat, d, real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(openat64, d, real(d, path, flags, mode)) }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (gate_fd("write", fd, n > 1)) { real(fd, buf, n / 2); _exit(137); }
    return real(fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(pwrite);
    if (gate_fd("write", fd, n > 1)) { real(fd, buf, n / 2, o); _exit(137); }
    return real(fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(pwrite64);
    if (gate_fd("write", fd, n > 1)) { real(fd, buf, n / 2, o); _exit(137); }
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev); gate_fd("write", fd, 0); return real(fd, v, c);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(sendfile); gate_fd("write", out, 0); return real(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(sendfile64); gate_fd("write", out, 0); return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range); gate_fd("write", out, 0); return real(in, io, out, oo, n, f);
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); gate_fd("trunc", fd, 0); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); gate_fd("trunc", fd, 0); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(truncate); gate_path("trunc", AT_FDCWD, p); return real(p, n); }
int rename(const char *a, const char *b) { REAL(rename); gate_path("rename", AT_FDCWD, b); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); gate_path("rename", y, b); return real(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); gate_path("rename", y, b); return real(x, a, y, b, f); }
int link(const char *a, const char *b) { REAL(link); gate_path("link", AT_FDCWD, b); return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); gate_path("link", y, b); return real(x, a, y, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); gate_path("symlink", AT_FDCWD, b); return real(a, b); }
int unlink(const char *p) { REAL(unlink); gate_path("unlink", AT_FDCWD, p); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); gate_path("unlink", d, p); return real(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); gate_path("mkdir", AT_FDCWD, p); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); gate_path("mkdir", d, p); return real(d, p, m); }
int rmdir(const char *p) { REAL(rmdir); gate_path("rmdir", AT_FDCWD, p); return real(p); }
int flock(int fd, int op) { REAL(flock); if (g_step_out >= 0) gate_fd("flock", fd, 0); return real(fd, op); }
