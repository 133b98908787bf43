/* Deviations of the operating system at a chosen call, for the
 * exploration of all fault points of a run (LD_PRELOAD).
 *
 * MC_FAULT=class:kind:n[:k]   the n-th call (from 0) of the class
 *   class  r  read            of the file descriptors 0 and > 2, unless
 *                             they belong to system files
 *          w  write, writev   to the file descriptors 1 and > 2
 *          a  every call that changes a file or its name
 *   kind   kill               the process ends before the call
 *          torn               (write) k bytes are written, then it ends
 *          short              at most k bytes are transferred
 *          eintr              the call fails with EINTR
 *          err                the call fails with errno k
 *          all                this and all other calls transfer at most
 *                             k bytes
 *          cerr               (read) the call fails with EIO, all other
 *                             calls transfer at most k bytes
 * MC_SEED=n                   what getrandom returns
 * MC_MARK=path                is created when the fault happens, or
 *                             getrandom is called
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_long count;
static char class_, kind[8];
static long nth = -1, arg;

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("MC_FAULT");
    if (s)
        sscanf(s, "%c:%7[a-z]:%ld:%ld", &class_, kind, &nth, &arg);
}

static void mark(void) {
    const char *m = getenv("MC_MARK");
    if (m) {
        int fd = syscall(SYS_openat, AT_FDCWD, m, O_CREAT | O_WRONLY, 0644);
        if (fd >= 0)
            syscall(SYS_close, fd);
    }
}
static int hit(int yes) {
    if (nth < 0 || !yes)
        return 0;
    if (atomic_fetch_add(&count, 1) != nth)
        return 0;
    mark();
    if (!strcmp(kind, "kill"))
        syscall(SYS_exit_group, 77);
    return 1;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
static int is(const char *k) { return !strcmp(kind, k); }

/* no file of the system (/proc, /sys, ...) */
static int input(int fd) {
    char l[64], p[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n < 0)
        return 0;
    p[n] = 0;
    /* scratch directories */
    if (!strncmp(p, "/dev/shm/", 9))
        return 1;
    const char *sys[] = {"/proc/", "/sys/", "/etc/", "/usr/", "/lib", "/dev/"};
    for (int i = 0; i < 6; i++)
        if (!strncmp(p, sys[i], strlen(sys[i])))
            return 0;
    return 1;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    const char *s = getenv("MC_SEED");
    if (!s)
        return syscall(SYS_getrandom, b, n, f);
    static _Thread_local unsigned long x;
    if (!x)
        x = strtoul(s, 0, 10) * 0x9e3779b97f4a7c15 + 1;
    mark();
    for (size_t i = 0; i < n; i++) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        ((unsigned char *)b)[i] = x >> 24;
    }
    return n;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (class_ == 'r' && (fd == 0 || fd > 2) && input(fd)) {
        int h = hit(1);
        if ((is("all") || is("cerr")) && n > (size_t)arg) n = arg;
        if (h && is("cerr")) { errno = EIO; return -1; }
        if (!h)
            return real(fd, b, n);
        if (is("eintr")) { errno = EINTR; return -1; }
        if (is("err")) { errno = arg; return -1; }
        if (is("short") && n > (size_t)arg) n = arg;
    }
    return real(fd, b, n);
}
static int wfault(int fd, size_t *n) {
    if (fd != 1 && fd <= 2)
        return 0;
    int h = hit(class_ == 'w' || class_ == 'a');
    if (is("all") && class_ == 'w' && *n > (size_t)arg) *n = arg;
    if (h) {
        if (is("eintr")) { errno = EINTR; return -1; }
        if (is("err")) { errno = arg; return -1; }
        if ((is("short") || is("torn")) && *n > (size_t)arg) *n = arg;
        if (is("torn")) return 1;
    }
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    int f = wfault(fd, &n);
    if (f < 0) return -1;
    ssize_t r = real(fd, b, n);
    if (f > 0) syscall(SYS_exit_group, 77);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t m = n;
    int f = wfault(fd, &m);
    if (f < 0) return -1;
    ssize_t r;
    if (m < n) {
        /* the first m bytes of the vector, in one write */
        char *t = malloc(n), *p = t;
        for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
        r = syscall(SYS_write, fd, t, m);
        free(t);
    } else
        r = real(fd, v, c);
    if (f > 0) syscall(SYS_exit_group, 77);
    return r;
}

/* calls that change files and names */
#define CHANGE(ret, name, decl, use) \
    ret name decl { REAL(name); if (hit(class_ == 'a')) { \
        if (is("eintr")) { errno = EINTR; return -1; } \
        if (is("err")) { errno = arg; return -1; } \
        if (is("torn")) syscall(SYS_exit_group, 77); } \
        return real use; }
CHANGE(int, rename, (const char *a, const char *b), (a, b))
CHANGE(int, renameat, (int x, const char *a, int y, const char *b), (x, a, y, b))
CHANGE(int, unlink, (const char *a), (a))
CHANGE(int, unlinkat, (int x, const char *a, int f), (x, a, f))
CHANGE(int, mkdir, (const char *a, mode_t m), (a, m))
CHANGE(int, ftruncate, (int fd, off_t n), (fd, n))
CHANGE(int, ftruncate64, (int fd, off64_t n), (fd, n))
CHANGE(int, fsync, (int fd), (fd))
CHANGE(int, fdatasync, (int fd), (fd))
CHANGE(int, fchmod, (int fd, mode_t m), (fd, m))
CHANGE(int, link, (const char *a, const char *b), (a, b))

static int changes(int fl) { return (fl & (O_CREAT | O_TRUNC)) != 0; }
#define OPEN(name) int name(const char *p, int fl, ...) { REAL(name); \
    va_list l; va_start(l, fl); mode_t m = va_arg(l, mode_t); va_end(l); \
    if (hit(class_ == 'a' && changes(fl))) { \
        if (is("eintr")) { errno = EINTR; return -1; } \
        if (is("err")) { errno = arg; return -1; } \
        if (is("torn")) syscall(SYS_exit_group, 77); } \
    return real(p, fl, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { REAL(name); \
    va_list l; va_start(l, fl); mode_t m = va_arg(l, mode_t); va_end(l); \
    if (hit(class_ == 'a' && changes(fl))) { \
        if (is("eintr")) { errno = EINTR; return -1; } \
        if (is("err")) { errno = arg; return -1; } \
        if (is("torn")) syscall(SYS_exit_group, 77); } \
    return real(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)
