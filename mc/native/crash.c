/* Preloaded: numbers the file-changing system calls of armed processes and ends the process before call number `point`. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>

static long count = 0, point = -1, torn = 0;
static int armed = 0;
static char root[4096];
static int tracefd = -1;

void crash_arm(const char *dir, long k, long t, int fd) { strncpy(root, dir, sizeof root - 1); count = 0; point = k; torn = t; tracefd = fd; armed = 1; }
long crash_disarm(void) { armed = 0; return count; }
long crash_count(void) { return count; }

static void note(const char *what, const char *arg, long n) {
    if (tracefd >= 0) {
        char b[5000]; int m = snprintf(b, sizeof b, "%ld %s %s %ld\n", count, what, arg, n);
        static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write");
        w(tracefd, b, m);
    }
}
/* 1 if the call is to be torn (partially done, then the process ends) */
static int hit(const char *what, const char *arg, long n) {
    note(what, arg, n);
    if (count++ == point) { if (torn && n > 1) return 1; kill(getpid(), SIGKILL); for (;;) pause(); }
    return 0;
}
static int mine_path(const char *p) { return armed && p && strncmp(p, root, strlen(root)) == 0; }
static int mine_fd(int fd, char *buf, size_t n) {
    if (!armed) return 0;
    char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t m = readlink(link, buf, n - 1);
    if (m < 0) return 0;
    buf[m] = 0;
    return strncmp(buf, root, strlen(root)) == 0;
}
#define REAL(type, name, args) static type (*real) args; if (!real) real = dlsym(RTLD_NEXT, #name);
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t)) char p[4096];
    if (mine_fd(fd, p, sizeof p) && hit("pwrite", p, n)) { real(fd, b, n / 2, o); die(); }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t)) char p[4096];
    if (mine_fd(fd, p, sizeof p) && hit("pwrite", p, n)) { real(fd, b, n / 2, o); die(); }
    return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, (int, const void *, size_t)) char p[4096];
    if (mine_fd(fd, p, sizeof p) && hit("write", p, n)) { real(fd, b, n / 2); die(); }
    return real(fd, b, n);
}
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, (int, off64_t)) char p[4096]; if (mine_fd(fd, p, sizeof p)) hit("ftruncate", p, 0); return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)) char p[4096]; if (mine_fd(fd, p, sizeof p)) hit("ftruncate", p, 0); return real(fd, n); }
int unlink(const char *p) { REAL(int, unlink, (const char *)) if (mine_path(p)) hit("unlink", p, 0); return real(p); }
int rename(const char *p, const char *q) { REAL(int, rename, (const char *, const char *)) if (mine_path(p)) hit("rename", p, 0); return real(p, q); }
int rmdir(const char *p) { REAL(int, rmdir, (const char *)) if (mine_path(p)) hit("rmdir", p, 0); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)) if (mine_path(p)) hit("mkdir", p, 0); return real(p, m); }
int unlinkat(int fd, const char *p, int fl) {
    REAL(int, unlinkat, (int, const char *, int)) char d[4096];
    if (armed && (mine_path(p) || (p[0] != '/' && mine_fd(fd, d, sizeof d)))) hit("unlinkat", p, 0);
    return real(fd, p, fl);
}
int open64(const char *p, int fl, ...) {
    REAL(int, open64, (const char *, int, ...)) va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if ((fl & (O_CREAT | O_TRUNC)) && mine_path(p)) hit("create", p, 0);
    return real(p, fl, m);
}
int open(const char *p, int fl, ...) {
    REAL(int, open, (const char *, int, ...)) va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if ((fl & (O_CREAT | O_TRUNC)) && mine_path(p)) hit("create", p, 0);
    return real(p, fl, m);
}
