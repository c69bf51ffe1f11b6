// Records, per process, the collective operations (with their arguments) and the file operations under a given folder.
#define _GNU_SOURCE
#include <mpi.h>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int on = 0, out = -1;
static char root[PATH_MAX]; static size_t rootlen;
#define REAL(name) __typeof__(&name) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

static void emit(const char *fmt, ...) {
    if (!on || out < 0) return;
    char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (w(out, b, n) != n) abort();
}
// ---- identities of communicators: position in the tree of creations
#define MAXC 4096
static MPI_Comm comms[MAXC]; static char *names[MAXC]; static int made[MAXC]; static int nc = 0;
static int find(MPI_Comm c) { for (int i = nc - 1; i >= 0; i--) if (comms[i] == c) return i; return -1; }
static void add(MPI_Comm c, const char *name) {
    int i = find(c);
    if (i < 0) { if (nc == MAXC) abort(); i = nc++; }
    else free(names[i]);
    comms[i] = c; names[i] = strdup(name); made[i] = 0;
}
static int ident(MPI_Comm c) {
    int i = find(c);
    if (i >= 0) return i;
    if (c == MPI_COMM_WORLD) add(c, "W"); else if (c == MPI_COMM_SELF) add(c, "S"); else {
        // not seen being made: name it after its members
        MPI_Group g, w; int n, r[64], s[64]; char b[1024] = "?"; PMPI_Comm_group(c, &g); PMPI_Comm_group(MPI_COMM_WORLD, &w); PMPI_Group_size(g, &n);
        for (int k = 0; k < n && k < 64; k++) r[k] = k;
        PMPI_Group_translate_ranks(g, n, r, w, s);
        for (int k = 0; k < n && k < 64; k++) sprintf(b + strlen(b), ",%d", s[k]);
        add(c, b);
    }
    return find(c);
}
static void members(MPI_Comm c, char *b) {
    MPI_Group g, w; int n, r[256], s[256]; PMPI_Comm_group(c, &g); PMPI_Comm_group(MPI_COMM_WORLD, &w); PMPI_Group_size(g, &n);
    for (int k = 0; k < n && k < 256; k++) r[k] = k;
    PMPI_Group_translate_ranks(g, n, r, w, s); *b = 0;
    for (int k = 0; k < n && k < 256; k++) sprintf(b + strlen(b), "%s%d", k ? "," : "", s[k]);
    PMPI_Group_free(&g); PMPI_Group_free(&w);
}
static int csize(MPI_Comm c) { int n; PMPI_Comm_size(c, &n); return n; }
static int tsize(MPI_Datatype t) { int n; PMPI_Type_size(t, &n); return n; }
// C <op> <comm> <members> <root or -1> <reduction or 0> <bytes sent: list> <bytes received: list>
static void coll(const char *op, MPI_Comm c, int rt, void *red, const char *s, const char *r) {
    if (!on || c == MPI_COMM_SELF || c == MPI_COMM_NULL) return;
    if (csize(c) == 1) return;
    int i = ident(c); char m[1024]; members(c, m);
    emit("C %s %s %s %d %d %s %s", op, names[i], m, rt, red == 0 ? 0 : (red == (void *)MPI_SUM ? 1 : red == (void *)MPI_MAX ? 2 : red == (void *)MPI_MIN ? 3 : 4), s, r);
}
static char *one(char *b, long x) { sprintf(b, "%ld", x); return b; }
static char *vec(char *b, const int *x, int n, int t) { *b = 0; for (int i = 0; i < n; i++) sprintf(b + strlen(b), "%s%ld", i ? "," : "", (long)x[i]*t); if (!n) strcpy(b, "-"); return b; }
static void child(MPI_Comm parent, MPI_Comm c, const char *how) {
    int i = ident(parent); char b[4096], m[1024];
    made[i]++;
    if (c == MPI_COMM_NULL) return;
    members(c, m);
    snprintf(b, sizeof b, "%s/%s%d[%s]", names[i], how, made[i], m);
    add(c, b);
}
#define B1 char b1[4096]
#define B2 char b1[4096], b2[4096]
int MPI_Barrier(MPI_Comm c) { coll("barrier", c, -1, 0, "-", "-"); return PMPI_Barrier(c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { B1; coll("bcast", c, r, 0, one(b1, (long)n*tsize(t)), "-"); return PMPI_Bcast(b, n, t, r, c); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { B1; coll("allreduce", c, -1, (void *)o, one(b1, (long)n*tsize(t)), "-"); return PMPI_Allreduce(a, b, n, t, o, c); }
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) { B1; coll("reduce", c, r, (void *)o, one(b1, (long)n*tsize(t)), "-"); return PMPI_Reduce(a, b, n, t, o, r, c); }
int MPI_Scan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { B1; coll("scan", c, -1, (void *)o, one(b1, (long)n*tsize(t)), "-"); return PMPI_Scan(a, b, n, t, o, c); }
int MPI_Exscan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { B1; coll("exscan", c, -1, (void *)o, one(b1, (long)n*tsize(t)), "-"); return PMPI_Exscan(a, b, n, t, o, c); }
int MPI_Gather(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int r, MPI_Comm c) { B1; int me; PMPI_Comm_rank(c, &me); coll("gather", c, r, 0, one(b1, a == MPI_IN_PLACE || (me == r) ? (long)m*tsize(u) : (long)n*tsize(t)), "-"); return PMPI_Gather(a, n, t, b, m, u, r, c); }
int MPI_Scatter(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int r, MPI_Comm c) { B1; int me; PMPI_Comm_rank(c, &me); coll("scatter", c, r, 0, one(b1, me == r ? (long)n*tsize(t) : (long)m*tsize(u)), "-"); return PMPI_Scatter(a, n, t, b, m, u, r, c); }
int MPI_Gatherv(const void *a, int n, MPI_Datatype t, void *b, const int *m, const int *d, MPI_Datatype u, int r, MPI_Comm c) { B2; int me; PMPI_Comm_rank(c, &me); coll("gatherv", c, r, 0, one(b1, a == MPI_IN_PLACE ? (long)m[me]*tsize(u) : (long)n*tsize(t)), me == r ? vec(b2, m, csize(c), tsize(u)) : "-"); return PMPI_Gatherv(a, n, t, b, m, d, u, r, c); }
int MPI_Scatterv(const void *a, const int *n, const int *d, MPI_Datatype t, void *b, int m, MPI_Datatype u, int r, MPI_Comm c) { B2; int me; PMPI_Comm_rank(c, &me); coll("scatterv", c, r, 0, me == r ? vec(b1, n, csize(c), tsize(t)) : "-", one(b2, (long)m*tsize(u))); return PMPI_Scatterv(a, n, d, t, b, m, u, r, c); }
int MPI_Allgather(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c) { B1; coll("allgather", c, -1, 0, one(b1, (long)m*tsize(u)), "-"); return PMPI_Allgather(a, n, t, b, m, u, c); }
int MPI_Allgatherv(const void *a, int n, MPI_Datatype t, void *b, const int *m, const int *d, MPI_Datatype u, MPI_Comm c) { B1; coll("allgatherv", c, -1, 0, vec(b1, m, csize(c), tsize(u)), "-"); return PMPI_Allgatherv(a, n, t, b, m, d, u, c); }
int MPI_Alltoall(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c) { B1; coll("alltoall", c, -1, 0, one(b1, (long)m*tsize(u)), "-"); return PMPI_Alltoall(a, n, t, b, m, u, c); }
int MPI_Alltoallv(const void *a, const int *n, const int *d, MPI_Datatype t, void *b, const int *m, const int *e, MPI_Datatype u, MPI_Comm c) { B2; coll("alltoallv", c, -1, 0, n ? vec(b1, n, csize(c), tsize(t)) : "-", vec(b2, m, csize(c), tsize(u))); return PMPI_Alltoallv(a, n, d, t, b, m, e, u, c); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { coll("dup", c, -1, 0, "-", "-"); int r = PMPI_Comm_dup(c, n); if (c != MPI_COMM_SELF) child(c, *n, "d"); return r; }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm *n) { coll("split", c, -1, 0, "-", "-"); int r = PMPI_Comm_split(c, col, key, n); if (c != MPI_COMM_SELF) child(c, *n, "s"); return r; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) { coll("create", c, -1, 0, "-", "-"); int r = PMPI_Comm_create(c, g, n); if (c != MPI_COMM_SELF) child(c, *n, "c"); return r; }
int MPI_Cart_create(MPI_Comm c, int d, const int *x, const int *p, int re, MPI_Comm *n) { B1; coll("cart", c, -1, 0, vec(b1, x, d, 1), "-"); int r = PMPI_Cart_create(c, d, x, p, re, n); if (c != MPI_COMM_SELF) child(c, *n, "m"); return r; }
int MPI_Cart_sub(MPI_Comm c, const int *x, MPI_Comm *n) { B1; int d = 1; PMPI_Cartdim_get(c, &d); coll("sub", c, -1, 0, vec(b1, x, d, 1), "-"); int r = PMPI_Cart_sub(c, x, n); child(c, *n, "u"); return r; }
// point to point
static void p2p(const char *op, MPI_Comm c, int peer, int tag) { if (!on || peer == MPI_PROC_NULL) return; int i = ident(c); int me; PMPI_Comm_rank(c, &me); if (peer == me) return; char m[1024]; members(c, m); emit("P %s %s %s %d %d", op, names[i], m, peer, tag); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { p2p("send", c, d, tag); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { p2p("recv", c, s, tag); return PMPI_Recv(b, n, t, s, tag, c, st); }
int MPI_Sendrecv(const void *a, int n, MPI_Datatype t, int d, int tag, void *b, int m, MPI_Datatype u, int s, int rtag, MPI_Comm c, MPI_Status *st) { p2p("send", c, d, tag); p2p("recv", c, s, rtag); return PMPI_Sendrecv(a, n, t, d, tag, b, m, u, s, rtag, c, st); }

// ---- files: F <kind> <path>, kinds r(ead open) w(rite open) c(lose) s(tat) l(ist) n(ew name) d(elete)
static char *fds[65536];
static int full(int dirfd, const char *p, char *b) {
    char d[PATH_MAX];
    if (!on || !p) return 0;
    if (p[0] == '/') snprintf(b, PATH_MAX, "%s", p);
    else {
        if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
        else { char l[64]; sprintf(l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, d, sizeof d - 1); if (n < 0) return 0; d[n] = 0; }
        snprintf(b, PATH_MAX, "%s/%s", d, p);
    }
    size_t n = strlen(b); while (n > 1 && b[n - 1] == '/') b[--n] = 0;
    return strncmp(b, root, rootlen) == 0 && (b[rootlen] == '/' || b[rootlen] == 0);
}
static void file(const char *k, int fd, const char *p) { char b[PATH_MAX]; int e = errno; if (full(fd, p, b)) emit("F %s %s", k, b + rootlen); errno = e; }
static int opened(int fd, int dirfd, const char *p, int flags) {
    char b[PATH_MAX]; int e = errno;
    if (full(dirfd, p, b)) {
        int w = (flags & O_ACCMODE) != O_RDONLY;
        if (fd >= 0 && fd < 65536) { fds[fd] = strdup(b + rootlen); }
        emit("F %s %s", fd < 0 ? "s" : (flags & O_CREAT) ? "wn" : w ? "w" : (flags & O_DIRECTORY) ? "l" : "r", b + rootlen);
    }
    errno = e; return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { REAL(open); MODE; return opened(real(p, flags, mode), AT_FDCWD, p, flags); }
int open64(const char *p, int flags, ...) { REAL(open64); MODE; return opened(real(p, flags, mode), AT_FDCWD, p, flags); }
int openat(int d, const char *p, int flags, ...) { REAL(openat); MODE; return opened(real(d, p, flags, mode), d, p, flags); }
int openat64(int d, const char *p, int flags, ...) { REAL(openat64); MODE; return opened(real(d, p, flags, mode), d, p, flags); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); FILE *f = real(p, m); opened(f ? fileno(f) : -1, AT_FDCWD, p, m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : m[0] == 'r' ? O_RDWR : O_RDWR | O_CREAT); return f; }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); FILE *f = real(p, m); opened(f ? fileno(f) : -1, AT_FDCWD, p, m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : m[0] == 'r' ? O_RDWR : O_RDWR | O_CREAT); return f; }
int close(int fd) { REAL(close); if (fd >= 0 && fd < 65536 && fds[fd]) { emit("F c %s", fds[fd]); free(fds[fd]); fds[fd] = 0; } return real(fd); }
int fclose(FILE *f) { REAL(fclose); int fd = fileno(f); char *p = fd >= 0 && fd < 65536 ? fds[fd] : 0; if (p) fds[fd] = 0; int r = real(f); if (p) { emit("F c %s", p); free(p); } return r; }
int stat(const char *p, struct stat *s) { REAL(stat); int r = real(p, s); file("s", AT_FDCWD, p); return r; }
int stat64(const char *p, struct stat64 *s) { REAL(stat64); int r = real(p, s); file("s", AT_FDCWD, p); return r; }
int lstat(const char *p, struct stat *s) { REAL(lstat); int r = real(p, s); file("s", AT_FDCWD, p); return r; }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); int r = real(p, s); file("s", AT_FDCWD, p); return r; }
int fstatat(int d, const char *p, struct stat *s, int f) { REAL(fstatat); int r = real(d, p, s, f); if (p && *p) file("s", d, p); return r; }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(fstatat64); int r = real(d, p, s, f); if (p && *p) file("s", d, p); return r; }
int access(const char *p, int m) { REAL(access); int r = real(p, m); file("s", AT_FDCWD, p); return r; }
DIR *opendir(const char *p) { REAL(opendir); file("l", AT_FDCWD, p); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); file("n", AT_FDCWD, p); return real(p, m); }
int rename(const char *a, const char *b) { REAL(rename); file("d", AT_FDCWD, a); file("n", AT_FDCWD, b); return real(a, b); }
int unlink(const char *p) { REAL(unlink); file("d", AT_FDCWD, p); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); file("d", d, p); return real(d, p, f); }
int rmdir(const char *p) { REAL(rmdir); file("d", AT_FDCWD, p); return real(p); }

void trace_start(const char *log, const char *folder) {
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    out = o(log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    snprintf(root, sizeof root, "%s", folder); rootlen = strlen(root); nc = 0; on = 1;
    ident(MPI_COMM_WORLD);
}
void trace_stop(void) { on = 0; if (out >= 0) { int (*c)(int) = dlsym(RTLD_NEXT, "close"); c(out); out = -1; } }
