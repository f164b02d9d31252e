/* Simulated disk faults under one directory: interposes the file calls of libc.  Every call on a file below the prefix is
 * one numbered operation; a plan says which operation fails and how, or where the process dies. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, READ = 2, WRITE = 4, RENAME = 8, UNLINK = 16, MKDIR = 32, SYNC = 64, TRUNC = 128 };
enum { K_ERR = 1, K_FULL = 2, K_SHORT = 3, K_CRASH = 4, K_TORN = 5, K_AFTER = 6, K_STICKY = 7 };
#define MAXP 64
static int armed;
static char prefix[PATH_MAX];
static size_t plen;
static long counter, percount[256];
static struct { long at; int kind, mask, err; double arg; int done; } plan[MAXP];
static int nplan, sticky_err, sticky_mask, last_hit;
static long hits[16];
static uint64_t hash;
static char *logbuf; static size_t loglen, logcap;

#define REAL(name, ret, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void simfs_start(const char *p) {
    strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
    counter = 0; memset(percount, 0, sizeof percount); memset(hits, 0, sizeof hits);
    nplan = 0; sticky_err = 0; sticky_mask = 0; hash = 1469598103934665603ULL; loglen = 0; armed = 1;
}
void simfs_add(long at, int kind, int mask, int err, double arg) {
    if (nplan < MAXP) { plan[nplan].at = at; plan[nplan].kind = kind; plan[nplan].mask = mask; plan[nplan].err = err; plan[nplan].arg = arg; plan[nplan].done = 0; nplan++; }
}
void simfs_heal(void) { sticky_err = 0; sticky_mask = 0; nplan = 0; }
void simfs_stop(void) { armed = 0; }
void simfs_resume(void) { armed = 1; }
long simfs_count(void) { return counter; }
long simfs_hits(int k) { return hits[k]; }
uint64_t simfs_hash(void) { return hash; }
const char *simfs_log(void) { return logbuf ? logbuf : ""; }

static const char *below(const char *path) {
    static __thread char buf[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, PATH_MAX)) return 0;
        size_t n = strlen(buf); buf[n] = '/'; strncpy(buf + n + 1, path, PATH_MAX - 1); path = buf;
    }
    if (strncmp(path, prefix, plen) == 0 && (path[plen] == '/' || path[plen] == 0)) return path + plen;
    return 0;
}
static const char *belowfd(int fd) {
    static __thread char b[PATH_MAX]; char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    int e = errno; ssize_t n = readlink(l, b, sizeof b - 1); errno = e;
    if (n <= 0) return 0;
    b[n] = 0;
    return below(b);
}
static void mix(const void *p, size_t n) { const unsigned char *c = p; while (n--) { hash ^= *c++; hash *= 1099511628211ULL; } }
static void note(int op, const char *path, long n) {
    mix(&op, sizeof op); mix(path, strlen(path)); mix(&n, sizeof n);
    char l[PATH_MAX + 64];
    int k = snprintf(l, sizeof l, "%ld %d %s %ld\n", counter, op, path, n);
    if (loglen < 60000) {
        if (loglen + k + 1 > logcap) { logcap = logcap * 2 + 65536; logbuf = realloc(logbuf, logcap); }
        memcpy(logbuf + loglen, l, k + 1); loglen += k;
    }
}
/* decides on one operation.  returns 0 = go on; -1 = fail with errno; otherwise kind with *frac set */
static int decide(int op, const char *path, long n, double *frac) {
    counter++; percount[op]++;
    note(op, path, n);
    if (sticky_err && (op & sticky_mask)) { errno = sticky_err; hits[K_STICKY]++; return -1; }
    for (int i = 0; i < nplan; i++) {
        if (plan[i].done || counter < plan[i].at || !(op & plan[i].mask)) continue;
        int k = plan[i].kind;
        if ((k == K_SHORT || k == K_TORN) && !(op & (READ | WRITE))) continue;
        if (k == K_TORN && !(op & WRITE)) continue;
        plan[i].done = 1; hits[k]++;
        switch (k) {
        case K_ERR: errno = plan[i].err; return -1;
        case K_FULL: case K_STICKY: sticky_err = plan[i].err; sticky_mask = plan[i].mask; errno = plan[i].err; return -1;
        case K_CRASH: _exit(88);
        default: *frac = plan[i].arg; return k;
        }
    }
    return 0;
}

#define PRE(op, p, n) double frac = 1; int k = 0; { const char *b_ = (p); if (b_) { k = decide(op, b_, n, &frac); } }
#define POST() if (k == K_AFTER || k == K_TORN) _exit(88)

static int want_mode(int fl) { return (fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE; }
static int openop(int fl) { return (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? (OPEN | WRITE) : OPEN; }
static int do_open(const char *path, int fl, int *err) {
    double frac; const char *b = armed ? below(path) : 0;
    if (!b) return 0;
    int op = OPEN;
    counter++; percount[OPEN]++;
    note(op | (openop(fl) & WRITE), b, fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR));
    if (sticky_err && (sticky_mask & OPEN) && (openop(fl) & WRITE || !(sticky_mask & WRITE))) { *err = sticky_err; hits[K_STICKY]++; return -1; }
    for (int i = 0; i < nplan; i++) {
        if (plan[i].done || counter < plan[i].at || !(plan[i].mask & OPEN)) continue;
        if ((plan[i].mask & WRITE) && !(plan[i].mask & READ) && !(openop(fl) & WRITE)) continue;
        int k = plan[i].kind;
        if (k == K_SHORT || k == K_TORN) continue;
        plan[i].done = 1; hits[k]++;
        if (k == K_CRASH) _exit(88);
        if (k == K_AFTER) return K_AFTER;
        if (k == K_FULL || k == K_STICKY) { sticky_err = plan[i].err; sticky_mask = plan[i].mask; }
        *err = plan[i].err; return -1;
    }
    (void)frac;
    return 0;
}
#define DEFOPEN(name) \
int name(const char *path, int fl, ...) { \
    REAL(name, int, const char *, int, ...); mode_t m = 0; \
    if (want_mode(fl)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    int e = 0, k = do_open(path, fl, &e); if (k < 0) { errno = e; return -1; } \
    int r = real_##name(path, fl, m); if (k == K_AFTER) _exit(88); return r; }
#define DEFOPENAT(name) \
int name(int dir, const char *path, int fl, ...) { \
    REAL(name, int, int, const char *, int, ...); mode_t m = 0; \
    if (want_mode(fl)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    int e = 0, k = (path && path[0] == '/') || dir == AT_FDCWD ? do_open(path, fl, &e) : 0; if (k < 0) { errno = e; return -1; } \
    int r = real_##name(dir, path, fl, m); if (k == K_AFTER) _exit(88); return r; }
#undef open
#undef open64
#undef openat
#undef openat64
#undef fopen
#undef fopen64
DEFOPEN(open)
DEFOPEN(open64)
DEFOPENAT(openat)
DEFOPENAT(openat64)
#define DEFFOPEN(name) \
FILE *name(const char *path, const char *mode) { \
    REAL(name, FILE *, const char *, const char *); int fl = mode[0] == 'r' && !strchr(mode, '+') ? O_RDONLY : O_WRONLY | O_CREAT; \
    int e = 0, k = do_open(path, fl, &e); if (k < 0) { errno = e; return 0; } \
    FILE *r = real_##name(path, mode); if (k == K_AFTER) _exit(88); return r; }
DEFFOPEN(fopen)
DEFFOPEN(fopen64)

ssize_t read(int fd, void *b, size_t n) {
    REAL(read, ssize_t, int, void *, size_t);
    PRE(READ, armed ? belowfd(fd) : 0, (long)n);
    if (k < 0) return -1;
    if (k == K_SHORT && n > 1) { n = (size_t)(n * frac); if (!n) n = 1; }
    ssize_t r = real_read(fd, b, n); POST(); return r;
}
#define DEFPREAD(name, off) \
ssize_t name(int fd, void *b, size_t n, off o) { \
    REAL(name, ssize_t, int, void *, size_t, off); PRE(READ, armed ? belowfd(fd) : 0, (long)n); if (k < 0) return -1; \
    if (k == K_SHORT && n > 1) { n = (size_t)(n * frac); if (!n) n = 1; } \
    ssize_t r = real_##name(fd, b, n, o); POST(); return r; }
DEFPREAD(pread, off_t)
DEFPREAD(pread64, off64_t)
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write, ssize_t, int, const void *, size_t);
    PRE(WRITE, armed ? belowfd(fd) : 0, (long)n);
    if (k < 0) return -1;
    if ((k == K_SHORT || k == K_TORN) && n > 1) { n = (size_t)(n * frac); if (!n && k == K_SHORT) n = 1; }
    ssize_t r = n || k != K_TORN ? real_write(fd, b, n) : 0; POST(); return r;
}
#define DEFPWRITE(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(name, ssize_t, int, const void *, size_t, off); PRE(WRITE, armed ? belowfd(fd) : 0, (long)n); if (k < 0) return -1; \
    if ((k == K_SHORT || k == K_TORN) && n > 1) { n = (size_t)(n * frac); if (!n && k == K_SHORT) n = 1; } \
    ssize_t r = real_##name(fd, b, n, o); POST(); return r; }
DEFPWRITE(pwrite, off_t)
DEFPWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev, ssize_t, int, const struct iovec *, int);
    long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    PRE(WRITE, armed ? belowfd(fd) : 0, n);
    if (k < 0) return -1;
    ssize_t r;
    if ((k == K_SHORT || k == K_TORN) && c > 0) { REAL(write, ssize_t, int, const void *, size_t); r = real_write(fd, v[0].iov_base, (size_t)(v[0].iov_len * frac)); }
    else r = real_writev(fd, v, c);
    POST(); return r;
}
#define DEFFREAD(name) \
size_t name(void *b, size_t sz, size_t n, FILE *f) { \
    REAL(name, size_t, void *, size_t, size_t, FILE *); PRE(READ, armed ? belowfd(fileno(f)) : 0, (long)(sz * n)); \
    if (k < 0) return 0; if (k == K_SHORT) n = (size_t)(n * frac); \
    size_t r = real_##name(b, sz, n, f); POST(); return r; }
DEFFREAD(fread)
DEFFREAD(fread_unlocked)
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) {
    REAL(fwrite, size_t, const void *, size_t, size_t, FILE *); PRE(WRITE, armed && f != stderr && f != stdout ? belowfd(fileno(f)) : 0, (long)(sz * n));
    if (k < 0) return 0;
    if (k == K_SHORT || k == K_TORN) n = (size_t)(n * frac);
    size_t r = real_fwrite(b, sz, n, f); if (k == K_TORN) fflush(f); POST(); return r;
}
int rename(const char *a, const char *b) {
    REAL(rename, int, const char *, const char *);
    PRE(RENAME, armed ? below(b) : 0, 0); if (k < 0) return -1;
    int r = real_rename(a, b); POST(); return r;
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(renameat, int, int, const char *, int, const char *);
    PRE(RENAME, armed ? below(b) : 0, 0); if (k < 0) return -1;
    int r = real_renameat(d, a, e, b); POST(); return r;
}
int renameat2(int d, const char *a, int e, const char *b, unsigned fl) {
    REAL(renameat2, int, int, const char *, int, const char *, unsigned);
    PRE(RENAME, armed ? below(b) : 0, 0); if (k < 0) return -1;
    int r = real_renameat2(d, a, e, b, fl); POST(); return r;
}
int link(const char *a, const char *b) {
    REAL(link, int, const char *, const char *);
    PRE(RENAME, armed ? below(b) : 0, 0); if (k < 0) return -1;
    int r = real_link(a, b); POST(); return r;
}
int unlink(const char *a) {
    REAL(unlink, int, const char *);
    PRE(UNLINK, armed ? below(a) : 0, 0); if (k < 0) return -1;
    int r = real_unlink(a); POST(); return r;
}
int unlinkat(int d, const char *a, int fl) {
    REAL(unlinkat, int, int, const char *, int);
    PRE(UNLINK, armed && (d == AT_FDCWD || a[0] == '/') ? below(a) : 0, 0); if (k < 0) return -1;
    int r = real_unlinkat(d, a, fl); POST(); return r;
}
int remove(const char *a) {
    REAL(remove, int, const char *);
    PRE(UNLINK, armed ? below(a) : 0, 0); if (k < 0) return -1;
    int r = real_remove(a); POST(); return r;
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir, int, const char *, mode_t);
    PRE(MKDIR, armed ? below(a) : 0, 0); if (k < 0) return -1;
    int r = real_mkdir(a, m); POST(); return r;
}
int mkdirat(int d, const char *a, mode_t m) {
    REAL(mkdirat, int, int, const char *, mode_t);
    PRE(MKDIR, armed && (d == AT_FDCWD || a[0] == '/') ? below(a) : 0, 0); if (k < 0) return -1;
    int r = real_mkdirat(d, a, m); POST(); return r;
}
#define DEFSYNC(name) \
int name(int fd) { REAL(name, int, int); PRE(SYNC, armed ? belowfd(fd) : 0, 0); if (k < 0) return -1; int r = real_##name(fd); POST(); return r; }
DEFSYNC(fsync)
DEFSYNC(fdatasync)
#define DEFTRUNC(name, off) \
int name(int fd, off o) { REAL(name, int, int, off); PRE(TRUNC, armed ? belowfd(fd) : 0, (long)o); if (k < 0) return -1; int r = real_##name(fd, o); POST(); return r; }
DEFTRUNC(ftruncate, off_t)
DEFTRUNC(ftruncate64, off64_t)
