// LD_PRELOAD shim: counts, delays, fails or kills at the n-th file operation on a path below a root.
// Armed from the test process through vt_arm()/vt_disarm() (ctypes). Inactive until armed.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPENR = 0, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSEW, OP_MKDIR, OP_UNLINK, OP_RMDIR, OP_RENAME, OP_TRUNC, OP_STAT, OP_OPENDIR, NOPS };
#define MODE_COUNT 0
#define MODE_FAIL 1
#define MODE_CRASH 2      // _exit before the operation takes effect
#define MODE_CRASH_HALF 3 // write half of the bytes, then _exit
#define MODE_SHORT 4      // write returns a short count and later writes fail
#define MODE_FAIL_STICKY 5

#define MAXFD 4096
static unsigned char tracked[MAXFD]; // 1 read, 2 write
static char root[1024];
static size_t rootlen;
static volatile int armed;
static int mode, err, delay_us;
static unsigned opmask;
static long target;
static volatile long counter;
static volatile long counts[NOPS];
static volatile long hits;
static int sticky;
static char lastop[64];

void vt_arm(const char *r, int m, unsigned mask, long n, int e, int delay) {
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    mode = m; opmask = mask; target = n; err = e; delay_us = delay;
    counter = 0; hits = 0; sticky = 0; lastop[0] = 0;
    memset((void *)counts, 0, sizeof counts);
    __sync_synchronize(); armed = 1;
}
void vt_disarm(void) { armed = 0; __sync_synchronize(); }
long vt_counter(void) { return counter; }
long vt_hits(void) { return hits; }
long vt_count(int op) { return op < NOPS ? counts[op] : -1; }
const char *vt_last(void) { return lastop; }

static const char *opn[NOPS] = {"open-read", "open-write", "read", "write", "close", "mkdir", "unlink", "rmdir", "rename", "truncate", "stat", "opendir"};

static int under(const char *p) { return p && rootlen && strncmp(p, root, rootlen) == 0; }

// returns 0: proceed; 1: fail with err; 2: half write then crash; 3: short write
static int event(int op) {
    if(!armed) return 0;
    __sync_fetch_and_add(&counts[op], 1);
    if(!(opmask & (1u << op))) return 0;
    if(delay_us > 0) {
        unsigned s = (unsigned)(counter * 2654435761u) % (unsigned)delay_us;
        struct timespec ts = {0, (long)s * 1000}; nanosleep(&ts, NULL);
    }
    long n = __sync_fetch_and_add(&counter, 1);
    if(mode == MODE_COUNT) return 0;
    if(sticky) { __sync_fetch_and_add(&hits, 1); return 1; }
    if(n != target) return 0;
    __sync_fetch_and_add(&hits, 1);
    snprintf(lastop, sizeof lastop, "%s#%ld", opn[op], n);
    if(mode == MODE_CRASH) _exit(77);
    if(mode == MODE_CRASH_HALF) { if(op == OP_WRITE) return 2; _exit(77); }
    if(mode == MODE_SHORT) { if(op == OP_WRITE) { sticky = 1; return 3; } return 1; }
    if(mode == MODE_FAIL_STICKY) sticky = 1;
    return 1;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if(!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void track(int fd, int w) { if(fd >= 0 && fd < MAXFD) tracked[fd] = w ? 2 : 1; }

static int fopen_w(const char *m) { return strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); }

FILE *fopen(const char *p, const char *m) {
    REAL(FILE *, fopen, const char *, const char *);
    if(armed && under(p)) {
        if(event(fopen_w(m) ? OP_OPENW : OP_OPENR)) { errno = err; return NULL; }
        FILE *f = real(p, m); if(f) track(fileno(f), fopen_w(m)); return f;
    }
    return real(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    REAL(FILE *, fopen64, const char *, const char *);
    if(armed && under(p)) {
        if(event(fopen_w(m) ? OP_OPENW : OP_OPENR)) { errno = err; return NULL; }
        FILE *f = real(p, m); if(f) track(fileno(f), fopen_w(m)); return f;
    }
    return real(p, m);
}
#define OPENBODY(name) \
    int md = 0; if(fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); md = va_arg(a, int); va_end(a); } \
    if(armed && under(p)) { int w = (fl & O_ACCMODE) != O_RDONLY; int d = fl & O_DIRECTORY; \
        if(event(d ? OP_OPENDIR : w ? OP_OPENW : OP_OPENR)) { errno = err; return -1; } \
        int fd = real(p, fl, md); if(!d) track(fd, w); return fd; } \
    return real(p, fl, md);
int open(const char *p, int fl, ...) { REAL(int, open, const char *, int, int); OPENBODY(open) }
int open64(const char *p, int fl, ...) { REAL(int, open64, const char *, int, int); OPENBODY(open64) }

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if(armed && fd >= 0 && fd < MAXFD && tracked[fd]) if(event(OP_READ)) { errno = err; return -1; }
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if(armed && fd >= 0 && fd < MAXFD && tracked[fd]) {
        int r = event(OP_WRITE);
        if(r == 1) { errno = err; return -1; }
        if(r == 2) { real(fd, b, n / 2); _exit(77); }
        if(r == 3) { if(n > 1) return real(fd, b, n / 2); errno = err; return -1; }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if(armed && fd >= 0 && fd < MAXFD && tracked[fd]) {
        int r = event(OP_WRITE);
        if(r == 1) { errno = err; return -1; }
        if(r == 2 || r == 3) {
            struct iovec h = v[0]; int k = 0;
            while(k + 1 < c && h.iov_len == 0) h = v[++k];
            if(c - k > 1) { /* the first buffer only */ } else h.iov_len /= 2;
            ssize_t s = h.iov_len ? real(fd, &h, 1) : 0;
            if(r == 2) _exit(77);
            if(s > 0) return s; errno = err; return -1;
        }
    }
    return real(fd, v, c);
}
int close(int fd) {
    REAL(int, close, int);
    if(fd >= 0 && fd < MAXFD && tracked[fd]) {
        int w = tracked[fd] == 2; tracked[fd] = 0;
        if(armed && w && event(OP_CLOSEW)) { real(fd); errno = err; return -1; }
    }
    return real(fd);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1;
    if(fd >= 0 && fd < MAXFD && tracked[fd]) {
        int w = tracked[fd] == 2; tracked[fd] = 0;
        if(armed && w && event(OP_CLOSEW)) { real(f); errno = err; return EOF; }
    }
    return real(f);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if(armed && under(p) && event(OP_MKDIR)) { errno = err; return -1; }
    return real(p, m);
}
int unlink(const char *p) {
    REAL(int, unlink, const char *);
    if(armed && under(p) && event(OP_UNLINK)) { errno = err; return -1; }
    return real(p);
}
int unlinkat(int d, const char *p, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    if(armed && event((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK)) { errno = err; return -1; }
    return real(d, p, fl);
}
int remove(const char *p) {
    REAL(int, remove, const char *);
    if(armed && under(p) && event(OP_UNLINK)) { errno = err; return -1; }
    return real(p);
}
int rmdir(const char *p) {
    REAL(int, rmdir, const char *);
    if(armed && under(p) && event(OP_RMDIR)) { errno = err; return -1; }
    return real(p);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if(armed && under(b) && event(OP_RENAME)) { errno = err; return -1; }
    return real(a, b);
}
int truncate(const char *p, off_t n) {
    REAL(int, truncate, const char *, off_t);
    if(armed && under(p) && event(OP_TRUNC)) { errno = err; return -1; }
    return real(p, n);
}

// path queries and directory listings: failing ones must not look like "not there" or "empty"
int stat(const char *p, struct stat *b) {
    REAL(int, stat, const char *, struct stat *);
    if(armed && under(p) && event(OP_STAT)) { errno = err; return -1; }
    return real(p, b);
}
int stat64(const char *p, struct stat64 *b) {
    REAL(int, stat64, const char *, struct stat64 *);
    if(armed && under(p) && event(OP_STAT)) { errno = err; return -1; }
    return real(p, b);
}
int lstat(const char *p, struct stat *b) {
    REAL(int, lstat, const char *, struct stat *);
    if(armed && under(p) && event(OP_STAT)) { errno = err; return -1; }
    return real(p, b);
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    if(armed && under(p) && event(OP_OPENDIR)) { errno = err; return NULL; }
    return real(p);
}
