// Stands between the generator and the file system (LD_PRELOAD).
//
// Every file operation of the process below SIM_ROOT is counted; the plan in SIM_FAULTS says what happens
// to which of them. Changes of anything outside SIM_ROOT are refused and reported. Time, randomness, the
// process id and the order of directory listings come from SIM_SEED.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXF 64
#define MAXFD 1024
enum { K_ERR, K_SHORT, K_TORN, K_CRASH, K_AFTER, K_PERSIST };
struct fault { long at; int kind; long arg; };
static struct fault faults[MAXF];
static int nfaults, ready;
static char root[PATH_MAX];
static size_t rootlen;
static int tracefd = -1;
static long ops, persist, budget = -1, prints = -1;
static uint64_t rng, clk = 0;
static char fdpath[MAXFD][256];
static unsigned char fdin[MAXFD];

static uint64_t next64(void) {
    uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void tr(const char *fmt, ...) {
    if (tracefd < 0) return;
    char b[1024];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    syscall(SYS_write, tracefd, b, n);
}

static void die(void) { syscall(SYS_exit_group, 137); }

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *v = getenv("SIM_ROOT");
    if (v) { strncpy(root, v, sizeof root - 1); rootlen = strlen(root); }
    if ((v = getenv("SIM_TRACE"))) tracefd = atoi(v);
    if ((v = getenv("SIM_SEED"))) rng = strtoull(v, 0, 10);
    if ((v = getenv("SIM_BUDGET")) && *v) budget = atol(v);
    if ((v = getenv("SIM_PRINTS")) && *v) prints = atol(v);
    clk = 1500000000ull * 1000000000ull + next64() % (400000000ull * 1000000000ull);
    if ((v = getenv("SIM_FAULTS")))
        while (*v && nfaults < MAXF) {
            struct fault f = {0};
            char *e;
            f.at = strtol(v, &e, 10);
            if (*e != ':') break;
            char k = e[1];
            f.kind = k == 'E' ? K_ERR : k == 'S' ? K_SHORT : k == 'T' ? K_TORN : k == 'C' ? K_CRASH : k == 'D' ? K_AFTER : K_PERSIST;
            f.arg = strtol(e + 2, &e, 10);
            faults[nfaults++] = f;
            v = *e == ';' ? e + 1 : e;
        }
}

// 1: below the root, 0: elsewhere, and the name relative to the root in out
static int inside(int dirfd, const char *path, char *out, size_t n) {
    char full[PATH_MAX * 2], norm[PATH_MAX * 2];
    if (!rootlen || !path) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (dirfd != AT_FDCWD) {
            if (dirfd >= 0 && dirfd < MAXFD && fdin[dirfd]) snprintf(cwd, sizeof cwd, "%s/%s", root, fdpath[dirfd]);
            else return 0;
        } else if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    }
    size_t o = 0;
    for (const char *p = full; *p;) {
        while (*p == '/') p++;
        const char *q = p;
        while (*q && *q != '/') q++;
        size_t l = q - p;
        if (l == 0 || (l == 1 && p[0] == '.')) {
        } else if (l == 2 && p[0] == '.' && p[1] == '.') {
            while (o > 0 && norm[--o] != '/') {}
        } else {
            norm[o++] = '/';
            memcpy(norm + o, p, l);
            o += l;
        }
        p = q;
    }
    norm[o] = 0;
    if (strncmp(norm, root, rootlen) || (norm[rootlen] && norm[rootlen] != '/')) return 0;
    snprintf(out, n, "%s", norm[rootlen] ? norm + rootlen + 1 : ".");
    return 1;
}

struct verdict { int err; int crash_after; long shortened; int torn; };

// Called before each operation. change: the operation would change the file system.
static struct verdict begin(const char *name, const char *path, int change, long size) {
    struct verdict v = {0, 0, -1, 0};
    long n = ops++;
    for (int i = 0; i < nfaults; i++) {
        if (faults[i].at != n) continue;
        switch (faults[i].kind) {
        case K_ERR: v.err = faults[i].arg; break;
        case K_SHORT: if (size > 1) { v.shortened = size * faults[i].arg / 1000; if (v.shortened < 1) v.shortened = 1; } break;
        case K_TORN: v.torn = 1; v.shortened = size > 0 ? size * faults[i].arg / 1000 : 0; break;
        case K_CRASH: tr("%ld %s %s crash\n", n, name, path); die(); break;
        case K_AFTER: v.crash_after = 1; break;
        case K_PERSIST: persist = faults[i].arg; break;
        }
    }
    // a full disk or one that became read only
    if (!v.err && persist && change && !(persist == ENOSPC && (!strcmp(name, "rename") || !strcmp(name, "unlink") || !strcmp(name, "rmdir")))) v.err = persist;
    if (!v.err && budget >= 0 && change) {
        if (!strcmp(name, "write")) {
            long want = v.shortened >= 0 ? v.shortened : size;
            if (want > budget) { if (budget == 0) v.err = ENOSPC; else v.shortened = budget; }
        } else if (!strcmp(name, "mkdir") || !strcmp(name, "create")) { if (budget == 0) v.err = ENOSPC; }
    }
    return v;
}

static void done(const char *name, const char *path, struct verdict v, long ret, int err) {
    if (ret < 0) tr("%ld %s %s errno=%d%s\n", ops - 1, name, path, err, v.err ? " injected" : "");
    else tr("%ld %s %s %ld%s\n", ops - 1, name, path, ret, v.shortened >= 0 ? " short" : "");
    if (v.crash_after || v.torn) { tr("%ld %s %s crash-after\n", ops - 1, name, path); die(); }
    errno = err;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int refuse(const char *op, const char *path) {
    tr("-1 %s %s FOREIGN\n", op, path ? path : "?");
    errno = EROFS;
    return -1;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    char rel[256];
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inside(dirfd, path, rel, sizeof rel)) {
        if (writing && path && strncmp(path, "/dev/", 5)) return refuse("open", path);
        return syscall(SYS_openat, dirfd, path, flags, mode);
    }
    const char *name = writing ? "create" : "open";
    struct verdict v = begin(name, rel, writing, 0);
    long r;
    if (v.err) { r = -1; errno = v.err; }
    else r = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (r >= 0 && r < MAXFD) { fdin[r] = 1; snprintf(fdpath[r], sizeof fdpath[r], "%s", rel); }
    done(name, rel, v, r, e);
    return r;
}
int open(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return creat(path, m); }

int close(int fd) {
    init();
    if (fd == tracefd && fd >= 0) return 0;
    if (fd >= 0 && fd < MAXFD && fdin[fd]) fdin[fd] = 0;
    return syscall(SYS_close, fd);
}

ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) {
        // the reader of the output goes away
        if (fd == 1 && prints-- == 0) { tr("-1 print stdout errno=%d injected\n", EPIPE); prints = 0; errno = EPIPE; return -1; }
        return syscall(SYS_write, fd, buf, n);
    }
    struct verdict v = begin("write", fdpath[fd], 1, n);
    ssize_t r;
    if (v.err) { r = -1; errno = v.err; }
    else r = syscall(SYS_write, fd, buf, v.shortened >= 0 ? (size_t)v.shortened : n);
    int e = errno;
    if (r > 0 && budget >= 0) budget -= r;
    done("write", fdpath[fd], v, r, e);
    return r;
}
ssize_t writev(int fd, const struct iovec *io, int c) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) return syscall(SYS_writev, fd, io, c);
    for (int i = 0; i < c; i++) if (io[i].iov_len) return write(fd, io[i].iov_base, io[i].iov_len);
    return 0;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) return syscall(SYS_pwrite64, fd, buf, n, off);
    struct verdict v = begin("write", fdpath[fd], 1, n);
    ssize_t r;
    if (v.err) { r = -1; errno = v.err; }
    else r = syscall(SYS_pwrite64, fd, buf, v.shortened >= 0 ? (size_t)v.shortened : n, off);
    int e = errno;
    if (r > 0 && budget >= 0) budget -= r;
    done("write", fdpath[fd], v, r, e);
    return r;
}
ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) return syscall(SYS_read, fd, buf, n);
    struct verdict v = begin("read", fdpath[fd], 0, n);
    ssize_t r;
    if (v.err) { r = -1; errno = v.err; }
    else r = syscall(SYS_read, fd, buf, v.shortened >= 0 ? (size_t)v.shortened : n);
    int e = errno;
    done("read", fdpath[fd], v, r, e);
    return r;
}

#define PATHOP(opname, dirfd, path, call) do { \
    init(); char rel[256]; \
    if (!inside(dirfd, path, rel, sizeof rel)) return refuse(opname, path); \
    struct verdict v = begin(opname, rel, 1, 0); long r; \
    if (v.err) { r = -1; errno = v.err; } else r = call; \
    int e = errno; done(opname, rel, v, r, e); return r; } while (0)

int mkdir(const char *p, mode_t m) { PATHOP("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP("mkdir", d, p, syscall(SYS_mkdirat, d, p, m)); }
int unlink(const char *p) { PATHOP("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { PATHOP("unlink", d, p, syscall(SYS_unlinkat, d, p, f)); }
int remove(const char *p) { PATHOP("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int rmdir(const char *p) { PATHOP("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p)); }
int truncate64(const char *p, off64_t l) { PATHOP("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, l)); }
int chmod(const char *p, mode_t m) { PATHOP("chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m)); }

static int two(const char *opname, int d1, const char *a, int d2, const char *b, int sys, int flags) {
    init();
    char ra[256], rb[256], both[600];
    if (!inside(d1, a, ra, sizeof ra)) return refuse(opname, a);
    if (!inside(d2, b, rb, sizeof rb)) return refuse(opname, b);
    snprintf(both, sizeof both, "%s", rb);
    struct verdict v = begin(opname, both, 1, 0);
    long r;
    if (v.err) { r = -1; errno = v.err; }
    else if (sys == SYS_linkat) r = syscall(sys, d1, a, d2, b, flags);
    else r = syscall(SYS_renameat2, d1, a, d2, b, flags);
    int e = errno;
    done(opname, both, v, r, e);
    return r;
}
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int renameat(int d, const char *a, int f, const char *b) { return two("rename", d, a, f, b, 0, 0); }
int renameat2(int d, const char *a, int f, const char *b, unsigned g) { return two("rename", d, a, f, b, 0, g); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int d, const char *a, int f, const char *b, int g) { return two("link", d, a, f, b, SYS_linkat, g); }
int symlink(const char *a, const char *b) { PATHOP("symlink", AT_FDCWD, b, syscall(SYS_symlink, a, b)); }

int ftruncate64(int fd, off64_t l) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) return syscall(SYS_ftruncate, fd, l);
    struct verdict v = begin("truncate", fdpath[fd], 1, 0);
    long r;
    if (v.err) { r = -1; errno = v.err; } else r = syscall(SYS_ftruncate, fd, l);
    int e = errno;
    done("truncate", fdpath[fd], v, r, e);
    return r;
}
static int syncing(int fd, int nr) {
    init();
    if (fd < 0 || fd >= MAXFD || !fdin[fd]) return syscall(nr, fd);
    struct verdict v = begin("sync", fdpath[fd], 0, 0);
    long r = v.err ? -1 : 0;
    done("sync", fdpath[fd], v, r, v.err);
    return r;
}
int fsync(int fd) { return syncing(fd, SYS_fsync); }
int fdatasync(int fd) { return syncing(fd, SYS_fdatasync); }

static ssize_t copying(int in, int out, size_t n, int nr, off64_t *a, off64_t *b, unsigned fl) {
    init();
    const char *p = out >= 0 && out < MAXFD && fdin[out] ? fdpath[out] : "?";
    struct verdict v = begin("write", p, 1, n > 1 << 20 ? 1 << 20 : n);
    size_t m = v.shortened >= 0 ? (size_t)v.shortened : n;
    ssize_t r;
    if (v.err) { r = -1; errno = v.err; }
    else if (nr == SYS_sendfile) r = syscall(nr, out, in, a, m);
    else r = syscall(nr, in, a, out, b, m, fl);
    int e = errno;
    if (r > 0 && budget >= 0) budget = budget > r ? budget - r : 0;
    done("write", p, v, r, e);
    return r;
}
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned fl) { return copying(in, out, n, SYS_copy_file_range, a, b, fl); }
ssize_t sendfile64(int out, int in, off64_t *a, size_t n) { return copying(in, out, n, SYS_sendfile, a, 0, 0); }

int statx(int d, const char *name, int flags, unsigned mask, struct statx *st) {
    init();
    char rel[256];
    // (the standard library asks with no name whether the call exists)
    const char *volatile given = name;
    const char *p = given;
    if (!p || !*p || !inside(d, p, rel, sizeof rel)) return syscall(SYS_statx, d, p, flags, mask, st);
    struct verdict v = begin("stat", rel, 0, 0);
    long r;
    if (v.err) { r = -1; errno = v.err; } else r = syscall(SYS_statx, d, p, flags, mask, st);
    int e = errno;
    done("stat", rel, v, r, e);
    return r;
}

char *getcwd(char *b, size_t n) {
    init();
    struct verdict v = begin("getcwd", ".", 0, 0);
    char *r = b;
    int e = 0;
    if (v.err) { r = 0; e = v.err; }
    else if (syscall(SYS_getcwd, b, n) < 0) { r = 0; e = errno; }
    done("getcwd", ".", v, r ? 0 : -1, e);
    return r;
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
    init();
    (void)f;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = next64();
    return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
static void tick(struct timespec *t) {
    init();
    clk += 1000 + next64() % 3000000;
    t->tv_sec = clk / 1000000000ull;
    t->tv_nsec = clk % 1000000000ull;
}
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; tick(t); return 0; }
int gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; tick(&s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec s; tick(&s); if (t) *t = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { init(); return 1000 + (pid_t)((rng * 0x9e37u >> 20) % 30000); }

// listings in an order of the simulator's choice
#define MAXDIR 16
static struct { DIR *d; int n, at, cap; struct dirent64 *v; } dirs[MAXDIR];
struct dirent64 *readdir64(DIR *d) {
    init();
    REAL(struct dirent64 *, "readdir64", DIR *);
    int i, s = -1;
    for (i = 0; i < MAXDIR; i++) if (dirs[i].d == d) s = i;
    if (s < 0) {
        for (i = 0; i < MAXDIR && s < 0; i++) if (!dirs[i].d) s = i;
        if (s < 0) return real(d);
        dirs[s].d = d; dirs[s].n = dirs[s].at = 0;
        struct dirent64 *e;
        while ((e = real(d))) {
            if (dirs[s].n == dirs[s].cap) { dirs[s].cap = dirs[s].cap ? dirs[s].cap * 2 : 64; dirs[s].v = realloc(dirs[s].v, dirs[s].cap * sizeof *e); }
            memcpy(&dirs[s].v[dirs[s].n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        // by name first: the order the file system uses is no input
        for (i = 1; i < dirs[s].n; i++) for (int j = i; j > 0 && strcmp(dirs[s].v[j - 1].d_name, dirs[s].v[j].d_name) > 0; j--) { struct dirent64 t = dirs[s].v[j]; dirs[s].v[j] = dirs[s].v[j - 1]; dirs[s].v[j - 1] = t; }
        for (i = dirs[s].n - 1; i > 0; i--) { int j = next64() % (i + 1); struct dirent64 t = dirs[s].v[i]; dirs[s].v[i] = dirs[s].v[j]; dirs[s].v[j] = t; }
    }
    if (dirs[s].at < dirs[s].n) return &dirs[s].v[dirs[s].at++];
    errno = 0;
    return 0;
}
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) dirs[i].d = 0;
    return real(d);
}
