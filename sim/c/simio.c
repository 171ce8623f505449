// Simulated file operations.
//
// Compiled as a shared object this is preloaded into generator processes; compiled with
// -DSIMIO_STATIC it is linked into the simulators and governs the threads they manage. All decisions
// come from the control block (struct simio_shm), i.e. from the plan of the run. The store is a real
// (scratch) directory reached by raw system calls.
#define _GNU_SOURCE
#include "simio.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
#define RAW3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define RAW4(n, a, b, c, d) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define RAW5(n, a, b, c, d, e) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)

static struct simio_shm *S;
static int rpc_fd = -1;
static char cwd[SIMIO_PATH * 2];
static uint8_t fd_role[1024];
static uint64_t fd_off[1024];

#ifdef SIMIO_STATIC
// set for the threads that take part in a simulation
extern __thread int sim_managed;
extern void sched_point(void);
extern int sched_depth(void);
static int on(void) { return S && S->active && sim_managed && !sched_depth(); }
#else
static void sched_point(void) {}
static int on(void) { return S && S->active; }
#endif

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static void die(void) {
    raw6(SYS_kill, RAW3(SYS_getpid, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

static void setup_fds(void) {
    fd_role[1] = ROLE_STDOUT;
    fd_role[2] = ROLE_STDERR;
    long n = RAW3(SYS_getcwd, cwd, sizeof cwd - 1, 0);
    if (n <= 0) cwd[0] = 0;
}

#ifdef SIMIO_STATIC
void simio_attach(struct simio_shm *shm) {
    S = shm;
    memset(fd_role, 0, sizeof fd_role);
    setup_fds();
}
#else
__attribute__((constructor)) static void init(void) {
    const char *path = getenv("SIMIO_SHM"), *fd = getenv("SIMIO_FD");
    if (!path) return;
    long f = RAW4(SYS_openat, AT_FDCWD, path, O_RDWR | O_CLOEXEC, 0);
    if (f < 0) return;
    long m = raw6(SYS_mmap, 0, sizeof(struct simio_shm), PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
    RAW3(SYS_close, f, 0, 0);
    if (m < 0 && m > -4096) return;
    S = (struct simio_shm *)m;
    if (fd) rpc_fd = atoi(fd);
    setup_fds();
}
#endif

static void norm(const char *path, char *out) {
    char tmp[SIMIO_PATH * 4];
    size_t n = 0;
    if (path[0] != '/') {
        size_t l = strlen(cwd);
        memcpy(tmp, cwd, l);
        n = l;
        tmp[n++] = '/';
    }
    size_t l = strlen(path);
    if (n + l >= sizeof tmp) l = sizeof tmp - n - 1;
    memcpy(tmp + n, path, l);
    tmp[n + l] = 0;
    size_t o = 0;
    const char *p = tmp;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char *q = p;
        while (*q && *q != '/') q++;
        size_t len = q - p;
        if (len == 1 && p[0] == '.') {
        } else if (len == 2 && p[0] == '.' && p[1] == '.') {
            while (o > 0 && out[o - 1] != '/') o--;
            if (o > 0) o--;
        } else if (o + len + 2 < SIMIO_PATH) {
            out[o++] = '/';
            memcpy(out + o, p, len);
            o += len;
        }
        p = q;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
}

static int role_of(const char *path, char *n) {
    norm(path, n);
    for (uint32_t i = 0; i < S->nroles; i++)
        if (!strcmp(S->roles[i].path, n)) return (int)S->roles[i].role;
    size_t l = strlen(S->root);
    if (l && !strncmp(n, S->root, l) && (n[l] == '/' || n[l] == 0)) return ROLE_INSIDE;
    return ROLE_OUTSIDE;
}

static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

struct dec {
    int action;
    int64_t arg;
};

static void logres(int op, int role, int action, long res) {
    int32_t r = (int32_t)res;
    S->hash = mix(S->hash, ((uint64_t)op << 48) | ((uint64_t)role << 40) | ((uint64_t)action << 32) | (uint32_t)r);
    if (S->nlog < SIMIO_LOG) {
        struct simio_log *l = &S->log[S->nlog++];
        l->op = op;
        l->role = role;
        l->action = action;
        l->res = r;
    }
}

static struct dec ask(int op, int role, uint32_t nth) {
    struct dec d = {0, 0};
    if (rpc_fd < 0) return d;
    struct simio_req q = {op, role, nth, S->nevents};
    if (RAW3(SYS_write, rpc_fd, &q, sizeof q) != sizeof q) die();
    struct simio_rep p;
    if (RAW3(SYS_read, rpc_fd, &p, sizeof p) != sizeof p) die();
    d.action = p.action;
    d.arg = p.arg;
    S->quantum = p.quantum;
    return d;
}

static uint64_t noise(void) {
    uint64_t z = (S->noise_seed += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// Decide what happens to the operation that is about to be performed
static struct dec decide(int op, int role, long count) {
    struct dec d = {0, 0};
    sched_point();
    uint32_t nth = S->counts[op][role]++;
    S->nevents++;
    if (S->max_events && S->nevents > S->max_events) {
        S->overrun = 1;
#ifdef SIMIO_STATIC
        RAW3(SYS_exit_group, 97, 0, 0);
#endif
        die();
    }
    int stop = 0;
    struct simio_rule *by = 0;
    if (S->quantum >= 0 && S->quantum-- == 0) stop = 1;
    for (uint32_t i = 0; i < S->nrules; i++) {
        struct simio_rule *r = &S->rules[i];
        if (r->op != op || (r->role != role && r->role != ROLE_ANY)) continue;
        uint32_t n = nth;
        if (r->role == ROLE_ANY) {
            n = 0;
            for (int k = 0; k < N_ROLES; k++) n += S->counts[op][k];
            n--;
        }
        if (r->action == ACT_FLIP) continue;
        if (n == r->nth || (r->sticky && n > r->nth)) {
            // several rules: an outright failure wins over a short transfer
            if (r->action == ACT_STOP) {
                r->fired++;
                stop = 1;
            } else if (!d.action || (d.action == ACT_SHORT && r->action != ACT_SHORT)) {
                if (by) by->fired--;
                by = r;
                r->fired++;
                d.action = r->action;
                d.arg = r->arg;
            }
        }
    }
    if (stop) {
        struct dec e = ask(op, role, nth);
        if (e.action) {
            if (by) by->fired--;
            d = e;
        }
    }
    if (!d.action && (op == OP_READ || op == OP_WRITE || op == OP_OPEN_R || op == OP_OPEN_W)) {
        if (S->noise_eintr && (noise() & 0xffff) < S->noise_eintr) {
            d.action = ACT_ERR;
            d.arg = EINTR;
            S->noise_eintr_fired++;
        } else if (S->noise_short && (op == OP_READ || op == OP_WRITE) && count > 1 && (noise() & 0xffff) < (S->noise_short & 0xffff)) {
            d.action = ACT_SHORT;
            // above the rate: the most that is transferred at once (0: any)
            uint64_t most = S->noise_short >> 16;
            if (!most || most > (uint64_t)count - 1) most = count < 4096 ? count - 1 : 4095;
            d.arg = 1 + (int64_t)(noise() % most);
            S->noise_short_fired++;
        }
    }
    if (d.action == ACT_KILL_BEFORE) {
        logres(op, role, d.action, 0);
        die();
    }
    return d;
}

// For operations without a transfer: 1 if it must fail (errno in *e)
static int simple(int op, int role, struct dec *d) {
    *d = decide(op, role, 0);
    return d->action == ACT_ERR;
}

static long finish(int op, int role, struct dec d, long r) {
    logres(op, role, d.action, r);
    if (d.action == ACT_KILL_AFTER) die();
    return ret(r);
}

static void escape(const char *n) {
    uint32_t i = S->nescapes++;
    if (i < SIMIO_ESCAPES) {
        strncpy(S->escapes[i], n, SIMIO_PATH - 1);
    }
}

static int writable_outside(const char *n) { return !strcmp(n, "/dev/null") || !strcmp(n, "/dev/tty"); }

static long do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!on() || !path) return ret(RAW4(SYS_openat, dirfd, path, flags, mode));
    int role;
    char n[SIMIO_PATH];
    if (dirfd == AT_FDCWD || path[0] == '/')
        role = role_of(path, n);
    else {
        role = ROLE_INSIDE;
        n[0] = 0;
    }
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (role == ROLE_OUTSIDE) {
        if (w && !writable_outside(n)) {
            escape(n);
            return ret(-EACCES);
        }
        return ret(RAW4(SYS_openat, dirfd, path, flags, mode));
    }
    int op = w ? OP_OPEN_W : OP_OPEN_R;
    struct dec d = decide(op, role, 0);
    if (d.action == ACT_ERR) return finish(op, role, d, -d.arg);
    long r = RAW4(SYS_openat, dirfd, path, flags, mode);
    if (r >= 0 && r < 1024) {
        fd_role[r] = role;
        fd_off[r] = 0;
    }
    // a new descriptor's number is not part of the history
    logres(op, role, d.action, r >= 0 ? 0 : r);
    if (d.action == ACT_KILL_AFTER) die();
    return ret(r);
}

#define MODE_ARG(flags)                                                                            \
    mode_t mode = 0;                                                                               \
    if ((flags) & (O_CREAT | O_TMPFILE)) {                                                         \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode = va_arg(ap, mode_t);                                                                 \
        va_end(ap);                                                                                \
    }
int open(const char *path, int flags, ...) {
    MODE_ARG(flags)
    return (int)do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    MODE_ARG(flags)
    return (int)do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...) {
    MODE_ARG(flags)
    return (int)do_open(dirfd, path, flags, mode);
}
int openat64(int dirfd, const char *path, int flags, ...) {
    MODE_ARG(flags)
    return (int)do_open(dirfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return (int)do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return (int)do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int role_fd(int fd) { return fd >= 0 && fd < 1024 ? fd_role[fd] : 0; }

static void flips(int role, char *buf, uint64_t off, long n) {
    for (uint32_t i = 0; i < S->nrules; i++) {
        struct simio_rule *r = &S->rules[i];
        if (r->action != ACT_FLIP || r->role != role) continue;
        uint64_t at = (uint64_t)r->arg >> 8;
        if (at >= off && at < off + (uint64_t)n) {
            buf[at - off] ^= (char)(r->arg & 0xff);
            r->fired++;
        }
    }
}

static long do_read(int fd, void *buf, size_t count, off_t off, int positioned) {
    int role = on() ? role_fd(fd) : 0;
    if (!role)
        return ret(positioned ? RAW4(SYS_pread64, fd, buf, count, off) : RAW3(SYS_read, fd, buf, count));
    struct dec d = decide(OP_READ, role, (long)count);
    if (d.action == ACT_ERR) return finish(OP_READ, role, d, -d.arg);
    if (d.action == ACT_ZERO) return finish(OP_READ, role, d, 0);
    size_t n = count;
    if (d.action == ACT_SHORT && n > (size_t)d.arg) n = (size_t)(d.arg > 0 ? d.arg : 1);
    long r = positioned ? RAW4(SYS_pread64, fd, buf, n, off) : RAW3(SYS_read, fd, buf, n);
    if (r > 0) {
        uint64_t at = positioned ? (uint64_t)off : fd_off[fd];
        flips(role, buf, at, r);
        if (!positioned) fd_off[fd] += r;
    }
    return finish(OP_READ, role, d, r);
}
static long do_write(int fd, const void *buf, size_t count, off_t off, int positioned) {
    int role = on() ? role_fd(fd) : 0;
    if (!role)
        return ret(positioned ? RAW4(SYS_pwrite64, fd, buf, count, off) : RAW3(SYS_write, fd, buf, count));
    struct dec d = decide(OP_WRITE, role, (long)count);
    if (d.action == ACT_ERR) return finish(OP_WRITE, role, d, -d.arg);
    if (d.action == ACT_ZERO) return finish(OP_WRITE, role, d, 0);
    size_t n = count;
    if (d.action == ACT_SHORT && n > (size_t)d.arg) n = (size_t)(d.arg > 0 ? d.arg : 1);
    if (d.action == ACT_PARTIAL_KILL && n > (size_t)d.arg) n = (size_t)d.arg;
    long r = positioned ? RAW4(SYS_pwrite64, fd, buf, n, off) : RAW3(SYS_write, fd, buf, n);
    if (d.action == ACT_PARTIAL_KILL) {
        logres(OP_WRITE, role, d.action, r);
        die();
    }
    return finish(OP_WRITE, role, d, r);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on() || !role_fd(fd)) return ret(RAW3(SYS_readv, fd, v, c));
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on() || !role_fd(fd)) return ret(RAW3(SYS_writev, fd, v, c));
    // one simulated write of the gathered bytes
    size_t total = 0;
    static __thread char buf[1 << 16];
    for (int i = 0; i < c; i++) {
        size_t l = v[i].iov_len;
        if (total + l > sizeof buf) l = sizeof buf - total;
        memcpy(buf + total, v[i].iov_base, l);
        total += l;
    }
    if (!total) return 0;
    return do_write(fd, buf, total, 0, 0);
}
off_t lseek(int fd, off_t o, int w) {
    long r = RAW3(SYS_lseek, fd, o, w);
    if (r >= 0 && fd >= 0 && fd < 1024) fd_off[fd] = r;
    return ret(r);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
    int role = on() ? role_fd(fd) : 0;
    if (role && role != ROLE_STDOUT && role != ROLE_STDERR) {
        struct dec d = decide(OP_CLOSE, role, 0);
        fd_role[fd] = 0;
        long r = RAW3(SYS_close, fd, 0, 0);
        return (int)finish(OP_CLOSE, role, d, r);
    }
    if (fd >= 0 && fd < 1024 && fd > 2) fd_role[fd] = 0;
    return (int)ret(RAW3(SYS_close, fd, 0, 0));
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    long r = RAW3(SYS_fcntl, fd, cmd, a);
    if (r >= 0 && r < 1024 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) fd_role[r] = role_fd(fd);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl64(fd, cmd, a);
}

// existence and status queries by path
static int path_stat(int dirfd, const char *path, int *role, struct dec *d) {
    *role = 0;
    if (!on() || !path || !path[0] || (dirfd != AT_FDCWD && path[0] != '/')) return 0;
    char n[SIMIO_PATH];
    *role = role_of(path, n);
    if (!*role) return 0;
    return simple(OP_STAT, *role, d);
}
#define STATLIKE(dirfd, path, call)                                                                \
    int role;                                                                                      \
    struct dec d = {0, 0};                                                                         \
    if (path_stat(dirfd, path, &role, &d)) return (int)finish(OP_STAT, role, d, -d.arg);           \
    long r = call;                                                                                 \
    return (int)(role ? finish(OP_STAT, role, d, r) : ret(r));
int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
    STATLIKE(dirfd, path, RAW5(SYS_statx, dirfd, path, flags, mask, buf))
}
int stat64(const char *restrict path, struct stat64 *restrict buf) {
    STATLIKE(AT_FDCWD, path, RAW4(SYS_newfstatat, AT_FDCWD, path, buf, 0))
}
int lstat64(const char *restrict path, struct stat64 *restrict buf) {
    STATLIKE(AT_FDCWD, path, RAW4(SYS_newfstatat, AT_FDCWD, path, buf, AT_SYMLINK_NOFOLLOW))
}
int stat(const char *restrict path, struct stat *restrict buf) {
    STATLIKE(AT_FDCWD, path, RAW4(SYS_newfstatat, AT_FDCWD, path, buf, 0))
}
int lstat(const char *restrict path, struct stat *restrict buf) {
    STATLIKE(AT_FDCWD, path, RAW4(SYS_newfstatat, AT_FDCWD, path, buf, AT_SYMLINK_NOFOLLOW))
}
int fstatat64(int dirfd, const char *restrict path, struct stat64 *restrict buf, int flags) {
    STATLIKE(dirfd, path, RAW4(SYS_newfstatat, dirfd, path, buf, flags))
}
int fstatat(int dirfd, const char *restrict path, struct stat *restrict buf, int flags) {
    STATLIKE(dirfd, path, RAW4(SYS_newfstatat, dirfd, path, buf, flags))
}
int access(const char *path, int mode) { STATLIKE(AT_FDCWD, path, RAW4(SYS_faccessat, AT_FDCWD, path, mode, 0)) }
int faccessat(int dirfd, const char *path, int mode, int flags) {
    STATLIKE(dirfd, path, RAW4(SYS_faccessat, dirfd, path, mode, flags))
}

// operations that change the directory
static int change(int op, const char *path, int *role, struct dec *d, long *r) {
    *role = 0;
    if (!on() || !path) return 0;
    char n[SIMIO_PATH];
    *role = role_of(path, n);
    if (!*role) {
        escape(n);
        *r = -EACCES;
        return 1;
    }
    if (simple(op, *role, d)) {
        *r = -d->arg;
        return 1;
    }
    return 0;
}
#define CHANGELIKE(op, path, call)                                                                 \
    int role;                                                                                      \
    long r;                                                                                        \
    struct dec d = {0, 0};                                                                         \
    if (!change(op, path, &role, &d, &r)) r = call;                                                \
    return (int)(role ? finish(op, role, d, r) : ret(r));
int unlink(const char *path) { CHANGELIKE(OP_UNLINK, path, RAW3(SYS_unlink, path, 0, 0)) }
int unlinkat(int dirfd, const char *path, int flags) { CHANGELIKE(OP_UNLINK, path, RAW3(SYS_unlinkat, dirfd, path, flags)) }
int rmdir(const char *path) { CHANGELIKE(OP_OTHER, path, RAW3(SYS_rmdir, path, 0, 0)) }
int mkdir(const char *path, mode_t m) { CHANGELIKE(OP_OTHER, path, RAW3(SYS_mkdir, path, m, 0)) }
int truncate(const char *path, off_t l) { CHANGELIKE(OP_TRUNC, path, RAW3(SYS_truncate, path, l, 0)) }
int truncate64(const char *path, off64_t l) { CHANGELIKE(OP_TRUNC, path, RAW3(SYS_truncate, path, l, 0)) }
int chmod(const char *path, mode_t m) { CHANGELIKE(OP_OTHER, path, RAW3(SYS_chmod, path, m, 0)) }
int symlink(const char *t, const char *path) { CHANGELIKE(OP_OTHER, path, RAW3(SYS_symlink, t, path, 0)) }
static int rename_check(const char *a, const char *b, int *role, struct dec *d, long *r) {
    char n[SIMIO_PATH];
    if (!on()) {
        *role = 0;
        return 0;
    }
    if (!role_of(a, n)) {
        escape(n);
        *role = 0;
        *r = -EACCES;
        return 1;
    }
    return change(OP_RENAME, b, role, d, r);
}
#define RENAMELIKE(a, b, call)                                                                     \
    int role;                                                                                      \
    long r;                                                                                        \
    struct dec d = {0, 0};                                                                         \
    if (!rename_check(a, b, &role, &d, &r)) r = call;                                              \
    return (int)(role ? finish(OP_RENAME, role, d, r) : ret(r));
int rename(const char *a, const char *b) { RENAMELIKE(a, b, RAW3(SYS_rename, a, b, 0)) }
int renameat(int da, const char *a, int db, const char *b) { RENAMELIKE(a, b, RAW4(SYS_renameat, da, a, db, b)) }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { RENAMELIKE(a, b, RAW5(SYS_renameat2, da, a, db, b, f)) }
int link(const char *a, const char *b) { RENAMELIKE(a, b, RAW3(SYS_link, a, b, 0)) }
int linkat(int da, const char *a, int db, const char *b, int f) { RENAMELIKE(a, b, RAW5(SYS_linkat, da, a, db, b, f)) }

#define FDLIKE(op, fd, call)                                                                       \
    int role = on() ? role_fd(fd) : 0;                                                             \
    struct dec d = {0, 0};                                                                         \
    if (!role) return (int)ret(call);                                                              \
    if (simple(op, role, &d)) return (int)finish(op, role, d, -d.arg);                             \
    return (int)finish(op, role, d, call);
int ftruncate(int fd, off_t l) { FDLIKE(OP_TRUNC, fd, RAW3(SYS_ftruncate, fd, l, 0)) }
int ftruncate64(int fd, off64_t l) { FDLIKE(OP_TRUNC, fd, RAW3(SYS_ftruncate, fd, l, 0)) }
int fsync(int fd) { FDLIKE(OP_SYNC, fd, RAW3(SYS_fsync, fd, 0, 0)) }
int fdatasync(int fd) { FDLIKE(OP_SYNC, fd, RAW3(SYS_fdatasync, fd, 0, 0)) }
int fchmod(int fd, mode_t m) { FDLIKE(OP_OTHER, fd, RAW3(SYS_fchmod, fd, m, 0)) }

// zero copy paths are reported as unsupported so that everything goes through read and write
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (on()) {
        errno = ENOSYS;
        return -1;
    }
    return ret(raw6(SYS_copy_file_range, a, (long)b, c, (long)d, e, f));
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    if (on()) {
        errno = EINVAL;
        return -1;
    }
    return ret(RAW4(SYS_sendfile, a, b, c, d));
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!on()) return ret(RAW3(SYS_getrandom, buf, n, flags));
    uint64_t z = S->rand_seed;
    for (size_t i = 0; i < n; i++) {
        z = mix(z, i + 1);
        ((char *)buf)[i] = (char)z;
    }
    S->rand_seed = z;
    return (ssize_t)n;
}

pid_t getpid(void) { return on() && S->pid ? (pid_t)S->pid : (pid_t)RAW3(SYS_getpid, 0, 0, 0); }
#ifndef SIMIO_STATIC
pid_t gettid(void) { return on() && S->pid ? (pid_t)S->pid : (pid_t)RAW3(SYS_gettid, 0, 0, 0); }
#endif

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return (int)ret(RAW3(SYS_clock_gettime, c, t, 0));
    uint64_t ms = S->nevents;
    t->tv_sec = S->clock_s + (time_t)(ms / 1000);
    t->tv_nsec = (long)(ms % 1000) * 1000000;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    if (t) {
        t->tv_sec = s.tv_sec;
        t->tv_usec = s.tv_nsec / 1000;
    }
    (void)z;
    return r;
}
time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
