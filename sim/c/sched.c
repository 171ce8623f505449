// Cooperative scheduler for the threads of a simulated run: exactly one of them runs at any time and
// control changes hands only at scheduling points (instrumented basic blocks, allocations, simulated
// system calls, blocking) where the plan of the run says so.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 24

__thread int sim_managed = 0;
static __thread int self = -1;
static __thread int depth = 0; // harness code: no scheduling points

enum { FREE = 0, RUNNABLE, BLOCKED, JOINING, DONE };
struct thr {
    int state;
    uint32_t word; // parking place
    uint32_t *addr;
    int timed, timed_out;
    int joins;
    pthread_t handle;
    uint64_t since;
};
static struct thr T[MAXT];
static int nthr, cur = -1;
static pthread_key_t key;
static int key_made;


struct sched_switch {
    uint32_t gap, pick;
    uint32_t hot; // the gap counts points next to accesses to what several threads write
};
static const struct sched_switch *plan;
static uint32_t plan_len, plan_at;
static int64_t gap_left;
static uint64_t forced_seed, forced_n;
static uint64_t quantum_after;
struct sched_stats {
    uint64_t points, max_points, switches, forced, timeouts, wakes, blocks, hash, threads, created, shared, hot;
} sched_stats;
static uint64_t live;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void leave(int code, const char *why) {
    raw6(SYS_write, 2, (long)why, strlen(why), 0, 0, 0);
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
}
static uint64_t mixu(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

static void park(int me) {
    while (!__atomic_load_n(&T[me].word, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&T[me].word, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&T[me].word, 0, __ATOMIC_RELEASE);
}
static void hand_to(int t) {
    cur = t;
    __atomic_store_n(&T[t].word, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&T[t].word, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int candidates(int *v, int except) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (i != except && T[i].state == RUNNABLE) v[n++] = i;
    return n;
}
static int hot_gap;      // the current gap counts hot points
static int64_t patience; // ordinary points after which a hot gap ends anyway
static int hot_left;     // further points that are hot
static void next_gap(void) {
    hot_gap = 0;
    if (plan_at < plan_len) {
        gap_left = 1 + (int64_t)plan[plan_at].gap;
        hot_gap = plan[plan_at].hot != 0;
        patience = 500;
    } else
        gap_left = (int64_t)quantum_after;
}
extern char __executable_start, __data_start, end;

static void preempt(uintptr_t pc) {
    uint32_t pick = plan_at < plan_len ? plan[plan_at].pick : 0;
    int turn = plan_at >= plan_len;
    if (plan_at < plan_len) plan_at++;
    next_gap();
    int v[MAXT], n = candidates(v, self);
    if (!n) return;
    int t;
    if (turn) { // the plan is used up: fair turns
        t = v[0];
        for (int i = 0; i < n; i++)
            if (v[i] > self) {
                t = v[i];
                break;
            }
    } else
        t = v[pick % (uint32_t)n];
    sched_stats.switches++;
    uint64_t at = pc ? pc - (uintptr_t)&__executable_start : 0;
    sched_stats.hash = mixu(sched_stats.hash, ((uint64_t)self << 56) ^ ((uint64_t)t << 48) ^ at);
    int me = self;
    hand_to(t);
    park(me);
}
static inline void point(uintptr_t pc) {
    if (!sim_managed || depth) return;
    if (++sched_stats.points > sched_stats.max_points) leave(97, "step budget of the run exceeded\n");
    int hot = hot_left > 0;
    if (hot) {
        hot_left--;
        sched_stats.hot++;
    }
    if (hot_gap && !hot && --patience > 0) return;
    if (--gap_left <= 0) preempt(pc);
}
void sched_point(void) { point((uintptr_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_pc(void) { point((uintptr_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }

// The heap. Its blocks are at the same addresses in every execution of a run: each simulated thread
// has its own part, the last one is for everything else.
#define ARENA 0x100000000000ull
#define PART (1ull << 28)
#define SHADOW (ARENA + MAXT * PART)
#define CLASSES 16 // 16 bytes .. 512 KB
static int arena_made;
static uint64_t part_used[MAXT];
static void *spare[MAXT][CLASSES];
static int outside_lock;
static uint8_t *data_shadow;
static uint64_t data_size;
static void make_arena(void) {
    void *p = mmap((void *)ARENA, MAXT * PART + MAXT * PART / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    data_size = (uint64_t)(&end - &__data_start);
    data_shadow = mmap(0, data_size / 8 + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena_made = p == (void *)ARENA && data_shadow != MAP_FAILED ? 1 : -1;
}
static int class_of(size_t n) { return n <= 16 ? 0 : 60 - __builtin_clzll(n - 1); }
static int part_begin(void) {
    if (sim_managed) return self;
    while (__atomic_exchange_n(&outside_lock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return MAXT - 1;
}
static void part_end(int t) {
    if (t == MAXT - 1) __atomic_store_n(&outside_lock, 0, __ATOMIC_RELEASE);
}
void *sched_alloc(size_t n, size_t align) {
    if (n > (16ul << (CLASSES - 1)) || align > 16) return 0;
    int c = class_of(n), t = part_begin();
    if (!arena_made) make_arena();
    void *p = spare[t][c];
    size_t size = 16ul << c;
    if (p)
        spare[t][c] = *(void **)p;
    else if (arena_made > 0 && part_used[t] + size <= PART) {
        p = (void *)(ARENA + (uint64_t)t * PART + part_used[t]);
        part_used[t] += size;
    }
    part_end(t);
    return p;
}
int sched_owns(void *p) { return (uint64_t)p - ARENA < MAXT * PART; }
size_t sched_room(size_t n) { return 16ul << class_of(n); }
void sched_free(void *p, size_t n) {
    int c = class_of(n), t = part_begin();
    *(void **)p = spare[t][c];
    spare[t][c] = p;
    part_end(t);
}

// Which memory is written by several threads: per word the last one that wrote it
static inline void access_to(uint64_t a, int store) {
    if (!sim_managed || depth) return;
    uint8_t *s;
    if (a - ARENA < MAXT * PART)
        s = (uint8_t *)(SHADOW + ((a - ARENA) >> 3));
    else if (a - (uint64_t)&__data_start < data_size)
        s = data_shadow + ((a - (uint64_t)&__data_start) >> 3);
    else
        return;
    uint8_t v = *s;
    if (store && (v & 0x7f) != self + 1) *s = v = (uint8_t)(v ? 0x80 | (self + 1) : self + 1);
    if (v & 0x80) {
        sched_stats.shared++;
        hot_left = 3;
    }
}
#define ACCESS(n) \
    void __sanitizer_cov_load##n(void *p) { access_to((uint64_t)p, 0); } \
    void __sanitizer_cov_store##n(void *p) { access_to((uint64_t)p, 1); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

// The current thread can't go on
static void switch_away(void) {
    int me = self, v[MAXT];
    int n = candidates(v, -1);
    if (!n) {
        // time passes: the wait with a time limit that began first ends
        int best = -1;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == BLOCKED && T[i].timed && (best < 0 || T[i].since < T[best].since)) best = i;
        if (best >= 0) {
            T[best].timed_out = 1;
            T[best].state = RUNNABLE;
            sched_stats.timeouts++;
            v[n++] = best;
        }
    }
    if (!n) {
        if (T[me].state == DONE) return;
        leave(96, "every thread of the run is blocked\n");
    }
    uint64_t k = forced_seed ? mixu(forced_seed, ++forced_n) : 0;
    int t = v[k % (uint64_t)n];
    sched_stats.forced++;
    sched_stats.hash = mixu(sched_stats.hash, ((uint64_t)(me + 100) << 56) ^ (uint64_t)t);
    if (t == me) {
        cur = me;
        return;
    }
    hand_to(t);
    if (T[me].state != DONE) park(me);
}

static void ended(void *p) {
    int me = (int)(intptr_t)p - 1;
    if (me < 0 || me != self) return;
    depth = 1;
    T[me].state = DONE;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == JOINING && T[i].joins == me) T[i].state = RUNNABLE;
    switch_away();
    sim_managed = 0;
    self = -1;
    __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
}
static int enrol(void) {
    if (nthr >= MAXT) leave(98, "too many threads\n");
    int i = nthr++;
    memset(&T[i], 0, sizeof T[i]);
    T[i].state = RUNNABLE;
    __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST);
    if (i) sched_stats.created++;
    return i;
}

// Called before a run by the (unmanaged) thread that starts it
void sched_reset(const struct sched_switch *p, uint32_t n, uint64_t forced, uint64_t quantum, uint64_t max_points) {
    if (!key_made) {
        pthread_key_create(&key, ended);
        key_made = 1;
    }
    memset(T, 0, sizeof T);
    nthr = 0;
    plan = p;
    plan_len = n;
    plan_at = 0;
    forced_seed = forced;
    forced_n = 0;
    quantum_after = quantum ? quantum : 50000;
    memset(&sched_stats, 0, sizeof sched_stats);
    sched_stats.max_points = max_points;
    live = 0;
    hot_left = 0;
    if (!arena_made) make_arena();
    if (arena_made > 0) {
        for (int t = 0; t < MAXT; t++)
            if (part_used[t]) memset((void *)(SHADOW + t * PART / 8), 0, part_used[t] / 8);
        memset(data_shadow, 0, data_size / 8 + 1);
    }
    next_gap();
}
// Called by the first thread of the run
void sched_enter(void) {
    self = enrol();
    cur = self;
    depth = 0;
    pthread_setspecific(key, (void *)(intptr_t)(self + 1));
    sim_managed = 1;
}
uint64_t sched_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
int sched_self(void) { return self; }
// harness code within a run
void sched_quiet(int d) { depth += d; }
int sched_depth(void) { return depth; }

struct begin {
    void *(*f)(void *);
    void *arg;
    int id;
};
static void *begin(void *p) {
    struct begin b = *(struct begin *)p;
    raw6(SYS_munmap, (long)p, 4096, 0, 0, 0, 0);
    self = b.id;
    depth = 0;
    pthread_setspecific(key, (void *)(intptr_t)(self + 1));
    park(self);
    sim_managed = 1;
    return b.f(b.arg);
}
typedef int create_fn(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int join_fn(pthread_t, void **);

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    static create_fn *real;
    if (!real) real = (create_fn *)dlsym(RTLD_NEXT, "pthread_create");
    if (!sim_managed) return real(t, a, f, arg);
    point(0);
    long p = raw6(SYS_mmap, 0, 4096, 3, 0x22, -1, 0);
    struct begin *b = (struct begin *)p;
    b->f = f;
    b->arg = arg;
    b->id = enrol();
    int id = b->id;
    int r = real(t, a, begin, b);
    if (r) {
        T[id].state = DONE;
        __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
    } else
        T[id].handle = *t;
    point(0);
    return r;
}
int pthread_join(pthread_t t, void **ret) {
    static join_fn *real;
    if (!real) real = (join_fn *)dlsym(RTLD_NEXT, "pthread_join");
    if (sim_managed) {
        for (int i = 0; i < nthr; i++)
            if (i != self && T[i].state != FREE && T[i].handle && pthread_equal(T[i].handle, t)) {
                while (T[i].state != DONE) {
                    T[self].state = JOINING;
                    T[self].joins = i;
                    switch_away();
                }
                T[i].handle = 0;
                break;
            }
    }
    return real(t, ret);
}

static long fail(long e) {
    errno = (int)e;
    return -1;
}
static long futex(uint32_t *addr, int op, uint32_t val, long timeout, long e, long f) {
    int o = op & FUTEX_CMD_MASK;
    if (o == FUTEX_WAIT || o == FUTEX_WAIT_BITSET) {
        point(0);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return fail(EAGAIN);
        struct thr *m = &T[self];
        m->state = BLOCKED;
        m->addr = addr;
        m->timed = timeout != 0;
        m->timed_out = 0;
        m->since = ++sched_stats.blocks;
        switch_away();
        m->addr = 0;
        if (m->timed_out) {
            m->timed_out = 0;
            return fail(ETIMEDOUT);
        }
        return 0;
    }
    if (o == FUTEX_WAKE || o == FUTEX_WAKE_BITSET) {
        long n = 0;
        while (n < (long)val) {
            int best = -1;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == BLOCKED && T[i].addr == addr && (best < 0 || T[i].since < T[best].since)) best = i;
            if (best < 0) break;
            T[best].state = RUNNABLE;
            sched_stats.wakes++;
            n++;
        }
        raw6(SYS_futex, (long)addr, op, val, timeout, e, f);
        point(0);
        return n;
    }
    long r = raw6(SYS_futex, (long)addr, op, val, timeout, e, f);
    return r < 0 && r > -4096 ? fail(-r) : r;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sim_managed) return futex((uint32_t *)a, (int)b, (uint32_t)c, d, e, f);
    long r = raw6(n, a, b, c, d, e, f);
    return r < 0 && r > -4096 ? fail(-r) : r;
}
int sched_yield(void) {
    if (sim_managed && !depth) {
        if (++sched_stats.points > sched_stats.max_points) leave(97, "step budget of the run exceeded\n");
        preempt(0);
        return 0;
    }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    if (sim_managed) {
        sched_yield();
        return 0;
    }
    return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (sim_managed) {
        sched_yield();
        return 0;
    }
    long r = raw6(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0);
    return r < 0 ? (int)fail(-r) : 0;
}
