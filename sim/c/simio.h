// Interface between the simulator and the simulated libc file operations (see simio.c).
#ifndef SIMIO_H
#define SIMIO_H
#include <stdint.h>

#define SIMIO_MAX_RULES 96
#define SIMIO_MAX_ROLES 24
#define SIMIO_PATH 240
#define SIMIO_LOG 8192
#define SIMIO_ESCAPES 8

enum simio_op { OP_OPEN_R = 0, OP_OPEN_W, OP_READ, OP_WRITE, OP_STAT, OP_UNLINK, OP_RENAME, OP_TRUNC, OP_CLOSE, OP_SYNC, OP_OTHER, N_OPS };
// roles 0..15: 0 = outside the scratch directory, 1 = some other file inside it
enum simio_role { ROLE_OUTSIDE = 0, ROLE_INSIDE = 1, ROLE_SPEC = 2, ROLE_INJ = 3, ROLE_RS = 4, ROLE_STATES = 5, ROLE_STDOUT = 6, ROLE_STDERR = 7, ROLE_BYSTANDER = 8, ROLE_ANY = 15, N_ROLES = 16 };
enum simio_action {
    ACT_NONE = 0,
    ACT_ERR,          // fail with errno arg
    ACT_SHORT,        // transfer at most arg bytes
    ACT_ZERO,         // transfer nothing and return 0
    ACT_KILL_BEFORE,  // the process is killed before the operation
    ACT_KILL_AFTER,   // ... after it
    ACT_PARTIAL_KILL, // write arg bytes, then the process is killed
    ACT_STOP,         // ask the controller what to do (other actors run first)
    ACT_FLIP,         // read: xor the byte at file offset (arg >> 8) with (arg & 0xff)
    N_ACTS
};

struct simio_rule {
    uint8_t op, role, action, sticky;
    uint32_t nth; // fires on the nth (from 0) operation of this class (and on all later ones if sticky)
    int64_t arg;
    uint32_t fired;
    uint32_t pad;
};
struct simio_role_ent {
    char path[SIMIO_PATH];
    uint32_t role;
    uint32_t pad;
};
struct simio_log {
    uint8_t op, role, action, managed;
    int32_t res;
};
struct simio_shm {
    uint32_t active;
    uint32_t nrules;
    uint32_t nroles;
    uint32_t max_events; // the process is killed when it performs more operations than this
    int64_t quantum;     // operations until the next scheduling stop; < 0: none
    uint64_t noise_seed; // retryable noise (EINTR, short transfers)
    uint32_t noise_eintr, noise_short; // per 65536
    uint64_t rand_seed;
    int64_t clock_s; // the simulated clock: this many seconds plus a millisecond per operation
    int64_t pid;     // the simulated process number (0: the real one)
    char root[SIMIO_PATH]; // nothing outside this directory may be changed
    struct simio_rule rules[SIMIO_MAX_RULES];
    struct simio_role_ent roles[SIMIO_MAX_ROLES];
    // results
    uint32_t nevents;
    uint32_t overrun;
    uint32_t nescapes;
    uint32_t nlog;
    uint32_t noise_eintr_fired, noise_short_fired;
    uint64_t hash;
    uint32_t counts[N_OPS][N_ROLES];
    char escapes[SIMIO_ESCAPES][SIMIO_PATH];
    struct simio_log log[SIMIO_LOG];
};
// stop request/reply
struct simio_req {
    uint32_t op, role, nth, nevents;
};
struct simio_rep {
    uint32_t action;
    uint32_t pad;
    int64_t arg;
    int64_t quantum;
};
#endif
