// Deterministic simulation runtime for RoughPy: cooperative scheduling of real
// threads at intercepted synchronisation points and instrumented memory
// accesses, a deterministic heap with fault injection, I/O fault injection,
// happens-before tracking, simulated time, and a result channel to the parent.
#pragma once
#include <cstddef>
#include <cstdint>

#define SIM_MAX_TASKS 12
#define SIM_MAX_SCHED 60000
#define SIM_MSG 16384
#define SIM_OUT (8u << 20)

// "when task `from` has passed `step` of its own yield points, run `to`"
struct SimSchedEnt {
    uint64_t step;
    uint16_t from;
    uint16_t to;
    uint32_t kind; // 1 = preemption, 2 = choice after blocking / finishing
};

enum SimStatus : uint32_t {
    SIM_ST_NONE = 0,       // child died without telling
    SIM_ST_OK = 1,
    SIM_ST_VIOLATION = 2,
    SIM_ST_CRASHPOINT = 4, // simulated process crash (expected)
    SIM_ST_ERROR = 5       // harness error
};

enum SimFaultKind {
    F_ALLOC, F_SHORT_READ, F_SHORT_WRITE, F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_OPEN,
    F_CRASH, F_TRUNCATE, F_LOST_FILE, F_CALLBACK, F_SOURCE, F_CLOSE, F_DIRTY_HEAP,
    F_EINTR, F_TIMEOUT, F_SEEK, F_RESTART, F_STALE_FILE, F_DEPTH_CTX, F_SPURIOUS_WAKE,
    F_BAD_ARG, F_SYSRES, F_CORRUPT,
    F_NKINDS
};
extern const char* const sim_fault_names[F_NKINDS];

// Lives in memory shared between the worker and the forked run.
struct SimResult {
    uint32_t status;
    char vclass[256];
    char msg[SIM_MSG];
    uint64_t pcs[16];
    uint32_t npcs;
    uint64_t hash;      // full event hash (determinism)
    uint64_t ilv_hash;  // hash of the interleaving only (order of sync events + switches)
    uint64_t steps, switches, foreign_points, sync_points;
    uint64_t allocs, live_bytes;
    uint64_t sim_time_ns;
    uint64_t faults[F_NKINDS]; // faults that actually fired
    uint64_t probes[64];
    uint64_t io_points;
    uint64_t ops_ok, ops_err;
    uint32_t nsched;
    uint32_t sched_truncated;
    uint32_t outlen;
    SimSchedEnt sched[SIM_MAX_SCHED];
    unsigned char out[SIM_OUT]; // scenario output (op results)
};

enum SimStrategy : int {
    SIM_S_SEQ = 0,    // no preemption; lowest id first
    SIM_S_RANDOM = 1, // geometric preemptions
    SIM_S_PCT = 2,    // priority based with change points
    SIM_S_REPLAY = 3  // explicit list
};

struct SimSchedCfg {
    int strategy = SIM_S_SEQ;
    uint64_t seed = 1;
    // mean gaps between preemptions at each class of yield point (0 = never)
    uint32_t gap_sync = 0, gap_foreign = 0, gap_other = 0;
    uint32_t pct_depth = 0, pct_len = 0;
    const SimSchedEnt* replay = nullptr;
    uint32_t nreplay = 0;
    uint64_t step_limit = 400000000ull;
};

struct SimHeapCfg {
    int fill = 0;  // 0 zero, 1 seeded garbage, 2 0xAA.., 3 small ints
    int reuse = 0; // 0 never, 1 fifo quarantine, 2 lifo
    uint64_t seed = 1;
};

struct SimIoCfg {
    // 1-based index of the matching I/O call at which the fault fires (0 = off)
    uint64_t short_read_at = 0, short_write_at = 0, eio_read_at = 0, eio_write_at = 0;
    uint64_t enospc_after = 0; // bytes that may still be written + 1 (0 = off)
    uint64_t open_fail_at = 0, crash_at = 0, close_fail_at = 0, eintr_at = 0, seek_fail_at = 0;
    uint64_t short_always = 0; // every transfer is cut to at most this many bytes
};

extern "C" {
void sim_begin(SimResult* res, const SimHeapCfg* heap, const char* ioprefix);
void sim_on_main_stack(void (*fn)(void*), void* arg) __attribute__((noreturn));
int sim_spawn(void (*fn)(void*), void* arg);
void sim_run(const SimSchedCfg* cfg); // run all spawned tasks to completion
void sim_finish_ok(void) __attribute__((noreturn));
void sim_violation(const char* vclass, const char* fmt, ...)
        __attribute__((noreturn, format(printf, 2, 3)));
void sim_error(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
int sim_self(void);
void sim_yield(void);
void sim_hash(uint64_t v);
void sim_probe(int i);
void sim_fault(int kind);
void sim_out(const void* p, size_t n);
void sim_arm_alloc(uint64_t nth, uint64_t len);
uint64_t sim_disarm_alloc(void); // number of allocations failed
void sim_alloc_pause(int delta);  // harness allocations are not subject to faults
uint64_t sim_alloc_fired(void);
uint64_t sim_alloc_seen(void); // allocations since arming
void sim_io_config(const SimIoCfg* cfg);
uint64_t sim_live_blocks(void);
uint64_t sim_live_bytes(void);
uint64_t sim_heap_mark(void);
uint64_t sim_heap_new_live(uint64_t mark, char* buf, size_t n);
uint64_t sim_heap_live_between(uint64_t mark, uint64_t until, char* buf, size_t n);
uint64_t sim_small_live(void);
int sim_held_locks(void);
uint64_t sim_rand(void);
void sim_env_seed(uint64_t);
SimResult* sim_result(void);
int sim_is_live_range(const void* p, size_t n); // 1 if fully inside live heap memory
uint64_t sim_now_ns(void);
uint64_t sim_my_step(void);
uint64_t sim_total_steps(void); // of all tasks so far
// run fn in a forked copy of this process (its sim_out output is kept, all other
// effects vanish); any violation in it ends the run
void sim_isolated(void (*fn)(void*), void* arg);
}

struct SimNoAllocFault {
    SimNoAllocFault() { sim_alloc_pause(1); }
    ~SimNoAllocFault() { sim_alloc_pause(-1); }
};
