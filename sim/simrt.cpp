// See simrt.h. This file is compiled WITHOUT instrumentation.
#include "simrt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <execinfo.h>
#define HOT __attribute__((hot))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define CALLER ((uintptr_t) __builtin_return_address(0))

const char* const sim_fault_names[F_NKINDS]
        = {"failed_allocation",   "short_read",        "short_write",       "read_error",
           "write_error",         "disk_full",         "open_error",        "process_crash",
           "truncated_data",      "lost_file",         "callback_exception", "source_exception",
           "close_error",         "dirty_heap",        "eintr",             "timeout",
           "seek_error",          "process_restart",   "stale_file",        "depth_context_switch",
           "spurious_wakeup",     "bad_argument",      "system_resource",   "corrupt_data"};

// ---------------------------------------------------------------- constants
static constexpr uintptr_t ARENA = 0x200000000000ull;
static constexpr size_t ARENA_SZ = 1ull << 30;
static constexpr uintptr_t POISON = 0x210000000000ull; // 1 byte / 8 bytes of arena
static constexpr uintptr_t RACE = 0x220000000000ull;   // 64 bytes / 8 bytes of arena
static constexpr uintptr_t GRACE = 0x240000000000ull;  // same for exe globals
static constexpr uintptr_t SYNCBM = 0x250000000000ull; // 1 bit / 8 bytes of arena
static constexpr uintptr_t STACKS = 0x300000000000ull;
static constexpr size_t STACK_SZ = 8u << 20;

enum : uint8_t { P_OK = 0, P_UNALLOC = 0xf0, P_FREED = 0xfd, P_REDZONE = 0xfa, P_SFREED = 0xfc };

extern "C" char __executable_start, end, __data_start;

// ---------------------------------------------------------------- state
struct Task {
    int id;
    int state; // 0 unused 1 ready 2 blocked 3 done
    uint32_t futex;
    uint32_t vc[SIM_MAX_TASKS];
    uint32_t acq_pending[SIM_MAX_TASKS];
    uint32_t rel_fence[SIM_MAX_TASKS];
    bool has_acq_pending, has_rel_fence;
    uint64_t step; // own yield points
    uint64_t next_sync, next_foreign, next_other;
    int prio;
    // blocking
    uintptr_t wait_addr;
    int wait_kind; // 1 mutex 2 cond 3 guard 4 join 5 sem 6 once 7 rwlock 8 sleep
    uintptr_t wait_pc;
    bool timed;
    uint64_t deadline;
    bool timed_out, signalled;
    void (*fn)(void*);
    void* arg;
    pthread_t th;
    int held; // locks held
    // allocation faults
    int64_t arm_nth, arm_len;
    uint64_t arm_seen, arm_fired;
    bool armed;
    int arm_pause;
    int nocheck; // inside the real small-object allocator
    bool foreign_thread; // created through pthread_create
    void* (*pfn)(void*);
    void* pret;
    bool detached;
};

static Task g_tasks[SIM_MAX_TASKS];
static int g_ntasks = 1;
static int g_cur = 0;
static bool g_child = false; // after sim_begin
static bool g_conc = false;  // scheduler running (more than one task may exist)
static bool g_arena_ready = false;
static SimResult* R = nullptr;
static SimSchedCfg g_cfg;
static uint64_t g_rng;
static uint64_t g_envrng = 88172645463325252ull;
static uint64_t g_now = 1700000000000000000ull;
static uint32_t g_replay_pos = 0;
static uint64_t g_total_steps = 0;
static uint64_t g_pct_points[64];
static int g_pct_n = 0, g_pct_i = 0;
static uint64_t g_pct_count = 0;
static int g_pct_low = 0;
static __thread bool t_is_task = false;
static bool g_dying = false;

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
static inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t srng() { return splitmix(g_rng); }
static inline uint64_t geo(uint32_t mean)
{
    if (mean == 0) return ~0ull >> 1;
    if (mean == 1) return 1;
    // uniform in [1, 2*mean-1]: same mean, simple, integer
    return 1 + srng() % (2ull * mean - 1);
}

// ---------------------------------------------------------------- dying
static void die(uint32_t st) __attribute__((noreturn));
static void die(uint32_t st)
{
    g_dying = true;
    if (R) {
        R->status = st;
        R->steps = g_total_steps;
        R->sim_time_ns = g_now - 1700000000000000000ull;
    }
    syscall(SYS_exit_group, st == SIM_ST_OK ? 0 : 40 + (int) st);
    __builtin_unreachable();
}
static void vviolation(const char* vclass, const char* fmt, va_list ap) __attribute__((noreturn));
static void vviolation(const char* vclass, const char* fmt, va_list ap)
{
    g_dying = true;
    if (R) {
        snprintf(R->vclass, sizeof R->vclass, "%s", vclass);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        die(SIM_ST_VIOLATION);
    }
    char b[2048];
    int n = vsnprintf(b, sizeof b, fmt, ap);
    (void) !write(2, vclass, strlen(vclass));
    (void) !write(2, ": ", 2);
    (void) !write(2, b, n < (int) sizeof b ? n : (int) sizeof b - 1);
    (void) !write(2, "\n", 1);
    syscall(SYS_exit_group, 99);
    __builtin_unreachable();
}
static void add_pc(uintptr_t pc)
{
    if (R && R->npcs < 16) R->pcs[R->npcs++] = pc;
}
extern "C" void sim_violation(const char* vclass, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolation(vclass, fmt, ap);
}
static void violation_pc(uintptr_t pc, const char* vclass, const char* fmt, ...)
        __attribute__((noreturn, format(printf, 3, 4)));
static void violation_pc(uintptr_t pc, const char* vclass, const char* fmt, ...)
{
    add_pc(pc);
    va_list ap;
    va_start(ap, fmt);
    vviolation(vclass, fmt, ap);
}
extern "C" void sim_error(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (R) {
        snprintf(R->vclass, sizeof R->vclass, "harness-error");
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        die(SIM_ST_ERROR);
    }
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    syscall(SYS_exit_group, 98);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- heap
struct Hdr {
    uint32_t magic;
    uint32_t off; // distance from header to user pointer
    uint64_t size;
    uint64_t id;
    Hdr *prev, *next; // live list / free list
    uint32_t pc, fpc;
    uint8_t tid, kind, cls, live;
    uint32_t pad[3];
};
static_assert(sizeof(Hdr) == 64, "hdr");
static constexpr uint32_t MAGIC = 0x51A1C0DEu;
static uintptr_t g_brk = ARENA;
static Hdr g_live = {0, 0, 0, 0, &g_live, &g_live, 0, 0, 0, 0, 0, 0, {0, 0, 0}};
static constexpr int NCLS = 96;
static Hdr* g_free[NCLS];
static Hdr *g_qhead = nullptr, *g_qtail = nullptr;
static uint32_t g_qlen = 0;
static uint64_t g_allocid = 0, g_nlive = 0, g_livebytes = 0;
static SimHeapCfg g_heap;
static uint64_t g_fillrng = 1;

static void map_fixed(uintptr_t a, size_t n)
{
    void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*) a) {
        static const char m[] = "sim: cannot map fixed region\n";
        (void) !write(2, m, sizeof m - 1);
        syscall(SYS_exit_group, 97);
    }
}
static void arena_init()
{
    g_arena_ready = true;
    map_fixed(ARENA, ARENA_SZ);
    map_fixed(POISON, ARENA_SZ / 8);
    map_fixed(RACE, ARENA_SZ * 8);
    map_fixed(SYNCBM, ARENA_SZ / 64);
    size_t g = ((uintptr_t) &end - (uintptr_t) &__executable_start + 4096) * 8;
    map_fixed(GRACE, (g + 4095) & ~4095ull);
}
static inline uint8_t* poison_of(uintptr_t a) { return (uint8_t*) (POISON + ((a - ARENA) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }

static int size_class(size_t n, size_t* rounded)
{
    if (n <= 512) {
        size_t c = (n + 15) / 16;
        if (c == 0) c = 1;
        *rounded = c * 16;
        return (int) c; // 1..32
    }
    int b = 63 - __builtin_clzll(n - 1); // floor log2(n-1), >= 9
    size_t base = 1ull << b;
    size_t q = base / 4;
    size_t k = (n - base + q - 1) / q; // 1..4
    if (k == 0) k = 1;
    *rounded = base + k * q;
    int c = 33 + (b - 9) * 4 + (int) (k - 1);
    return c < NCLS ? c : NCLS - 1;
}

static void forget_sync_range(uintptr_t a, size_t n);
static void race_clear(uintptr_t a, size_t n);
static void race_check_free(uintptr_t a, size_t n, uintptr_t pc);

static void set_poison(uintptr_t user, size_t n, size_t cap)
{
    // user is 16-aligned; cap multiple of 16
    uint8_t* p = poison_of(user);
    size_t full = n >> 3;
    memset(p, P_OK, full);
    size_t i = full;
    if (n & 7) p[i++] = (uint8_t) (n & 7);
    if (i < cap >> 3) memset(p + i, P_REDZONE, (cap >> 3) - i);
}

uint64_t g_break_alloc; // debugging: RPYSIM_BREAK=<allocation id> stops there
static void* heap_alloc(size_t n, size_t align, int kind, uintptr_t pc)
{
    if (unlikely(!g_arena_ready)) arena_init();
    if (n > (256u << 20)) {
        errno = ENOMEM;
        return nullptr;
    }
    Hdr* h = nullptr;
    size_t cap;
    size_t want = n + 16; // right redzone
    if (align < 16) align = 16;
    if (align == 16) {
        int c = size_class(want, &cap);
        if (g_free[c] && g_heap.reuse != 0) {
            h = g_free[c];
            g_free[c] = h->next;
        } else {
            uintptr_t a = g_brk;
            if (a + sizeof(Hdr) + cap > ARENA + ARENA_SZ) {
                if (g_child) sim_error("simulated heap exhausted");
                errno = ENOMEM;
                return nullptr;
            }
            g_brk = a + sizeof(Hdr) + cap;
            h = (Hdr*) a;
            memset(poison_of(a), P_REDZONE, sizeof(Hdr) / 8);
        }
        h->cls = (uint8_t) c;
        h->off = sizeof(Hdr);
    } else {
        cap = (want + 15) & ~15ull;
        uintptr_t a = (g_brk + sizeof(Hdr) + align - 1) & ~(uintptr_t) (align - 1);
        if (a + cap > ARENA + ARENA_SZ) {
            if (g_child) sim_error("simulated heap exhausted");
            errno = ENOMEM;
            return nullptr;
        }
        memset(poison_of(g_brk), P_REDZONE, (a - g_brk) / 8);
        g_brk = a + cap;
        h = (Hdr*) (a - sizeof(Hdr));
        h->cls = 0; // never reused
        h->off = sizeof(Hdr);
    }
    h->magic = MAGIC;
    h->size = n;
    h->id = ++g_allocid;
    if (unlikely(g_break_alloc && h->id == g_break_alloc)) { g_break_alloc = 0; void* bt[40]; int bn = backtrace(bt, 40); backtrace_symbols_fd(bt, bn, 2); }
    h->pc = (uint32_t) pc;
    h->fpc = 0;
    h->tid = (uint8_t) g_cur;
    h->kind = (uint8_t) kind;
    h->live = 1;
    h->prev = g_live.prev;
    h->next = &g_live;
    g_live.prev->next = h;
    g_live.prev = h;
    ++g_nlive;
    g_livebytes += n;
    uintptr_t u = (uintptr_t) (h + 1);
    set_poison(u, n, cap);
    if (g_conc) race_clear(u, n);
    if (g_child) {
        switch (g_heap.fill) {
            case 0: memset((void*) u, 0, n); break;
            case 1: {
                uint64_t* q = (uint64_t*) u;
                size_t w = n / 8;
                if (w > 512) w = 512;
                for (size_t i = 0; i < w; ++i) q[i] = splitmix(g_fillrng);
                memset((char*) u + w * 8, 0xA5, n - w * 8);
                break;
            }
            case 2: memset((void*) u, 0xAA, n); break;
            default: {
                uint32_t* q = (uint32_t*) u;
                size_t w = n / 4;
                for (size_t i = 0; i < w; ++i) q[i] = (uint32_t) (1 + (i & 3));
                memset((char*) u + w * 4, 1, n - w * 4);
            }
        }
    }
    return (void*) u;
}

static Hdr* hdr_of(void* p) { return (Hdr*) ((char*) p - sizeof(Hdr)); }

static void heap_free(void* p, uintptr_t pc, int kind)
{
    if (!p) return;
    uintptr_t u = (uintptr_t) p;
    if (!in_arena(u)) {
        if (g_child)
            violation_pc(pc, "invalid-free", "free of a pointer that was never allocated: %p", p);
        return;
    }
    if (u & 15) violation_pc(pc, "invalid-free", "free of a misaligned pointer %p", p);
    Hdr* h = hdr_of(p);
    if (h->magic != MAGIC) violation_pc(pc, "invalid-free", "free of an interior pointer %p", p);
    if (!h->live) {
        add_pc(pc);
        add_pc(h->fpc);
        add_pc(h->pc);
        sim_violation("double-free", "block #%llu of %llu bytes freed twice (task %d)",
                      (unsigned long long) h->id, (unsigned long long) h->size, g_cur);
    }
    if (g_conc) race_check_free(u, h->size, pc);
    forget_sync_range(u, h->size);
    h->live = 0;
    h->fpc = (uint32_t) pc;
    h->prev->next = h->next;
    h->next->prev = h->prev;
    --g_nlive;
    g_livebytes -= h->size;
    memset(poison_of(u), P_FREED, (h->size + 7) / 8);
    if (g_child && g_heap.reuse != 2) memset(p, 0xDD, h->size);
    if (h->cls == 0 || g_heap.reuse == 0) return;
    if (g_heap.reuse == 2) {
        h->next = g_free[h->cls];
        g_free[h->cls] = h;
        return;
    }
    h->next = nullptr;
    if (g_qtail) g_qtail->next = h;
    else
        g_qhead = h;
    g_qtail = h;
    if (++g_qlen > 512) {
        Hdr* o = g_qhead;
        g_qhead = o->next;
        --g_qlen;
        o->next = g_free[o->cls];
        g_free[o->cls] = o;
    }
}

// a program that embeds other code (an interpreter) says when an allocation
// may be made to fail
extern "C" int sim_alloc_may_fail(void) __attribute__((weak));
static inline bool alloc_fault()
{
    Task& t = g_tasks[g_cur];
    if (likely(!t.armed || t.arm_pause)) return false;
    if (sim_alloc_may_fail) {
        ++t.arm_pause;
        bool ok = sim_alloc_may_fail();
        --t.arm_pause;
        if (!ok) return false;
    }
    ++t.arm_seen;
    if (t.arm_nth > 0 && --t.arm_nth > 0) return false;
    if (t.arm_nth < 0) return false;
    // reached: fail arm_len in a row (0 = all from here)
    t.arm_nth = 0;
    if (t.arm_len > 0) {
        if (--t.arm_len == 0) t.arm_nth = -1;
    }
    ++t.arm_fired;
    if (R) ++R->faults[F_ALLOC];
    return true;
}

extern "C" {
void* malloc(size_t n) { return heap_alloc(n, 16, 1, CALLER); }
void free(void* p)
{
    if (unlikely(g_dying)) return;
    heap_free(p, CALLER, 1);
}
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = heap_alloc(n, 16, 1, CALLER);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return heap_alloc(n, 16, 1, CALLER);
    if (n == 0) {
        heap_free(p, CALLER, 1);
        return nullptr;
    }
    Hdr* h = hdr_of(p);
    if (!in_arena((uintptr_t) p) || h->magic != MAGIC || !h->live)
        violation_pc(CALLER, "invalid-free", "realloc of a dead or foreign pointer %p", p);
    void* q = heap_alloc(n, 16, 1, CALLER);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, CALLER, 1);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(p, n);
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, 3, CALLER); }
void* aligned_alloc(size_t al, size_t n)
{
    if (alloc_fault()) {
        errno = ENOMEM;
        return nullptr;
    }
    return heap_alloc(n, al, 3, CALLER);
}
int posix_memalign(void** out, size_t al, size_t n)
{
    if (alloc_fault()) return ENOMEM;
    void* p = heap_alloc(n, al, 3, CALLER);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* valloc(size_t n) { return heap_alloc(n, 4096, 3, CALLER); }
void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096, 3, CALLER); }
size_t malloc_usable_size(void* p) { return p ? hdr_of(p)->size : 0; }
}
static void* op_new(size_t n, size_t al, uintptr_t pc)
{
    if (alloc_fault()) throw std::bad_alloc();
    void* p = heap_alloc(n, al, 2, pc);
    if (!p) throw std::bad_alloc();
    return p;
}
static void* op_new_nt(size_t n, size_t al, uintptr_t pc)
{
    if (alloc_fault()) return nullptr;
    return heap_alloc(n, al, 2, pc);
}
void* operator new(size_t n) { return op_new(n, 16, CALLER); }
void* operator new[](size_t n) { return op_new(n, 16, CALLER); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, CALLER); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, CALLER); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t) a, CALLER); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t) a, CALLER); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return op_new_nt(n, (size_t) a, CALLER);
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return op_new_nt(n, (size_t) a, CALLER);
}
#define DEL(...)                                                                                   \
    {                                                                                              \
        if (unlikely(g_dying)) return;                                                             \
        heap_free(p, CALLER, 2);                                                                   \
    }
void operator delete(void* p) noexcept DEL()
void operator delete[](void* p) noexcept DEL()
void operator delete(void* p, size_t) noexcept DEL()
void operator delete[](void* p, size_t) noexcept DEL()
void operator delete(void* p, const std::nothrow_t&) noexcept DEL()
void operator delete[](void* p, const std::nothrow_t&) noexcept DEL()
void operator delete(void* p, std::align_val_t) noexcept DEL()
void operator delete[](void* p, std::align_val_t) noexcept DEL()
void operator delete(void* p, size_t, std::align_val_t) noexcept DEL()
void operator delete[](void* p, size_t, std::align_val_t) noexcept DEL()
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept DEL()
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept DEL()

static void alloc_describe(uintptr_t a, char* buf, size_t n)
{
    // find the header by walking poison backwards is unreliable; search lists
    buf[0] = 0;
    for (Hdr* h = g_live.next; h != &g_live; h = h->next) {
        uintptr_t u = (uintptr_t) (h + 1);
        if (a >= u - 64 && a < u + h->size + 64) {
            snprintf(buf, n, "near live block #%llu of %llu bytes at offset %lld",
                     (unsigned long long) h->id, (unsigned long long) h->size,
                     (long long) (a - u));
            add_pc(h->pc);
            return;
        }
    }
}

static void mem_violation(uintptr_t a, size_t n, bool w, uint8_t p, uintptr_t pc)
        __attribute__((noreturn, noinline));
static void mem_violation(uintptr_t a, size_t n, bool w, uint8_t p, uintptr_t pc)
{
    add_pc(pc);
    char d[256];
    d[0] = 0;
    const char* cls = "heap-buffer-overflow";
    if (p == P_FREED || p == P_SFREED) {
        cls = "use-after-free";
        // walk back over the freed region to the header
        uintptr_t g = a & ~7ull;
        while (g > ARENA && *poison_of(g - 8) == p) g -= 8;
        if (p == P_FREED) {
            Hdr* h = (Hdr*) (g - sizeof(Hdr));
            if ((uintptr_t) h >= ARENA && h->magic == MAGIC && !h->live) {
                snprintf(d, sizeof d, "block #%llu of %llu bytes, offset %lld",
                         (unsigned long long) h->id, (unsigned long long) h->size,
                         (long long) (a - g));
                add_pc(h->fpc);
                add_pc(h->pc);
            }
        }
    } else
        alloc_describe(a, d, sizeof d);
    sim_violation(cls, "%s of %zu bytes by task %d; %s", w ? "write" : "read", n, g_cur, d);
}

static inline HOT void poison_check(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    // n <= 16
    const uint8_t* p = poison_of(a);
    uint8_t s = *p;
    unsigned o = a & 7;
    if (likely(s == 0 && o + n <= 8)) return;
    // general
    size_t done = 0;
    uintptr_t x = a;
    while (done < n) {
        uint8_t v = *poison_of(x);
        unsigned off = x & 7;
        unsigned k = 8 - off;
        if (k > n - done) k = (unsigned) (n - done);
        if (v != 0 && (v >= 0x80 || off + k > v)) mem_violation(x, n, w, v, pc);
        done += k;
        x += k;
    }
}
static void poison_range(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if (!n || !in_arena(a)) return;
    if (!in_arena(a + n - 1)) mem_violation(a, n, w, P_UNALLOC, pc);
    size_t head = (8 - (a & 7)) & 7;
    if (head > n) head = n;
    if (head) poison_check(a, head, w, pc);
    a += head;
    n -= head;
    const uint8_t* p = poison_of(a);
    size_t full = n >> 3;
    for (size_t i = 0; i < full; ++i)
        if (unlikely(p[i])) mem_violation(a + i * 8, 8, w, p[i], pc);
    if (n & 7) poison_check(a + full * 8, n & 7, w, pc);
}
extern "C" int sim_is_live_range(const void* q, size_t n)
{
    uintptr_t a = (uintptr_t) q;
    if (!in_arena(a)) return 1;
    for (size_t i = 0; i < n; ++i) {
        uint8_t v = *poison_of(a + i);
        if (v != 0 && (v >= 0x80 || ((a + i) & 7) >= v)) return 0;
    }
    return 1;
}

// ---------------------------------------------------------------- small-object tracking
// The real pool allocator runs; the wrapper only records lifetimes.
struct SmallEnt {
    uintptr_t p;
    uint64_t id;
    uint32_t size, pc, fpc;
    uint8_t live, tid;
};
static constexpr size_t SMALL_N = 1u << 18;
static SmallEnt* g_small = nullptr;
static uint64_t g_small_live = 0;
static SmallEnt* small_slot(uintptr_t p)
{
    if (!g_small) {
        g_small = (SmallEnt*) mmap(nullptr, SMALL_N * sizeof(SmallEnt), PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    size_t i = (p >> 4) * 0x9e3779b97f4a7c15ull >> 46;
    for (size_t k = 0; k < SMALL_N; ++k, i = (i + 1) & (SMALL_N - 1)) {
        if (g_small[i].p == p) return &g_small[i];
        if (g_small[i].p == 0) {
            g_small[i].p = p;
            return &g_small[i];
        }
    }
    sim_error("small-object table full");
}
static void* small_alloc(void* (*real)(size_t), size_t n, uintptr_t pc)
{
    Task& t = g_tasks[g_cur];
    if (t.nocheck) return real(n);
    struct NC {
        Task& t;
        NC(Task& t) : t(t) { ++t.nocheck; }
        ~NC() { --t.nocheck; }
    };
    void* p;
    {
        NC nc(t);
        p = real(n);
    }
    if (!p) return p;
    uintptr_t a = (uintptr_t) p;
    if (in_arena(a)) {
        SmallEnt* e = small_slot(a);
        if (e->live) {
            add_pc(pc);
            add_pc(e->pc);
            sim_violation("double-allocation",
                          "one small-object chunk handed out twice while still in use "
                          "(%zu bytes to task %d, previously to task %d)",
                          n, g_cur, e->tid);
        }
        e->live = 1;
        e->size = (uint32_t) n;
        e->pc = (uint32_t) pc;
        e->tid = (uint8_t) g_cur;
        e->id = ++g_allocid;
        ++g_small_live;
        if (!sim_is_live_range(p, 1) || 1) {
            uint8_t* q = poison_of(a);
            memset(q, 0, n >> 3);
            if (n & 7) q[n >> 3] = n & 7;
        }
        if (g_conc) race_clear(a, n);
    }
    return p;
}
static void small_free(void (*real)(void*, size_t), void* p, size_t n, uintptr_t pc)
{
    Task& t = g_tasks[g_cur];
    if (t.nocheck || !p) return real(p, n);
    uintptr_t a = (uintptr_t) p;
    bool poison = false;
    if (in_arena(a)) {
        SmallEnt* e = small_slot(a);
        if (!e->live) {
            add_pc(pc);
            add_pc(e->fpc);
            add_pc(e->pc);
            sim_violation("double-free", "small object of %zu bytes freed twice (task %d)", n,
                          g_cur);
        }
        if (e->size != n)
            violation_pc(pc, "bad-sized-free", "small object of %u bytes freed as %zu bytes",
                         e->size, n);
        if (g_conc) race_check_free(a, n, pc);
        forget_sync_range(a, n);
        e->live = 0;
        e->fpc = (uint32_t) pc;
        --g_small_live;
        poison = n <= 64;
    }
    struct NC {
        Task& t;
        NC(Task& t) : t(t) { ++t.nocheck; }
        ~NC() { --t.nocheck; }
    };
    {
        NC nc(t);
        if (poison && *poison_of(a) < 0x80) {
            memset(poison_of(a), P_SFREED, (n + 7) / 8);
        }
        real(p, n);
    }
}
#define WRAPN(sym)                                                                                 \
    extern "C" void* __real_##sym(size_t) __attribute__((weak));                                   \
    extern "C" void* __wrap_##sym(size_t n) { return small_alloc(__real_##sym, n, CALLER); }
#define WRAPD(sym)                                                                                 \
    extern "C" void __real_##sym(void*, size_t) __attribute__((weak));                             \
    extern "C" void __wrap_##sym(void* p, size_t n) { small_free(__real_##sym, p, n, CALLER); }
WRAPN(_ZN3rpy3mem18small_object_allocEm)
WRAPN(_ZN3rpy3mem15SmallObjectBasenwEm)
WRAPD(_ZN3rpy3mem17small_object_freeEPvm)
WRAPD(_ZN3rpy3mem15SmallObjectBasedlEPvm)
extern "C" uint64_t sim_small_live(void) { return g_small_live; }

extern "C" uint64_t sim_live_blocks(void) { return g_nlive; }
extern "C" uint64_t sim_live_bytes(void) { return g_livebytes; }
extern "C" uint64_t sim_heap_mark(void) { return g_allocid; }
// live blocks (heap + small objects) allocated after `mark` and up to `until`
extern "C" uint64_t sim_heap_live_between(uint64_t mark, uint64_t until, char* buf, size_t n)
{
    uint64_t c = 0;
    if (n) buf[0] = 0;
    for (Hdr* h = g_live.prev; h != &g_live && h->id > mark; h = h->prev) {
        if (h->id > until) continue;
        if (n && ++c <= 6) {
            size_t l = strlen(buf);
            snprintf(buf + l, n - l, "[#%llu %llu bytes]", (unsigned long long) h->id, (unsigned long long) h->size);
            add_pc(h->pc);
        }
    }
    if (g_small)
        for (size_t i = 0; i < SMALL_N; ++i)
            if (g_small[i].live && g_small[i].id > mark && g_small[i].id <= until) ++c;
    return c;
}
// live blocks (heap + small objects) allocated after `mark`
extern "C" uint64_t sim_heap_new_live(uint64_t mark, char* buf, size_t n)
{
    uint64_t c = 0;
    if (n) buf[0] = 0;
    for (Hdr* h = g_live.prev; h != &g_live && h->id > mark; h = h->prev) {
        ++c;
        if (n && c <= 3) {
            size_t l = strlen(buf);
            snprintf(buf + l, n - l, "[#%llu %llu bytes]", (unsigned long long) h->id,
                     (unsigned long long) h->size);
            add_pc(h->pc);
        }
    }
    if (g_small)
        for (size_t i = 0; i < SMALL_N; ++i)
            if (g_small[i].live && g_small[i].id > mark) {
                ++c;
                if (n && c <= 3) {
                    size_t l = strlen(buf);
                    snprintf(buf + l, n - l, "[small object, %u bytes]", g_small[i].size);
                    add_pc(g_small[i].pc);
                }
            }
    return c;
}

// ---------------------------------------------------------------- sync vars
struct SyncVar {
    uintptr_t addr; // 0 empty, 1 tombstone
    uint32_t vc[SIM_MAX_TASKS];
    int owner, count; // mutex
    int readers;      // rwlock
    int64_t sem;
    bool issem;
};
static constexpr size_t SV_N = 1u << 16;
static SyncVar g_sv[SV_N];
static SyncVar* sv_get(uintptr_t a)
{
    size_t i = (a >> 2) * 0x9e3779b97f4a7c15ull >> 48;
    SyncVar* tomb = nullptr;
    for (size_t k = 0; k < SV_N; ++k, i = (i + 1) & (SV_N - 1)) {
        SyncVar& s = g_sv[i];
        if (s.addr == a) return &s;
        if (s.addr == 1 && !tomb) tomb = &s;
        if (s.addr == 0) {
            SyncVar* r = tomb ? tomb : &s;
            memset(r, 0, sizeof *r);
            r->addr = a;
            r->owner = -1;
            if (in_arena(a)) {
                size_t b = (a - ARENA) >> 3;
                ((uint8_t*) SYNCBM)[b >> 3] |= 1u << (b & 7);
            }
            return r;
        }
    }
    sim_error("sync table full");
}
static void forget_sync_range(uintptr_t a, size_t n)
{
    if (!in_arena(a)) return;
    size_t b0 = (a - ARENA) >> 3, b1 = (a + n - ARENA + 7) >> 3;
    for (size_t b = b0; b < b1;) {
        if ((b & 7) == 0 && b + 8 <= b1 && ((uint8_t*) SYNCBM)[b >> 3] == 0) {
            b += 8;
            continue;
        }
        uint8_t& m = ((uint8_t*) SYNCBM)[b >> 3];
        if (m & (1u << (b & 7))) {
            m &= ~(1u << (b & 7));
            for (uintptr_t x = ARENA + b * 8; x < ARENA + b * 8 + 8; ++x) {
                size_t i = (x >> 2) * 0x9e3779b97f4a7c15ull >> 48;
                for (size_t k = 0; k < SV_N; ++k, i = (i + 1) & (SV_N - 1)) {
                    if (g_sv[i].addr == 0) break;
                    if (g_sv[i].addr == x) {
                        g_sv[i].addr = 1;
                        break;
                    }
                }
            }
        }
        ++b;
    }
}

static inline void vc_join(uint32_t* a, const uint32_t* b)
{
    for (int i = 0; i < SIM_MAX_TASKS; ++i)
        if (b[i] > a[i]) a[i] = b[i];
}
static inline void sv_acquire(SyncVar* s) { vc_join(g_tasks[g_cur].vc, s->vc); }
static inline void sv_release(SyncVar* s, bool assign)
{
    Task& t = g_tasks[g_cur];
    if (assign) memcpy(s->vc, t.vc, sizeof s->vc);
    else
        vc_join(s->vc, t.vc);
    ++t.vc[g_cur];
}

// ---------------------------------------------------------------- race shadow
struct Cell {
    uint32_t clk, pc;
    uint8_t tid1, mask, w, at;
    uint32_t step;
};
static_assert(sizeof(Cell) == 16, "cell");
static inline Cell* cells_of(uintptr_t a)
{
    if (likely(in_arena(a))) return (Cell*) (RACE + ((a - ARENA) >> 3) * 64);
    uintptr_t g = a - (uintptr_t) &__executable_start;
    if (g < (uintptr_t) (&end - &__executable_start)) return (Cell*) (GRACE + (g >> 3) * 64);
    return nullptr;
}
static void race_clear(uintptr_t a, size_t n)
{
    Cell* c = cells_of(a);
    if (!c) return;
    size_t g = (n + 7) / 8;
    if (g > 1u << 14) { // large blocks: drop the pages
        uintptr_t s = ((uintptr_t) c + 4095) & ~4095ull;
        uintptr_t end_ = (uintptr_t) c + g * 64;
        uintptr_t e = end_ & ~4095ull;
        memset(c, 0, s - (uintptr_t) c);
        madvise((void*) s, e - s, MADV_DONTNEED);
        memset((void*) e, 0, end_ - e);
        return;
    }
    memset(c, 0, g * 64);
}
static void race_report(uintptr_t a, const Cell& o, bool w, bool at, uintptr_t pc)
        __attribute__((noreturn, noinline));
static void race_report(uintptr_t a, const Cell& o, bool w, bool at, uintptr_t pc)
{
    add_pc(pc);
    add_pc(o.pc);
    sim_violation("data-race", "%s%s by task %d races with %s%s by task %d (%s memory)",
                  at ? "atomic " : "", w ? "write" : "read", g_cur, o.at ? "atomic " : "",
                  o.w ? "write" : "read", o.tid1 - 1, in_arena(a) ? "heap" : "global");
}
// returns true if the granule was also touched by another task
static inline HOT bool race_access(uintptr_t a, unsigned n, bool w, bool at, uintptr_t pc)
{
    Cell* c = cells_of(a);
    if (!c) return false;
    Task& t = g_tasks[g_cur];
    unsigned o = a & 7;
    unsigned k = n > 8 - o ? 8 - o : n;
    uint8_t m = (uint8_t) (((1u << k) - 1) << o);
    bool foreign = false;
    int own = -1, empty = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& x = c[i];
        if (x.tid1 == 0) {
            if (empty < 0) empty = i;
            continue;
        }
        if (x.tid1 == g_cur + 1) {
            if (x.mask == m && x.at == at && (x.w == w || w)) own = i;
            else if (x.mask == m && x.w && !w && x.at == at && own < 0 && x.clk == t.vc[g_cur])
                own = -2 - i; // already covered by own write in this epoch
            continue;
        }
        foreign = true;
        if ((x.mask & m) && (w || x.w) && !(at && x.at) && x.clk > t.vc[x.tid1 - 1])
            race_report(a, x, w, at, pc);
    }
    if (own <= -2) return foreign;
    int slot = own >= 0 ? own : empty;
    if (slot < 0) slot = (int) ((t.step + g_cur) & 3);
    Cell& x = c[slot];
    x.clk = t.vc[g_cur];
    x.pc = (uint32_t) pc;
    x.tid1 = (uint8_t) (g_cur + 1);
    x.mask = m;
    x.w = w;
    x.at = at;
    if (n > k) foreign |= race_access(a + k, n - k, w, at, pc);
    return foreign;
}
static inline bool is_foreign(uintptr_t a)
{
    Cell* c = cells_of(a);
    if (!c) return false;
    for (int i = 0; i < 4; ++i)
        if (c[i].tid1 != 0 && c[i].tid1 != g_cur + 1 && c[i].tid1 != 1) return true;
    return false;
}
static void race_check_free(uintptr_t a, size_t n, uintptr_t pc)
{
    if (!in_arena(a)) return;
    size_t g = (n + 7) / 8;
    if (g > 2048) g = 2048;
    Cell* c = cells_of(a);
    Task& t = g_tasks[g_cur];
    for (size_t i = 0; i < g * 4; ++i) {
        Cell& x = c[i];
        if (x.tid1 == 0 || x.tid1 == g_cur + 1) continue;
        if (x.clk > t.vc[x.tid1 - 1]) {
            add_pc(pc);
            add_pc(x.pc);
            sim_violation("data-race", "memory freed by task %d while %s by task %d is unordered",
                          g_cur, x.w ? "a write" : "a read", x.tid1 - 1);
        }
    }
}

// ---------------------------------------------------------------- scheduler
static inline void futex_wait(uint32_t* f, uint32_t v)
{
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static inline void futex_wake(uint32_t* f) { syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void record(uint64_t step, int from, int to, int kind)
{
    if (R->nsched < SIM_MAX_SCHED) R->sched[R->nsched++] = {step, (uint16_t) from, (uint16_t) to, (uint32_t) kind};
    else
        R->sched_truncated = 1;
    R->hash = mix(R->hash, step * 64 + from * 8 + to);
    R->ilv_hash = mix(R->ilv_hash, (uint64_t) from * 64 + to);
}
static void park_until_mine(Task& me)
{
    while (__atomic_load_n(&me.futex, __ATOMIC_ACQUIRE) == 0) futex_wait(&me.futex, 0);
    __atomic_store_n(&me.futex, 0, __ATOMIC_RELAXED);
}
static void hand_over(int to)
{
    g_cur = to;
    __atomic_store_n(&g_tasks[to].futex, 1, __ATOMIC_RELEASE);
    futex_wake(&g_tasks[to].futex);
}
static void switch_to(int to)
{
    int me = g_cur;
    if (to == me) return;
    ++R->switches;
    hand_over(to);
    park_until_mine(g_tasks[me]);
}
static int ready_list(int* out, int except)
{
    int n = 0;
    for (int i = 0; i < g_ntasks; ++i)
        if (g_tasks[i].state == 1 && i != except) out[n++] = i;
    return n;
}
static bool replay_match(int me, uint64_t step, int* to)
{
    // entries are in execution order; tolerate entries that cannot apply
    while (g_replay_pos < g_cfg.nreplay) {
        const SimSchedEnt& e = g_cfg.replay[g_replay_pos];
        if (e.from != me) {
            // entry for another task: it applies when that task runs; but if an
            // earlier entry was dropped we may never get there. Look ahead.
            for (uint32_t j = g_replay_pos + 1; j < g_cfg.nreplay; ++j) {
                const SimSchedEnt& f = g_cfg.replay[j];
                if (f.from == me && f.step == step) {
                    g_replay_pos = j;
                    goto again;
                }
                if (f.from == me && f.step > step) break;
            }
            return false;
        }
        if (e.step > step) return false;
        if (e.step == step) {
            *to = e.to;
            ++g_replay_pos;
            return true;
        }
        ++g_replay_pos; // passed
    again:;
    }
    return false;
}

static void preempt(Task& t)
{
    int rl[SIM_MAX_TASKS];
    int n = ready_list(rl, g_cur);
    if (n == 0) return;
    int to = rl[srng() % n];
    record(t.step, g_cur, to, 1);
    switch_to(to);
}

// called at every yield point; cls 0 = plain, 1 = foreign, 2 = sync
static inline HOT void yield_point(int cls)
{
    Task& t = g_tasks[g_cur];
    ++t.step;
    if (unlikely(++g_total_steps > g_cfg.step_limit))
        sim_violation("no-progress", "the run did not finish within %llu steps",
                      (unsigned long long) g_cfg.step_limit);
    switch (g_cfg.strategy) {
        case SIM_S_SEQ: return;
        case SIM_S_RANDOM: {
            bool go = false;
            if (--t.next_other == 0) {
                t.next_other = geo(g_cfg.gap_other);
                go = true;
            }
            if (cls == 1) {
                ++R->foreign_points;
                if (--t.next_foreign == 0) {
                    t.next_foreign = geo(g_cfg.gap_foreign);
                    go = true;
                }
            } else if (cls == 2) {
                ++R->sync_points;
                if (--t.next_sync == 0) {
                    t.next_sync = geo(g_cfg.gap_sync);
                    go = true;
                }
            }
            if (unlikely(go)) preempt(t);
            return;
        }
        case SIM_S_PCT: {
            if (cls == 0) return;
            if (cls == 1) ++R->foreign_points;
            else
                ++R->sync_points;
            ++g_pct_count;
            if (g_pct_i < g_pct_n && g_pct_count >= g_pct_points[g_pct_i]) {
                ++g_pct_i;
                t.prio = --g_pct_low;
                int best = g_cur;
                for (int i = 0; i < g_ntasks; ++i)
                    if (g_tasks[i].state == 1 && g_tasks[i].prio > g_tasks[best].prio) best = i;
                if (best != g_cur) {
                    record(t.step, g_cur, best, 1);
                    switch_to(best);
                }
            }
            return;
        }
        case SIM_S_REPLAY: {
            int to;
            if (replay_match(g_cur, t.step, &to) && to != g_cur && to < g_ntasks
                && g_tasks[to].state == 1) {
                record(t.step, g_cur, to, 1);
                switch_to(to);
            }
            return;
        }
    }
}

static const char* wait_names[] = {"?",    "a mutex",     "a condition", "static initialisation",
                                   "join", "a semaphore", "a once-flag", "a rwlock",
                                   "sleep"};

static int g_idle_timeouts; // waits that ran out since a task last woke another
static void report_deadlock(const char* what)
{
    char b[1500];
    size_t l = 0;
    b[0] = 0;
    for (int i = 0; i < g_ntasks; ++i)
        if (g_tasks[i].state == 2 && !(i == 0 && g_tasks[0].wait_kind == 0)) {
            l += snprintf(b + l, sizeof b - l, " task %d waits for %s%s;", i, wait_names[g_tasks[i].wait_kind],
                          g_tasks[i].timed ? " with a time limit" : "");
            add_pc(g_tasks[i].wait_pc);
        }
    sim_violation("deadlock", "%s:%s", what, b);
}
// current task cannot continue (blocked or done): choose another
static void pick_other()
{
    Task& t = g_tasks[g_cur];
    int rl[SIM_MAX_TASKS];
    int n = ready_list(rl, -1);
    if (n == 0) {
        // advance simulated time to the earliest deadline
        int b = -1;
        for (int i = 0; i < g_ntasks; ++i)
            if (g_tasks[i].state == 2 && g_tasks[i].timed
                && (b < 0 || g_tasks[i].deadline < g_tasks[b].deadline))
                b = i;
        if (b >= 0) {
            if (g_tasks[b].deadline > g_now) g_now = g_tasks[b].deadline;
            g_tasks[b].timed_out = true;
            g_tasks[b].state = 1;
            if (g_tasks[b].wait_kind != 8) {
                ++R->faults[F_TIMEOUT];
                bool stuck = false;
                for (int i = 1; i < g_ntasks; ++i)
                    if (g_tasks[i].state == 2 && !g_tasks[i].timed) stuck = true;
                if (!stuck)
                    g_idle_timeouts = 0;
                else if (++g_idle_timeouts > 20000)
                    report_deadlock("no task but those waiting with a time limit, again and again, can run");
            }
            rl[0] = b;
            n = 1;
        }
    }
    if (n == 0) {
        bool all_done = true;
        for (int i = 1; i < g_ntasks; ++i)
            if (g_tasks[i].state != 3) all_done = false;
        if (all_done && g_tasks[0].state == 2) {
            g_tasks[0].state = 1;
            rl[0] = 0;
            n = 1;
        } else {
            report_deadlock("no task can run");
        }
    }
    int to = rl[0];
    if (g_cfg.strategy == SIM_S_RANDOM) to = rl[srng() % n];
    else if (g_cfg.strategy == SIM_S_PCT) {
        for (int i = 1; i < n; ++i)
            if (g_tasks[rl[i]].prio > g_tasks[to].prio) to = rl[i];
    } else if (g_cfg.strategy == SIM_S_REPLAY) {
        int want;
        if (replay_match(g_cur, t.step, &want) && want < g_ntasks && g_tasks[want].state == 1)
            to = want;
    }
    record(t.step, g_cur, to, 2);
    if (t.state == 3) {
        ++R->switches;
        hand_over(to);
    } else
        switch_to(to);
}

static void block_on(uintptr_t addr, int kind, uintptr_t pc)
{
    Task& t = g_tasks[g_cur];
    t.state = 2;
    t.wait_addr = addr;
    t.wait_kind = kind;
    t.wait_pc = pc;
    R->hash = mix(R->hash, 0xb10c00 + kind * 16 + g_cur);
    pick_other();
}
static void wake_all(uintptr_t addr, int kind)
{
    for (int i = 0; i < g_ntasks; ++i)
        if (g_tasks[i].state == 2 && g_tasks[i].wait_kind == kind && g_tasks[i].wait_addr == addr) {
            g_tasks[i].state = 1;
            g_tasks[i].signalled = true;
            g_idle_timeouts = 0;
        }
}
static inline bool simulating() { return g_child && t_is_task && !g_dying; }

static void sync_event(int kind, uintptr_t addr)
{
    // interleaving measure: order of sync operations between tasks
    R->ilv_hash = mix(R->ilv_hash, (uint64_t) g_cur * 32 + kind);
    // objects of shared libraries lie at addresses that differ between processes
    if (!in_arena(addr) && addr > 0x40000000ull) addr = 0x11b;
    R->hash = mix(R->hash, addr ^ ((uint64_t) g_cur << 56) ^ ((uint64_t) kind << 48));
}

// ---------------------------------------------------------------- mutexes
static int real_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int mutex_lock(pthread_mutex_t* m, uintptr_t pc, bool tr, bool timed, uint64_t dl)
{
    if (g_conc) yield_point(2);
    uintptr_t a = (uintptr_t) m;
    if (in_arena(a) && !g_tasks[g_cur].nocheck) poison_check(a, 8, true, pc);
    for (;;) {
        SyncVar* s = sv_get(a);
        if (s->owner == -1) {
            s->owner = g_cur;
            s->count = 1;
            sv_acquire(s);
            ++g_tasks[g_cur].held;
            sync_event(1, a);
            return 0;
        }
        if (s->owner == g_cur) {
            if (real_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
                ++s->count;
                ++g_tasks[g_cur].held;
                return 0;
            }
            if (tr) return EBUSY;
            if (real_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            if (!timed)
                violation_pc(pc, "deadlock", "task %d locks a mutex it already holds", g_cur);
        }
        if (tr) return EBUSY;
        Task& t = g_tasks[g_cur];
        t.timed = timed;
        t.deadline = dl;
        t.timed_out = t.signalled = false;
        block_on(a, 1, pc);
        t.timed = false;
        if (timed && t.timed_out && !t.signalled) return ETIMEDOUT;
    }
}
static void mutex_unlock(pthread_mutex_t* m, uintptr_t pc)
{
    uintptr_t a = (uintptr_t) m;
    SyncVar* s = sv_get(a);
    if (s->owner != g_cur)
        violation_pc(pc, "bad-unlock", "task %d unlocks a mutex it does not hold", g_cur);
    --g_tasks[g_cur].held;
    if (--s->count > 0) return;
    s->owner = -1;
    sv_release(s, false);
    sync_event(2, a);
    wake_all(a, 1);
    if (g_conc) yield_point(2);
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!simulating()) return 0;
    return mutex_lock(m, CALLER, false, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!simulating()) return 0;
    return mutex_lock(m, CALLER, true, false, 0);
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t) t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!simulating()) return 0;
    return mutex_lock(m, CALLER, false, true, ts_ns(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    if (!simulating()) return 0;
    return mutex_lock(m, CALLER, false, true, ts_ns(ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!simulating()) return 0;
    mutex_unlock(m, CALLER);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!simulating()) return 0;
    SyncVar* s = sv_get((uintptr_t) m);
    if (s->owner != -1)
        violation_pc(CALLER, "mutex-destroyed-locked", "a locked mutex was destroyed");
    return 0;
}
// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uintptr_t pc, bool timed, uint64_t dl)
{
    Task& t = g_tasks[g_cur];
    uintptr_t ma = (uintptr_t) m;
    SyncVar* s = sv_get(ma);
    if (s->owner != g_cur)
        violation_pc(pc, "bad-wait", "task %d waits on a condition without the mutex", g_cur);
    int cnt = s->count;
    t.held -= cnt;
    s->owner = -1;
    s->count = 0;
    sv_release(s, false);
    wake_all(ma, 1);
    sync_event(3, (uintptr_t) c);
    t.timed = timed;
    t.deadline = dl;
    t.timed_out = t.signalled = false;
    block_on((uintptr_t) c, 2, pc);
    t.timed = false;
    bool to = t.timed_out && !t.signalled;
    for (;;) {
        s = sv_get(ma);
        if (s->owner == -1) break;
        block_on(ma, 1, pc);
    }
    s->owner = g_cur;
    s->count = cnt;
    t.held += cnt;
    sv_acquire(s);
    sv_acquire(sv_get((uintptr_t) c));
    sync_event(4, (uintptr_t) c);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!simulating()) return 0;
    return cond_wait(c, m, CALLER, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!simulating()) return ETIMEDOUT;
    return cond_wait(c, m, CALLER, true, ts_ns(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    if (!simulating()) return ETIMEDOUT;
    return cond_wait(c, m, CALLER, true, ts_ns(ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!simulating()) return 0;
    sv_release(sv_get((uintptr_t) c), false);
    int w[SIM_MAX_TASKS], n = 0;
    for (int i = 0; i < g_ntasks; ++i)
        if (g_tasks[i].state == 2 && g_tasks[i].wait_kind == 2
            && g_tasks[i].wait_addr == (uintptr_t) c)
            w[n++] = i;
    if (n) {
        int k = g_conc && g_cfg.strategy != SIM_S_REPLAY && g_cfg.strategy != SIM_S_SEQ ? 0 : 0;
        g_tasks[w[k]].state = 1;
        g_tasks[w[k]].signalled = true;
        g_idle_timeouts = 0;
    }
    sync_event(5, (uintptr_t) c);
    if (g_conc) yield_point(2);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!simulating()) return 0;
    sv_release(sv_get((uintptr_t) c), false);
    wake_all((uintptr_t) c, 2);
    sync_event(6, (uintptr_t) c);
    if (g_conc) yield_point(2);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
// ---- rwlocks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, uintptr_t pc)
{
    if (g_conc) yield_point(2);
    uintptr_t a = (uintptr_t) l;
    for (;;) {
        SyncVar* s = sv_get(a);
        if (wr ? (s->owner == -1 && s->readers == 0) : s->owner == -1) {
            if (wr) s->owner = g_cur;
            else
                ++s->readers;
            sv_acquire(s);
            ++g_tasks[g_cur].held;
            sync_event(7, a);
            return 0;
        }
        if (tr) return EBUSY;
        if (s->owner == g_cur)
            violation_pc(pc, "deadlock", "task %d re-locks a rwlock it holds", g_cur);
        block_on(a, 7, pc);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return simulating() ? rw_lock(l, false, false, CALLER) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return simulating() ? rw_lock(l, true, false, CALLER) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return simulating() ? rw_lock(l, false, true, CALLER) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return simulating() ? rw_lock(l, true, true, CALLER) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!simulating()) return 0;
    SyncVar* s = sv_get((uintptr_t) l);
    if (s->owner == g_cur) s->owner = -1;
    else if (s->readers > 0)
        --s->readers;
    else
        violation_pc(CALLER, "bad-unlock", "rwlock unlocked while not held");
    --g_tasks[g_cur].held;
    sv_release(s, false);
    sync_event(8, (uintptr_t) l);
    wake_all((uintptr_t) l, 7);
    if (g_conc) yield_point(2);
    return 0;
}
// ---- once + guards
static SyncVar* once_var(uintptr_t a) { return sv_get(a); }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    volatile int* st = (volatile int*) o;
    if (!simulating()) {
        if (*st != 2) {
            *st = 1;
            f();
            *st = 2;
        }
        return 0;
    }
    if (g_conc) yield_point(2);
    for (;;) {
        SyncVar* s = once_var((uintptr_t) o);
        if (*st == 2) {
            sv_acquire(s);
            return 0;
        }
        if (*st == 0 || s->owner == -1) {
            *st = 1;
            s->owner = g_cur;
            struct Undo {
                volatile int* st;
                uintptr_t a;
                bool done = false;
                ~Undo()
                {
                    SyncVar* s = sv_get(a);
                    s->owner = -1;
                    *st = done ? 2 : 0;
                    sv_release(s, false);
                    wake_all(a, 6);
                }
            } u{st, (uintptr_t) o};
            f();
            u.done = true;
            sync_event(9, (uintptr_t) o);
            return 0;
        }
        if (s->owner == g_cur)
            violation_pc(CALLER, "deadlock", "recursive call_once by task %d", g_cur);
        block_on((uintptr_t) o, 6, CALLER);
    }
}
int __cxa_guard_acquire(uint64_t* g)
{
    unsigned char* b = (unsigned char*) g;
    if (!simulating()) return b[0] ? 0 : 1;
    if (g_conc) yield_point(2);
    for (;;) {
        SyncVar* s = sv_get((uintptr_t) g);
        if (b[0]) {
            sv_acquire(s);
            return 0;
        }
        if (s->owner == -1) {
            s->owner = g_cur;
            sync_event(10, (uintptr_t) g);
            return 1;
        }
        if (s->owner == g_cur)
            violation_pc(CALLER, "deadlock", "recursive static initialisation by task %d", g_cur);
        block_on((uintptr_t) g, 3, CALLER);
    }
}
void __cxa_guard_release(uint64_t* g)
{
    ((unsigned char*) g)[0] = 1;
    if (!simulating()) return;
    SyncVar* s = sv_get((uintptr_t) g);
    s->owner = -1;
    sv_release(s, false);
    sync_event(11, (uintptr_t) g);
    wake_all((uintptr_t) g, 3);
    if (g_conc) yield_point(2);
}
void __cxa_guard_abort(uint64_t* g)
{
    if (!simulating()) return;
    SyncVar* s = sv_get((uintptr_t) g);
    s->owner = -1;
    sv_release(s, false);
    wake_all((uintptr_t) g, 3);
}
// ---- semaphores (CPython locks)
int sem_init(sem_t* s, int, unsigned v)
{
    SyncVar* x = sv_get((uintptr_t) s);
    memset(x->vc, 0, sizeof x->vc);
    x->issem = true;
    x->sem = v;
    return 0;
}
int sem_destroy(sem_t* s) { return 0; }
static int sem_wait_(sem_t* s, bool tr, bool timed, uint64_t dl, uintptr_t pc)
{
    SyncVar* x = sv_get((uintptr_t) s);
    if (!simulating()) {
        if (x->sem > 0) {
            --x->sem;
            return 0;
        }
        errno = EAGAIN;
        return -1;
    }
    if (g_conc) yield_point(2);
    for (;;) {
        x = sv_get((uintptr_t) s);
        if (x->sem > 0) {
            --x->sem;
            sv_acquire(x);
            sync_event(12, (uintptr_t) s);
            return 0;
        }
        if (tr) {
            errno = EAGAIN;
            return -1;
        }
        Task& t = g_tasks[g_cur];
        t.timed = timed;
        t.deadline = dl;
        t.timed_out = t.signalled = false;
        block_on((uintptr_t) s, 5, pc);
        t.timed = false;
        if (timed && t.timed_out && !t.signalled) {
            errno = ETIMEDOUT;
            return -1;
        }
    }
}
int sem_wait(sem_t* s) { return sem_wait_(s, false, false, 0, CALLER); }
int sem_trywait(sem_t* s) { return sem_wait_(s, true, false, 0, CALLER); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_wait_(s, false, true, ts_ns(ts), CALLER); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* ts)
{
    return sem_wait_(s, false, true, ts_ns(ts), CALLER);
}
int sem_post(sem_t* s)
{
    SyncVar* x = sv_get((uintptr_t) s);
    ++x->sem;
    if (!simulating()) return 0;
    sv_release(x, false);
    sync_event(13, (uintptr_t) s);
    wake_all((uintptr_t) s, 5);
    if (g_conc) yield_point(2);
    return 0;
}
int sem_getvalue(sem_t* s, int* v)
{
    *v = (int) sv_get((uintptr_t) s)->sem;
    return 0;
}
// ---- identity
bool g_zygote_clock; // virtual time and numbers before the run, too
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = (int) -r;
        return -1;
    }
    return r;
}
// process and thread numbers are the same in every process that makes the same run: small ones cost Python no memory
pid_t getpid(void) { return g_child || g_zygote_clock ? 4000 : (pid_t) raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return g_child || g_zygote_clock ? 4000 + (g_child ? g_cur : 0) : (pid_t) raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...)
{
    va_list v;
    va_start(v, n);
    long a[6];
    for (long& x : a) x = va_arg(v, long);
    va_end(v);
    if (n == SYS_getpid) return getpid();
    if (n == SYS_gettid) return gettid();
    return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
// ---- time
static int real_clock(clockid_t c, struct timespec* ts) { return (int) syscall(SYS_clock_gettime, c, ts); }
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!g_child && !g_zygote_clock) return real_clock(c, ts);
    g_now += 100; // reading the clock costs 100 simulated ns
    ts->tv_sec = g_now / 1000000000ull;
    ts->tv_nsec = g_now % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static int sim_sleep(uint64_t until, uintptr_t pc)
{
    Task& t = g_tasks[g_cur];
    t.timed = true;
    t.deadline = until;
    t.timed_out = t.signalled = false;
    block_on(0, 8, pc);
    t.timed = false;
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec*)
{
    if (!simulating() || !g_conc) {
        g_now += ts_ns(a);
        return 0;
    }
    return sim_sleep(g_now + ts_ns(a), CALLER);
}
int clock_nanosleep(clockid_t, int fl, const struct timespec* a, struct timespec*)
{
    uint64_t u = fl & TIMER_ABSTIME ? ts_ns(a) : g_now + ts_ns(a);
    if (!simulating() || !g_conc) {
        if (u > g_now) g_now = u;
        return 0;
    }
    return sim_sleep(u, CALLER);
}
int usleep(useconds_t us)
{
    struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int sched_yield(void)
{
    if (simulating() && g_conc) sim_yield();
    return 0;
}
} // extern C

// ---------------------------------------------------------------- instrumentation hooks
static inline HOT void on_access(uintptr_t a, unsigned n, bool w, uintptr_t pc)
{
    if (!g_child) return;
    bool ar = in_arena(a);
    if (ar && likely(!g_tasks[g_cur].nocheck)) poison_check(a, n, w, pc);
    if (!g_conc) return;
    if (!ar) {
        uintptr_t g = a - (uintptr_t) &__executable_start;
        if (g >= (uintptr_t) (&end - &__executable_start)) return; // stacks, TLS
    }
    yield_point(is_foreign(a) ? 1 : 0);
    // the memory may have been freed while we were preempted
    if (ar && likely(!g_tasks[g_cur].nocheck)) poison_check(a, n, w, pc);
    race_access(a, n, w, false, pc);
}
static void on_range(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if (!g_child || !n) return;
    if (g_tasks[g_cur].nocheck == 0) poison_range(a, n, w, pc);
    if (!g_conc || !cells_of(a)) return;
    yield_point(is_foreign(a) ? 1 : 0);
    if (g_tasks[g_cur].nocheck == 0) poison_range(a, n, w, pc);
    size_t lim = n > 65536 ? 65536 : n;
    while (lim) {
        unsigned k = 8 - (a & 7);
        if (k > lim) k = (unsigned) lim;
        race_access(a, k, w, false, pc);
        a += k;
        lim -= k;
    }
}
extern "C" {
void __tsan_init() {}
#define RW(N)                                                                                      \
    HOT void __tsan_read##N(void* p) { on_access((uintptr_t) p, N, false, CALLER); }               \
    HOT void __tsan_write##N(void* p) { on_access((uintptr_t) p, N, true, CALLER); }               \
    void __tsan_unaligned_read##N(void* p) { on_access((uintptr_t) p, N, false, CALLER); }         \
    void __tsan_unaligned_write##N(void* p) { on_access((uintptr_t) p, N, true, CALLER); }         \
    void __tsan_volatile_read##N(void* p) { on_access((uintptr_t) p, N, false, CALLER); }          \
    void __tsan_volatile_write##N(void* p) { on_access((uintptr_t) p, N, true, CALLER); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) { on_range((uintptr_t) p, n, false, CALLER); }
void __tsan_write_range(void* p, size_t n) { on_range((uintptr_t) p, n, true, CALLER); }
void __tsan_vptr_update(void** p, void* v)
{
    // constructors/destructors rewrite the vptr; same-value writes are harmless
    if (*p != v) on_access((uintptr_t) p, 8, true, CALLER);
    else
        on_access((uintptr_t) p, 8, false, CALLER);
}
void __tsan_vptr_read(void** p) { on_access((uintptr_t) p, 8, false, CALLER); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

static inline void at_pre(uintptr_t a, unsigned n, bool w, uintptr_t pc)
{
    if (!g_child) return;
    if (in_arena(a) && !g_tasks[g_cur].nocheck) poison_check(a, n, w, pc);
    if (g_conc) {
        yield_point(2);
        if (in_arena(a) && !g_tasks[g_cur].nocheck) poison_check(a, n, w, pc);
        race_access(a, n, w, true, pc);
    }
}
static inline void at_hb(uintptr_t a, bool ld, bool st, bool rmw, int mo)
{
    if (!g_conc) return;
    if (!cells_of(a)) return;
    Task& t = g_tasks[g_cur];
    SyncVar* s = sv_get(a);
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL
            || mo == __ATOMIC_SEQ_CST;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (ld) {
        if (acq) sv_acquire(s);
        else {
            if (!t.has_acq_pending) memset(t.acq_pending, 0, sizeof t.acq_pending);
            t.has_acq_pending = true;
            vc_join(t.acq_pending, s->vc);
        }
    }
    if (st) {
        if (rel) sv_release(s, !rmw);
        else if (t.has_rel_fence) {
            if (!rmw) memset(s->vc, 0, sizeof s->vc);
            vc_join(s->vc, t.rel_fence);
        } else if (!rmw)
            memset(s->vc, 0, sizeof s->vc);
    }
    sync_event(ld ? (st ? 16 : 14) : 15, a);
}
#define AT(BITS, T)                                                                                \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                                      \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, false, CALLER);                                            \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                \
        at_hb((uintptr_t) p, true, false, false, mo);                                              \
        return v;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)                                   \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                  \
        at_hb((uintptr_t) p, false, true, false, mo);                                              \
    }                                                                                              \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo)                                   \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                         \
        at_hb((uintptr_t) p, true, true, true, mo);                                                \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int)       \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        bool r = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
        at_hb((uintptr_t) p, true, r, true, mo);                                                   \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int)         \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        bool r = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
        at_hb((uintptr_t) p, true, r, true, mo);                                                   \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T d, int mo, int)             \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        bool r = __atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_hb((uintptr_t) p, true, r, true, mo);                                                   \
        return e;                                                                                  \
    }
#define ATI(BITS, T, OP)                                                                           \
    T __tsan_atomic##BITS##_fetch_##OP(volatile T* p, T v, int mo)                                 \
    {                                                                                              \
        at_pre((uintptr_t) p, BITS / 8, true, CALLER);                                             \
        T r = __atomic_fetch_##OP(p, v, __ATOMIC_SEQ_CST);                                         \
        at_hb((uintptr_t) p, true, true, true, mo);                                                \
        return r;                                                                                  \
    }
#define ATALL(BITS, T)                                                                             \
    AT(BITS, T)                                                                                    \
    ATI(BITS, T, add) ATI(BITS, T, sub) ATI(BITS, T, and) ATI(BITS, T, or) ATI(BITS, T, xor) ATI(BITS, T, nand)
ATALL(8, uint8_t)
ATALL(16, uint16_t)
ATALL(32, uint32_t)
ATALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!g_conc) return;
    Task& t = g_tasks[g_cur];
    if (mo != __ATOMIC_RELEASE && t.has_acq_pending) vc_join(t.vc, t.acq_pending);
    if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) {
        memcpy(t.rel_fence, t.vc, sizeof t.vc);
        t.has_rel_fence = true;
        ++t.vc[g_cur];
    }
    yield_point(2);
}
void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    on_range((uintptr_t) s, n, false, CALLER);
    on_range((uintptr_t) d, n, true, CALLER);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    on_range((uintptr_t) s, n, false, CALLER);
    on_range((uintptr_t) d, n, true, CALLER);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    on_range((uintptr_t) d, n, true, CALLER);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    on_range((uintptr_t) a, n, false, CALLER);
    on_range((uintptr_t) b, n, false, CALLER);
    return __real_memcmp(a, b, n);
}
} // extern C

// ---------------------------------------------------------------- I/O seam
static SimIoCfg g_io;
static bool g_io_on = false;
static char g_prefix[256];
static size_t g_prefix_len = 0;
static uint8_t g_fd_tracked[1024];
static uint64_t n_read, n_write, n_open, n_close, n_seek, n_all, n_wbytes;

static bool path_tracked(const char* p)
{
    if (!g_child || !g_prefix_len) return false;
    if (p[0] != '/') return true; // cwd is the scratch directory
    return strncmp(p, g_prefix, g_prefix_len) == 0;
}
static void io_point(bool crash_ok = true)
{
    ++n_all;
    if (R) ++R->io_points;
    if (R) R->hash = mix(R->hash, 0x10000 + n_all);
    if (g_io_on && crash_ok && g_io.crash_at && n_all == g_io.crash_at) {
        ++R->faults[F_CRASH];
        die(SIM_ST_CRASHPOINT);
    }
}
static bool tracked(int fd) { return g_child && fd >= 0 && fd < 1024 && g_fd_tracked[fd]; }
extern "C" {
static int do_open(const char* p, int fl, mode_t m)
{
    bool tr = path_tracked(p);
    if (tr) {
        ++n_open;
        io_point();
        if (g_io_on && g_io.open_fail_at && n_open == g_io.open_fail_at) {
            ++R->faults[F_OPEN];
            errno = EMFILE;
            return -1;
        }
    }
    int fd = (int) syscall(SYS_openat, AT_FDCWD, p, fl, m);
    if (fd >= 0 && fd < 1024) g_fd_tracked[fd] = tr;
    return fd;
}
int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    return do_open(p, fl, m);
}
int open64(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    return do_open(p, fl | O_LARGEFILE, m);
}
int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// changes of the directory tree count as opens
static int name_op(const char* p)
{
    if (!path_tracked(p)) return 0;
    ++n_open;
    io_point();
    if (g_io_on && g_io.open_fail_at && n_open == g_io.open_fail_at) {
        ++R->faults[F_OPEN];
        errno = EIO;
        return -1;
    }
    return 0;
}
int rename(const char* a, const char* b) noexcept
{
    if (name_op(a)) return -1;
    return (int) syscall(SYS_rename, a, b);
}
int mkdir(const char* p, mode_t m) noexcept
{
    if (name_op(p)) return -1;
    return (int) syscall(SYS_mkdir, p, m);
}
int unlink(const char* p) noexcept
{
    if (name_op(p)) return -1;
    return (int) syscall(SYS_unlink, p);
}
int remove(const char* p) noexcept
{
    if (name_op(p)) return -1;
    int r = (int) syscall(SYS_unlink, p);
    return r && errno == EISDIR ? (int) syscall(SYS_rmdir, p) : r;
}
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* do_fopen(const char* p, const char* mode)
{
    static fopen_t rf = (fopen_t) dlsym(RTLD_NEXT, "fopen64");
    bool tr = path_tracked(p);
    if (tr) {
        ++n_open;
        io_point();
        if (g_io_on && g_io.open_fail_at && n_open == g_io.open_fail_at) {
            ++R->faults[F_OPEN];
            errno = EMFILE;
            return nullptr;
        }
    }
    FILE* f = rf(p, mode);
    if (f) {
        int fd = fileno(f);
        if (fd >= 0 && fd < 1024) g_fd_tracked[fd] = tr;
        // unbuffered: every transfer of a tracked file passes through read/write
        if (tr) setvbuf(f, nullptr, _IONBF, 0);
    }
    return f;
}
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m); }
int fclose(FILE* f)
{
    typedef int (*fc_t)(FILE*);
    static fc_t rf = (fc_t) dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1;
    bool tr = tracked(fd);
    int r = rf(f);
    if (tr) {
        g_fd_tracked[fd] = 0;
        ++n_close;
        io_point();
        if (g_io_on && g_io.close_fail_at && n_close == g_io.close_fail_at) {
            ++R->faults[F_CLOSE];
            errno = EIO;
            return EOF;
        }
    }
    return r;
}
int close(int fd)
{
    bool tr = tracked(fd);
    int r = (int) syscall(SYS_close, fd);
    if (tr) {
        g_fd_tracked[fd] = 0;
        ++n_close;
        io_point();
        if (g_io_on && g_io.close_fail_at && n_close == g_io.close_fail_at) {
            ++R->faults[F_CLOSE];
            errno = EIO;
            return -1;
        }
    }
    return r;
}
static ssize_t pre_read(int fd, size_t* n)
{
    ++n_read;
    io_point();
    if (!g_io_on) return 0;
    if (g_io.eintr_at && n_read == g_io.eintr_at) {
        ++R->faults[F_EINTR];
        errno = EINTR;
        return -1;
    }
    if (g_io.eio_read_at && n_read >= g_io.eio_read_at) {
        ++R->faults[F_EIO_READ];
        errno = EIO;
        return -1;
    }
    if (*n > 1 && ((g_io.short_read_at && n_read == g_io.short_read_at)
                   || (g_io.short_always && *n > g_io.short_always))) {
        ++R->faults[F_SHORT_READ];
        *n = g_io.short_always ? g_io.short_always : (*n + 1) / 2;
    }
    return 0;
}
static ssize_t pre_write(int fd, size_t* n)
{
    ++n_write;
    io_point(false);
    if (!g_io_on) return 0;
    if (g_io.eio_write_at && n_write >= g_io.eio_write_at) {
        ++R->faults[F_EIO_WRITE];
        errno = EIO;
        return -1;
    }
    if (g_io.enospc_after) {
        uint64_t left = g_io.enospc_after - 1 > n_wbytes ? g_io.enospc_after - 1 - n_wbytes : 0;
        if (*n > left) {
            ++R->faults[F_ENOSPC];
            if (left == 0) {
                errno = ENOSPC;
                return -1;
            }
            *n = left;
        }
    }
    if (*n > 1 && ((g_io.short_write_at && n_write == g_io.short_write_at)
                   || (g_io.short_always && *n > g_io.short_always))) {
        ++R->faults[F_SHORT_WRITE];
        *n = g_io.short_always ? g_io.short_always : (*n + 1) / 2;
    }
    if (g_io.crash_at && n_all == g_io.crash_at) {
        // torn: only the first half of this write reaches the file
        *n = *n / 2;
        return 1;
    }
    return 0;
}
ssize_t read(int fd, void* b, size_t n)
{
    if (tracked(fd) && pre_read(fd, &n) < 0) return -1;
    return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread64(int fd, void* b, size_t n, off_t o)
{
    if (tracked(fd) && pre_read(fd, &n) < 0) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (tracked(fd)) {
        ssize_t r = pre_write(fd, &n);
        if (r < 0) return -1;
        ssize_t k = n ? syscall(SYS_write, fd, b, n) : 0;
        if (k > 0) n_wbytes += (uint64_t) k;
        if (r == 1) {
            ++R->faults[F_CRASH];
            die(SIM_ST_CRASHPOINT);
        }
        return k;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; ++i) n += v[i].iov_len;
    ssize_t r = pre_write(fd, &n);
    if (r < 0) return -1;
    size_t left = n, done = 0;
    for (int i = 0; i < c && left; ++i) {
        size_t k = v[i].iov_len < left ? v[i].iov_len : left;
        ssize_t q = syscall(SYS_write, fd, v[i].iov_base, k);
        if (q < 0) break;
        done += (size_t) q;
        left -= (size_t) q;
    }
    n_wbytes += done;
    if (r == 1) {
        ++R->faults[F_CRASH];
        die(SIM_ST_CRASHPOINT);
    }
    return (ssize_t) done;
}
off_t lseek64(int fd, off_t o, int w) noexcept
{
    if (tracked(fd)) {
        ++n_seek;
        io_point();
        if (g_io_on && g_io.seek_fail_at && n_seek == g_io.seek_fail_at) {
            ++R->faults[F_SEEK];
            errno = EIO;
            return -1;
        }
    }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
void sim_io_config(const SimIoCfg* c)
{
    if (c) {
        g_io = *c;
        g_io_on = true;
        n_read = n_write = n_open = n_close = n_seek = n_all = n_wbytes = 0;
    } else
        g_io_on = false;
}
} // extern C

// ---------------------------------------------------------------- randomness seam
extern "C" {
uint64_t sim_rand(void) { return splitmix(g_envrng); }
void sim_env_seed(uint64_t s) { g_envrng = s * 0x9e3779b97f4a7c15ull + 1; }
ssize_t getrandom(void* b, size_t n, unsigned)
{
    unsigned char* p = (unsigned char*) b;
    for (size_t i = 0; i < n; ++i) p[i] = (unsigned char) (sim_rand() >> 24);
    return (ssize_t) n;
}
int getentropy(void* b, size_t n)
{
    getrandom(b, n, 0);
    return 0;
}
uint32_t arc4random(void) { return (uint32_t) (sim_rand() >> 16); }
unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned) (sim_rand() >> 16); }
}

// ---------------------------------------------------------------- signals
// return addresses on the stack that look like code
static void scan_stack(uintptr_t sp)
{
    uintptr_t* s = (uintptr_t*) (sp & ~7ull);
    for (int i = 0; i < 400 && R && R->npcs < 16; ++i) {
        uintptr_t top = STACKS + (uintptr_t) SIM_MAX_TASKS * STACK_SZ;
        if ((uintptr_t) (s + i) >= top || (uintptr_t) (s + i) < STACKS) break;
        extern char etext;
        if (s[i] > (uintptr_t) &__executable_start && s[i] < (uintptr_t) &etext) add_pc(s[i]);
    }
}
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    if (g_dying) syscall(SYS_exit_group, 96);
    uintptr_t pc = (uintptr_t) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RIP];
    uintptr_t sp = (uintptr_t) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RSP];
    const char* n = sig == SIGSEGV ? "SIGSEGV"
            : sig == SIGABRT       ? "SIGABRT"
            : sig == SIGFPE        ? "SIGFPE"
            : sig == SIGBUS        ? "SIGBUS"
            : sig == SIGXCPU       ? "SIGXCPU"
                                   : "SIGILL";
    char c[64];
    add_pc(pc);
    if (sig != SIGXCPU) scan_stack(sp);
    if (sig == SIGXCPU) {
        sim_violation("no-progress", "one operation exceeded the processor-time limit (task %d)", g_cur);
    }
    snprintf(c, sizeof c, "crash-%s", n);
    uintptr_t fa = sig == SIGSEGV ? (uintptr_t) si->si_addr : 0;
    bool so = fa && fa >= STACKS - 65536 && (fa - STACKS) % STACK_SZ < 8192;
    sim_violation(so ? "stack-overflow" : c, "process killed by %s in task %d%s", n, g_cur,
                  fa < 65536 && sig == SIGSEGV ? " (null dereference)" : "");
}
static void on_terminate()
{
    const char* nm = "?";
    const char* what = "";
    static char w[512];
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) {
        nm = ti->name();
        try {
            throw;
        } catch (std::exception& e) {
            snprintf(w, sizeof w, ": %s", e.what());
            what = w;
        } catch (...) {
        }
    }
    scan_stack((uintptr_t) __builtin_frame_address(0));
    sim_violation("terminate", "std::terminate called in task %d (exception %s%s)", g_cur, nm, what);
}

// ---------------------------------------------------------------- life cycle
extern "C" {
int sim_self(void) { return g_cur; }
void sim_yield(void)
{
    if (!g_conc) return;
    yield_point(2);
}
void sim_hash(uint64_t v)
{
    if (R) R->hash = mix(R->hash, v);
}
void sim_probe(int i)
{
    if (R && i < 64) ++R->probes[i];
}
void sim_fault(int k)
{
    if (R) ++R->faults[k];
}
void sim_out(const void* p, size_t n)
{
    if (!R) return;
    if (R->outlen + n > SIM_OUT) sim_error("result buffer full");
    memcpy(R->out + R->outlen, p, n);
    R->outlen += (uint32_t) n;
}
SimResult* sim_result(void) { return R; }
uint64_t sim_now_ns(void) { return g_now; }
uint64_t sim_my_step(void) { return g_tasks[g_cur].step; }
uint64_t sim_total_steps(void) { return g_total_steps; }
int sim_held_locks(void) { return g_tasks[g_cur].held; }
void sim_arm_alloc(uint64_t nth, uint64_t len)
{
    Task& t = g_tasks[g_cur];
    t.armed = true;
    t.arm_nth = nth ? (int64_t) nth : -1;
    t.arm_len = (int64_t) len;
    t.arm_seen = t.arm_fired = 0;
}
uint64_t sim_disarm_alloc(void)
{
    Task& t = g_tasks[g_cur];
    t.armed = false;
    return t.arm_fired;
}
void sim_alloc_pause(int d) { g_tasks[g_cur].arm_pause += d; }
uint64_t sim_alloc_seen(void) { return g_tasks[g_cur].arm_seen; }
uint64_t sim_alloc_fired(void) { return g_tasks[g_cur].arm_fired; }

void sim_begin(SimResult* res, const SimHeapCfg* heap, const char* prefix)
{
    R = res;
    R->hash = R->ilv_hash = 0x1234567;
    g_heap = *heap;
    g_fillrng = heap->seed * 0x2545F4914F6CDD1Dull + 7;
    g_now = 1700000000000000000ull;
    if (prefix) {
        snprintf(g_prefix, sizeof g_prefix, "%s", prefix);
        g_prefix_len = strlen(g_prefix);
    }
    memset(g_fd_tracked, 0, sizeof g_fd_tracked);
    if (heap->fill || heap->reuse) ++R->faults[F_DIRTY_HEAP];
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGXCPU, &sa, nullptr);
    std::set_terminate(on_terminate);
    map_fixed(STACKS, (size_t) SIM_MAX_TASKS * STACK_SZ);
    for (int i = 0; i < SIM_MAX_TASKS; ++i) // guard pages
        mprotect((void*) (STACKS + (uintptr_t) i * STACK_SZ), 8192, PROT_NONE);
    g_small_live = 0;
    g_child = true;
}

static uint8_t g_altstacks[SIM_MAX_TASKS][65536];
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);

static void* task_main(void* p)
{
    Task& t = *(Task*) p;
    stack_t ss;
    ss.ss_sp = g_altstacks[t.id];
    ss.ss_size = sizeof g_altstacks[0];
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    if (t.id == 0) {
        t_is_task = true;
        t.fn(t.arg);
        sim_finish_ok();
    }
    park_until_mine(t);
    t_is_task = true;
    if (t.foreign_thread) t.pret = t.pfn(t.arg);
    else
        t.fn(t.arg);
    if (t.armed) t.armed = false;
    if (t.held && !t.foreign_thread)
        sim_violation("lock-leaked", "task %d finished holding %d lock(s)", t.id, t.held);
    t.state = 3;
    sync_event(20, (uintptr_t) t.id);
    wake_all((uintptr_t) t.id, 4);
    pick_other();
    for (;;) pause(); // never run thread-exit code: the simulation owns this thread
}
static void start_thread(Task& t)
{
    if (!real_pthread_create)
        real_pthread_create = (decltype(real_pthread_create)) dlsym(RTLD_NEXT, "pthread_create");
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*) (STACKS + (uintptr_t) t.id * STACK_SZ + 8192), STACK_SZ - 8192);
    if (real_pthread_create(&t.th, &at, task_main, &t)) sim_error("cannot create a thread");
    pthread_attr_destroy(&at);
}
void sim_on_main_stack(void (*fn)(void*), void* arg)
{
    Task& t = g_tasks[0];
    t.id = 0;
    t.state = 1;
    t.vc[0] = 1;
    t.fn = fn;
    t.arg = arg;
    t.next_sync = t.next_foreign = t.next_other = ~0ull >> 1;
    start_thread(t);
    for (;;) pause();
}
static Task& new_task()
{
    if (g_ntasks >= SIM_MAX_TASKS) sim_error("too many tasks");
    Task& t = g_tasks[g_ntasks];
    memset(&t, 0, sizeof t);
    t.id = g_ntasks;
    vc_join(t.vc, g_tasks[g_cur].vc);
    t.vc[t.id] = 1;
    ++g_tasks[g_cur].vc[g_cur];
    return t;
}
static void arm_gaps(Task& t)
{
    t.next_sync = geo(g_cfg.gap_sync);
    t.next_foreign = geo(g_cfg.gap_foreign);
    t.next_other = geo(g_cfg.gap_other);
    t.prio = 1000 + (int) (srng() % 100000);
}
int sim_spawn(void (*fn)(void*), void* arg)
{
    Task& t = new_task();
    t.fn = fn;
    t.arg = arg;
    t.state = 1;
    start_thread(t);
    return g_ntasks++;
}
static void sched_init(const SimSchedCfg* cfg)
{
    g_cfg = *cfg;
    g_rng = cfg->seed * 0xD1342543DE82EF95ull + 99;
    g_replay_pos = 0;
    g_total_steps = 0;
    for (int i = 0; i < g_ntasks; ++i) arm_gaps(g_tasks[i]);
    g_pct_n = 0;
    if (cfg->strategy == SIM_S_PCT) {
        g_pct_n = (int) (cfg->pct_depth > 60 ? 60 : cfg->pct_depth);
        for (int i = 0; i < g_pct_n; ++i) g_pct_points[i] = 1 + srng() % (cfg->pct_len ? cfg->pct_len : 1);
        for (int i = 0; i < g_pct_n; ++i)
            for (int j = i + 1; j < g_pct_n; ++j)
                if (g_pct_points[j] < g_pct_points[i]) {
                    uint64_t x = g_pct_points[i];
                    g_pct_points[i] = g_pct_points[j];
                    g_pct_points[j] = x;
                }
    }
    g_pct_i = 0;
    g_pct_count = 0;
    g_pct_low = 0;
}
void sim_run(const SimSchedCfg* cfg)
{
    sched_init(cfg);
    g_conc = true;
    Task& t = g_tasks[0];
    t.state = 2;
    t.wait_kind = 0;
    pick_other();
    t.state = 1;
    g_conc = false;
    for (int i = 1; i < g_ntasks; ++i) vc_join(t.vc, g_tasks[i].vc);
    // tasks are finished; allow another phase with fresh threads
}
void sim_finish_ok(void)
{
    if (R) {
        R->allocs = g_allocid;
        R->live_bytes = g_livebytes;
    }
    die(SIM_ST_OK);
}

void sim_isolated(void (*fn)(void*), void* arg)
{
    if (g_conc) sim_error("sim_isolated inside a concurrent phase");
    pid_t p = (pid_t) syscall(SYS_fork);
    if (p < 0) sim_error("fork failed");
    if (p == 0) {
        fn(arg);
        g_dying = true;
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (syscall(SYS_wait4, p, &st, 0, nullptr) < 0 && errno == EINTR) {}
    if (st != 0) {
        if (R->status == SIM_ST_NONE) {
            snprintf(R->vclass, sizeof R->vclass, "process-died");
            snprintf(R->msg, sizeof R->msg, "isolated step ended with wait status %x", st);
            die(SIM_ST_VIOLATION);
        }
        die(R->status);
    }
}

// ---- threads created by the code under test itself
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
    if (!simulating()) {
        if (!real_pthread_create)
            real_pthread_create = (decltype(real_pthread_create)) dlsym(RTLD_NEXT, "pthread_create");
        return real_pthread_create(out, a, fn, arg);
    }
    Task& t = new_task();
    t.foreign_thread = true;
    t.pfn = fn;
    t.arg = arg;
    t.state = 1;
    arm_gaps(t);
    start_thread(t);
    *out = t.th;
    ++g_ntasks;
    if (g_conc) yield_point(2);
    return 0;
}
static int task_of(pthread_t th)
{
    for (int i = 0; i < g_ntasks; ++i)
        if (g_tasks[i].th == th) return i;
    return -1;
}
int pthread_join(pthread_t th, void** ret)
{
    if (!simulating()) {
        typedef int (*pj)(pthread_t, void**);
        static pj rf = (pj) dlsym(RTLD_NEXT, "pthread_join");
        return rf(th, ret);
    }
    int i = task_of(th);
    if (i < 0) return ESRCH;
    while (g_tasks[i].state != 3) block_on((uintptr_t) i, 4, CALLER);
    vc_join(g_tasks[g_cur].vc, g_tasks[i].vc);
    if (ret) *ret = g_tasks[i].pret;
    return 0;
}
int pthread_detach(pthread_t th)
{
    int i = task_of(th);
    if (i >= 0) g_tasks[i].detached = true;
    return 0;
}
} // extern C
