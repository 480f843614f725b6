// Deterministic simulation runtime.  Not instrumented.  See rt.h.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include "rt_int.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <initializer_list>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start;
extern char _end;
}

namespace simi {

const char* fault_names[] = {"preemption",      "spurious_wakeup", "try_lock_failure",
                             "thread_create_failure", "alloc_failure",   "time_jump",
                             "thread_stall",    "notify_reorder",  "task_exception",
                             "cancellation",    "dropped_task",    "shutdown",
                             "slow_task",       "sender_drop",     "executor_refusal"};
const char* kind_names[] = {"sched", "spurious", "trylock", "create", "alloc",
                            "time",  "notify",   "delay",   "user"};
uint64_t max_points = 400000;

// ---------------------------------------------------------------- raw system calls
static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static void futex_wait(int* p, int v) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int* p) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---------------------------------------------------------------- layout of simulated memory
constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
constexpr size_t HEAP_SIZE = 192ull << 20;
constexpr size_t STACK_SIZE = 512ull << 10;
constexpr uintptr_t STACK_BASE = HEAP_BASE + HEAP_SIZE;
constexpr size_t STACKS_SIZE = STACK_SIZE * (MAXT + 1);
constexpr uintptr_t REGION_END = STACK_BASE + STACKS_SIZE;
constexpr uintptr_t SHADOW_BASE = 0x200000000000ull;
constexpr uintptr_t GSHADOW_BASE = 0x300000000000ull;

struct Cell { // 32 bytes per 8 bytes of memory
    uint32_t w, r0, r1;
    uint32_t wpc, r0pc, r1pc;
    uint8_t wm, r0m, r1m, fl;
    uint32_t pad;
};
enum : uint8_t { FL_FREED = 1, FL_WAT = 2, FL_R0AT = 4, FL_R1AT = 8 };
static_assert(sizeof(Cell) == 32);

struct VC {
    uint32_t c[MAXT];
};
static inline void vc_join(VC& a, const VC& b, int n) {
    for (int i = 0; i < n; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum TState { T_RUNNABLE, T_BLOCKED, T_FINISHED };
enum BKind { B_NONE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_QUIESCE, B_GUARD, B_FUTEX, B_RWLOCK };
static const char* bkind_names[] = {"-",      "mutex", "condition", "join", "sleep",
                                    "quiesce", "static-init", "futex",     "rwlock"};

struct Dtor {
    void (*fn)(void*);
    void* obj;
};

struct Thread {
    int id;
    int go;
    pthread_t real;
    TState st;
    BKind bk;
    void* bobj;
    uint64_t deadline; // ~0 none
    bool timed_out, spurious;
    uint64_t wait_seq;
    VC vc, acq_pending, rel_fence;
    bool has_acq_pending, has_rel_fence;
    int quiet, rt;
    bool detached, joined;
    bool allocfault, createfault;
    void* retval;
    void* (*fn)(void*);
    void* arg;
    char name[32];
    uint32_t cs[512]; // call sites
    uint32_t fe[512]; // the functions called
    uintptr_t sp[512]; // bottoms of their frames
    int csd;
    int ndtor;
    Dtor dtors[64];
    uint32_t prio;
};

struct Sync { // keyed by address
    uintptr_t addr;
    uint32_t id;
    VC vc;
    // mutex
    int owner; // -1 none
    int count;
    // rwlock
    int readers;
    int guard_state;
};

struct Event {
    const char* what;
    long a, b, c;
    uint64_t t;
    uint64_t point;
    int tid;
};

struct TraceRec {
    uint32_t idx, val, n;
    int kind;
    int from, to;
    uint32_t pcs[3];
    const char* op;
};

static constexpr int NSYNC = 1 << 15;

struct G {
    bool on;
    Result* res;
    Shared* sh;
    RunSpec spec;
    Thread* th[MAXT];
    int nth;
    int cur;
    uint64_t now;
    uint64_t min_deadline;
    uint64_t points, choices, switches;
    uint64_t hash, ihash, ehash;
    uint64_t accesses;
    uint64_t evseq;
    uint64_t wait_seq;
    unsigned fmask;
    bool faults_on;
    unsigned hw;
    uint64_t rng;
    uint64_t rng_w;
    uint32_t dpos;
    int consecutive, pct_consecutive;
    // strategy
    int strat;
    double p_switch;
    double p_spur, p_time, p_try, p_create, p_alloc, p_notify, p_user;
    uint64_t change[8];
    int nchange;
    uint32_t lowprio;
    int victim;
    uint64_t stall_from, stall_len;
    bool stall_counted;
    uint32_t refcount_skip;
    // memory
    uintptr_t heap_top;
    Sync* table[NSYNC];
    int nsync;
    Sync* pool;
    Event* evs;
    int nev;
    TraceRec* tr;
    int ntr;
    bool finishing;
};
static G* g = nullptr;
static bool g_on = false; // in a simulated run, current thread is a simulated one

static Thread& T() { return *g->th[g->cur]; }

static inline uint64_t rnd64(uint64_t& s) { // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t rndn(uint64_t n) { return n ? rnd64(g->rng) % n : 0; }
static inline bool rndp(double p) { return (rnd64(g->rng) >> 11) * (1.0 / 9007199254740992.0) < p; }
static inline void mix(uint64_t& h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 29;
}

struct RtScope {
    Thread* t;
    RtScope() : t(g_on ? &T() : nullptr) {
        if (t) ++t->rt;
    }
    ~RtScope() {
        if (t) --t->rt;
    }
};

// ---------------------------------------------------------------- end of run
[[noreturn]] static void finish(int status, const char* cls, const char* msg);

static void append(char* buf, size_t n, const char* fmt, ...) {
    size_t l = strlen(buf);
    if (l + 1 >= n) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf + l, n - l, fmt, ap);
    va_end(ap);
}

static void describe_threads(char* buf, size_t n) {
    for (int i = 0; i < g->nth; ++i) {
        Thread& t = *g->th[i];
        if (t.st == T_FINISHED) continue;
        append(buf, n, "; t%d%s%s:%s", i, t.name[0] ? "/" : "", t.name,
               t.st == T_BLOCKED ? bkind_names[t.bk] : "runnable");
        if (t.csd > 0) {
            append(buf, n, "@{0x%x}<", t.fe[std::min(t.csd, 512) - 1]);
            int c = 0;
            for (int k = t.csd - 1; k >= 0 && c < 4; --k, ++c)
                append(buf, n, "%s{0x%x}", c ? "<" : "", t.cs[k < 512 ? k : 511]);
        }
    }
}

static void print_trace();

static void finish(int status, const char* cls, const char* msg) {
    if (g->finishing) _exit(3);
    g->finishing = true;
    g_on = false;
    Result* r = g->res;
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    snprintf(r->msg, sizeof r->msg, "%s", msg);
    r->hash = g->hash;
    r->ihash = g->ihash;
    r->ehash = g->ehash;
    r->points = g->points;
    r->choices = g->choices;
    r->switches = g->switches;
    r->simtime = g->now;
    r->nevents = g->nev;
    r->accesses = g->accesses;
    r->nthreads = g->nth;
    if (g->spec.trace) print_trace();
    __atomic_store_n(&r->status, status, __ATOMIC_SEQ_CST);
    raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

extern "C" __attribute__((weak)) bool sim_accept(const char* cls);
[[noreturn]] static void vfailf(const char* cls, const char* fmt, va_list ap) {
    static char buf[3000];
    buf[0] = 0;
    vsnprintf(buf, sizeof buf, fmt, ap);
    if (sim_accept && !sim_accept(cls)) finish(ST_DISCARD, cls, buf); // not what this check is about
    mix(g->hash, 0xdead);
    finish(ST_VIOLATION, cls, buf);
}
[[noreturn]] static void failf(const char* cls, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfailf(cls, fmt, ap);
}
[[noreturn]] static void internal(const char* fmt, ...) {
    static char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    finish(ST_INTERNAL, "internal", buf);
}

// ---------------------------------------------------------------- decisions
static void record(int kind, uint32_t val, uint32_t n, int from, int to, const char* op) {
    Result* r = g->res;
    if (r->nD < MAXD) r->D[r->nD++] = Decision{(uint32_t)g->choices, val};
    if (g->spec.trace && g->ntr < (1 << 17)) {
        TraceRec& t = g->tr[g->ntr++];
        t = TraceRec{(uint32_t)g->choices, val, n, kind, from, to, {0, 0, 0}, op};
        Thread& th = T();
        if (th.csd > 0 && th.csd <= 512) t.pcs[0] = th.fe[th.csd - 1];
        for (int i = 1; i < 3 && th.csd - i >= 0 && th.csd - i < 512; ++i)
            t.pcs[i] = th.cs[th.csd - i];
    }
}

// returns recorded value in replay mode; ~0u when the strategy must decide
static inline bool replayed(uint32_t n, uint32_t& out) {
    if (!g->spec.replay_d) return false;
    while (g->dpos < g->spec.nD && g->spec.D[g->dpos].idx < g->choices) ++g->dpos;
    if (g->dpos < g->spec.nD && g->spec.D[g->dpos].idx == g->choices) {
        out = g->spec.D[g->dpos].val;
        if (out >= n) out = 0;
    } else
        out = 0;
    return true;
}

// two-valued / n-valued fault choice with probability p of a non-default value
static uint32_t choose(int kind, uint32_t n, double p) {
    if (n <= 1) return 0;
    ++g->choices;
    uint32_t v;
    if (!replayed(n, v)) v = (g->faults_on && rndp(p)) ? 1 + (uint32_t)rndn(n - 1) : 0;
    if (v) record(kind, v, n, g->cur, g->cur, kind_names[kind]);
    mix(g->hash, v * 16 + kind);
    return v;
}

static void count_fault(unsigned f) { g->res->faults[f]++; }
static bool fenabled(unsigned f) { return g->faults_on && (g->fmask >> f & 1); }

// ---------------------------------------------------------------- scheduler
static void recompute_min_deadline() {
    uint64_t m = ~0ull;
    for (int i = 0; i < g->nth; ++i) {
        Thread& t = *g->th[i];
        if (t.st == T_BLOCKED && t.deadline < m) m = t.deadline;
    }
    g->min_deadline = m;
}
static void make_runnable(Thread& t) {
    t.st = T_RUNNABLE;
    t.bk = B_NONE;
    if (t.deadline != ~0ull) {
        t.deadline = ~0ull;
        recompute_min_deadline();
    }
}
static void expire_timers() {
    while (g->min_deadline <= g->now) {
        for (int i = 0; i < g->nth; ++i) {
            Thread& t = *g->th[i];
            if (t.st == T_BLOCKED && t.bk != B_QUIESCE && t.deadline <= g->now) {
                t.timed_out = true;
                make_runnable(t);
            }
        }
        recompute_min_deadline();
    }
}

static void handoff(Thread& from, Thread& to) {
    g->cur = to.id;
    __atomic_store_n(&to.go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&to.go);
    while (!__atomic_load_n(&from.go, __ATOMIC_SEQ_CST))
        futex_wait(&from.go, 0);
    __atomic_store_n(&from.go, 0, __ATOMIC_SEQ_CST);
}

static void do_switch(int to, const char* op) {
    Thread& me = T();
    g->switches++;
    mix(g->ihash, (uint64_t)me.id * 64 + to);
    for (const char* p = op; *p; ++p)
        mix(g->ihash, *p);
    g->consecutive = 0;
    g->pct_consecutive = 0;
    handoff(me, *g->th[to]);
}

static bool is_stalled(int t) {
    return g->strat == 2 && g->faults_on && t == g->victim && g->points >= g->stall_from &&
           g->points < g->stall_from + g->stall_len;
}

// The scheduling point. The current thread is either runnable (a preemption opportunity) or has
// just been marked blocked/finished.
static void schedule(const char* op) {
    Thread& me = T();
    g->points++;
    g->now += 20;
    if (g->min_deadline <= g->now) expire_timers();
    mix(g->hash, (uint64_t)g->cur << 8 | (unsigned char)op[0]);
    if (g->points > max_points) {
        static char buf[2500];
        buf[0] = 0;
        describe_threads(buf, sizeof buf);
        failf("no-progress", "run exceeded %llu scheduling points%s",
              (unsigned long long)max_points, buf);
    }
    for (;;) {
        int cand[MAXT + MAXT + 1];
        int n = 0;
        int nth = g->nth;
        bool me_run = me.st == T_RUNNABLE;
        bool forced = false;
        if (me_run) cand[n++] = g->cur;
        for (int k = 1; k <= nth; ++k) {
            int i = (g->cur + k) % nth;
            if (i != g->cur && g->th[i]->st == T_RUNNABLE) cand[n++] = i;
        }
        if (me_run && n > 1 && ++g->consecutive > 5000) { // fairness of the default policy
            g->consecutive = 0;
            int c = cand[0];
            for (int k = 0; k + 1 < n; ++k)
                cand[k] = cand[k + 1];
            cand[n - 1] = c;
            forced = true;
        }
        int nrun = n;
        if (n == 0) { // nothing can run: time passes, or the run is quiescent
            Thread* q = nullptr;
            for (int i = 0; i < nth; ++i)
                if (g->th[i]->st == T_BLOCKED && g->th[i]->bk == B_QUIESCE) {
                    q = g->th[i];
                    break;
                }
            uint64_t md = ~0ull;
            for (int i = 0; i < nth; ++i) {
                Thread& t = *g->th[i];
                if (t.st == T_BLOCKED && t.bk != B_QUIESCE && t.deadline < md) md = t.deadline;
            }
            uint64_t qlim = q ? (uint64_t)q->wait_seq : 0; // horizon
            if (q && (md == ~0ull || md > qlim)) {
                if (qlim != ~0ull && qlim > g->now) g->now = qlim;
                q->st = T_RUNNABLE;
                q->bk = B_NONE;
                continue;
            }
            if (md != ~0ull) {
                if (md > g->now) g->now = md;
                g->min_deadline = md;
                expire_timers();
                continue;
            }
            static char buf[2500];
            buf[0] = 0;
            describe_threads(buf, sizeof buf);
            failf("deadlock", "no thread can make progress%s", buf);
        }
        // spurious wakeups and time jumps
        int nspur = 0;
        bool tj = false;
        if (fenabled(sim::F_SPURIOUS))
            for (int i = 0; i < nth; ++i) {
                Thread& t = *g->th[i];
                if (t.st == T_BLOCKED && (t.bk == B_COND || t.bk == B_FUTEX)) {
                    cand[n++] = i;
                    ++nspur;
                }
            }
        if (fenabled(sim::F_TIMEJUMP) && g->min_deadline <= 1ull << 62) { // not beyond what clocks can show
            tj = true;
            cand[n++] = -1;
        }
        uint32_t pick = 0;
        if (n > 1) {
            ++g->choices;
            if (!replayed(n, pick)) {
                pick = 0;
                if (nspur && rndp(g->p_spur))
                    pick = nrun + (uint32_t)rndn(nspur);
                else if (tj && rndp(g->p_time))
                    pick = n - 1;
                else if (!g->faults_on) { // fair
                    if (nrun > 1 && (!me_run || rndp(0.15))) pick = (uint32_t)rndn(nrun);
                } else if (g->strat == 1) { // PCT
                    for (int c = 0; c < g->nchange; ++c)
                        if (g->change[c] == g->points) me.prio = --g->lowprio;
                    // (own counter: `consecutive` must evolve in the same way when decisions are replayed)
                    if (me_run && ++g->pct_consecutive > 1500) {
                        me.prio = --g->lowprio;
                        g->pct_consecutive = 0;
                    }
                    uint32_t best = 0;
                    for (int k = 1; k < nrun; ++k)
                        if (g->th[cand[k]]->prio > g->th[cand[best]]->prio) best = k;
                    pick = best;
                } else {
                    if (nrun > 1 && (!me_run || forced || rndp(g->p_switch)))
                        pick = (uint32_t)rndn(nrun);
                    if (is_stalled(cand[pick]) && nrun > 1) {
                        pick = (pick + 1 + (uint32_t)rndn(nrun - 1)) % nrun;
                        if (!g->stall_counted) {
                            count_fault(sim::F_STALL);
                            g->stall_counted = true;
                        }
                    }
                }
            }
            mix(g->hash, pick);
            if (pick) {
                int to = cand[pick];
                record(sim::K_SCHED, pick, n, g->cur, to, op);
            }
        }
        int to = cand[pick];
        if (to == -1) { // time passes although threads are runnable
            count_fault(sim::F_TIMEJUMP);
            uint64_t md = g->min_deadline;
            if (md > g->now) g->now = md;
            expire_timers();
            continue;
        }
        if ((int)pick >= nrun) {
            count_fault(sim::F_SPURIOUS);
            Thread& t = *g->th[to];
            t.spurious = true;
            make_runnable(t);
        }
        if (to != g->cur) {
            if (me_run) count_fault(sim::F_PREEMPT);
            do_switch(to, op);
        }
        return;
    }
}

static inline bool active() { return g_on && !T().quiet && !T().rt; }

static void block_cur(BKind k, void* obj, uint64_t deadline, const char* op) {
    Thread& t = T();
    t.st = T_BLOCKED;
    t.bk = k;
    t.bobj = obj;
    t.deadline = deadline;
    t.timed_out = false;
    t.spurious = false;
    t.wait_seq = ++g->wait_seq;
    if (deadline < g->min_deadline) g->min_deadline = deadline;
    schedule(op);
}

static void wake_all(BKind k, void* obj) {
    for (int i = 0; i < g->nth; ++i) {
        Thread& t = *g->th[i];
        if (t.st == T_BLOCKED && t.bk == k && t.bobj == obj) make_runnable(t);
    }
}

// ---------------------------------------------------------------- sync objects
static Sync& sync_of(const void* a) {
    uintptr_t x = (uintptr_t)a;
    uint32_t h = (uint32_t)((x >> 2) * 0x9E3779B1u >> 8) & (NSYNC - 1);
    for (;;) {
        Sync* s = g->table[h];
        if (!s) {
            if (g->nsync > NSYNC * 3 / 4) internal("sync table full");
            s = &g->pool[g->nsync];
            s->addr = x;
            s->id = g->nsync++;
            s->owner = -1;
            g->table[h] = s;
            return *s;
        }
        if (s->addr == x) return *s;
        h = (h + 1) & (NSYNC - 1);
    }
}
static void hb_acquire(Sync& s) { vc_join(T().vc, s.vc, g->nth); }
static void hb_bump() { T().vc.c[g->cur]++; }
static void hb_release_join(Sync& s) {
    vc_join(s.vc, T().vc, g->nth);
    hb_bump();
}

// ---------------------------------------------------------------- race / lifetime detector
static inline Cell* cell_of(uintptr_t a) {
    if (a >= HEAP_BASE && a < REGION_END)
        return (Cell*)(SHADOW_BASE + (a - HEAP_BASE) / 8 * sizeof(Cell));
    uintptr_t d = (uintptr_t)&__data_start;
    if (a >= d && a < (uintptr_t)&_end)
        return (Cell*)(GSHADOW_BASE + (a / 8 - d / 8) * sizeof(Cell));
    return nullptr;
}

[[noreturn]] static void report_race(const char* cls, uintptr_t a, uint32_t pc, bool w, uint32_t e,
                                     uint32_t opc, bool ow) {
    char st[300];
    st[0] = 0;
    Thread& t = T();
    for (int k = t.csd - 1, c = 0; k >= 0 && c < 6; --k, ++c)
        append(st, sizeof st, "<{0x%x}", t.cs[k < 512 ? k : 511]);
    (void)a;
    failf(cls, "%s by t%d at {0x%x}%s conflicts with %s by t%u at {0x%x}", w ? "write" : "read",
          g->cur, pc, st, ow ? "write" : "read", e >> 24, opc);
}

static inline bool hb(uint32_t e, const Thread& t) { return (e & 0xffffff) <= t.vc.c[e >> 24]; }

static void access_cell(Cell* c, uintptr_t a, uint8_t m, bool w, bool at, uint32_t pc, Thread& t) {
    if (c->fl & FL_FREED) {
        char st[300];
        st[0] = 0;
        for (int k = t.csd - 1, n = 0; k >= 0 && n < 6; --k, ++n)
            append(st, sizeof st, "<{0x%x}", t.cs[k < 512 ? k : 511]);
        failf("use-after-free", "%s of freed memory by t%d at {0x%x}%s; freed by t%u at {0x%x}",
              w ? "write" : "read", g->cur, pc, st, c->w >> 24, c->wpc);
    }
    uint32_t e = (uint32_t)t.id << 24 | (t.vc.c[t.id] & 0xffffff);
    if (c->w && (c->wm & m) && (c->w >> 24) != (uint32_t)t.id && !hb(c->w, t) &&
        !(at && (c->fl & FL_WAT)))
        report_race("data-race", a, pc, w, c->w, c->wpc, true);
    if (w) {
        if (c->r0 && (c->r0m & m) && (c->r0 >> 24) != (uint32_t)t.id && !hb(c->r0, t) &&
            !(at && (c->fl & FL_R0AT)))
            report_race("data-race", a, pc, w, c->r0, c->r0pc, false);
        if (c->r1 && (c->r1m & m) && (c->r1 >> 24) != (uint32_t)t.id && !hb(c->r1, t) &&
            !(at && (c->fl & FL_R1AT)))
            report_race("data-race", a, pc, w, c->r1, c->r1pc, false);
        if (c->w == e)
            c->wm |= m;
        else
            c->wm = m;
        c->w = e;
        c->wpc = pc;
        c->fl = at ? c->fl | FL_WAT : c->fl & ~FL_WAT;
    } else {
        int slot;
        if (c->r0 == 0 || (c->r0 >> 24) == (uint32_t)t.id)
            slot = 0;
        else if (c->r1 == 0 || (c->r1 >> 24) == (uint32_t)t.id)
            slot = 1;
        else if (hb(c->r0, t))
            slot = 0;
        else
            slot = 1;
        if (slot == 0) {
            c->r0m = c->r0 == e ? c->r0m | m : m;
            c->r0 = e;
            c->r0pc = pc;
            c->fl = at ? c->fl | FL_R0AT : c->fl & ~FL_R0AT;
        } else {
            c->r1m = c->r1 == e ? c->r1m | m : m;
            c->r1 = e;
            c->r1pc = pc;
            c->fl = at ? c->fl | FL_R1AT : c->fl & ~FL_R1AT;
        }
    }
}

// Another thread's stack below its innermost frame (or any of it once it ended) is dead.
static inline bool dead_stack(uintptr_t a) {
    if (a < STACK_BASE || a >= REGION_END) return false;
    int o = (int)((a - STACK_BASE) / STACK_SIZE);
    if (o == g->cur || o >= g->nth) return false;
    Thread& t = *g->th[o];
    if (t.st == T_FINISHED) return true;
    return t.csd > 0 && t.csd <= 512 && a < t.sp[t.csd - 1];
}
[[noreturn]] static void report_dead_stack(uintptr_t a, const char* what, uint32_t pc) {
    char st[300];
    st[0] = 0;
    Thread& t = T();
    for (int k = t.csd - 1, c = 0; k >= 0 && c < 6; --k, ++c)
        append(st, sizeof st, "<{0x%x}", t.cs[k < 512 ? k : 511]);
    failf("use-after-return", "%s by t%d at {0x%x}%s of a stack frame of t%d that is gone", what, g->cur, pc, st,
          (int)((a - STACK_BASE) / STACK_SIZE));
}

static inline void access(uintptr_t a, size_t n, bool w, bool at, uint32_t pc) {
    if (!g_on) return;
    Thread& t = T();
    if (t.quiet || t.rt) return;
    if (++g->accesses > 300000000ull) failf("no-progress", "runaway loop at {0x%x}", pc);
    Cell* c = cell_of(a);
    if (!c) return;
    if (dead_stack(a)) report_dead_stack(a, w ? "write" : "read", pc);
    while (n) {
        unsigned off = a & 7;
        size_t k = 8 - off < n ? 8 - off : n;
        uint8_t m = (uint8_t)(((1u << k) - 1) << off);
        access_cell(c, a, m, w, at, pc, t);
        a += k;
        n -= k;
        ++c;
    }
}

// ---------------------------------------------------------------- memory
static inline bool in_heap(const void* p) {
    return (uintptr_t)p >= HEAP_BASE && (uintptr_t)p < HEAP_BASE + HEAP_SIZE;
}
struct Hdr {
    size_t size;
    size_t state; // 0xA110C live, 0xF4EE freed
};
static void* heap_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    uintptr_t p = (g->heap_top + sizeof(Hdr) + al - 1) / al * al;
    g->heap_top = p + ((n + 15) & ~size_t(15));
    if (g->heap_top > HEAP_BASE + HEAP_SIZE) failf("no-progress", "runaway use of memory");
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n;
    h->state = 0xA110C;
    return (void*)p;
}
static void heap_free(void* p, uint32_t pc) {
    if (!g || g->finishing) return;
    Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
    if (h->state == 0xF4EE) failf("double-free", "double free by t%d at {0x%x}", g->cur, pc);
    if (h->state != 0xA110C) failf("bad-free", "free of invalid pointer by t%d at {0x%x}", g->cur, pc);
    h->state = 0xF4EE;
    Thread& t = T();
    uint32_t e = (uint32_t)t.id << 24 | (t.vc.c[t.id] & 0xffffff);
    Cell* c = cell_of((uintptr_t)p);
    bool chk = g_on && !t.quiet;
    for (size_t i = 0; i < (h->size + 7) / 8; ++i, ++c) {
        if (chk) {
            if (c->w && (c->w >> 24) != (uint32_t)t.id && !hb(c->w, t))
                report_race("free-race", (uintptr_t)p, pc, true, c->w, c->wpc, true);
            if (c->r0 && (c->r0 >> 24) != (uint32_t)t.id && !hb(c->r0, t))
                report_race("free-race", (uintptr_t)p, pc, true, c->r0, c->r0pc, false);
            if (c->r1 && (c->r1 >> 24) != (uint32_t)t.id && !hb(c->r1, t))
                report_race("free-race", (uintptr_t)p, pc, true, c->r1, c->r1pc, false);
        }
        c->fl = FL_FREED;
        c->w = e;
        c->wpc = pc;
    }
    // poison, so that uninstrumented users misbehave deterministically too
    memset(p, 0xDD, h->size);
}

static void* sim_malloc(size_t n, size_t al) {
    if (g_on && !T().rt) return heap_alloc(n, al);
    return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
}
static void sim_free(void* p, uint32_t pc) {
    if (!p) return;
    if (in_heap(p))
        heap_free(p, pc);
    else
        __libc_free(p);
}

} // namespace simi
using namespace simi;

#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))

extern "C" {
void* malloc(size_t n) { return sim_malloc(n, 16); }
void free(void* p) { sim_free(p, PC); }
void* calloc(size_t a, size_t b) {
    if (g_on && !T().rt) {
        void* p = heap_alloc(a * b, 16);
        memset(p, 0, a * b);
        return p;
    }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
    if (p && in_heap(p)) {
        void* q = heap_alloc(n, 16);
        size_t o = ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size;
        memcpy(q, p, o < n ? o : n);
        heap_free(p, PC);
        return q;
    }
    if (!p) return sim_malloc(n, 16);
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { return sim_malloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return sim_malloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n) {
    *p = sim_malloc(n, al);
    return 0;
}
}

static void* do_new(size_t n, size_t al) {
    if (active() && T().allocfault && fenabled(sim::F_ALLOC) && choose(sim::K_ALLOC, 2, g->p_alloc)) {
        count_fault(sim::F_ALLOC);
        throw std::bad_alloc();
    }
    void* p = sim_malloc(n ? n : 1, al);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return do_new(n, 16); }
void* operator new[](size_t n) { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n ? n : 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n ? n : 1, 16); }
void operator delete(void* p) noexcept { sim_free(p, PC); }
void operator delete[](void* p) noexcept { sim_free(p, PC); }
void operator delete(void* p, size_t) noexcept { sim_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p, PC); }

// ---------------------------------------------------------------- threads
static void* trampoline(void* a) {
    Thread* t = (Thread*)a;
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST))
        futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    // alternate signal stack for crash reports (from the runtime's own memory)
    {
        ++t->rt;
        stack_t ss{};
        ss.ss_sp = __libc_malloc(65536);
        ss.ss_size = 65536;
        sigaltstack(&ss, nullptr);
        --t->rt;
    }
    t->retval = t->fn(t->arg);
    while (t->ndtor) {
        Dtor d = t->dtors[--t->ndtor];
        d.fn(d.obj);
    }
    ++t->rt;
    t->st = T_FINISHED;
    Sync& s = sync_of(t);
    hb_release_join(s);
    wake_all(B_JOIN, t);
    schedule("exit");
    internal("finished thread was scheduled");
}

static Thread* new_thread(void* (*fn)(void*), void* arg) {
    if (g->nth >= MAXT) internal("too many simulated threads");
    Thread* t = (Thread*)__libc_calloc(1, sizeof(Thread));
    t->id = g->nth;
    t->st = T_RUNNABLE;
    t->deadline = ~0ull;
    t->fn = fn;
    t->arg = arg;
    t->prio = (1u << 30) + (uint32_t)rndn(1u << 20);
    return t;
}
using pc_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pc_t real_pthread_create;

static int start_real(Thread* t) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACK_BASE + STACK_SIZE * t->id), STACK_SIZE);
    int r = real_pthread_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    return r;
}

template <class F>
static F resolve(const char* n) {
    return (F)dlsym(RTLD_NEXT, n);
}

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!g_on) {
        if (!real_pthread_create) real_pthread_create = resolve<pc_t>("pthread_create");
        return real_pthread_create(out, attr, fn, arg);
    }
    if (active()) schedule("create");
    if (T().createfault && fenabled(sim::F_CREATE) && choose(sim::K_CREATE, 2, g->p_create)) {
        count_fault(sim::F_CREATE);
        return EAGAIN;
    }
    RtScope rs;
    Thread* t = new_thread(fn, arg);
    t->vc = T().vc;
    t->vc.c[t->id] = 1;
    hb_bump();
    int d = PTHREAD_CREATE_JOINABLE;
    if (attr) pthread_attr_getdetachstate(attr, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
    if (start_real(t)) internal("real pthread_create failed");
    g->th[g->nth++] = t;
    *out = t->real;
    --T().rt;
    if (active()) schedule("created");
    ++T().rt;
    return 0;
}
static Thread* find_thread(pthread_t p) {
    for (int i = 0; i < g->nth; ++i)
        if (g->th[i]->real == p) return g->th[i];
    internal("unknown thread");
}
int pthread_join(pthread_t p, void** ret) {
    if (!g_on) return resolve<int (*)(pthread_t, void**)>("pthread_join")(p, ret);
    if (active()) schedule("join");
    Thread* t = find_thread(p);
    if (t->id == g->cur) return EDEADLK;
    if (t->detached || t->joined) return EINVAL;
    while (t->st != T_FINISHED)
        block_cur(B_JOIN, t, ~0ull, "join");
    t->joined = true;
    hb_acquire(sync_of(t));
    if (ret) *ret = t->retval;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!g_on) return resolve<int (*)(pthread_t)>("pthread_detach")(p);
    find_thread(p)->detached = true;
    return 0;
}
int pthread_setname_np(pthread_t p, const char* n) {
    if (!g_on) return 0;
    Thread* t = find_thread(p);
    snprintf(t->name, sizeof t->name, "%s", n);
    return 0;
}
int pthread_getname_np(pthread_t p, char* b, size_t n) {
    if (!g_on) return 0;
    snprintf(b, n, "%s", find_thread(p)->name);
    return 0;
}

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
    if (!g_on) return resolve<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit")(fn, obj, dso);
    Thread& t = T();
    if (t.ndtor < 64) t.dtors[t.ndtor++] = Dtor{fn, obj};
    return 0;
}

// ---- mutex ----
static void check_alive(const void* m, const char* what) {
    Cell* c = cell_of((uintptr_t)m);
    if (dead_stack((uintptr_t)m)) report_dead_stack((uintptr_t)m, what, T().csd ? T().fe[T().csd - 1] : 0);
    if (c && (c->fl & FL_FREED))
        failf("use-after-free", "%s on freed object by t%d at {0x%x}; freed by t%u at {0x%x}", what,
              g->cur, T().csd ? T().fe[T().csd - 1] : 0, c->w >> 24, c->wpc);
}
static void mutex_lock_inner(pthread_mutex_t* m) {
    Sync& s = sync_of(m);
    if (s.owner == g->cur) {
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            s.count++;
            return;
        }
        failf("self-deadlock", "t%d locks a mutex it already holds, at {0x%x}", g->cur,
              T().csd ? T().fe[T().csd - 1] : 0);
    }
    while (s.owner != -1) {
        block_cur(B_MUTEX, m, ~0ull, "mutex");
        check_alive(m, "lock");
    }
    s.owner = g->cur;
    s.count = 1;
    mix(g->hash, s.id);
    hb_acquire(s);
}
static void mutex_unlock_inner(pthread_mutex_t* m) {
    Sync& s = sync_of(m);
    if (s.owner != g->cur)
        failf("bad-unlock", "t%d unlocks a mutex it does not hold", g->cur);
    if (--s.count) return;
    hb_release_join(s);
    s.owner = -1;
    wake_all(B_MUTEX, m);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    if (g_on) {
        Sync& s = sync_of(m);
        s.owner = -1;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (active()) {
        Sync& s = sync_of(m);
        if (s.owner != -1) failf("destroy-locked", "t%d destroys a locked mutex", g->cur);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) return 0;
    schedule("lock");
    check_alive(m, "lock");
    mutex_lock_inner(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return 0;
    schedule("trylock");
    check_alive(m, "try_lock");
    Sync& s = sync_of(m);
    if (s.owner == g->cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        s.count++;
        return 0;
    }
    if (s.owner != -1) {
        mix(g->hash, 77);
        return EBUSY;
    }
    if (fenabled(sim::F_TRYLOCK) && choose(sim::K_TRYLOCK, 2, g->p_try)) {
        count_fault(sim::F_TRYLOCK);
        return EBUSY;
    }
    s.owner = g->cur;
    s.count = 1;
    hb_acquire(s);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return 0;
    schedule("unlock");
    check_alive(m, "unlock");
    mutex_unlock_inner(m);
    return 0;
}
static uint64_t abs_deadline(clockid_t, const timespec* ts);
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
    if (!active()) return 0;
    schedule("timedlock");
    Sync& s = sync_of(m);
    uint64_t d = abs_deadline(c, ts);
    while (s.owner != -1) {
        if (d <= g->now) return ETIMEDOUT;
        block_cur(B_MUTEX, m, d, "mutex");
    }
    s.owner = g->cur;
    s.count = 1;
    hb_acquire(s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
    return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}

// ---- condition variables ----
static int cond_wait_inner(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    schedule("wait");
    check_alive(c, "wait");
    Sync& s = sync_of(m);
    if (s.owner != g->cur) failf("bad-wait", "t%d waits without holding the mutex", g->cur);
    mutex_unlock_inner(m);
    int r = 0;
    if (deadline != ~0ull && deadline <= g->now)
        r = ETIMEDOUT;
    else {
        block_cur(B_COND, c, deadline, "cond");
        if (T().timed_out) r = ETIMEDOUT;
    }
    check_alive(m, "relock after wait");
    mutex_lock_inner(m);
    return r;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (active())
        for (int i = 0; i < g->nth; ++i)
            if (g->th[i]->st == T_BLOCKED && g->th[i]->bk == B_COND && g->th[i]->bobj == c)
                failf("destroy-waited", "t%d destroys a condition variable t%d waits on", g->cur, i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) return 0;
    return cond_wait_inner(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!active()) return ETIMEDOUT;
    return cond_wait_inner(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
    if (!active()) return ETIMEDOUT;
    return cond_wait_inner(c, m, abs_deadline(k, ts));
}
static int cond_waiters(pthread_cond_t* c, int* out) {
    int n = 0;
    for (int i = 0; i < g->nth; ++i)
        if (g->th[i]->st == T_BLOCKED && g->th[i]->bk == B_COND && g->th[i]->bobj == c) out[n++] = i;
    for (int i = 0; i < n; ++i) // by arrival
        for (int j = i + 1; j < n; ++j)
            if (g->th[out[j]]->wait_seq < g->th[out[i]]->wait_seq) {
                int x = out[i];
                out[i] = out[j];
                out[j] = x;
            }
    return n;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return 0;
    schedule("signal");
    check_alive(c, "notify");
    int w[MAXT];
    int n = cond_waiters(c, w);
    if (!n) return 0;
    uint32_t k = 0;
    if (n > 1 && fenabled(sim::F_REORDER)) {
        k = choose(sim::K_NOTIFY, n, g->p_notify);
        if (k) count_fault(sim::F_REORDER);
    }
    make_runnable(*g->th[w[k]]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return 0;
    schedule("broadcast");
    check_alive(c, "notify");
    wake_all(B_COND, c);
    return 0;
}

// ---- rwlock ----
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) {
    memset(m, 0, sizeof *m);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!active()) return 0;
    schedule("wrlock");
    check_alive(m, "lock");
    Sync& s = sync_of(m);
    while (s.owner != -1 || s.readers)
        block_cur(B_RWLOCK, m, ~0ull, "rwlock");
    s.owner = g->cur;
    hb_acquire(s);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!active()) return 0;
    schedule("rdlock");
    check_alive(m, "lock");
    Sync& s = sync_of(m);
    while (s.owner != -1)
        block_cur(B_RWLOCK, m, ~0ull, "rwlock");
    s.readers++;
    hb_acquire(s);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if (!active()) return 0;
    schedule("trywrlock");
    Sync& s = sync_of(m);
    if (s.owner != -1 || s.readers) return EBUSY;
    s.owner = g->cur;
    hb_acquire(s);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!active()) return 0;
    schedule("tryrdlock");
    Sync& s = sync_of(m);
    if (s.owner != -1) return EBUSY;
    s.readers++;
    hb_acquire(s);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!active()) return 0;
    schedule("rwunlock");
    Sync& s = sync_of(m);
    if (s.owner == g->cur)
        s.owner = -1;
    else if (s.readers)
        s.readers--;
    else
        failf("bad-unlock", "t%d unlocks an rwlock that is not held", g->cur);
    hb_release_join(s);
    wake_all(B_RWLOCK, m);
    return 0;
}

// ---- once / static init ----
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!g_on) {
        if (*o == 0) {
            fn();
            *o = 2;
        }
        return 0;
    }
    schedule("once");
    Sync& s = sync_of(o);
    while (s.guard_state == 1)
        block_cur(B_GUARD, o, ~0ull, "once");
    if (*o == 2) {
        hb_acquire(s);
        return 0;
    }
    s.guard_state = 1;
    try {
        fn();
    } catch (...) {
        s.guard_state = 0;
        wake_all(B_GUARD, o);
        throw;
    }
    *o = 2;
    s.guard_state = 0;
    hb_release_join(s);
    wake_all(B_GUARD, o);
    return 0;
}
int __cxa_guard_acquire(abi::__guard* gv) {
    if (!g_on) return *(char*)gv ? 0 : 1;
    if (active()) schedule("guard");
    Sync& s = sync_of(gv);
    if (s.guard_state == 1 && s.owner == g->cur)
        failf("recursive-init", "recursive static initialisation by t%d", g->cur);
    while (s.guard_state == 1)
        block_cur(B_GUARD, gv, ~0ull, "guard");
    hb_acquire(s);
    if (*(char*)gv) return 0;
    s.guard_state = 1;
    s.owner = g->cur;
    return 1;
}
void __cxa_guard_release(abi::__guard* gv) noexcept {
    *(char*)gv = 1;
    if (!g_on) return;
    Sync& s = sync_of(gv);
    s.guard_state = 0;
    s.owner = -1;
    hb_release_join(s);
    wake_all(B_GUARD, gv);
}
void __cxa_guard_abort(abi::__guard* gv) noexcept {
    if (!g_on) return;
    Sync& s = sync_of(gv);
    s.guard_state = 0;
    s.owner = -1;
    wake_all(B_GUARD, gv);
}

// ---- time ----
constexpr uint64_t MONO_BASE = 1000000000000ull;          // 1000 s after boot
constexpr uint64_t REAL_BASE = 1700000000000000000ull;
static uint64_t abs_deadline(clockid_t c, const timespec* ts) {
    if (ts->tv_sec < 0) return 0;
    if ((uint64_t)ts->tv_sec > 9000000000ull) return ~0ull - 1;
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    uint64_t b = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE;
    return t > b ? t - b : 0;
}
int clock_gettime(clockid_t c, timespec* ts) {
    if (!g_on) return (int)raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    uint64_t b = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE;
    if (active()) g->now += 20;
    uint64_t t = b + g->now;
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday(timeval* tv, void*) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void do_sleep(uint64_t deadline) {
    if (!active()) return;
    schedule("sleep");
    while (g->now < deadline)
        block_cur(B_SLEEP, nullptr, deadline, "sleep");
}
int nanosleep(const timespec* r, timespec*) {
    if (!g_on) return (int)raw_syscall6(SYS_nanosleep, (long)r, 0, 0, 0, 0, 0);
    do_sleep(g->now + (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec*) {
    if (!g_on) return (int)raw_syscall6(SYS_clock_nanosleep, c, fl, (long)r, 0, 0, 0);
    if (fl & TIMER_ABSTIME)
        do_sleep(abs_deadline(c, r));
    else
        do_sleep(g->now + (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
int usleep(useconds_t u) {
    if (!g_on) return 0;
    do_sleep(g->now + (uint64_t)u * 1000);
    return 0;
}
int sched_yield(void) {
    if (active()) {
        // a yield lets another runnable thread run by default
        Thread& me = T();
        g->consecutive = 6000;
        (void)me;
        schedule("yield");
    }
    return 0;
}
int get_nprocs(void) { return g_on ? (int)g->hw : 8; }
int get_nprocs_conf(void) { return g_on ? (int)g->hw : 8; }
long sysconf(int n) {
    if (g_on && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return g->hw;
    static auto real = resolve<long (*)(int)>("sysconf");
    return real(n);
}

// ---- std::atomic::wait ----
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (g_on && n == SYS_futex) {
        int* addr = (int*)a[0];
        int op = (int)a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (active()) schedule("fwait");
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            uint64_t d = ~0ull;
            const timespec* ts = (const timespec*)a[3];
            if (ts) {
                if (op == FUTEX_WAIT)
                    d = g->now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
                else
                    d = abs_deadline(((int)a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                if (d <= g->now) {
                    errno = ETIMEDOUT;
                    return -1;
                }
            }
            block_cur(B_FUTEX, addr, d, "futex");
            if (T().timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            if (active()) schedule("fwake");
            long cnt = 0;
            for (int i = 0; i < g->nth && cnt < a[2]; ++i) {
                Thread& t = *g->th[i];
                if (t.st == T_BLOCKED && t.bk == B_FUTEX && t.bobj == addr) {
                    make_runnable(t);
                    ++cnt;
                }
            }
            return cnt;
        }
    }
    long r = raw_syscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---- exceptions: refcounts inside libstdc++ are not instrumented; keep these objects out of the
// race detector and out of the simulated heap.
void* __cxa_allocate_exception(size_t n) {
    static auto real = resolve<void* (*)(size_t)>("__cxa_allocate_exception");
    RtScope s;
    return real(n);
}

// ---------------------------------------------------------------- __tsan_* interface
void __tsan_init() {}
void __tsan_func_entry(void* ra) {
    if (!g_on) return;
    Thread& t = T();
    if (t.rt) return;
    if (t.csd < 512) {
        t.fe[t.csd] = PC;
        t.sp[t.csd] = (uintptr_t)__builtin_frame_address(0) + 16;
        t.cs[t.csd] = (uintptr_t)ra >> 32 ? PC : (uint32_t)(uintptr_t)ra;
    }
    if (++t.csd > 100000) failf("no-progress", "runaway recursion");
}
void __tsan_func_exit() {
    if (!g_on) return;
    Thread& t = T();
    if (t.rt) return;
    if (t.csd > 0) --t.csd;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                      \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, false, PC); }                    \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, false, PC); }                    \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, false, PC); }          \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, false, PC); }          \
    void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, false, PC); }               \
    void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, true, false, PC); }     \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, false, PC); }           \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access((uintptr_t)p, 8, true, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    access((uintptr_t)s, n, false, false, PC);
    access((uintptr_t)d, n, true, false, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    access((uintptr_t)s, n, false, false, PC);
    access((uintptr_t)d, n, true, false, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
    access((uintptr_t)d, n, true, false, PC);
    return memset(d, v, n);
}

} // extern "C"

static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void at_pre(const void* a, size_t n, bool w, uint32_t pc, const char* op) {
    schedule(op);
    access((uintptr_t)a, n, w, true, pc);
}
static void at_load(const void* a, int mo) {
    Sync& s = sync_of(a);
    Thread& t = T();
    if (is_acq(mo))
        vc_join(t.vc, s.vc, g->nth);
    else {
        vc_join(t.acq_pending, s.vc, g->nth);
        t.has_acq_pending = true;
    }
}
static void at_store(const void* a, int mo) {
    Sync& s = sync_of(a);
    Thread& t = T();
    if (is_rel(mo)) {
        s.vc = t.vc;
        hb_bump();
    } else if (t.has_rel_fence)
        s.vc = t.rel_fence;
    else
        memset(&s.vc, 0, sizeof s.vc);
}
static void at_rmw(const void* a, int mo) {
    at_load(a, mo);
    Sync& s = sync_of(a);
    Thread& t = T();
    if (is_rel(mo))
        hb_release_join(s);
    else if (t.has_rel_fence)
        vc_join(s.vc, t.rel_fence, g->nth);
}

#define ATOMICS(bits, T_)                                                                          \
    extern "C" T_ __tsan_atomic##bits##_load(const volatile T_* a, int mo) {                       \
        if (!active()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                \
        at_pre((void*)a, sizeof(T_), false, PC, "aload");                                          \
        at_load((void*)a, mo);                                                                     \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                               \
    }                                                                                              \
    extern "C" void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int mo) {                    \
        if (!active()) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                            \
        at_pre((void*)a, sizeof(T_), true, PC, "store");                                           \
        at_store((void*)a, mo);                                                                    \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int mo) {                   \
        if (!active()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                         \
        at_pre((void*)a, sizeof(T_), true, PC, "xchg");                                            \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int mo) {                  \
        if (!active()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                          \
        at_pre((void*)a, sizeof(T_), true, PC, "add");                                             \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int mo) {                  \
        if (!active()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                          \
        at_pre((void*)a, sizeof(T_), true, PC, "sub");                                             \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int mo) {                  \
        if (!active()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                          \
        at_pre((void*)a, sizeof(T_), true, PC, "and");                                             \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int mo) {                   \
        if (!active()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                           \
        at_pre((void*)a, sizeof(T_), true, PC, "or");                                              \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                          \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int mo) {                  \
        if (!active()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                          \
        at_pre((void*)a, sizeof(T_), true, PC, "xor");                                             \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_fetch_nand(volatile T_* a, T_ v, int mo) {                 \
        if (!active()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                         \
        at_pre((void*)a, sizeof(T_), true, PC, "nand");                                            \
        at_rmw((void*)a, mo);                                                                      \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    extern "C" T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int mo,   \
                                                             int fmo) {                            \
        if (active()) {                                                                            \
            at_pre((void*)a, sizeof(T_), true, PC, "cas");                                         \
            if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == c)                                         \
                at_rmw((void*)a, mo);                                                              \
            else                                                                                   \
                at_load((void*)a, fmo);                                                            \
        }                                                                                          \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
        return c;                                                                                  \
    }                                                                                              \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v,      \
                                                                 int mo, int fmo) {                \
        T_ o = *c;                                                                                 \
        T_ r = __tsan_atomic##bits##_compare_exchange_val(a, o, v, mo, fmo);                       \
        *c = r;                                                                                    \
        return r == o;                                                                             \
    }                                                                                              \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v,        \
                                                               int mo, int fmo) {                  \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                    \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!active()) return;
    schedule("fence");
    Thread& t = T();
    if (is_acq(mo) && t.has_acq_pending) vc_join(t.vc, t.acq_pending, g->nth);
    if (is_rel(mo)) {
        t.rel_fence = t.vc;
        t.has_rel_fence = true;
        hb_bump();
    }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- scenario interface
namespace sim {

int W(int n) {
    if (n <= 1) return 0;
    Result* r = g->res;
    int v;
    if (r->nW >= MAXW) internal("too many workload draws");
    if (g->spec.replay_w)
        v = r->nW < g->spec.nW ? g->spec.Wv[r->nW] : 0;
    else
        v = (int)(rnd64(g->rng_w) % (uint64_t)n);
    if (v >= n) v = v % n;
    r->Wn[r->nW] = n;
    r->Wv[r->nW++] = v;
    mix(g->hash, v);
    return v;
}
void enable_faults(unsigned mask) { g->fmask = mask; }
void fault(unsigned f) { count_fault(f); }
bool faults_active() { return g->faults_on; }
void stop_faults() { g->faults_on = false; }
void alloc_faults(bool on) { T().allocfault = on; }
void create_faults(bool on) { T().createfault = on; }
int user_choice(int n) {
    if (n <= 1) return 0;
    return (int)choose(K_USER, (uint32_t)n, g->p_user);
}
void set_hw(unsigned n) { g->hw = n; }
uint64_t now_ns() { return g->now; }
void point() {
    if (active()) schedule("point");
}
void sleep_ns(uint64_t ns) { do_sleep(g->now + ns); }
int tid() { return g->cur; }
const char* tname(int t) { // nullptr: no such thread, or it ended
    return t < g->nth && g->th[t]->st != T_FINISHED ? g->th[t]->name : nullptr;
}
int nthreads_live() {
    int n = 0;
    for (int i = 1; i < g->nth; ++i)
        n += g->th[i]->st != T_FINISHED;
    return n;
}
static void do_quiesce(uint64_t until) {
    Thread& t = T();
    // blocked in a special state which is left only when nothing else can run
    t.st = T_BLOCKED;
    t.bk = B_QUIESCE;
    t.bobj = nullptr;
    t.deadline = ~0ull;
    t.wait_seq = until;
    schedule("quiesce");
    for (int i = 0; i < g->nth; ++i)
        vc_join(t.vc, g->th[i]->vc, g->nth);
}
void quiesce(bool timers) { do_quiesce(timers ? ~0ull : 0); }
void quiesce_until(uint64_t ns) { do_quiesce(ns); }
uint64_t seq() { return g->evseq; }
uint64_t ev(const char* what, long a, long b, long c) {
    for (const char* p = what; *p; ++p)
        mix(g->ehash, *p);
    mix(g->ehash, a);
    mix(g->ehash, b);
    mix(g->ehash, c);
    if (g->nev < MAXEV) g->evs[g->nev++] = Event{what, a, b, c, g->now, g->points, g->cur};
    return g->evseq++;
}
void probe(const char* what) {
    Shared* s = g->sh;
    for (int i = 0; i < s->nprobe; ++i)
        if (!strcmp(s->probe_name[i], what)) {
            g->res->probes[i]++;
            return;
        }
    while (__atomic_exchange_n(&s->lock, 1, __ATOMIC_ACQUIRE))
        ;
    int i = 0;
    while (i < s->nprobe && strcmp(s->probe_name[i], what))
        ++i;
    if (i < MAXPROBE && i == s->nprobe) {
        snprintf(s->probe_name[i], 64, "%s", what);
        __atomic_store_n(&s->nprobe, i + 1, __ATOMIC_SEQ_CST);
    }
    __atomic_store_n(&s->lock, 0, __ATOMIC_RELEASE);
    if (i >= MAXPROBE) return;
    g->res->probes[i]++;
}
void fail(const char* cls, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfailf(cls, fmt, ap);
}
void note(const char* fmt, ...) {
    if (!g->spec.trace) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(g->spec.trace, "note: ");
    vfprintf(g->spec.trace, fmt, ap);
    fprintf(g->spec.trace, "\n");
    va_end(ap);
}
void discard(const char* why) { finish(ST_DISCARD, "discard", why); }
quiet::quiet() {
    if (g_on) ++T().quiet;
}
quiet::~quiet() {
    if (g_on) --T().quiet;
}
} // namespace sim

// ---------------------------------------------------------------- run setup
namespace simi {

static void print_trace() {
    FILE* f = g->spec.trace;
    ++T().rt;
    fprintf(f, "scenario %s\nseed %llu\n", sim_scenario_name, (unsigned long long)g->spec.seed);
    fprintf(f, "threads %d scheduling_points %llu choices %llu simulated_ns %llu\n", g->nth,
            (unsigned long long)g->points, (unsigned long long)g->choices,
            (unsigned long long)g->now);
    fprintf(f, "history:\n");
    for (int i = 0; i < g->nev; ++i) {
        Event& e = g->evs[i];
        fprintf(f, "  #%d @%llu t=%lluns t%d %s %ld %ld %ld\n", i, (unsigned long long)e.point,
                (unsigned long long)e.t, e.tid, e.what, e.a, e.b, e.c);
    }
    fprintf(f, "non-default scheduling and fault decisions (%d):\n", g->ntr);
    for (int i = 0; i < g->ntr; ++i) {
        TraceRec& t = g->tr[i];
        if (t.kind == sim::K_SCHED && t.to == -1)
            fprintf(f, "  choice %u: time passes (t%d was about to %s)", t.idx, t.from, t.op);
        else if (t.kind == sim::K_SCHED)
            fprintf(f, "  choice %u: at '%s' run t%d instead of the default (t%d was running)",
                    t.idx, t.op, t.to, t.from);
        else
            fprintf(f, "  choice %u: fault %s=%u in t%d", t.idx, t.op, t.val, t.from);
        for (int k = 0; k < 3; ++k)
            if (t.pcs[k]) fprintf(f, "%s{0x%x}", k ? "<" : " at ", t.pcs[k]);
        fprintf(f, "\n");
    }
    fprintf(f, "outcome: %s: %s\n", g->res->cls, g->res->msg);
    fflush(f);
    --T().rt;
}

static void on_signal(int s, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    char st[400];
    st[0] = 0;
    if (g && g_on) {
        Thread& t = T();
        for (int k = t.csd - 1, n = 0; k >= 0 && n < 8; --k, ++n)
            append(st, sizeof st, "<{0x%x}", t.cs[k < 512 ? k : 511]);
        (void)si;
        failf("crash", "signal %d (%s) in t%d at {0x%llx}%s", s, strsignal(s), g->cur,
              s == SIGSEGV || s == SIGFPE || s == SIGILL || s == SIGBUS ?
                  (unsigned long long)u->uc_mcontext.gregs[REG_RIP] :
                  0ull,
              st);
    }
    _exit(4);
}
static void on_terminate() {
    static char buf[200] = "no active exception";
    if (std::exception_ptr p = std::current_exception()) {
        const std::type_info* ti = abi::__cxa_current_exception_type();
        snprintf(buf, sizeof buf, "uncaught %s", ti ? ti->name() : "?");
        try {
            std::rethrow_exception(p);
        } catch (const std::exception& e) {
            append(buf, sizeof buf, ": %s", e.what());
        } catch (...) {
        }
    }
    char st[400];
    st[0] = 0;
    if (g && g_on) {
        Thread& t = T();
        for (int k = t.csd - 1, n = 0; k >= 0 && n < 8; --k, ++n)
            append(st, sizeof st, "<{0x%x}", t.cs[k < 512 ? k : 511]);
        failf("terminate", "std::terminate (%s) in t%d%s", buf, g->cur, st);
    }
    abort();
}

extern "C" void __assert_fail(const char*, const char*, unsigned, const char*);
// broken preconditions of the standard library: std::__glibcxx_assert_fail
extern "C" [[noreturn]] void sim_glibcxx_assert(const char* f, int l, const char*, const char* e) __asm__("_ZSt21__glibcxx_assert_failPKciS0_S0_");
extern "C" void sim_glibcxx_assert(const char* f, int l, const char* fn, const char* e) {
    __assert_fail(e, f, (unsigned)l, fn); // does not return
    abort();
}
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    if (g && g_on) {
        const char* b = strrchr(f, '/');
        failf("assert", "assertion '%s' failed at %s:%u", e, b ? b + 1 : f, l);
    }
    fprintf(stderr, "assert %s %s:%u %s\n", e, f, l, fn);
    _exit(5);
}

static void* main_entry(void*) {
    sim_scenario();
    mix(g->hash, 1);
    finish(ST_OK, "", "");
}

void init_runtime() {
    real_pthread_create = resolve<pc_t>("pthread_create");
    void* p = mmap((void*)HEAP_BASE, REGION_END - HEAP_BASE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)SHADOW_BASE, (REGION_END - HEAP_BASE) / 8 * sizeof(Cell),
                   PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    size_t gs = ((uintptr_t)&_end - (uintptr_t)&__data_start) / 8 * sizeof(Cell) + 65536;
    void* r = mmap((void*)GSHADOW_BASE, gs, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)HEAP_BASE || q != (void*)SHADOW_BASE || r != (void*)GSHADOW_BASE) {
        fprintf(stderr, "sim: cannot map simulated memory\n");
        exit(2);
    }
    madvise(p, REGION_END - HEAP_BASE, MADV_NOHUGEPAGE);
    madvise(q, (REGION_END - HEAP_BASE) / 8 * sizeof(Cell), MADV_NOHUGEPAGE);
    g = (G*)mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->pool = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->evs = (Event*)mmap(nullptr, sizeof(Event) * MAXEV, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->tr = (TraceRec*)mmap(nullptr, sizeof(TraceRec) * (1 << 17), PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    // resolve lazily bound symbols used from simulated threads
    (void)sysconf(_SC_PAGESIZE);
    try {
        throw 1;
    } catch (int) {
    }
}

void run_child(const RunSpec& spec, Result* res, Shared* sh) {
    g->spec = spec;
    g->res = res;
    g->sh = sh;
    g->rng = spec.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
    g->rng_w = spec.seed * 0x9E3779B97F4A7C15ull + 0x7654321;
    rnd64(g->rng);
    rnd64(g->rng_w);
    g->hw = 2;
    g->faults_on = true;
    g->min_deadline = ~0ull;
    g->heap_top = HEAP_BASE + 4096;
    // swarm: pick the exploration strategy of this run
    static const double ps[] = {0.5, 0.25, 0.1, 0.05, 0.02, 0.01, 0.004};
    uint64_t k = rndn(10);
    g->strat = k < 4 ? 0 : k < 8 ? 1 : 2;
    g->p_switch = ps[rndn(7)];
    g->lowprio = 1u << 20;
    g->nchange = (int)rndn(6);
    uint64_t horizon = 1ull << (5 + rndn(8));
    for (int i = 0; i < g->nchange; ++i)
        g->change[i] = 1 + rndn(horizon);
    g->victim = (int)rndn(8);
    g->stall_from = rndn(horizon);
    g->stall_len = 1ull << (4 + rndn(10));
    static const double pf[] = {0, 0.001, 0.01, 0.05};
    g->p_spur = pf[rndn(4)];
    g->p_time = pf[rndn(4)];
    static const double pt[] = {0, 0.02, 0.2, 0.5};
    g->p_try = pt[rndn(4)];
    g->p_create = pt[rndn(4)];
    g->p_alloc = pf[rndn(4)];
    g->p_notify = 0.5;
    g->p_user = pt[rndn(4)];
    std::set_terminate(on_terminate);
    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
        sigaction(s, &sa, nullptr);
    Thread* t = new_thread(main_entry, nullptr);
    t->vc.c[0] = 1;
    snprintf(t->name, sizeof t->name, "main");
    if (start_real(t)) {
        fprintf(stderr, "sim: cannot create the main simulated thread\n");
        _exit(6);
    }
    g->th[0] = t;
    g->nth = 1;
    g->cur = 0;
    g_on = true;
    __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&t->go);
    int never = 0;
    for (;;)
        futex_wait(&never, 0);
}
} // namespace simi
