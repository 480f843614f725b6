// Deterministic simulation runtime: interface used by the scenarios.
//
// The scenarios and the library sources from /repo are compiled with clang's
// -fsanitize=thread *instrumentation* and linked against sim/rt.cpp instead of libtsan.  Every
// atomic operation, mutex, condition variable, thread, clock and allocation therefore goes through
// the simulator, which runs exactly one thread at a time and takes every decision from one stream.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {

// ---- choices --------------------------------------------------------------------------------
// Workload draw in [0,n). Part of the recorded workload vector (shrunk by the minimiser towards 0).
int W(int n);
inline bool Wb(int num, int den) { return W(den) >= den - num; } // true with prob num/den; 0 => false
// Schedule/fault choice in [0,n); 0 is the default ("nothing unusual").
enum Kind : int {
    K_SCHED, K_SPURIOUS, K_TRYLOCK, K_CREATE, K_ALLOC, K_TIME, K_NOTIFY, K_DELAY, K_USER, K_NKIND
};

// ---- faults -------------------------------------------------------------------------------
enum Fault : unsigned {
    F_PREEMPT = 0,   // involuntary context switch
    F_SPURIOUS,      // spurious condition variable wakeup
    F_TRYLOCK,       // try_lock fails although the lock is free
    F_CREATE,        // thread creation fails with EAGAIN
    F_ALLOC,         // operator new throws bad_alloc
    F_TIMEJUMP,      // time passes while threads are runnable (slow machine)
    F_STALL,         // a thread is stalled for a long while
    F_REORDER,       // notify wakes a waiter other than the longest waiting one
    F_THROW,         // user code throws
    F_CANCEL,        // futures/receivers dropped at an arbitrary point
    F_DROPTASK,      // an executor drops a task
    F_SHUTDOWN,      // pre_exit at an arbitrary point
    F_SLOWTASK,      // user task takes simulated time
    F_SENDERDROP,    // sender dropped / closed at an arbitrary point
    F_REFUSE,        // an executor refuses (throws on submission)
    F_NFAULT
};
void enable_faults(unsigned mask); // which runtime-injected faults this run may use (1<<F_x)
void fault(unsigned f);            // scenario reports that it injected fault f
bool faults_active();
void stop_faults(); // from here on: fair scheduling, no injected faults
void alloc_faults(bool on); // per-thread: allow F_ALLOC here
void create_faults(bool on); // per-thread: allow F_CREATE here
int user_choice(int n); // a fault/timing choice taken at run time (K_USER)

// ---- environment ---------------------------------------------------------------------------
void set_hw(unsigned n); // std::thread::hardware_concurrency()
uint64_t now_ns();       // simulated steady clock
void point();            // scheduling point
void sleep_ns(uint64_t ns);
int tid();
const char* tname(int tid);
int nthreads_live(); // threads created and not finished (excluding main)
int nthreads_blocked();

// Waits until no other thread can run and (timers=true) no timed wait is pending.
void quiesce(bool timers = true);
// waits until no other thread can run before the given simulated time.
void quiesce_until(uint64_t ns);
bool others_blocked();

// ---- history -------------------------------------------------------------------------------
uint64_t seq(); // global event sequence number (next)
uint64_t ev(const char* what, long a = 0, long b = 0, long c = 0); // append to the history
void probe(const char* what); // reach probe ("rare condition was hit")
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace only (replay)
[[noreturn]] void discard(const char* why); // run not usable (precondition not met)

// Memory accesses inside the scope are invisible to the simulator (oracle bookkeeping).
struct quiet {
    quiet();
    ~quiet();
};

// Unhandled exception class check helper
} // namespace sim

// Each check links exactly one of these.
extern "C" void sim_scenario(); // runs on simulated thread 0
extern const char* const sim_scenario_name;

#define SIM_NOTRACE __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))
