// Helpers shared by the scenarios.  Compiled with instrumentation; oracle bookkeeping is done inside
// sim::quiet scopes so that it neither schedules nor takes part in race detection.
#pragma once
#include "../sim/rt.h"

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/concurrency/utility.hpp>
#include <stlab/pre_exit.hpp>

#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <vector>

namespace sc {

using task_t = stlab::task<void() noexcept>;

// ------------------------------------------------------------------ user errors
struct Err {
    int code;
};
constexpr int BROKEN = -1;   // outcome code for a broken promise
constexpr int OTHER = -2;    // any other exception

inline int err_code(const std::exception_ptr& p) {
    sim::quiet q;
    if (!p) return 0;
    try {
        std::rethrow_exception(p);
    } catch (const Err& e) {
        return e.code;
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise ? BROKEN : OTHER;
    } catch (...) {
        return OTHER;
    }
}

// ------------------------------------------------------------------ tracked payloads
inline long g_live_vals = 0; // live Val/MVal objects that own a value
inline long g_live_objs = 0; // live Val/MVal objects

// Copyable payload: owns heap memory, so that unsynchronised use, use after destruction and use of a
// moved-from value are visible.
struct Val {
    int* p;
    explicit Val(int v) : p(new int(v)) { count(1, 1); }
    Val() : p(nullptr) { count(1, 0); }
    Val(const Val& o) : p(o.p ? new int(*o.p) : nullptr) { count(1, p != nullptr); }
    Val(Val&& o) noexcept : p(std::exchange(o.p, nullptr)) { count(1, 0); }
    Val& operator=(const Val& o) {
        if (this != &o) {
            int* n = o.p ? new int(*o.p) : nullptr;
            count(0, (n != nullptr) - (p != nullptr));
            delete p;
            p = n;
        }
        return *this;
    }
    Val& operator=(Val&& o) noexcept {
        if (this != &o) {
            count(0, -(p != nullptr));
            delete p;
            p = std::exchange(o.p, nullptr);
        }
        return *this;
    }
    ~Val() {
        count(-1, -(p != nullptr));
        delete p;
        p = reinterpret_cast<int*>(8);
    }
    int get() const {
        if (!p) sim::fail("moved-from", "a value that was already moved away or never set was delivered");
        return *p;
    }
    bool empty() const { return !p; }
    static void count(int o, int v) {
        sim::quiet q;
        g_live_objs += o;
        g_live_vals += v;
    }
};

struct MVal {
    int* p;
    explicit MVal(int v) : p(new int(v)) { Val::count(1, 1); }
    MVal() : p(nullptr) { Val::count(1, 0); }
    MVal(MVal&& o) noexcept : p(std::exchange(o.p, nullptr)) { Val::count(1, 0); }
    MVal& operator=(MVal&& o) noexcept {
        if (this != &o) {
            Val::count(0, -(p != nullptr));
            delete p;
            p = std::exchange(o.p, nullptr);
        }
        return *this;
    }
    MVal(const MVal&) = delete;
    MVal& operator=(const MVal&) = delete;
    ~MVal() {
        Val::count(-1, -(p != nullptr));
        delete p;
        p = reinterpret_cast<int*>(8);
    }
    int get() const {
        if (!p) sim::fail("moved-from", "a value that was already moved away or never set was delivered");
        return *p;
    }
    bool empty() const { return !p; }
};

// Captured by callables: counts how many live copies exist per id.
inline constexpr int MAXLIFE = 512;
inline int g_life[MAXLIFE];
inline int g_life_uses[MAXLIFE];
struct Life {
    int id = -1;
    int* mem = nullptr; // real memory: a callable used after its destruction is a use after free
    Life() = default;
    explicit Life(int i) : id(i), mem(new int(i)) { add(1); }
    Life(const Life& o) : id(o.id), mem(o.mem ? new int(*o.mem) : nullptr) { add(mem ? 1 : 0); }
    Life(Life&& o) noexcept : id(o.id), mem(std::exchange(o.mem, nullptr)) {}
    Life& operator=(const Life&) = delete;
    Life& operator=(Life&& o) noexcept {
        if (this != &o) {
            if (mem) add(-1);
            delete mem;
            id = o.id;
            mem = std::exchange(o.mem, nullptr);
        }
        return *this;
    }
    ~Life() {
        if (mem) add(-1);
        delete mem;
        mem = reinterpret_cast<int*>(8);
    }
    void use() const {
        if (!mem) sim::fail("moved-from-callable", "a callable was invoked after it had been moved away (id %d)", id);
        if (*mem != id) sim::fail("corrupt-callable", "callable state corrupted (id %d)", id);
        sim::quiet q;
        g_life_uses[id]++;
    }
    void add(int d) const {
        sim::quiet q;
        if (id >= 0 && id < MAXLIFE) g_life[id] += d;
    }
};
// move-only flavour
struct MLife : Life {
    MLife() = default;
    explicit MLife(int i) : Life(i) {}
    MLife(MLife&&) = default;
    MLife(const MLife&) = delete;
    MLife& operator=(MLife&&) = default;
};

// ------------------------------------------------------------------ executors
// cur_tag: which executor is running the current task (innermost); cur_begin: event sequence number
// at which that executor began to run it.
inline thread_local int cur_tag = -1;
inline thread_local uint64_t cur_begin = 0;

struct TagScope {
    int old;
    uint64_t oldb;
    explicit TagScope(int t) : old(cur_tag), oldb(cur_begin) {
        sim::quiet q;
        cur_tag = t;
        cur_begin = sim::ev("exec", t) + 1;
    }
    ~TagScope() {
        sim::quiet q;
        cur_tag = old;
        cur_begin = oldb;
    }
};

// A worker thread (or several) with a queue owned by the scenario.  It may pick tasks out of order
// and may be told to pause or to drop (destroy unrun) tasks.
class Worker {
    std::mutex m;
    std::condition_variable cv;
    std::deque<task_t> q;
    bool stop = false, paused = false;
    bool reorder = false;
    std::vector<std::thread> ts;
    void run() {
        for (;;) {
            task_t t;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return stop || (!q.empty() && !paused); });
                if (q.empty() && stop) return;
                if (q.empty() || (paused && !stop)) continue;
                size_t k = reorder && q.size() > 1 ? (size_t)sim::user_choice((int)q.size()) : 0;
                t = std::move(q[k]);
                q.erase(q.begin() + k);
            }
            t();
        }
    }

public:
    explicit Worker(int n = 1, bool reorder_ = false) : reorder(reorder_) {
        for (int i = 0; i < n; ++i)
            ts.emplace_back([this] { run(); });
    }
    void post(task_t t) {
        {
            std::unique_lock<std::mutex> l(m);
            q.push_back(std::move(t));
        }
        cv.notify_one();
    }
    void pause(bool p) {
        {
            std::unique_lock<std::mutex> l(m);
            paused = p;
        }
        cv.notify_all();
    }
    size_t size() {
        std::unique_lock<std::mutex> l(m);
        return q.size();
    }
    void clear() { // drops queued tasks
        std::deque<task_t> tmp;
        {
            std::unique_lock<std::mutex> l(m);
            tmp.swap(q);
        }
    }
    void shutdown() {
        {
            std::unique_lock<std::mutex> l(m);
            stop = true;
        }
        cv.notify_all();
        for (auto& t : ts)
            t.join();
        ts.clear();
    }
};

enum Ex : int { EX_IMM, EX_POOL, EX_HIGH, EX_LOW, EX_WORKER, EX_SERIAL, EX_DELAY, EX_SPAWN, EX_N };

// Lazily created execution resources of a run.
struct Env {
    std::optional<Worker> worker;
    std::optional<stlab::serial_queue_t> serial;
    std::vector<std::thread> spawned;
    std::mutex spawn_m;
    unsigned drop_every = 0; // fault: executors drop tasks
    bool may_drop = false;
    int dropped = 0;
    bool used_pool = false;

    void prepare(unsigned mask) {
        if (mask >> EX_WORKER & 1) worker.emplace(1 + sim::W(2), sim::W(2));
        if (mask >> EX_SERIAL & 1)
            serial.emplace(stlab::default_executor, sim::W(2) ? stlab::schedule_mode::all : stlab::schedule_mode::single);
        if (mask & (1 << EX_POOL | 1 << EX_HIGH | 1 << EX_LOW | 1 << EX_SERIAL | 1 << EX_DELAY)) used_pool = true;
    }
    void join_spawned() {
        std::vector<std::thread> t;
        for (;;) {
            {
                std::unique_lock<std::mutex> l(spawn_m);
                t.swap(spawned);
            }
            if (t.empty()) break;
            for (auto& x : t)
                x.join();
            t.clear();
        }
    }
};
inline Env* env = nullptr;

// An executor identified by a tag (its kind) which really runs tasks on that executor.
struct TagExec {
    int kind;
    bool can_drop = false;

    void operator()(task_t f) const {
        if (can_drop && sim::user_choice(4) == 1) { // the executor loses the task
            sim::fault(sim::F_DROPTASK);
            sim::ev("drop-task", kind);
            return;
        }
        auto w = [_f = std::move(f), k = kind]() mutable noexcept {
            TagScope s(k);
            _f();
        };
        switch (kind) {
            case EX_IMM: w(); break;
            case EX_POOL: stlab::default_executor(std::move(w)); break;
            case EX_HIGH: stlab::high_executor(std::move(w)); break;
            case EX_LOW: stlab::low_executor(std::move(w)); break;
            case EX_WORKER: env->worker->post(task_t(std::move(w))); break;
            case EX_SERIAL: env->serial->executor()(std::move(w)); break;
            case EX_DELAY:
                stlab::execute_delayed(std::chrono::milliseconds(1 + (sim::user_choice(3))), stlab::default_executor)(
                    task_t(std::move(w)));
                break;
            case EX_SPAWN: {
                std::unique_lock<std::mutex> l(env->spawn_m);
                env->spawned.emplace_back(std::move(w));
                break;
            }
        }
    }
};

// ------------------------------------------------------------------ run epilogue
// Ends the pool and checks that every thread of the library ended.
inline void shutdown_env() {
    if (env) {
        env->join_spawned();
        if (env->worker) env->worker->shutdown();
    }
    stlab::pre_exit();
}

inline void check_payloads_released(const char* when) {
    sim::quiet q;
    if (g_live_vals != 0) sim::fail("leak-value", "%ld user values are still alive %s", g_live_vals, when);
}
inline void check_life(int id, int expect, const char* when) {
    sim::quiet q;
    if (g_life[id] != expect)
        sim::fail("leak-callable", "callable %d has %d live copies, expected %d, %s", id, g_life[id], expect, when);
}

// Runs client bodies as threads and waits for them.
struct Clients {
    std::vector<std::thread> ts;
    template <class F>
    void go(F f) {
        ts.emplace_back(std::move(f));
    }
    void join() {
        for (auto& t : ts)
            t.join();
        ts.clear();
    }
};

// lets a client wander: a scheduling point or a bit of simulated time
inline void jitter() {
    switch (sim::user_choice(4)) {
        case 0: sim::point(); break;
        case 1: std::this_thread::yield(); break;
        case 2:
            sim::fault(sim::F_SLOWTASK);
            std::this_thread::sleep_for(std::chrono::microseconds(100));
            break;
        case 3:
            sim::fault(sim::F_SLOWTASK);
            std::this_thread::sleep_for(std::chrono::milliseconds(3));
            break;
    }
}

} // namespace sc
