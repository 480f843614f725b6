// Shutdown at every moment: pre_exit handlers (registered by clients, by pool tasks and by handlers)
// and the end of the default executor with running, queued, blocked and timed work.
#include "common.hpp"
#include <array>
#include <cstring>
using namespace sc;
extern const char* const sim_scenario_name = "C11";
using stlab::future;

namespace {
constexpr int NH = 16;
struct H {
    uint64_t b = 0, e = 0; // registration
    uint64_t run = 0;
    int by = -1;           // registered by that handler
    int registers = -1;    // registers that handler when it runs
    int submits = 0;       // submits tasks when it runs
};
std::array<H, NH> hs;
int nh = 0;
uint64_t pool_created = 0;
void reg(int i);
void submit_one(bool counted, bool late = false);
void run_handler(int i) {
    {
        sim::quiet q;
        if (hs[i].run) sim::fail("handler-twice", "pre-exit handler %d ran twice", i);
        if (!hs[i].b) sim::fail("handler-unregistered", "handler %d ran before it was registered", i);
        hs[i].run = sim::ev("handler", i) + 1;
    }
    // the pool still runs unless its own handler (registered when it was first used) was popped already
    if (!pool_created || hs[i].b > pool_created)
        for (int k = 0; k < hs[i].submits; ++k)
            submit_one(true);
    if (hs[i].registers >= 0) reg(hs[i].registers);
}
template <int I>
void handler() noexcept {
    run_handler(I);
}
template <std::size_t... I>
constexpr std::array<stlab::pre_exit_handler, NH> table(std::index_sequence<I...>) {
    return {&handler<(int)I>...};
}
constexpr auto handlers = table(std::make_index_sequence<NH>());
void reg(int i) {
    {
        sim::quiet q;
        hs[i].b = sim::ev("register", i) + 1;
    }
    stlab::at_pre_exit(handlers[i]);
    sim::quiet q;
    hs[i].e = sim::seq() + 1;
}

// ---- pool work
struct T {
    bool before = false;  // submitted before pre_exit was invoked (must run)
    bool child = false;   // awaited child of such a task (must run)
    int started = 0, finished = 0;
};
std::vector<T> ts;
bool invoked = false, returned = false;
int awaits_left = 5;
bool pool_alive = false;

int new_task(bool before) {
    sim::quiet q;
    int id = (int)ts.size();
    if (id >= 60) sim::discard("too many tasks");
    ts.push_back(T{});
    ts[id].before = before;
    return id;
}
void begin(int id) {
    sim::quiet q;
    sim::ev("task", id);
    if (returned) sim::fail("late-start", "task %d started after pre_exit returned", id);
    if (ts[id].started++) sim::fail("ran-twice", "task %d ran twice", id);
}
void end(int id) {
    sim::quiet q;
    sim::ev("task-end", id);
    if (returned) sim::fail("late-task", "task %d was still running after pre_exit returned", id);
    ts[id].finished++;
}
enum { LEAF, SPAWN, AWAIT_CHILD, AWAIT_TIMER, SLEEP, REGISTER, AWAIT_EXT, NB };
struct Spec {
    int kind, arg;
};
std::vector<Spec> specs; // drawn up front, used in order of submission
size_t next_spec = 0;
std::optional<stlab::packaged_task<>> ext_task;
future<void> ext_fut;
int reg_left = 0, reg_next = 0;

void body(int id, Spec s) {
    begin(id);
    switch (s.kind) {
        case SPAWN: {
            int c = new_task(false);
            stlab::default_executor([c]() noexcept { body(c, Spec{LEAF, 0}); });
            break;
        }
        case AWAIT_CHILD: {
            int c = new_task(false);
            {
                sim::quiet q;
                ts[c].child = ts[id].before || ts[id].child;
            }
            stlab::await(stlab::async(stlab::low_executor, [c] { body(c, Spec{LEAF, 0}); }));
            break;
        }
        case AWAIT_TIMER: {
            int c = new_task(false);
            stlab::await(stlab::async(
                stlab::execute_delayed(std::chrono::milliseconds(1 + s.arg), stlab::immediate_executor),
                [c] {
                    sim::quiet q;
                    ts[c].started++;
                }));
            break;
        }
        case SLEEP:
            sim::fault(sim::F_SLOWTASK);
            std::this_thread::sleep_for(std::chrono::milliseconds(1 + s.arg));
            break;
        case REGISTER: reg(s.arg); break;
        case AWAIT_EXT: stlab::await(stlab::copy(ext_fut)); break;
        default: sim::point(); break;
    }
    end(id);
}
Spec draw() {
    int k = sim::W(NB);
    bool aw = k == AWAIT_CHILD || k == AWAIT_TIMER || k == AWAIT_EXT;
    if (aw && awaits_left-- <= 0) k = LEAF;
    if (k == REGISTER && reg_left <= 0) k = SPAWN;
    if (k == REGISTER) {
        --reg_left;
        return Spec{k, reg_next++};
    }
    return Spec{k, sim::W(3)};
}
void submit_one(bool counted, bool late) {
    Spec s{LEAF, 0};
    int id;
    {
        sim::quiet q;
        if (next_spec < specs.size()) s = specs[next_spec++];
        if (late && s.kind == REGISTER) s = Spec{LEAF, 0}; // may run after the handlers are closed
    }
    id = new_task(false);
    {
        sim::quiet q;
        if (!pool_created) pool_created = sim::seq() + 1;
    }
    sim::ev("submit", id, counted);
    int pr = (int)(id % 3);
    auto f = [id, s]() noexcept { body(id, s); };
    if (pr == 0) stlab::default_executor(std::move(f));
    else if (pr == 1) stlab::high_executor(std::move(f));
    else stlab::low_executor(std::move(f));
    sim::quiet q;
    if (!invoked || counted) ts[id].before = true; // submission completed before shutdown was requested
}
} // namespace

extern "C" void sim_scenario() {
    static std::vector<std::vector<int>> plan; // per client: 0 submit, 1 register, 2 jitter, 3 timer
    static std::vector<std::vector<int>> plan2; // concurrently with pre_exit: 0 submit, 2 jitter, 3 complete ext
    std::vector<int> early;
    bool ext, timers, nopool;
    {
        sim::quiet q;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_TIMEJUMP | 1 << sim::F_REORDER |
                           1 << sim::F_STALL);
        ts.reserve(64);
        ext = sim::W(2);
        timers = sim::W(2);
        nopool = sim::W(6) == 1;
        int e = sim::W(3);
        for (int i = 0; i < e; ++i)
            early.push_back(nh++);
        int K = 1 + sim::W(3);
        plan.resize(K);
        for (auto& p : plan) {
            int n = sim::W(5);
            for (int i = 0; i < n; ++i) {
                int w = sim::W(4);
                if (w == 1 && nh >= 6) w = 0;
                if (nopool && (w == 0 || w == 3)) w = 2;
                p.push_back(w == 1 ? 10 + nh++ : w);
            }
        }
        int m = nh;
        for (int i = (int)early.size(); i < m; ++i) {
            if (sim::W(3) == 1 && nh < 11) {
                hs[i].registers = nh;
                hs[nh].by = i;
                ++nh;
            }
            if (sim::W(3) == 1) hs[i].submits = 1 + sim::W(2);
        }
        // a handler registered by a handler may register another one
        for (int i = m; i < nh && nh < 12; ++i)
            if (sim::W(4) == 1) {
                hs[i].registers = nh;
                hs[nh].by = i;
                ++nh;
            }
        reg_next = nh;
        reg_left = nopool ? 0 : std::min(3, NH - nh);
        int ns = sim::W(10);
        for (int i = 0; i < ns; ++i)
            specs.push_back(draw());
        if (!ext)
            for (auto& s : specs)
                if (s.kind == AWAIT_EXT) s.kind = LEAF;
        int K2 = sim::W(3);
        plan2.resize(std::max(K2, ext ? 1 : 0));
        for (auto& p : plan2) {
            int n = sim::W(3);
            for (int i = 0; i < n; ++i)
                p.push_back(nopool || sim::W(2) ? 2 : 0);
        }
        if (ext) plan2[0].insert(plan2[0].begin() + sim::W((int)plan2[0].size() + 1), 4);
    }
    if (ext) {
        auto p = stlab::package<void()>(stlab::immediate_executor, [] {});
        ext_task.emplace(std::move(p.first));
        ext_fut = std::move(p.second);
    }
    for (int i : early)
        reg(i); // registered before the pool exists: run after it ended
    if (!nopool) {
        pool_created = sim::seq() + 1;
        stlab::default_executor([]() noexcept {});
    }
    Clients c;
    std::atomic<int> timers_ran{0};
    for (auto& p : plan)
        c.go([&p, &timers_ran, timers] {
            for (int w : p) {
                if (w >= 10) reg(w - 10);
                else if (w == 0) submit_one(false);
                else if (w == 3 && timers) {
                    int id = new_task(false);
                    stlab::execute_delayed(std::chrono::milliseconds(1 + id % 7), stlab::default_executor)(
                        task_t([id]() noexcept { body(id, Spec{LEAF, 0}); }));
                } else jitter();
            }
        });
    c.join();
    if (timers && !nopool && sim::W(2)) { // a timer that certainly expires afterwards
        int id = new_task(false);
        auto f = stlab::async(stlab::execute_delayed(std::chrono::milliseconds(40), stlab::default_executor),
                              [id] { body(id, Spec{LEAF, 0}); });
        std::move(f).detach();
    }
    Clients c2;
    for (auto& p : plan2)
        c2.go([&p] {
            for (int w : p) {
                if (w == 4) (*ext_task)();
                else if (w == 0) submit_one(false, true);
                else jitter();
            }
        });
    jitter();
    {
        sim::quiet q;
        invoked = true;
        sim::ev("pre_exit");
        sim::fault(sim::F_SHUTDOWN);
    }
    stlab::pre_exit();
    {
        sim::quiet q;
        returned = true;
        sim::ev("pre_exit returned");
        for (size_t i = 0; i < ts.size(); ++i) {
            if ((ts[i].before || ts[i].child) && !ts[i].finished)
                sim::fail("task-lost", "task %zu was submitted before shutdown but %s", i,
                          ts[i].started ? "did not finish" : "did not run");
            if (ts[i].started != ts[i].finished && ts[i].finished)
                sim::fail("task-running", "task %zu is still running", i);
        }
        for (int t = 1; t < 64; ++t)
            if (const char* n = sim::tname(t))
                if (strstr(n, "default_exe")) sim::fail("thread-alive", "pool thread %s is still alive after pre_exit", n);
    }
    c2.join();
    std::this_thread::sleep_for(std::chrono::milliseconds(100)); // timers expire
    sim::quiesce();
    {
        sim::quiet q;
        // handlers
        for (int i = 0; i < NH; ++i) {
            if (hs[i].b && !hs[i].run) sim::fail("handler-lost", "pre-exit handler %d did not run", i);
        }
        for (int i = 0; i < NH; ++i)
            for (int j = 0; j < NH; ++j) {
                if (i == j || !hs[i].b || !hs[j].b) continue;
                // i was registered before j, and i had not run when j was registered: j runs first
                if (hs[i].e < hs[j].b && hs[j].e < hs[i].run && hs[i].run < hs[j].run)
                    sim::fail("handler-order", "handler %d ran before handler %d, which was registered later", i, j);
            }
    }
    ext_task.reset();
    ext_fut = {};
}
