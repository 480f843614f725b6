// The default executor: tasks submitted at every priority from clients, tasks, continuations and
// timers; tasks block in await (within the thread limit) on tasks submitted before, during and after
// they block.  A second workload checks the starting order of a single worker.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C10";
using stlab::future;
using stlab::packaged_task;

namespace {
enum Op { SPAWN, ASYNC_AWAIT, AWAIT_EXT, SLEEP, CHAIN_AWAIT, ASYNC_LATER, AWAIT_FOR, POINT, DELAYED, NOP };
struct Act {
    int op, arg, arg2;
};
struct Node {
    int prio;
    std::vector<Act> acts;
    int runs = 0, started = 0, expected = 1;
};
struct Ext {
    std::optional<packaged_task<>> task;
    future<void> fut; // a continuation on the pool
    int how = 0;
};
std::vector<Node> N;
std::vector<Ext> X;
int awaits_left = 8;

template <class F>
void submit(int prio, F f) {
    switch (prio) {
        case 0: stlab::high_executor(std::move(f)); break;
        case 1: stlab::default_executor(std::move(f)); break;
        default: stlab::low_executor(std::move(f)); break;
    }
}
stlab::executor_t exec_of(int prio) {
    return prio == 0 ? stlab::executor_t(stlab::high_executor) :
           prio == 1 ? stlab::executor_t(stlab::default_executor) :
                       stlab::executor_t(stlab::low_executor);
}

int gen(int depth) {
    int id = (int)N.size();
    N.push_back(Node{sim::W(3), {}});
    int n = sim::W(depth >= 3 ? 2 : 4);
    std::vector<Act> acts;
    for (int i = 0; i < n; ++i) {
        int op = sim::W(10);
        if (op == NOP) continue;
        bool aw = op == ASYNC_AWAIT || op == AWAIT_EXT || op == CHAIN_AWAIT || op == ASYNC_LATER || op == AWAIT_FOR;
        if (aw && awaits_left <= 0) op = SPAWN, aw = false;
        if (op == AWAIT_EXT && X.empty()) op = ASYNC_AWAIT;
        bool child = op == SPAWN || op == ASYNC_AWAIT || op == CHAIN_AWAIT || op == ASYNC_LATER || op == AWAIT_FOR || op == DELAYED;
        if (child && (depth >= 4 || N.size() > 14)) continue;
        if (aw) --awaits_left;
        int arg = child ? gen(depth + 1) : op == AWAIT_EXT ? sim::W((int)X.size()) : sim::W(3);
        acts.push_back({op, arg, sim::W(3)});
    }
    N[id].acts = std::move(acts);
    return id;
}

void body(int id) noexcept {
    {
        sim::quiet q;
        if (N[id].started++) sim::fail("ran-twice", "task %d started twice", id);
        sim::ev("start", id, N[id].prio);
    }
    std::vector<future<int>> later;
    for (auto& a : N[id].acts) {
        switch (a.op) {
            case SPAWN: submit(N[a.arg].prio, [c = a.arg]() noexcept { body(c); }); break;
            case DELAYED:
                stlab::execute_delayed(std::chrono::milliseconds(1 + a.arg2), exec_of(N[a.arg].prio))(
                    task_t([c = a.arg]() noexcept { body(c); }));
                break;
            case ASYNC_AWAIT: {
                auto f = stlab::async(exec_of(N[a.arg].prio), [c = a.arg] { body(c); return c; });
                if (stlab::await(std::move(f)) != a.arg) sim::fail("wrong-value", "await returned a wrong value");
                break;
            }
            case CHAIN_AWAIT: {
                auto f = stlab::async(exec_of(N[a.arg].prio), [c = a.arg] { body(c); return c; }) |
                         (stlab::executor{exec_of(a.arg2)} & [](int c) { return c + 1; });
                if (stlab::await(std::move(f)) != a.arg + 1) sim::fail("wrong-value", "await returned a wrong value");
                break;
            }
            case ASYNC_LATER:
                later.push_back(stlab::async(exec_of(N[a.arg].prio), [c = a.arg] { body(c); return c; }));
                break;
            case AWAIT_FOR: {
                auto f = stlab::async(exec_of(N[a.arg].prio), [c = a.arg] { body(c); return c; });
                f = stlab::await_for(std::move(f), std::chrono::milliseconds(1 + a.arg2));
                if (f.is_ready()) {
                    if (f.get_try() != a.arg) sim::fail("wrong-value", "await_for returned a wrong value");
                } else {
                    sim::probe("await_for timed out in the pool");
                    // keep it alive: dropping it would cancel the task
                    std::move(f).detach();
                }
                break;
            }
            case AWAIT_EXT: stlab::await(stlab::copy(X[a.arg].fut)); break;
            case SLEEP:
                sim::fault(sim::F_SLOWTASK);
                std::this_thread::sleep_for(std::chrono::microseconds(500 * (1 + a.arg)));
                break;
            case POINT: sim::point(); break;
        }
    }
    for (auto& f : later)
        stlab::await(std::move(f));
    sim::quiet q;
    N[id].runs++;
    sim::ev("end", id);
}

void progress() {
    std::vector<std::vector<Act>> cl;
    {
        sim::quiet q;
        int nx = sim::W(3);
        X.resize(nx);
        int K = 1 + sim::W(3);
        cl.resize(K);
        for (int c = 0; c < K; ++c) {
            int n = 1 + sim::W(4);
            for (int i = 0; i < n; ++i) {
                int k = sim::W(6);
                if (k == 5) cl[c].push_back({POINT, 0, 0});
                else if (N.size() < 14) {
                    int id = gen(1);
                    cl[c].push_back({k == 4 ? ASYNC_AWAIT : SPAWN, id, 0});
                }
            }
        }
        for (int i = 0; i < nx; ++i) {
            X[i].how = sim::W(3);
            auto& v = cl[sim::W(K)];
            v.insert(v.begin() + sim::W((int)v.size() + 1), Act{AWAIT_EXT, i, sim::W(3)});
        }
        // a client must not wait before the completions it owes have been delivered
        for (auto& v : cl) {
            bool owes = false;
            for (size_t i = v.size(); i-- > 0;) {
                if (v[i].op == AWAIT_EXT) owes = true;
                if (v[i].op == ASYNC_AWAIT && owes) v[i].op = SPAWN;
            }
        }
    }
    for (auto& x : X) {
        auto p = stlab::package<void()>(stlab::immediate_executor, [] {});
        x.task.emplace(std::move(p.first));
        x.fut = std::move(p.second);
        if (x.how) x.fut = std::move(x.fut) | (stlab::executor{stlab::executor_t(stlab::default_executor)} & [] { sim::point(); });
        if (x.how == 2) x.fut = std::move(x.fut) | (stlab::executor{stlab::executor_t(stlab::low_executor)} & [] {});
    }
    Clients c;
    for (auto& v : cl)
        c.go([&v] {
            for (auto& a : v) {
                if (a.op == SPAWN) submit(N[a.arg].prio, [i = a.arg]() noexcept { body(i); });
                if (a.op == ASYNC_AWAIT) {
                    int r = stlab::await(stlab::async(exec_of(N[a.arg].prio), [i = a.arg] { body(i); return i; }));
                    if (r != a.arg) sim::fail("wrong-value", "await in a client returned a wrong value");
                }
                if (a.op == AWAIT_EXT) {
                    if (a.arg2 == 1) jitter();
                    if (a.arg2 == 2) // completed from a timer
                        stlab::execute_delayed(std::chrono::milliseconds(2), stlab::immediate_executor)(
                            task_t([i = a.arg]() noexcept { (*X[i].task)(); }));
                    else (*X[a.arg].task)();
                }
                if (a.op == POINT) jitter();
            }
        });
    c.join();
    sim::quiesce();
    {
        sim::quiet q;
        for (size_t i = 0; i < N.size(); ++i)
            if (N[i].runs != 1)
                sim::fail("task-stuck", "task %zu %s although every thread is idle", i,
                          N[i].started ? "never finished" : "never ran");
    }
    X.clear();
    stlab::pre_exit();
}

void order() {
    sim::set_hw(1 + sim::W(2)); // a single worker
    struct Sub {
        int prio;
        uint64_t b, e;
    };
    static std::vector<Sub> S;
    static std::vector<int> started;
    static std::mutex m;
    static std::condition_variable cv;
    static bool open = false, in = false;
    std::vector<std::vector<int>> plan;
    int waves;
    {
        sim::quiet q;
        waves = 1 + sim::W(2);
    }
    for (int w = 0; w < waves; ++w) {
        {
            sim::quiet q;
            S.clear();
            started.clear();
            plan.assign(1 + sim::W(2), {});
            int n = 1 + sim::W(10);
            for (int i = 0; i < n; ++i) {
                S.push_back({sim::W(3), 0, 0});
                plan[sim::W((int)plan.size())].push_back(i);
            }
            open = in = false;
        }
        stlab::high_executor([]() noexcept {
            std::unique_lock<std::mutex> l(m);
            in = true;
            cv.notify_all();
            cv.wait(l, [] { return open; });
        });
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [] { return in; });
        }
        Clients c;
        for (auto& p : plan)
            c.go([&p] {
                for (int i : p) {
                    {
                        sim::quiet q;
                        S[i].b = sim::ev("submit", i, S[i].prio);
                    }
                    submit(S[i].prio, [i]() noexcept {
                        sim::quiet q;
                        sim::ev("start", i);
                        for (int j : started)
                            if (j == i) sim::fail("ran-twice", "task %d ran twice", i);
                        started.push_back(i);
                    });
                    sim::quiet q;
                    S[i].e = sim::ev("submitted", i);
                }
            });
        c.join();
        {
            std::unique_lock<std::mutex> l(m);
            open = true;
            cv.notify_all();
        }
        sim::quiesce();
        sim::quiet q;
        if (started.size() != S.size()) sim::fail("task-stuck", "%zu of %zu tasks ran", started.size(), S.size());
        for (size_t x = 0; x < started.size(); ++x)
            for (size_t y = x + 1; y < started.size(); ++y) {
                auto &a = S[started[x]], &b = S[started[y]]; // a started before b
                if (b.prio < a.prio)
                    sim::fail("priority-order", "task %d (priority %d) started before task %d (priority %d)", started[x],
                              a.prio, started[y], b.prio);
                if (b.prio == a.prio && b.e < a.b)
                    sim::fail("submission-order", "task %d started before task %d of the same priority submitted earlier",
                              started[x], started[y]);
            }
    }
    stlab::pre_exit();
}
} // namespace

extern "C" void sim_scenario() {
    sim::set_hw(1 + sim::W(5));
    sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_TIMEJUMP | 1 << sim::F_REORDER |
                       1 << sim::F_STALL);
    if (sim::W(5) == 4) order();
    else progress();
}
