// Serial queues: several submitters (clients and tasks), both modes, any executor, cancellation,
// throwing tasks, queue objects destroyed after submission.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C12";
using stlab::future;

namespace {
struct T {
    int q;
    int how;          // 0 operator(), 1 async on executor(), 2 raw, 3 continuation
    bool drop;        // its future is dropped at once
    bool late_drop;   // ... or later by its client
    bool throws;
    int dur;
    std::vector<int> children; // submitted from inside
    uint64_t b = 0, e = 0, start = 0, end = 0, dropped = 0;
    int runs = 0;
    bool submitted = false;
};
std::vector<T> ts;
struct Q {
    int ex, mode;
    std::optional<stlab::serial_queue_t> q;
    int inside = -1;
    std::vector<int> order;
    int* state = nullptr; // only ever touched by tasks of this queue: no lock
};
std::vector<Q> qs;

struct DownExec { // the executor below the queue
    int ex;
    template <class F>
    void operator()(F&& f) const {
        TagExec{ex}(task_t(std::forward<F>(f)));
    }
};
struct Held {
    int id;
    future<int> f;
};
thread_local std::vector<Held>* held = nullptr;
std::vector<Held> leftovers; // futures of tasks submitted by tasks

void submit(int id);
int body(int id) {
    T& t = ts[id];
    Q& q = qs[t.q];
    {
        sim::quiet z;
        t.start = sim::ev("start", id, t.q) + 1;
        if (t.runs++) sim::fail("ran-twice", "task %d ran twice", id);
        if (q.inside >= 0) sim::fail("overlap", "task %d started while task %d of the same queue was running", id, q.inside);
        q.inside = id;
        q.order.push_back(id);
    }
    *q.state = *q.state * 3 + id; // a race if the queue does not order its tasks
    for (int c : t.children)
        submit(c);
    switch (t.dur) {
        case 1: sim::point(); break;
        case 2: jitter(); break;
        case 3:
            sim::fault(sim::F_SLOWTASK);
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
            break;
        case 4:
            if (q.ex == EX_POOL) stlab::await(stlab::async(stlab::default_executor, [] { sim::point(); }));
            break;
    }
    *q.state = *q.state * 5 + id;
    {
        sim::quiet z;
        q.inside = -1;
        t.end = sim::ev("end", id) + 1;
    }
    if (t.throws) {
        sim::fault(sim::F_THROW);
        throw Err{id + 1};
    }
    return id;
}
void keep(int id, future<int>&& f) {
    T& t = ts[id];
    if (t.drop) {
        sim::fault(sim::F_CANCEL);
        f = future<int>{};
        sim::quiet z;
        t.dropped = sim::ev("drop", id) + 1;
        return;
    }
    if (held) {
        held->push_back(Held{id, std::move(f)});
    } else {
        sim::quiet z; // submitted by a task; only the main thread looks at it afterwards
        leftovers.push_back(Held{id, std::move(f)});
    }
}
void submit(int id) {
    T& t = ts[id];
    Q& q = qs[t.q];
    auto queue = *q.q; // a copy
    {
        sim::quiet z;
        t.submitted = true;
        t.b = sim::ev("submit", id, t.q) + 1;
    }
    future<int> f;
    switch (t.how) {
        case 0: f = queue([](int i, Val v) { (void)v; return body(i); }, id, Val(7)); break;
        case 1: f = stlab::async(queue.executor(), [id, l = Life(id)] { l.use(); return body(id); }); break;
        case 2:
            queue.executor()(task_t([id, l = MLife(id)]() noexcept {
                l.use();
                body(id);
            }));
            break;
        case 3:
            f = stlab::async(stlab::default_executor, [id] { return id; })
                    .then(queue.executor(), [](int id) { return body(id); });
            break;
    }
    {
        sim::quiet z;
        t.e = sim::seq() + 1;
        if (t.how == 3) t.b = t.e = 0; // enqueued at some later moment
    }
    if (t.how != 2) keep(id, std::move(f));
}
} // namespace

extern "C" void sim_scenario() {
    static Env the_env;
    static std::vector<std::vector<int>> plan; // >=0 submit, -1 jitter, -2 drop one held future, -3 destroy own handle
    static std::vector<std::vector<Held>> helds;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP |
                           1 << sim::F_STALL);
        ts.reserve(64);
        int nq = 1 + sim::W(2);
        unsigned mask = 1 << EX_POOL;
        for (int i = 0; i < nq; ++i) {
            static const int exs[] = {EX_POOL, EX_WORKER, EX_IMM, EX_SPAWN, EX_HIGH, EX_DELAY};
            Q x;
            x.ex = exs[sim::W(6)];
            x.mode = sim::W(2);
            mask |= 1u << x.ex;
            qs.push_back(std::move(x));
        }
        int awaits = 6;
        auto mk = [&](int how_n) {
            T t{};
            t.q = sim::W(nq);
            t.how = sim::W(how_n);
            t.drop = t.how != 2 && sim::W(5) == 1;
            t.throws = t.how != 2 && sim::W(6) == 1;
            t.dur = sim::W(5);
            if (t.dur == 4 && awaits-- <= 0) t.dur = 1;
            ts.push_back(t);
            return (int)ts.size() - 1;
        };
        int K = 1 + sim::W(3);
        plan.resize(K);
        helds.resize(K);
        for (auto& p : plan) {
            int n = 1 + sim::W(6);
            for (int i = 0; i < n; ++i) {
                int w = sim::W(6);
                if (w == 4) p.push_back(-1);
                else if (w == 5) p.push_back(-2);
                else {
                    int id = mk(4);
                    p.push_back(id);
                    if (sim::W(5) == 1 && ts.size() < 24) {
                        int c = mk(3);
                        ts[id].children.push_back(c);
                    }
                }
            }
        }
        env->prepare(mask);
        for (auto& x : qs)
            x.state = new int(1);
    }
    for (auto& x : qs)
        x.q.emplace(DownExec{x.ex}, x.mode ? stlab::schedule_mode::all : stlab::schedule_mode::single);
    Clients c;
    for (size_t k = 0; k < plan.size(); ++k)
        c.go([k] {
            held = &helds[k];
            for (int w : plan[k]) {
                if (w >= 0) submit(w);
                else if (w == -1) jitter();
                else if (!held->empty()) {
                    int id = held->front().id;
                    sim::fault(sim::F_CANCEL);
                    held->erase(held->begin());
                    sim::quiet z;
                    ts[id].dropped = sim::ev("drop", id) + 1;
                }
            }
        });
    c.join();
    bool children = false;
    for (auto& t : ts)
        children |= !t.children.empty();
    if (!children) // the queue objects go away while tasks are still queued
        for (auto& x : qs)
            x.q.reset();
    sim::quiesce();
    {
        sim::quiet z;
        for (size_t i = 0; i < ts.size(); ++i) {
            T& t = ts[i];
            if (!t.submitted) continue; // its parent was cancelled
            if (!t.dropped && t.runs != 1) sim::fail("task-lost", "task %zu never ran", i);
            if (t.runs && !t.end) sim::fail("task-stuck", "task %zu never finished", i);
        }
        for (auto& q : qs)
            for (size_t x = 0; x < q.order.size(); ++x) {
                T& b = ts[q.order[x]];
                for (size_t y = x + 1; y < q.order.size(); ++y) {
                    T& a = ts[q.order[y]]; // ran after b
                    if (a.e && b.b && a.e < b.b)
                        sim::fail("queue-order", "task %d ran before task %d which was submitted earlier", q.order[x], q.order[y]);
                }
                if (x > 0 && b.dropped && b.dropped < ts[q.order[x - 1]].end)
                    sim::fail("cancelled-ran", "task %d ran although its future had been dropped before its turn", q.order[x]);
            }
    }
    for (auto& h : leftovers)
        helds[0].push_back(std::move(h));
    leftovers.clear();
    for (auto& hv : helds) {
        for (auto& h : hv) {
            T& t = ts[h.id];
            if (!h.f.is_ready()) sim::fail("unresolved", "the future of task %d is not ready", h.id);
            int out = 0;
            try {
                out = *h.f.get_try();
            } catch (const Err& e) {
                out = -e.code - 10;
            }
            int want = t.throws ? -(h.id + 1) - 10 : h.id;
            if (out != want) sim::fail("wrong-outcome", "task %d resolved to %d instead of %d", h.id, out, want);
        }
        hv.clear();
    }
    for (auto& x : qs)
        x.q.reset();
    shutdown_env();
    for (size_t i = 0; i < ts.size(); ++i)
        check_life((int)i, 0, "at the end");
    check_payloads_released("at the end");
}
