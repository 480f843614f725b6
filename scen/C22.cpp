// Progress tracking: wrapped tasks are run, copied, moved, assigned, swapped and dropped by several
// threads; steps() must count the wrappers that exist, completed() the calls that returned.
#include "common.hpp"
#include <stlab/concurrency/progress.hpp>
using namespace sc;
extern const char* const sim_scenario_name = "C22";

namespace {
struct Fn {
    Life life;
    int id = -1;
    bool boom = false;
    Fn() = default;
    Fn(int i, bool b) : life(i), id(i), boom(b) {}
    Fn(const Fn&) = default;
    Fn(Fn&&) noexcept = default;
    Fn& operator=(const Fn& o) {
        Fn t(o);
        return *this = std::move(t);
    }
    Fn& operator=(Fn&&) noexcept = default;
    int operator()(int x) const;
};
using Wrapped = decltype(std::declval<stlab::progress_tracker&>()(std::declval<Fn>()));

long started_calls = 0, returned_calls = 0, signals = 0; // oracle
thread_local long my_signals = 0, my_done = 0;

int Fn::operator()(int x) const {
    life.use();
    {
        sim::quiet q;
        ++started_calls;
    }
    sim::point();
    if (boom) {
        sim::fault(sim::F_THROW);
        {
            sim::quiet q;
            --started_calls;
        }
        throw Err{id};
    }
    sim::quiet q;
    ++returned_calls;
    ++my_done;
    return x + id;
}
struct Op {
    int how, a, b, ex;
};
struct Slot {
    std::optional<Wrapped> w;
    bool tracked = false; // counted by the tracker
    bool boom = false;
};
} // namespace

extern "C" void sim_scenario() {
    static Env the_env;
    static std::vector<std::vector<Op>> plan;
    static bool with_cb;
    static int K, dropper;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(3));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER);
        with_cb = sim::W(4) != 0;
        K = 1 + sim::W(3);
        plan.resize(K);
        unsigned mask = 0;
        static const int exs[] = {EX_IMM, EX_POOL, EX_WORKER, EX_SPAWN, EX_HIGH, EX_SERIAL};
        for (auto& p : plan) {
            int n = 1 + sim::W(9);
            for (int i = 0; i < n; ++i) {
                Op o{};
                o.how = sim::W(11);
                o.a = sim::W(3);
                o.b = sim::W(3);
                o.ex = exs[sim::W(6)];
                mask |= 1u << o.ex;
                p.push_back(o);
            }
        }
        dropper = sim::W(4) == 0 ? sim::W(K) + 1 : 0; // the tracker itself is dropped while wrappers exist
        env->prepare(mask);
    }
    static long expect_runs = 0; // calls which return
    {
        auto cb = [](size_t steps, size_t done) {
            sim::point();
            sim::quiet q;
            ++signals;
            ++my_signals;
            sim::ev("progress", (long)steps, (long)done);
            if (steps == 0) sim::fail("no-step", "the callback saw no live step although the task that completed exists");
            if ((long)done < my_done)
                sim::fail("stale-count", "the callback saw %zu completed tasks, this thread alone completed %ld", done,
                          my_done);
            if ((long)done > started_calls)
                sim::fail("too-many", "the callback saw %zu completed tasks, only %ld were run", done, started_calls);
        };
        auto tr = std::make_unique<stlab::progress_tracker>(with_cb ? stlab::progress_tracker(cb)
                                                                    : stlab::progress_tracker());
        static std::vector<std::vector<Slot>> slots;
        slots.clear();
        slots.resize(K);
        Clients c;
        static int next_id;
        next_id = 0;
        bool dropped = false;
        std::vector<stlab::progress_tracker> copies;
        for (int k = 0; k < K; ++k) {
            slots[k].resize(3);
            copies.push_back(*tr);
        }
        if (dropper) {
            tr.reset();
            dropped = true;
        }
        for (int k = 0; k < K; ++k) {
            c.go([k, t = std::make_optional(std::move(copies[k]))]() mutable {
                auto& s = slots[k];
                auto mk = [&](bool boom) {
                    int id;
                    {
                        sim::quiet q;
                        id = next_id++;
                    }
                    return (*t)(Fn(id, boom));
                };
                auto call = [&](Wrapped& w, bool boom) {
                    {
                        sim::quiet q;
                        if (!boom) ++expect_runs;
                    }
                    long before = my_signals;
                    try {
                        int r = w(5);
                        if (boom) sim::fail("lost-exception", "the exception of a tracked task was swallowed");
                        sim::quiet q;
                        if (r < 5) sim::fail("wrong-result", "a tracked task returned %d", r);
                    } catch (const Err&) {
                        if (!boom) sim::fail("phantom-exception", "a tracked task threw");
                    }
                    sim::quiet q;
                    if (with_cb && my_signals - before != !boom && !dropper)
                        sim::fail("callback-count", "%ld callbacks for one call", my_signals - before);
                };
                for (Op& o : plan[k]) {
                    Slot &a = s[o.a], &b = s[o.b];
                    if (!t) break;
                    switch (o.how) {
                        case 0:
                        case 1: // wrap
                            a.w.reset();
                            a.w.emplace(mk(o.b == 2));
                            a.boom = o.b == 2;
                            break;
                        case 2: // run here
                            if (a.w) call(*a.w, a.boom);
                            break;
                        case 3: // copy into a free or occupied slot
                            if (a.w && &a != &b) {
                                b.w.reset();
                                b.w.emplace(*a.w);
                                b.boom = a.boom;
                            }
                            break;
                        case 4: // copy assignment, also over another wrapper and to itself
                            if (a.w && b.w) {
                                *b.w = *a.w;
                                b.boom = a.boom;
                            }
                            break;
                        case 5: // move assignment
                            if (a.w && b.w && &a != &b) {
                                *b.w = std::move(*a.w);
                                b.boom = a.boom;
                                a.w.reset();
                            }
                            break;
                        case 6:
                            if (a.w && b.w && &a != &b) {
                                std::swap(*a.w, *b.w);
                                std::swap(a.boom, b.boom);
                            }
                            break;
                        case 7:
                            sim::fault(sim::F_CANCEL);
                            a.w.reset();
                            break;
                        case 8: // hand a copy, or the wrapper, to an executor
                        case 9: {
                            if (!a.w) break;
                            bool boom = a.boom;
                            if (!boom) {
                                sim::quiet q;
                                ++expect_runs;
                            }
                            if (o.how == 8) {
                                stlab::async(TagExec{o.ex}, *a.w, 7).detach();
                            } else {
                                stlab::async(TagExec{o.ex}, std::move(*a.w), 7).detach();
                                a.w.reset();
                            }
                            break;
                        }
                        case 10: { // a task that is dropped before it can run
                            auto p = stlab::package<int()>(
                                stlab::immediate_executor, [w = mk(false)]() { return w(1); });
                            p.second.reset();
                            p.first();
                            break;
                        }
                    }
                }
                if (dropper == k + 1) {
                    sim::fault(sim::F_CANCEL);
                    t.reset();
                }
            });
        }
        copies.clear();
        c.join();
        shutdown_env();
        sim::quiet q0;
        if (!dropped) {
            long live = 0;
            for (auto& v : slots)
                for (auto& s : v)
                    live += s.w.has_value();
            long steps = (long)tr->steps(), done = (long)tr->completed();
            if (steps != live)
                sim::fail("steps", "the tracker counts %ld steps, %ld wrapped tasks exist", steps, live);
            if (done != expect_runs)
                sim::fail("completed", "the tracker counts %ld completed tasks, %ld were run", done, expect_runs);
            if (with_cb && signals != expect_runs)
                sim::fail("callback-count", "%ld callbacks for %ld completed tasks", signals, expect_runs);
        }
        if (returned_calls != expect_runs)
            sim::fail("run-count", "%ld calls returned, %ld were made", returned_calls, expect_runs);
        slots.clear();
        if (!dropped && tr->steps() != 0)
            sim::fail("steps", "the tracker counts %zu steps after every wrapped task was destroyed", tr->steps());
    }
    for (int i = 0; i < MAXLIFE; ++i)
        if (g_life[i]) check_life(i, 0, "at the end");
}
