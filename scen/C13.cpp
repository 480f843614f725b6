// Timed tasks: direct timer use, delayed executors (also one used for several tasks, and inherited by
// continuations), added by several threads while the timer thread waits, sleeps or runs tasks.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C13";

namespace {
constexpr uint64_t MS = 1000000;
struct T {
    uint64_t b = 0, e = 0;   // time at which the submission began / ended
    uint64_t eb = 0, ee = 0; // the same in events
    int64_t d = 0;           // delay, ns
    uint64_t start = 0, evs = 0;
    int runs = 0;
    bool never = false;
    bool on_timer = false; // runs on the timer thread itself, in order of due time
    int ex = 0;
};
std::vector<T> ts;
bool precise; // no faults that make time pass while threads can run, and no slow tasks
bool slow;

void started(int id) {
    {
        sim::quiet q;
        T& t = ts[id];
        uint64_t now = sim::now_ns();
        t.evs = sim::ev("timed", id, (long)(now / 1000));
        t.start = now;
        if (t.runs++) sim::fail("ran-twice", "timed task %d ran twice", id);
        if (!t.b) sim::fail("phantom", "timed task %d ran before it was scheduled", id);
        if ((int64_t)now < (int64_t)t.b + t.d)
            sim::fail("early", "timed task %d ran %llu ns after it was scheduled, its delay is %llu ns", id,
                      (unsigned long long)(now - t.b), (unsigned long long)t.d);
        if (precise && t.e && now > t.e + std::max<int64_t>(t.d, 0) + 1 * MS)
            sim::fail("late", "timed task %d was due at %llu ns but ran at %llu ns although nothing delayed it", id,
                      (unsigned long long)(t.e + t.d), (unsigned long long)now);
        if (cur_tag != t.ex) sim::fail("wrong-executor", "timed task %d ran on executor %d instead of %d", id, cur_tag, t.ex);
    }
    if (slow && id % 3 == 0) {
        sim::fault(sim::F_SLOWTASK);
        std::this_thread::sleep_for(std::chrono::milliseconds(4));
    }
}
struct Op {
    int how, id, ms, unit, ex, n;
    long ns; // of the delay which are not whole milliseconds (microseconds for unit 1)
};
constexpr int NEVER = 1 << 20; // a delay which cannot be added to the clock
template <class F>
auto with_delay(const Op& o, F f) {
    if (o.ms == NEVER) {
        switch (o.unit) {
            case 0: return f(std::chrono::milliseconds::max());
            case 1: return f(std::chrono::hours::max());
            case 3: return f(std::chrono::steady_clock::time_point::max());
            default: return f(std::chrono::nanoseconds::max() - std::chrono::nanoseconds(o.ns));
        }
    }
    switch (o.unit) {
        case 0: return f(std::chrono::milliseconds(o.ms));
        case 3: return f(std::chrono::steady_clock::now() + std::chrono::nanoseconds(o.ms * (long)MS + o.ns));
        case 1: return f(std::chrono::microseconds(o.ms * 1000L + o.ns / 1000));
        default: return f(std::chrono::nanoseconds(o.ms * (long)MS + o.ns));
    }
}
stlab::executor_t delayed(const Op& o) {
    return with_delay(o, [&](auto d) {
        if constexpr (std::is_same_v<decltype(d), std::chrono::steady_clock::time_point>) return stlab::execute_at(d, TagExec{o.ex});
        else return o.unit == 1 ? stlab::execute_at(d, TagExec{o.ex}) : stlab::executor_t(stlab::execute_delayed(d, TagExec{o.ex}));
    });
}
} // namespace

extern "C" void sim_scenario() {
    static Env the_env;
    static std::vector<std::vector<Op>> plan;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(3));
        precise = sim::W(2) == 0;
        slow = !precise && sim::W(2);
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER |
                           (precise ? 0 : 1 << sim::F_TIMEJUMP));
        ts.reserve(64);
        int K = 1 + sim::W(3);
        plan.resize(K);
        unsigned mask = 0;
        for (auto& p : plan) {
            int n = sim::W(6);
            for (int i = 0; i < n; ++i) {
                Op o{};
                o.how = sim::W(6);
                o.ms = sim::W(8) * 5;
                if (sim::W(3) == 0) o.ms = 1 + sim::W(3); // many ties and near ties
                o.unit = sim::W(3);
                if (o.unit && sim::W(3) == 0) o.ns = o.unit == 1 ? 1000 * (1 + (long)sim::W(999)) : 1 + (long)sim::W(999999);
                if (sim::W(24) == 23) o.ms = NEVER;
                else if (sim::W(12) == 11) o.ms = -(1 + (int)sim::W(20)); // due in the past
                if (o.how != 2 && sim::W(6) == 5) o.unit = 3;             // a time point
                static const int exs[] = {EX_IMM, EX_IMM, EX_POOL, EX_WORKER, EX_HIGH, EX_LOW};
                o.ex = exs[sim::W(6)];
                o.n = o.how == 2 ? 2 + sim::W(2) : 1;
                o.id = (int)ts.size();
                if (o.how >= 4) o.n = 0;
                for (int k = 0; k < o.n; ++k) {
                    T t;
                    t.d = o.ms == NEVER ? INT64_MAX / 4 : (int64_t)o.ms * (int64_t)MS + o.ns;
                    t.never = o.ms == NEVER;
                    t.ex = o.ex;
                    t.on_timer = o.ex == EX_IMM && t.d != 0 && o.unit != 3;
                    ts.push_back(t);
                }
                mask |= 1u << o.ex;
                p.push_back(o);
            }
        }
        env->prepare(mask);
    }
    Clients c;
    for (auto& p : plan)
        c.go([&p] {
            auto before = [](int id) {
                sim::quiet q;
                ts[id].eb = sim::ev("schedule", id, (long)(ts[id].d / (int64_t)MS));
                ts[id].b = sim::now_ns();
            };
            auto after = [](int id) {
                sim::quiet q;
                ts[id].ee = sim::seq();
                ts[id].e = sim::now_ns();
            };
            for (auto& o : p) {
                switch (o.how) {
                    case 0: { // the timer itself
                        before(o.id);
                        if (o.ex == EX_IMM && ts[o.id].d != 0) {
                            auto f = task_t([id = o.id]() noexcept {
                                TagScope s(EX_IMM);
                                started(id);
                            });
                            with_delay(o, [&](auto d) { stlab::system_timer(d, std::move(f)); });
                        } else
                            delayed(o)(task_t([id = o.id]() noexcept { started(id); }));
                        after(o.id);
                        break;
                    }
                    case 1:
                        before(o.id);
                        delayed(o)(task_t([id = o.id]() noexcept { started(id); }));
                        after(o.id);
                        break;
                    case 2: { // one delayed executor for several tasks
                        auto ex = delayed(o);
                        for (int k = 0; k < o.n; ++k) {
                            before(o.id + k);
                            ex(task_t([id = o.id + k]() noexcept { started(id); }));
                            after(o.id + k);
                            if (o.unit == 1) sim::point();
                        }
                        break;
                    }
                    case 3: // as the executor of a future
                        before(o.id);
                        stlab::async(delayed(o), [id = o.id] { started(id); }).detach();
                        after(o.id);
                        break;
                    case 4: sim::point(); break;
                    default: std::this_thread::sleep_for(std::chrono::milliseconds(1 + (o.ms & 0xff) % 7));
                }
            }
        });
    c.join();
    sim::quiesce_until(sim::now_ns() + 10 * 1000 * MS);
    {
        sim::quiet q;
        for (size_t i = 0; i < ts.size(); ++i)
            if (ts[i].runs != !ts[i].never) sim::fail("timer-lost", "timed task %zu never ran", i);
        for (size_t i = 0; i < ts.size(); ++i)
            for (size_t j = 0; j < ts.size(); ++j) {
                auto &a = ts[i], &b = ts[j];
                if (!a.on_timer || !b.on_timer) continue;
                // a is certainly due before b, and was scheduled before b was due
                if ((int64_t)a.e + std::max<int64_t>(a.d, 0) < (int64_t)b.b + b.d && a.ee <= b.evs && b.evs < a.evs)
                    sim::fail("timer-order", "timed task %zu (due %llu) ran before task %zu (due %llu)", j,
                              (unsigned long long)(b.b + b.d), i, (unsigned long long)(a.e + a.d));
            }
    }
    shutdown_env();
}
