// Memory safety of hand-overs: a random mix of operations on separate copies of the same future,
// sender, executor, queue and package by several threads, plus the workloads of the other properties,
// under the race and lifetime detector.  Only memory errors count here.
#include "common.hpp"
#include <cstring>
using namespace sc;
extern const char* const sim_scenario_name = "C09";

extern "C" bool sim_accept(const char* cls) {
    static const char* const own[] = {"data-race", "race", "use-after-free", "use-after-return", "double-free", "bad-free",
                                      "crash", "destroy-locked", "destroy-waited", "bad-unlock", "bad-wait", "moved-from",
                                      "corrupt-callable", "moved-from-callable", "torn", "assert-sync"};
    for (auto o : own)
        if (!strncmp(cls, o, strlen(o))) return true;
    return false;
}
extern "C" {
void c09_graph();
void c09_cancel();
void c09_when();
void c09_reduce();
void c09_coro();
void c09_wait();
void c09_serial();
void c09_chan();
}

namespace {
using stlab::future;
struct Cell { // plain memory handed over without any synchronisation of its own
    int a, b;
};
struct Op {
    int how, a, b, ex, v;
};
stlab::executor_t exec_of(int ex) { return TagExec{ex}; }

struct Shared {
    int serial_state = 0; // only touched by tasks of the serial queue
};
struct Proc { // await/yield process with plain state
    stlab::process_state_scheduled _state = stlab::await_forever;
    int sum = 0;
    Life life;
    explicit Proc(int id) : life(id) {}
    void await(Val v) {
        life.use();
        sum += v.get();
        _state = stlab::yield_immediate;
    }
    Val yield() {
        _state = stlab::await_forever;
        return Val(sum);
    }
    void close() { _state = sum ? stlab::yield_immediate : stlab::await_forever; sum = 0; }
    const auto& state() const { return _state; }
};
struct Mine { // what one thread owns
    future<Val> f[3];
    future<void> fv;
    std::optional<future<MVal>> fm;
    std::optional<stlab::sender<Val>> s[2];
    std::optional<stlab::serial_queue_t> q;
    stlab::executor_t delayed, plain;
    std::vector<future<int>> kept;
    std::optional<stlab::packaged_task<int>> pk; // others hold copies of its future
    future<int> pf;
};

template <class F>
auto handover(int v, F use) { // a task which reads a cell written by whoever created it
    auto c = std::make_unique<Cell>();
    c->a = v;
    c->b = -v;
    return [c = std::move(c), use]() mutable noexcept {
        if (c->a != -c->b) sim::fail("torn", "a task saw the half written cell %d %d", c->a, c->b);
        use(*c);
        c.reset();
    };
}

void mix() {
    static Env the_env;
    static std::vector<std::vector<Op>> plan;
    static Shared sh;
    static int K, prod_ex, void_ex, fails, chan_ex[3], chan_n, delay_ms;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP |
                           1 << sim::F_STALL);
        K = 2 + sim::W(2);
        static const int exs[] = {EX_IMM, EX_POOL, EX_WORKER, EX_SPAWN, EX_HIGH, EX_SERIAL, EX_DELAY, EX_LOW};
        unsigned mask = 0;
        auto ex = [&] {
            int e = exs[sim::W(8)];
            mask |= 1u << e;
            return e;
        };
        prod_ex = ex();
        void_ex = ex();
        fails = sim::W(5) == 0;
        delay_ms = 1 + sim::W(3);
        chan_n = sim::W(4);
        for (int& e : chan_ex)
            e = ex();
        plan.resize(K);
        for (auto& p : plan) {
            int n = 1 + sim::W(9);
            for (int i = 0; i < n; ++i) {
                Op o{};
                o.how = sim::W(30);
                o.a = sim::W(3);
                o.b = sim::W(3);
                o.ex = ex();
                o.v = 1 + sim::W(100);
                p.push_back(o);
            }
        }
        env->prepare(mask | 1u << EX_SERIAL);
    }
    {
        stlab::serial_queue_t sq(stlab::default_executor);
        auto ch = stlab::channel<Val>(exec_of(chan_ex[0]));
        stlab::receiver<Val> rx = ch.second;
        if (chan_n & 1) rx = rx | (stlab::executor{exec_of(chan_ex[1])} & [](Val v) { return Val(v.get() + 1); });
        if (chan_n & 2) rx = rx | (stlab::executor{exec_of(chan_ex[2])} & Proc(0));
        static int got; // touched by the one sink only
        got = 0;
        auto tail = rx | (stlab::executor{exec_of(chan_ex[1])} & [](Val v) { got += v.get(); });
        rx.set_ready();
        ch.second.set_ready();
        auto body = stlab::package<int(int)>(stlab::immediate_executor, [l = Life(1)](int x) {
            l.use();
            return x + 1;
        });
        auto src = stlab::package<Val(Val)>(exec_of(prod_ex), [l = Life(2), bad = fails](Val v) {
            l.use();
            if (bad) {
                sim::fault(sim::F_THROW);
                throw Err{7};
            }
            return Val(v.get() + 1);
        });
        auto dly = stlab::execute_delayed(std::chrono::milliseconds(delay_ms), exec_of(prod_ex));
        future<void> fv = stlab::async(exec_of(void_ex), handover(5, [](Cell&) {}));
        Clients c;
        std::vector<Mine> mine(K);
        for (int k = 0; k < K; ++k) {
            auto& m = mine[k];
            m.f[0] = src.second;
            m.f[1] = src.second;
            m.fv = fv;
            m.s[0] = ch.first;
            m.q = sq;
            m.delayed = dly;
            m.plain = exec_of(prod_ex);
            m.pf = body.second;
        }
        mine[K - 1].pk = std::move(body.first);
        body.second.reset();
        mine[0].fm = stlab::async(exec_of(void_ex), [l = Life(3)] {
            l.use();
            return MVal(9);
        });
        if (sim::W(2)) { // nobody but the threads holds anything
            src.second.reset();
            fv.reset();
            ch.first.close();
            dly = nullptr;
        }
        for (int k = 0; k < K; ++k) {
            c.go([k, m = std::move(mine[k])]() mutable {
                for (Op& o : plan[k]) {
                    future<Val>&f = m.f[o.a], &g = m.f[o.b];
                    auto& s = m.s[o.a & 1];
                    auto& s2 = m.s[o.b & 1];
                    auto e = exec_of(o.ex);
                    auto rd = [l = Life(10 + k)](const Val& v) {
                        l.use();
                        return v.get();
                    };
                    switch (o.how) {
                        case 0:
                            if (f.valid()) m.kept.push_back(f.then(e, rd));
                            break;
                        case 1:
                            if (f.valid()) m.kept.push_back(std::move(f).then(e, [l = Life(20 + k)](Val v) {
                                l.use();
                                *v.p += 1; // ours alone
                                return v.get();
                            })), f = {};
                            break;
                        case 2:
                            if (f.valid() && f.is_ready() && !f.exception()) {
                                if (f.get_try()->get() != 42) sim::fail("torn", "wrong value");
                            }
                            break;
                        case 3:
                            if (f.valid()) try {
                                    auto r = std::move(f).get_try();
                                    if (r) {
                                        *r->p += 1;
                                        f = {};
                                    }
                                } catch (const Err&) {
                                    f = {};
                                }
                            break;
                        case 4:
                            if (f.valid() && f.is_ready()) {
                                try {
                                    Val v = o.b ? f.get_ready() : std::move(f).get_ready();
                                    *v.p += 1;
                                } catch (const Err&) {
                                }
                                if (!o.b) f = {};
                            }
                            break;
                        case 5:
                            if (&f != &g) g = f;
                            break;
                        case 6:
                            if (&f != &g) g = std::move(f), f = {};
                            break;
                        case 7:
                            sim::fault(sim::F_CANCEL);
                            f.reset();
                            break;
                        case 8:
                            if (f.valid()) m.kept.push_back(f.recover(e, [l = Life(30 + k)](future<Val> x) {
                                l.use();
                                if (x.exception()) return -1;
                                return x.get_try()->get();
                            }));
                            break;
                        case 9:
                            if (f.valid()) f.detach();
                            break;
                        case 10:
                            if (f.valid()) try {
                                    Val v = stlab::await(o.b ? f : std::move(f));
                                    *v.p += 1;
                                } catch (const Err&) {
                                }
                            if (!o.b) f = {};
                            break;
                        case 11:
                            if (f.valid()) {
                                f = stlab::await_for(std::move(f), std::chrono::milliseconds(o.v % 4));
                            }
                            break;
                        case 12:
                            if (f.valid() && g.valid())
                                m.kept.push_back(stlab::when_all(
                                    e,
                                    [l = Life(40 + k)](const Val& x, const Val& y) {
                                        l.use();
                                        return x.get() + y.get();
                                    },
                                    f, g));
                            break;
                        case 13:
                            if (f.valid() && g.valid())
                                m.kept.push_back(stlab::when_any(
                                    e,
                                    [l = Life(50 + k)](const Val& x, size_t) {
                                        l.use();
                                        return x.get();
                                    },
                                    future<Val>(f), future<Val>(g)));
                            break;
                        case 14:
                            if (m.fv.valid()) m.kept.push_back(m.fv.then(e, [l = Life(60 + k)] {
                                l.use();
                                return 1;
                            }));
                            break;
                        case 15:
                            m.fv.reset();
                            break;
                        case 16:
                            if (m.fm) {
                                m.kept.push_back(std::move(*m.fm).then(e, [l = Life(70 + k)](MVal v) {
                                    l.use();
                                    *v.p += 1;
                                    return v.get();
                                }));
                                m.fm.reset();
                            }
                            break;
                        case 17:
                        case 18:
                            if (s) (*s)(Val(o.v));
                            break;
                        case 19:
                            if (s && s2 && &s != &s2) *s2 = *s;
                            else if (s && &s != &s2) s2 = *s;
                            break;
                        case 20:
                            sim::fault(sim::F_SENDERDROP);
                            if (o.b) s.reset();
                            else if (s) s->close();
                            break;
                        case 21:
                        case 22: {
                            auto task = handover(o.v, [](Cell& c) { sh.serial_state += c.a; });
                            if (o.b == 0) m.kept.push_back(stlab::async(m.q->executor(), [t = std::move(task)]() mutable {
                                t();
                                return 3;
                            }));
                            else m.q->executor()(std::move(task));
                            break;
                        }
                        case 23: {
                            auto q2 = *m.q;
                            m.q.reset();
                            m.q = std::move(q2);
                            break;
                        }
                        case 24: {
                            auto d = m.delayed;
                            d(handover(o.v, [](Cell& c) { c.a = 0; }));
                            break;
                        }
                        case 25: m.plain(handover(o.v, [](Cell& c) { c.a = 0; })); break;
                        case 26:
                            stlab::system_timer(std::chrono::steady_clock::now() + std::chrono::milliseconds(o.v % 3),
                                                handover(o.v, [](Cell& c) { c.a = 0; }));
                            break;
                        case 27:
                            if (m.pk && o.b) {
                                if (!m.pk->canceled()) (*m.pk)(o.v);
                                m.pk.reset();
                            } else if (m.pf.valid() && o.b) {
                                m.kept.push_back(m.pf.then(e, [](int x) { return x; }));
                            }
                            m.pf.reset();
                            break;
                        case 28: { // nested hand-over through a reduction
                            m.kept.push_back(stlab::async(e, [c = std::make_unique<Cell>(Cell{o.v, o.v}), ex = o.ex]() mutable {
                                c->a++;
                                return stlab::async(exec_of(ex), [c = std::move(c)] { return c->a + c->b; });
                            }));
                            break;
                        }
                        case 29: jitter(); break;
                    }
                }
                sim::point();
            });
        }
        mine.clear();
        if (sim::W(2)) jitter();
        src.first(Val(41));
        if (sim::W(2)) ch.first.close();
        c.join();
        sim::quiesce();
    }
    shutdown_env();
}
} // namespace

extern "C" void sim_scenario() {
    int n;
    {
        sim::quiet q;
        n = sim::W(16);
    }
    switch (n) {
        case 8: return c09_graph();
        case 9: return c09_cancel();
        case 10: return c09_when();
        case 11: return c09_reduce();
        case 12: return c09_coro();
        case 13: return c09_wait();
        case 14: return c09_serial();
        case 15: return c09_chan();
        default: return mix();
    }
}
