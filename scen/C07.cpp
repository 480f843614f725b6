// Coroutines over futures.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C07";
using stlab::future;
using stlab::packaged_task;

namespace {
enum { S_PACKAGE, S_ASYNC, S_READY, S_EXC };
enum { M_OK, M_THROW, M_SETEXC, M_DROP };
struct Src {
    int type, how, mode, ex, completer;
    bool slow;
    bool copy_kept; // another copy is held (and read) elsewhere
    int out = 0;    // model
    int runs = 0;
};
struct Aw {
    int src = -1, coro = -1; // what is awaited: a source or a nested coroutine
    bool guarded;            // in a try block
    bool by_copy;            // co_await of an lvalue
    int seen = -999, resumed = 0;
};
struct Co {
    int type;
    std::vector<Aw> aws;
    bool throws;             // after its awaits
    bool nested = false;
    int fate;                // 0 keep, 1 drop at once, 2 drop later, 3 continuation only
    int frames = 0, destroyed = 0, finished = 0, started = 0;
    int out = 0;             // model
    int tail_runs = 0, tail_seen = -999;
};
std::vector<Src> srcs;
std::vector<Co> cos;
std::vector<packaged_task<int>> tasks;
std::vector<future<Val>> fv;
std::vector<future<MVal>> fm;
std::vector<future<void>> fu;

int src_value(int i) { return 300 + i; }

struct FrameGuard { // lives in the coroutine frame
    int id;
    int* mem;
    explicit FrameGuard(int i) : id(i), mem(new int(i)) {
        sim::quiet q;
        cos[id].frames++;
    }
    FrameGuard(const FrameGuard&) = delete;
    ~FrameGuard() {
        {
            sim::quiet q;
            if (cos[id].destroyed++) sim::fail("frame-twice", "the frame of coroutine %d was destroyed twice", id);
            sim::ev("frame-gone", id);
        }
        delete mem;
        mem = reinterpret_cast<int*>(8);
    }
};

template <class T>
int val(T&& x) { return x.get(); }

template <class T>
T src_body(int i, const Life& l) {
    l.use();
    {
        sim::quiet q;
        if (srcs[i].runs++) sim::fail("ran-twice", "source %d ran twice", i);
    }
    if (srcs[i].slow) jitter();
    if (srcs[i].mode == M_THROW) {
        sim::fault(sim::F_THROW);
        throw Err{1000 + i};
    }
    if constexpr (!std::is_void_v<T>) return T(src_value(i));
}
template <class T>
future<T> make_src(int i) {
    Src& s = srcs[i];
    TagExec e{s.ex};
    switch (s.how) {
        case S_PACKAGE: {
            auto p = stlab::package<T(int)>(e, [i, l = MLife(i)](int) { return src_body<T>(i, l); });
            tasks[i] = std::move(p.first);
            return std::move(p.second);
        }
        case S_ASYNC: return stlab::async(e, [i, l = MLife(i)] { return src_body<T>(i, l); });
        case S_READY:
            if constexpr (std::is_void_v<T>) return stlab::make_ready_future(stlab::executor_t(e));
            else return stlab::make_ready_future(T(src_value(i)), stlab::executor_t(e));
        default: return stlab::make_exceptional_future<T>(std::make_exception_ptr(Err{1000 + i}), stlab::executor_t(e));
    }
}
void resumed(Aw& a, int v) {
    sim::quiet q;
    if (a.resumed++) sim::fail("resumed-twice", "a co_await resumed twice");
    a.seen = v;
    sim::ev("resumed", v);
}
int cur_err() {
    sim::quiet q;
    int c = err_code(std::current_exception());
    return c > 0 ? -c - 10 : c;
}

template <class T>
future<T> coro(int id, Life arg);

// one co_await; the result is the outcome seen.  A macro, as co_await must be in the coroutine itself.
#define AWAIT_U(FUT, BYCOPY, A)             \
    do {                                    \
        future<void> f_ = FUT;              \
        if (BYCOPY) co_await f_;            \
        else co_await std::move(f_);        \
        resumed(A, 0);                      \
    } while (0)
#define AWAIT_M(FUT, A)                     \
    do {                                    \
        future<MVal> f_ = FUT;              \
        auto v_ = co_await std::move(f_);   \
        resumed(A, v_.get());               \
        sum += v_.get();                    \
    } while (0)
#define AWAIT_V(FUT, BYCOPY, A)             \
    do {                                    \
        future<Val> f_ = FUT;               \
        if (BYCOPY) {                       \
            auto v_ = co_await f_;          \
            resumed(A, v_.get());           \
            sum += v_.get();                \
        } else {                            \
            auto v_ = co_await std::move(f_); \
            resumed(A, v_.get());           \
            sum += v_.get();                \
        }                                   \
    } while (0)

#define CORO_BODY                                                                  \
    FrameGuard g(id);                                                              \
    {                                                                              \
        sim::quiet q;                                                              \
        if (cos[id].started++) sim::fail("started-twice", "coroutine %d started twice", id); \
    }                                                                              \
    int sum = 0;                                                                   \
    for (size_t k = 0; k < cos[id].aws.size(); ++k) {                              \
        Aw& a = cos[id].aws[k];                                                    \
        bool failed = false;                                                       \
        std::exception_ptr ep;                                                     \
        try {                                                                      \
            if (a.coro >= 0) {                                                     \
                switch (cos[a.coro].type) {                                        \
                    case 0: AWAIT_V(coro<Val>(a.coro, Life(200 + a.coro)), a.by_copy, a); break;   \
                    case 1: AWAIT_M(coro<MVal>(a.coro, Life(200 + a.coro)), a); break;      \
                    default: AWAIT_U(coro<void>(a.coro, Life(200 + a.coro)), a.by_copy, a); break; \
                }                                                                  \
            } else {                                                               \
                switch (srcs[a.src].type) {                                        \
                    case 0: AWAIT_V(std::move(fv[a.src]), a.by_copy, a); break;   \
                    case 1: AWAIT_M(std::move(fm[a.src]), a); break;       \
                    default: AWAIT_U(std::move(fu[a.src]), a.by_copy, a); break;  \
                }                                                                  \
            }                                                                      \
        } catch (...) {                                                            \
            failed = true;                                                         \
            resumed(a, cur_err());                                                 \
            if (!a.guarded) ep = std::current_exception();                         \
        }                                                                          \
        arg.use();                                                                 \
        if (*g.mem != id) sim::fail("frame", "the frame of coroutine %d is corrupt", id); \
        if (ep) {                                                                  \
            finish(id);                                                            \
            std::rethrow_exception(ep);                                            \
        }                                                                          \
        if (failed) sum += 1;                                                      \
    }                                                                              \
    finish(id);                                                                    \
    if (cos[id].throws) throw Err{2000 + id};

void finish(int id) {
    sim::quiet q;
    if (cos[id].finished++) sim::fail("finished-twice", "coroutine %d finished twice", id);
    sim::ev("finished", id);
}
template <class T>
future<T> coro(int id, Life arg) {
    CORO_BODY
    co_return T(sum);
}
template <>
future<void> coro<void>(int id, Life arg) {
    CORO_BODY
    co_return;
}

int co_model(int id) {
    Co& c = cos[id];
    int sum = 0;
    for (auto& a : c.aws) {
        int o = a.coro >= 0 ? co_model(a.coro) : srcs[a.src].out;
        if (a.resumed != 1) sim::fail(a.resumed ? "resumed-twice" : "not-resumed", "a co_await of coroutine %d resumed %d times", id, a.resumed);
        if (a.seen != o) sim::fail("wrong-value", "a co_await of coroutine %d produced %d, expected %d", id, a.seen, o);
        if (o < 0) {
            if (!a.guarded) return c.out = o;
            sum += 1;
        } else
            sum += o;
    }
    if (c.throws) return c.out = -(2000 + id) - 10;
    return c.out = c.type == 2 ? 0 : sum;
}
template <class T>
int outcome(future<T>& f) {
    if (auto e = f.exception()) {
        int c = err_code(e);
        return c > 0 ? -c - 10 : c;
    }
    if constexpr (std::is_void_v<T>) return 0;
    else return std::move(f).get_ready().get();
}
struct Out {
    future<Val> v;
    future<MVal> m;
    future<void> u;
    future<void> tail;
};
std::vector<Out> outs;

template <class T>
void launch(int id, future<T>& slot) {
    sim::ev("launch", id);
    future<T> f = coro<T>(id, Life(200 + id));
    Co& c = cos[id];
    if (c.fate == 1) {
        sim::fault(sim::F_CANCEL);
        return;
    }
    if (c.fate == 3) {
        outs[id].tail = std::move(f).recover(stlab::immediate_executor, [id](future<T>&& x) {
            int o = outcome(x);
            sim::quiet q;
            if (cos[id].tail_runs++) sim::fail("ran-twice", "the continuation of coroutine %d ran twice", id);
            cos[id].tail_seen = o;
        });
        return;
    }
    slot = std::move(f);
}
} // namespace

extern "C" void sim_scenario() {
    static Env the_env;
    static std::vector<std::vector<int>> plan; // >=0 complete source, -1 jitter, -2-i launch coroutine i, -100-i drop coroutine i's future
    int K, NC, roots;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL);
        K = 1 + sim::W(3);
        roots = 1 + sim::W(2);
        NC = roots;
        int fail_rate = sim::W(3);
        plan.resize(K);
        static const int exs[] = {EX_POOL, EX_WORKER, EX_SPAWN, EX_IMM, EX_HIGH, EX_SERIAL};
        for (int id = 0; id < NC; ++id) {
            Co c{};
            c.type = sim::W(3);
            c.throws = sim::W(6) == 1;
            c.nested = id >= roots;
            c.fate = sim::W(4);
            int na = 1 + sim::W(3);
            for (int k = 0; k < na; ++k) {
                Aw a{};
                a.guarded = sim::W(3) == 1;
                a.by_copy = sim::W(3) == 1;
                if (NC < 6 && sim::W(4) == 1) a.coro = NC++;
                else {
                    Src s{};
                    s.type = sim::W(3);
                    s.how = sim::W(10);
                    s.how = s.how < 5 ? S_PACKAGE : s.how < 8 ? S_ASYNC : s.how == 8 ? S_READY : fail_rate ? S_EXC : S_READY;
                    s.ex = exs[sim::W(6)];
                    bool f = fail_rate == 1 ? sim::W(4) == 1 : fail_rate == 2 ? sim::W(2) : 0;
                    s.mode = !f ? M_OK : s.how == S_PACKAGE ? M_THROW + sim::W(3) : M_THROW;
                    s.slow = sim::W(3) == 1;
                    s.copy_kept = s.type == 0 && sim::W(4) == 1;
                    s.completer = sim::W(K);
                    int i = a.src = (int)srcs.size();
                    s.out = s.how == S_EXC || ((s.how == S_PACKAGE || s.how == S_ASYNC) && (s.mode == M_THROW || s.mode == M_SETEXC)) ? -(1000 + i) - 10
                            : s.how == S_PACKAGE && s.mode == M_DROP                                                          ? BROKEN
                            : s.type == 2                                                                                     ? 0
                                                                                                                             : src_value(i);
                    if (s.how == S_PACKAGE) {
                        auto& p = plan[s.completer];
                        p.insert(p.begin() + sim::W((int)p.size() + 1), i);
                    }
                    srcs.push_back(s);
                }
                c.aws.push_back(a);
            }
            cos.push_back(c);
        }
        for (int id = 0; id < roots; ++id) {
            auto& p = plan[sim::W(K)];
            size_t at = sim::W((int)p.size() + 1);
            p.insert(p.begin() + at, -2 - id);
            if (cos[id].fate == 2) p.insert(p.begin() + at + 1 + sim::W((int)(p.size() - at)), -100 - id);
        }
        for (auto& pl : plan) {
            int j = sim::W(3);
            while (j--) pl.insert(pl.begin() + sim::W((int)pl.size() + 1), -1);
        }
        unsigned mask = 1 << EX_IMM;
        for (auto& s : srcs)
            mask |= 1u << s.ex;
        env->prepare(mask);
        tasks.resize(srcs.size());
        fv.resize(srcs.size());
        fm.resize(srcs.size());
        fu.resize(srcs.size());
        outs.resize(NC);
    }
    std::vector<future<Val>> copies(srcs.size());
    for (size_t i = 0; i < srcs.size(); ++i)
        switch (srcs[i].type) {
            case 0:
                fv[i] = make_src<Val>((int)i);
                if (srcs[i].copy_kept) copies[i] = fv[i];
                break;
            case 1: fm[i] = make_src<MVal>((int)i); break;
            default: fu[i] = make_src<void>((int)i); break;
        }
    {
        Clients cl;
        for (int c = 0; c < K; ++c)
            cl.go([c] {
                for (int w : plan[c]) {
                    if (w >= 0) {
                        auto& t = tasks[w];
                        sim::ev("complete", w, srcs[w].mode);
                        switch (srcs[w].mode) {
                            case M_SETEXC: t.set_exception(std::make_exception_ptr(Err{1000 + w})); break;
                            case M_DROP: {
                                sim::fault(sim::F_DROPTASK);
                                packaged_task<int> x(std::move(t));
                                break;
                            }
                            default: t(5); break;
                        }
                    } else if (w == -1) jitter();
                    else if (w <= -100) {
                        int id = -100 - w;
                        sim::fault(sim::F_CANCEL);
                        sim::ev("drop", id);
                        outs[id].v = {};
                        outs[id].m = {};
                        outs[id].u = {};
                    } else {
                        int id = -2 - w;
                        switch (cos[id].type) {
                            case 0: launch<Val>(id, outs[id].v); break;
                            case 1: launch<MVal>(id, outs[id].m); break;
                            default: launch<void>(id, outs[id].u); break;
                        }
                    }
                }
            });
        cl.join();
    }
    sim::quiesce();
    {
        sim::quiet q;
        for (int id = 0; id < roots; ++id)
            co_model(id);
        for (int id = 0; id < NC; ++id) {
            Co& c = cos[id];
            if (c.frames != c.started || c.finished != c.started)
                sim::fail("not-finished", "coroutine %d started %d times and finished %d times", id, c.started, c.finished);
            if (c.destroyed != c.started) sim::fail("frame-leak", "the frame of coroutine %d was destroyed %d times", id, c.destroyed);
            if (id < roots && c.fate == 3 && c.tail_runs != 1) sim::fail("lost-continuation", "the continuation of coroutine %d ran %d times", id, c.tail_runs);
            if (id < roots && c.fate == 3 && c.tail_seen != c.out) sim::fail("wrong-value", "the continuation of coroutine %d saw %d, expected %d", id, c.tail_seen, c.out);
        }
    }
    for (int id = 0; id < NC; ++id)
        check_life(200 + id, 0, "after the coroutine finished");
    auto chk = [&](int id, auto& f) {
        if (!f.valid()) return;
        if (!f.is_ready()) sim::fail("unresolved", "the future of coroutine %d is not ready", id);
        int o = outcome(f);
        if (o != cos[id].out) sim::fail("wrong-outcome", "coroutine %d resolved to %d, expected %d", id, o, cos[id].out);
    };
    for (int id = 0; id < roots; ++id) {
        if (cos[id].fate == 0) {
            if (!outs[id].v.valid() && !outs[id].m.valid() && !outs[id].u.valid()) sim::fail("invalid-future", "coroutine %d has no future", id);
            chk(id, outs[id].v);
            chk(id, outs[id].m);
            chk(id, outs[id].u);
        }
        if (cos[id].fate == 3 && !outs[id].tail.is_ready()) sim::fail("unresolved", "the continuation of coroutine %d is not ready", id);
    }
    for (size_t i = 0; i < srcs.size(); ++i)
        if (copies[i].valid()) {
            if (!copies[i].is_ready()) sim::fail("unresolved", "source %zu is not ready", i);
            int o = outcome(copies[i]);
            if (o != srcs[i].out) sim::fail("wrong-outcome", "a copy of awaited future %zu holds %d, expected %d", i, o, srcs[i].out);
        }
    outs.clear();
    copies.clear();
    fv.clear();
    fm.clear();
    fu.clear();
    tasks.clear();
    shutdown_env();
    for (size_t i = 0; i < srcs.size(); ++i)
        check_life((int)i, 0, "at the end");
    check_payloads_released("at the end");
}
