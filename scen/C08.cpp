// Blocking waits: await, await_for and the deprecated spellings.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C08";
using stlab::future;
using stlab::packaged_task;
using namespace std::chrono;

namespace {
enum { S_PACKAGE, S_ASYNC, S_TIMER, S_REDUCE, S_READY, S_EXC, S_CHAIN };
enum { M_OK, M_THROW, M_SETEXC, M_DROP };
enum { A_AWAIT, A_FOR, A_BLOCKING, A_BLOCKING_FOR, A_BLOCKING_TRY };
enum { T_AWAIT, T_FOR_AGAIN, T_CONT, T_DROP, T_LATER, T_NTAIL };
struct F {
    int type, how, mode, ex, delay, completer;
    int out = 0; // model
    int runs = 0;
    int copies;  // (value types) number of waiters
    uint64_t done_ns = 0; // complete() returned
};
struct Wait {
    int f, how, tail;
    nanoseconds timeout;
    bool in_pool;
    bool copy;
    int seen = -999;
    int cont_runs = 0;
};
std::vector<F> fs;
std::vector<Wait> ws;
bool exact, cfault;
constexpr int64_t SLACK = 2000000;

template <class T>
struct Store {
    std::vector<future<T>> f;
};
Store<Val> sv;
Store<MVal> sm;
Store<void> su;
std::vector<packaged_task<int>> tasks;
struct Later {
    int w;
    future<Val> v;
    future<MVal> m;
    future<void> u;
};
std::vector<Later> later;
std::mutex later_m;
std::vector<future<void>> conts;

int value(int i) { return 500 + i; }
template <class T>
T mk(int i) {
    if constexpr (!std::is_void_v<T>) return T(value(i));
}
template <class T>
T body(int i, const Life& l) {
    l.use();
    {
        sim::quiet q;
        if (fs[i].runs++) sim::fail("ran-twice", "task %d ran twice", i);
        sim::ev("body", i);
    }
    if (fs[i].mode == M_THROW) {
        sim::fault(sim::F_THROW);
        throw Err{1000 + i};
    }
    return mk<T>(i);
}
template <class T>
future<T> make(int i) {
    F& n = fs[i];
    TagExec e{n.ex};
    switch (n.how) {
        case S_PACKAGE: {
            auto p = stlab::package<T(int)>(stlab::immediate_executor, [i, l = MLife(i)](int) { return body<T>(i, l); });
            tasks[i] = std::move(p.first);
            return std::move(p.second);
        }
        case S_CHAIN: {
            auto p = stlab::package<MVal(int)>(stlab::immediate_executor, [](int x) { return MVal(x); });
            tasks[i] = std::move(p.first);
            return std::move(p.second).then(e, [i, l = MLife(i)](MVal) { return body<T>(i, l); });
        }
        case S_REDUCE: {
            auto p = stlab::package<T(int)>(stlab::immediate_executor, [i, l = MLife(i)](int) { return body<T>(i, l); });
            tasks[i] = std::move(p.first);
            return stlab::async(e, [f = std::move(p.second)]() mutable { return std::move(f); });
        }
        case S_ASYNC: return stlab::async(e, [i, l = MLife(i)] { return body<T>(i, l); });
        case S_TIMER:
            return stlab::async(stlab::execute_delayed(milliseconds(n.delay), e), [i, l = MLife(i)] { return body<T>(i, l); });
        case S_READY:
            if constexpr (std::is_void_v<T>) return stlab::make_ready_future(stlab::immediate_executor);
            else return stlab::make_ready_future(mk<T>(i), stlab::immediate_executor);
        default: return stlab::make_exceptional_future<T>(std::make_exception_ptr(Err{1000 + i}), stlab::immediate_executor);
    }
}
bool client_completes(const F& n) { return n.how == S_PACKAGE || n.how == S_CHAIN || n.how == S_REDUCE; }

template <class T>
int outcome(future<T>& f, bool unique) {
    if (auto e = f.exception()) {
        int c = err_code(e);
        return c > 0 ? -c - 10 : c;
    }
    if constexpr (std::is_void_v<T>) return 0;
    else {
        if constexpr (std::is_same_v<T, MVal>) return std::move(f).get_ready().get();
        else return unique ? std::move(f).get_ready().get() : f.get_ready().get();
    }
}
void saw(int w, int v) {
    sim::quiet q;
    Wait& a = ws[w];
    if (a.seen != -999) sim::fail("result-twice", "wait %d got a result twice (%d then %d)", w, a.seen, v);
    a.seen = v;
    sim::ev("saw", w, v);
    if (v != fs[a.f].out) sim::fail("wrong-result", "wait %d on future %d got %d, expected %d", w, a.f, v, fs[a.f].out);
}
struct CreateFaults {
    CreateFaults() { sim::create_faults(cfault); }
    ~CreateFaults() { sim::create_faults(false); }
};
template <class G>
int catching(G g) {
    try {
        return g();
    } catch (const Err& e) {
        return -e.code - 10;
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise ? BROKEN : OTHER;
    } catch (const std::exception& e) {
        sim::fail("wait-threw", "a wait threw %s", e.what());
    }
}
template <class T>
int do_await(future<T>&& f, int how) {
    CreateFaults cf;
    return catching([&]() -> int {
        if constexpr (std::is_void_v<T>) {
            if (how == A_BLOCKING) stlab::blocking_get(std::move(f));
            else stlab::await(std::move(f));
            return 0;
        } else {
            if (how == A_BLOCKING) return stlab::blocking_get(std::move(f)).get();
            return stlab::await(std::move(f)).get();
        }
    });
}
template <class T>
future<T> do_for(int w, future<T>&& f, nanoseconds t, int how) {
    Wait& a = ws[w];
    uint64_t t0 = sim::now_ns();
    sim::ev("await_for", w, (long)t.count());
    future<T> r;
    {
        CreateFaults cf;
        if (how == A_BLOCKING_FOR) r = stlab::blocking_get_for(std::move(f), t);
        else r = stlab::await_for(std::move(f), t);
    }
    uint64_t t1 = sim::now_ns();
    if (!r.valid()) sim::fail("invalid-future", "await_for returned an invalid future");
    bool ready = r.is_ready();
    sim::ev("await_for-end", w, ready);
    sim::quiet q;
    int64_t lim = std::min<int64_t>(t.count(), INT64_MAX / 2), el = (int64_t)(t1 - t0); // longer than any run
    if (!ready && el < lim)
        sim::fail("early-timeout", "wait %d returned without a result after %lld ns, before its timeout of %lld ns", w, (long long)el, (long long)lim);
    if (exact && el > std::max<int64_t>(lim, 0) + SLACK)
        sim::fail("overslept", "wait %d returned after %lld ns although its timeout is %lld ns", w, (long long)el, (long long)lim);
    F& n = fs[a.f];
    if (exact && !ready && n.done_ns && n.how == S_PACKAGE && (int64_t)n.done_ns < (int64_t)t0 + lim - SLACK)
        sim::fail("result-missed", "wait %d timed out although its result arrived %lld ns before", w, (long long)(t0 + lim - n.done_ns));
    if (exact && ready && n.done_ns && (n.how == S_PACKAGE || n.how == S_CHAIN) && (n.ex == EX_IMM || n.how == S_PACKAGE) &&
        (int64_t)t1 > (int64_t)std::max(n.done_ns, t0) + SLACK)
        sim::fail("result-late", "wait %d returned %lld ns after its result arrived", w, (long long)(t1 - std::max(n.done_ns, t0)));
    if (!ready) sim::probe("await_for timed out");
    return r;
}
template <class T>
Later mk_later(int w, future<T>&& f) {
    Later l{w};
    if constexpr (std::is_void_v<T>) l.u = std::move(f);
    else if constexpr (std::is_same_v<T, Val>) l.v = std::move(f);
    else l.m = std::move(f);
    return l;
}
template <class T>
void wait_on(int w, future<T> f) {
    Wait& a = ws[w];
    if (a.how == A_AWAIT || a.how == A_BLOCKING) {
        saw(w, do_await(std::move(f), a.how));
        return;
    }
    if (a.how == A_BLOCKING_TRY) {
        if constexpr (!std::is_same_v<T, MVal>) {
            auto keep = f;
            int o = catching([&]() -> int {
                auto r = stlab::blocking_get(std::move(f), a.timeout);
                if (!r) return -998;
                if constexpr (std::is_void_v<T>) return 0;
                else return r->get();
            });
            if (o != -998) {
                saw(w, o);
                return;
            }
            f = std::move(keep);
        }
    }
    f = do_for(w, std::move(f), a.timeout, a.how);
    if (f.is_ready()) {
        saw(w, outcome(f, !a.copy));
        return;
    }
    switch (a.tail) {
        case T_AWAIT: saw(w, do_await(std::move(f), A_AWAIT)); break;
        case T_FOR_AGAIN:
            f = do_for(w, std::move(f), milliseconds(4), A_FOR);
            if (f.is_ready()) {
                saw(w, outcome(f, true));
                break;
            }
            [[fallthrough]];
        case T_LATER: {
            auto l = mk_later(w, std::move(f));
            std::unique_lock<std::mutex> k(later_m);
            later.push_back(std::move(l));
            break;
        }
        case T_CONT: {
            auto c = std::move(f).recover(stlab::immediate_executor, [w](future<T>&& x) {
                {
                    sim::quiet q;
                    if (ws[w].cont_runs++) sim::fail("ran-twice", "the continuation after wait %d ran twice", w);
                }
                saw(w, outcome(x, true));
            });
            std::unique_lock<std::mutex> k(later_m);
            conts.push_back(std::move(c));
            break;
        }
        case T_DROP:
            sim::fault(sim::F_CANCEL);
            f = future<T>{};
            break;
    }
}
void run_wait(int w) {
    Wait& a = ws[w];
    sim::ev("wait", w, a.how);
    switch (fs[a.f].type) {
        case 0: wait_on<Val>(w, a.copy ? future<Val>(sv.f[a.f]) : std::move(sv.f[a.f])); break;
        case 1: wait_on<MVal>(w, std::move(sm.f[a.f])); break;
        default: wait_on<void>(w, a.copy ? future<void>(su.f[a.f]) : std::move(su.f[a.f])); break;
    }
}
} // namespace

extern "C" void sim_scenario() {
    static Env the_env;
    static std::vector<std::vector<int>> plan; // >=0 wait, -1 jitter, -2-i complete future i, -100-ms sleep
    int K;
    unsigned mask = 1 << EX_POOL;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        exact = sim::W(2) == 0;
        cfault = !exact && sim::W(3) == 1;
        K = 1 + sim::W(3);
        int fail_rate = sim::W(3);
        static const int exs[] = {EX_POOL, EX_IMM, EX_WORKER, EX_SPAWN, EX_HIGH, EX_LOW};
        int NF = 1 + sim::W(4);
        plan.resize(K + 1); // the last one only completes
        int pool_waits = 0;
        for (int i = 0; i < NF; ++i) {
            F n{};
            n.type = sim::W(3);
            int h = sim::W(12);
            n.how = h < 6 ? S_PACKAGE : h == 6 ? S_ASYNC : h == 7 ? S_TIMER : h == 8 ? S_REDUCE : h == 9 ? S_CHAIN : h == 10 ? S_READY : S_EXC;
            if (n.how == S_EXC && !fail_rate) n.how = S_READY;
            n.ex = exs[sim::W(6)];
            n.delay = sim::W(12);
            bool f = fail_rate == 1 ? sim::W(4) == 1 : fail_rate == 2 ? sim::W(2) : 0;
            n.mode = !f ? M_OK : n.how == S_PACKAGE || n.how == S_CHAIN || n.how == S_REDUCE ? M_THROW + sim::W(3) : M_THROW;
            int ok = n.type == 2 ? 0 : value(i);
            n.out = n.how == S_READY ? ok : n.how == S_EXC ? -(1000 + i) - 10 : n.mode == M_OK ? ok : n.mode == M_DROP ? BROKEN : -(1000 + i) - 10;
            mask |= 1u << n.ex;
            fs.push_back(n);
            int waiters = n.type == 1 ? 1 : 1 + sim::W(3);
            for (int k = 0; k < waiters; ++k) {
                Wait a{};
                a.f = i;
                int x = sim::W(10);
                a.how = x < 3 ? A_AWAIT : x < 7 ? A_FOR : x == 7 ? A_BLOCKING : x == 8 ? A_BLOCKING_FOR : A_BLOCKING_TRY;
                if (a.how == A_BLOCKING_TRY && n.type == 1) a.how = A_FOR;
                static const int ms[] = {0, 1, 2, 3, 5, 8, 20};
                int t = sim::W(12);
                a.timeout = t == 9 ? nanoseconds::max() - nanoseconds(sim::W(3)) : t == 10 ? -nanoseconds(1 + sim::W(2000000)) : t == 11 ? nanoseconds(1 + sim::W(3000000)) :
                            t < 7 ? nanoseconds(milliseconds(ms[t])) : t == 7 ? nanoseconds(500) : nanoseconds(hours(24 * 365 * 50));
                a.tail = sim::W(T_NTAIL);
                a.copy = waiters > 1;
                a.in_pool = !cfault && pool_waits < 4 && sim::W(4) == 1;
                pool_waits += a.in_pool;
                int id = (int)ws.size();
                ws.push_back(a);
                auto& p = plan[sim::W(K)];
                p.insert(p.begin() + sim::W((int)p.size() + 1), id);
            }
            if (client_completes(n)) {
                auto& p = plan[K];
                int d = sim::W(6);
                if (d) p.push_back(-100 - (d - 1)); // time before it
                p.push_back(-2 - i);
            }
        }
        for (auto& pl : plan) {
            int j = sim::W(3);
            while (j--) pl.insert(pl.begin() + sim::W((int)pl.size() + 1), exact ? -100 - sim::W(4) : -1);
        }
        unsigned fm = 1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER;
        if (!exact) fm |= 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL | 1 << sim::F_CREATE;
        sim::enable_faults(fm);
        env->prepare(mask);
        sv.f.resize(NF);
        sm.f.resize(NF);
        su.f.resize(NF);
        tasks.resize(NF);
        later.reserve(64);
        conts.reserve(64);
    }
    if (cfault) stlab::await(stlab::async(stlab::default_executor, [] {})); // the pool exists before threads run out
    for (size_t i = 0; i < fs.size(); ++i)
        switch (fs[i].type) {
            case 0: sv.f[i] = make<Val>((int)i); break;
            case 1: sm.f[i] = make<MVal>((int)i); break;
            default: su.f[i] = make<void>((int)i); break;
        }
    {
        Clients cl;
        for (size_t c = 0; c < plan.size(); ++c)
            cl.go([c] {
                for (int w : plan[c]) {
                    if (w >= 0) {
                        if (ws[w].in_pool) stlab::default_executor([w]() noexcept { run_wait(w); });
                        else run_wait(w);
                    } else if (w == -1) jitter();
                    else if (w <= -100) {
                        sim::fault(sim::F_SLOWTASK);
                        std::this_thread::sleep_for(w == -100 ? nanoseconds(microseconds(100)) : nanoseconds(milliseconds(-100 - w)));
                    } else {
                        int i = -2 - w;
                        auto& t = tasks[i];
                        sim::ev("complete", i, fs[i].mode);
                        switch (fs[i].mode) {
                            case M_SETEXC: t.set_exception(std::make_exception_ptr(Err{1000 + i})); break;
                            case M_DROP: {
                                sim::fault(sim::F_DROPTASK);
                                packaged_task<int> x(std::move(t));
                                break;
                            }
                            default: t(5); break;
                        }
                        sim::quiet q;
                        fs[i].done_ns = sim::now_ns();
                    }
                }
            });
        cl.join();
    }
    sim::quiesce();
    for (auto& l : later) {
        auto chk = [&](auto& f) {
            if (!f.valid()) return;
            if (!f.is_ready()) sim::fail("lost-result", "the future returned by wait %d never became ready", l.w);
            saw(l.w, outcome(f, true));
        };
        chk(l.v);
        chk(l.m);
        chk(l.u);
    }
    {
        sim::quiet q;
        for (size_t w = 0; w < ws.size(); ++w) {
            Wait& a = ws[w];
            bool may_miss = a.tail == T_DROP && a.how != A_AWAIT && a.how != A_BLOCKING;
            if (a.seen == -999 && !may_miss) sim::fail("lost-result", "wait %zu never got the result of future %d", w, a.f);
        }
    }
    later.clear();
    conts.clear();
    for (size_t i = 0; i < fs.size(); ++i) { // what is left of shared futures is unaffected
        if (sv.f[i].valid() && fs[i].type == 0) {
            if (!sv.f[i].is_ready()) sim::fail("unresolved", "future %zu is not ready", i);
            int o = outcome(sv.f[i], true);
            if (o != fs[i].out) sim::fail("wrong-result", "future %zu holds %d after it was awaited, expected %d", i, o, fs[i].out);
        }
    }
    sv.f.clear();
    sm.f.clear();
    su.f.clear();
    tasks.clear();
    shutdown_env();
    for (size_t i = 0; i < fs.size(); ++i)
        check_life((int)i, 0, "at the end");
    check_payloads_released("at the end");
}
