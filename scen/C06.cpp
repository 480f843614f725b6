// Tasks which return futures (reduction): up to three levels, every order of outer and inner
// completion, attachment, failure and cancellation.
#include "common.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C06";
using stlab::future;
using stlab::packaged_task;

namespace {
enum { K_PACKAGE, K_ASYNC, K_THEN, K_RECOVER, K_READY, K_EXC, K_DETACHED_PKG };
enum { M_OK, M_THROW, M_SETEXC, M_DROP, M_HOLDOUT, M_OWNED /* by the task of the next level */ };
struct Level {
    int kind, mode, ex;
    bool slow;
    bool kept;              // (Val) another copy of this level's future is kept
    int runs = 0;
    uint64_t begun = 0, ended = 0;
    uint64_t c_b = 0, c_e = 0, x_b = 0; // its completion by a client
    bool created = false, completed = false;
    int out = 0, code = 0;  // model: 1 value, -1 failure, 0 pending
};
std::vector<Level> lv; // 0 is the innermost
struct Tail {
    bool rec;
    int ex;
    int runs = 0, seen = -999;
    bool attached = false;
    uint64_t b = 0;
    bool dropped = false;
};
std::vector<Tail> tails;
std::vector<packaged_task<int>> tasks;
uint64_t drop_b = 0, drop_e = 0;

struct LevelExec {
    int ex, k;
    void operator()(task_t f) const {
        TagExec{ex}(task_t([_f = std::move(f), k = k]() mutable noexcept {
            {
                sim::quiet q;
                lv[k].x_b = cur_begin;
            }
            _f();
            sim::quiet q;
            lv[k].ended = sim::ev("task-end", k) + 1;
        }));
    }
};
int out_value() { return 77; }
template <class T>
T mk() {
    if constexpr (!std::is_void_v<T>) return T(out_value());
}
void body_begin(int k, const Life& l, bool pkg) {
    l.use();
    {
        sim::quiet q;
        if (lv[k].runs++) sim::fail("ran-twice", "the task of level %d ran twice", k);
        if (!pkg) lv[k].begun = cur_begin;
        sim::ev("body", k);
    }
    if (lv[k].slow) jitter();
    if (lv[k].mode == M_THROW) {
        sim::fault(sim::F_THROW);
        throw Err{1000 + k};
    }
}
template <class T>
future<T> create(int k);
template <class T>
struct Holder { // what the task of level k owns: the future of level k-1 if that exists already
    std::optional<future<T>> f;
    std::optional<future<T>> copy;
};
template <class T>
std::vector<Holder<T>> pre;                       // futures of packages made up front
template <class T>
std::vector<future<T>> kept;

template <class T>
struct Body {
    int k;
    MLife l;
    packaged_task<int> owned; // what is to complete the inner future
    std::optional<future<T>> inner;
    future<T> operator()(int) { return run(true); }
    future<T> operator()() { return run(false); }
    future<T> run(bool pkg) {
        body_begin(k, l, pkg);
        if (inner) return std::move(*inner);
        return create<T>(k - 1);
    }
};
template <class T>
struct Leaf {
    int k;
    MLife l;
    T operator()(int) {
        body_begin(k, l, true);
        return mk<T>();
    }
    T operator()() {
        body_begin(k, l, false);
        return mk<T>();
    }
};
template <class T, class F>
future<T> create_with(int k, F f) {
    Level& n = lv[k];
    LevelExec e{n.ex, k};
    n.created = true;
    switch (n.kind) {
        case K_PACKAGE: {
            auto p = stlab::package<decltype(f(1))(int)>(stlab::immediate_executor, std::move(f));
            tasks[k] = std::move(p.first);
            return std::move(p.second);
        }
        case K_ASYNC: return stlab::async(e, std::move(f));
        case K_THEN: {
            auto p = stlab::package<MVal(int)>(stlab::immediate_executor, [](int x) { return MVal(x); });
            tasks[k] = std::move(p.first);
            return std::move(p.second).then(e, [f = std::move(f)](MVal) mutable { return f(); });
        }
        default: {
            auto p = stlab::package<void(int)>(stlab::immediate_executor, [](int) { throw Err{1}; });
            tasks[k] = std::move(p.first);
            return std::move(p.second).recover(e, [f = std::move(f)](future<void> x) mutable {
                if (err_code(x.exception()) == 0) sim::fail("wrong-input", "a recovery handler saw no failure");
                return f();
            });
        }
    }
}
template <class T>
future<T> create(int k) {
    Level& n = lv[k];
    future<T> r;
    if (n.kind == K_READY) {
        if constexpr (std::is_void_v<T>) r = stlab::make_ready_future(stlab::immediate_executor);
        else r = stlab::make_ready_future(mk<T>(), stlab::immediate_executor);
    } else if (n.kind == K_EXC) {
        r = stlab::make_exceptional_future<T>(std::make_exception_ptr(Err{1000 + k}), stlab::immediate_executor);
    } else if (pre<T>[k].f) {
        r = std::move(*pre<T>[k].f);
        pre<T>[k].f.reset();
        return r; // created (and copied) up front
    } else if (k == 0)
        r = create_with<T>(k, Leaf<T>{k, MLife(k), });
    else {
        std::optional<future<T>> inner;
        if (pre<T>[k - 1].f) {
            inner = std::move(*pre<T>[k - 1].f);
            pre<T>[k - 1].f.reset();
        }
        packaged_task<int> owned;
        if (lv[k - 1].mode == M_OWNED) {
            sim::fault(sim::F_DROPTASK);
            owned = std::move(tasks[k - 1]);
        }
        r = create_with<T>(k, Body<T>{k, MLife(k), std::move(owned), std::move(inner)});
    }
    if constexpr (!std::is_same_v<T, MVal>)
        if (n.kept) kept<T>[k] = r;
    return r;
}
void complete(int k) {
    Level& n = lv[k];
    {
        sim::quiet q;
        n.c_b = sim::ev("complete", k, n.mode) + 1;
        if (n.kind == K_PACKAGE) n.begun = n.c_b;
        n.completed = true;
    }
    auto& t = tasks[k];
    switch (n.mode) {
        case M_SETEXC: t.set_exception(std::make_exception_ptr(Err{1000 + k})); break;
        case M_DROP: {
            sim::fault(sim::F_DROPTASK);
            packaged_task<int> x(std::move(t));
            break;
        }
        default: t(5); break;
    }
    sim::quiet q;
    n.c_e = sim::ev("completed", k) + 1;
    if (n.kind == K_PACKAGE) n.ended = n.c_e;
}
bool client_completes(const Level& n) { return n.kind == K_PACKAGE || n.kind == K_THEN || n.kind == K_RECOVER; }

void model(bool holdouts_done) {
    for (size_t k = 0; k < lv.size(); ++k) {
        Level& n = lv[k];
        auto set = [&](int o, int c) { n.out = o; n.code = c; };
        if (n.kind == K_READY) { set(1, 0); continue; }
        if (n.kind == K_EXC) { set(-1, 1000 + (int)k); continue; }
        if (client_completes(n) && n.mode == M_HOLDOUT && !holdouts_done) { set(0, 0); continue; }
        if (n.mode == M_THROW) { set(-1, 1000 + (int)k); continue; }
        if (n.kind == K_PACKAGE || n.kind == K_THEN) {
            if (n.mode == M_SETEXC) { set(-1, 1000 + (int)k); continue; }
            if (n.mode == M_DROP || n.mode == M_OWNED) { set(-1, BROKEN); continue; }
        }
        if (k == 0) set(1, 0);
        else set(lv[k - 1].out, lv[k - 1].code);
    }
}

template <class T>
int outcome(future<T>& f) {
    if (auto e = f.exception()) {
        int c = err_code(e);
        return c > 0 ? -c - 10 : c;
    }
    if constexpr (std::is_void_v<T>) return out_value();
    else return std::move(f).get_ready().get();
}
template <class T>
int seen(future<T>&& f) {
    return outcome(f);
}
int expected(const Level& n) { return n.out == 1 ? out_value() : n.code > 0 ? -n.code - 10 : n.code; }

template <class T>
future<void> attach(future<T>& f, int i, bool rvalue) {
    Tail& t = tails[i];
    t.attached = true;
    auto note = [i](int v) {
        sim::quiet q;
        if (tails[i].runs++) sim::fail("ran-twice", "continuation %d ran twice", i);
        tails[i].seen = v;
    };
    TagExec e{t.ex};
    auto rec = [note, l = Life(100 + i)](future<T>&& x) {
        l.use();
        if (!x.is_ready()) sim::fail("recover-not-ready", "a recovery handler was given a future that is not ready");
        note(seen(std::move(x)));
    };
    if constexpr (std::is_void_v<T>) {
        auto th = [note, l = Life(100 + i)]() { l.use(); note(out_value()); };
        if (!rvalue) return t.rec ? f.recover(e, rec) : f.then(e, th);
        return t.rec ? std::move(f).recover(e, rec) : std::move(f).then(e, th);
    } else {
        auto th = [note, l = Life(100 + i)](T v) { l.use(); note(v.get()); };
        if constexpr (std::is_same_v<T, Val>)
            if (!rvalue) return t.rec ? f.recover(e, rec) : f.then(e, th);
        return t.rec ? std::move(f).recover(e, rec) : std::move(f).then(e, th);
    }
}

template <class T>
void run() {
    static Env the_env;
    static std::vector<std::vector<int>> plan; // >=0 complete level, -1 jitter, -2-i attach tail i, -10 drop everything held
    static future<T> f;
    static std::vector<future<void>> tf;
    static bool dropf, drop_all;
    int L, K;
    constexpr bool mo = std::is_same_v<T, MVal>;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL);
        static const int exs[] = {EX_IMM, EX_POOL, EX_WORKER, EX_SPAWN, EX_HIGH, EX_SERIAL, EX_DELAY};
        L = 2 + sim::W(3);
        K = 1 + sim::W(3);
        int fail_rate = sim::W(3);
        bool hold = sim::W(3) == 1;
        plan.resize(K);
        for (int k = 0; k < L; ++k) {
            Level n{};
            int x = sim::W(k == 0 ? 10 : 8);
            n.kind = x < 3 ? K_PACKAGE : x < 5 ? K_ASYNC : x < 7 ? K_THEN : x == 7 ? K_RECOVER : x == 8 ? K_READY : K_EXC;
            if (n.kind == K_EXC && !fail_rate) n.kind = K_READY;
            n.ex = exs[sim::W(7)];
            n.slow = sim::W(3) == 1;
            bool fails = fail_rate == 1 ? sim::W(5) == 1 : fail_rate == 2 ? sim::W(2) : 0;
            if (fails) n.mode = n.kind == K_ASYNC || n.kind == K_RECOVER ? M_THROW : M_THROW + sim::W(3);
            if (hold && client_completes(n) && sim::W(2)) n.mode = M_HOLDOUT;
            if (n.mode == M_OK && client_completes(n) && k < L - 1 && sim::W(5) == 1) n.mode = M_OWNED;
            n.kept = !mo && n.mode != M_OWNED && sim::W(6) == 1;
            lv.push_back(n);
            if (client_completes(n) && n.mode < M_HOLDOUT) {
                auto& p = plan[sim::W(K)];
                p.insert(p.begin() + sim::W((int)p.size() + 1), k);
            }
        }
        int nt = sim::W(mo ? 2 : 4);
        auto& p = plan[0];
        for (int i = 0; i < nt; ++i) {
            Tail t{};
            t.rec = sim::W(2);
            t.ex = exs[sim::W(7)];
            tails.push_back(t);
            p.insert(p.begin() + sim::W((int)p.size() + 1), -2 - i);
        }
        dropf = sim::W(3) == 1;
        if (dropf) p.insert(p.begin() + sim::W((int)p.size() + 1), -10);
        for (auto& pl : plan) {
            int j = sim::W(3);
            while (j--) pl.insert(pl.begin() + sim::W((int)pl.size() + 1), -1);
        }
        unsigned mask = 0;
        for (auto& n : lv)
            mask |= 1u << n.ex;
        for (auto& t : tails)
            mask |= 1u << t.ex;
        env->prepare(mask);
        tasks.resize(L);
        pre<T>.resize(L);
        kept<T>.resize(L);
        tf.resize(nt);
    }
    // packages and chains exist up front, so that clients may complete them at any moment
    for (int k = 0; k < L - 1; ++k)
        if (client_completes(lv[k])) pre<T>[k].f = create<T>(k);
    f = create<T>(L - 1);
    {
        Clients cl;
        for (int c = 0; c < K; ++c)
            cl.go([c] {
                for (int w : plan[c]) {
                    if (w >= 0) complete(w);
                    else if (w == -1) jitter();
                    else if (w == -10) {
                        sim::fault(sim::F_CANCEL);
                        {
                            sim::quiet q;
                            drop_b = sim::ev("drop") + 1;
                        }
                        f = future<T>{};
                        for (size_t i = 0; i < tf.size(); ++i) {
                            if (tails[i].attached) tails[i].dropped = true;
                            tf[i] = future<void>{};
                        }
                        sim::quiet q;
                        drop_e = sim::ev("dropped") + 1;
                    } else {
                        int i = -2 - w;
                        if (!f.valid()) continue;
                        sim::ev("attach", i);
                        tf[i] = attach(f, i, mo);
                    }
                }
            });
        cl.join();
    }
    sim::quiesce();
    {
        sim::quiet q;
        model(false);
    }
    Level& top = lv[L - 1];
    auto check_tails = [&](const char* when) {
        for (size_t i = 0; i < tails.size(); ++i) {
            Tail& t = tails[i];
            if (!t.attached || t.dropped) continue;
            if (tf[i].is_ready() != (top.out != 0)) sim::fail(top.out ? "unresolved" : "too-early", "continuation %zu is %sready %s", i, top.out ? "not " : "", when);
            int want = top.out == 0 ? 0 : t.rec || top.out == 1;
            sim::quiet q;
            if (t.runs != want) sim::fail(t.runs ? "extra-run" : "lost-continuation", "continuation %zu ran %d times, expected %d", i, t.runs, want);
            if (t.runs && t.seen != expected(top)) sim::fail("wrong-input", "continuation %zu saw %d, expected %d", i, t.seen, expected(top));
            if (top.out == -1 && !t.rec) {
                int c = err_code(tf[i].exception());
                if (c != top.code) sim::fail("wrong-outcome", "continuation %zu failed with %d, expected %d", i, c, top.code);
            }
        }
        if (f.valid() && f.is_ready() != (top.out != 0))
            sim::fail(top.out ? "unresolved" : "too-early", "the outer future is %sready %s, expected outcome %d", top.out ? "not " : "", when, top.out);
        for (int k = 0; k < L; ++k)
            if (kept<T>[k].valid() && top.out != 0 && lv[k].out != 0 && !drop_e && !kept<T>[k].is_ready())
                sim::fail("unresolved", "a kept copy of level %d is not ready", k);
    };
    check_tails("at the first quiescence");
    bool any_kept = false;
    for (int k = 0; k < L; ++k)
        any_kept |= kept<T>[k].valid();
    bool consumed = mo && !f.valid() && !tails.empty() && tails[0].attached && !tails[0].dropped;
    bool all_dropped = drop_e && !f.valid() && !consumed;
    for (auto& t : tails)
        if (t.attached && !t.dropped) all_dropped = false;
    if (all_dropped && !any_kept) {
        for (auto& x : pre<T>) // inner futures whose outer task will never run
            x.f.reset();
        sim::quiesce();
        for (int k = 0; k < L; ++k) {
            if (client_completes(lv[k]) && lv[k].created && !pre<T>[k].f && !tasks[k].canceled())
                sim::fail("not-cancelled", "level %d is still wanted although the outer future was dropped", k);
            check_life(k, 0, "after the outer future was dropped");
        }
        sim::quiet q;
        for (int k = 0; k < L; ++k) {
            Level& n = lv[k];
            if (!n.runs || n.begun <= drop_e) continue;
            // a task which was running when the drop happened still holds what it is about to return
            bool excused = false;
            for (int j = k + 1; j < L; ++j)
                excused |= (lv[j].x_b && lv[j].x_b < drop_e && (!lv[j].ended || lv[j].ended > drop_b)) || !lv[j].created ||
                           (lv[j].c_b && lv[j].c_b < drop_e && (!lv[j].c_e || lv[j].c_e > drop_b));
            if (!excused) sim::fail("cancelled-ran", "the task of level %d started although everything that needed it had been dropped", k);
        }
    }
    bool holdback = false;
    for (auto& n : lv)
        holdback |= client_completes(n) && n.mode == M_HOLDOUT;
    if (holdback) {
        for (int k = 0; k < L; ++k)
            if (client_completes(lv[k]) && lv[k].mode == M_HOLDOUT) {
                complete(k);
                if (sim::W(2)) sim::quiesce();
            }
        sim::quiesce();
        {
            sim::quiet q;
            model(true);
        }
        check_tails("at the second quiescence");
    }
    for (int k = 0; k < L; ++k)
        if (!all_dropped && kept<T>[k].valid() && lv[k].out != 0) {
            if (!kept<T>[k].is_ready()) {
                if (drop_e) continue;
                sim::fail("unresolved", "a kept copy of level %d is not ready", k);
            }
            if (drop_e) continue;
            int o = outcome(kept<T>[k]);
            if (o != expected(lv[k])) sim::fail("wrong-outcome", "a kept copy of level %d ended with %d, expected %d", k, o, expected(lv[k]));
        }
    if (f.valid()) {
        if (!f.is_ready()) sim::fail("unresolved", "the outer future never became ready");
        int o = outcome(f);
        if (o != expected(top)) sim::fail("wrong-outcome", "the outer future ended with %d, expected %d", o, expected(top));
    }
    f = future<T>{};
    tf.clear();
    kept<T>.clear();
    pre<T>.clear();
    tasks.clear();
    shutdown_env();
    for (int k = 0; k < L; ++k)
        check_life(k, 0, "at the end");
    for (size_t i = 0; i < tails.size(); ++i)
        check_life(100 + (int)i, 0, "at the end (continuation)");
    check_payloads_released("at the end");
}
} // namespace

extern "C" void sim_scenario() {
    int t;
    {
        sim::quiet q;
        t = sim::W(3);
    }
    if (t == 0) run<Val>();
    else if (t == 1) run<MVal>();
    else run<void>();
}
