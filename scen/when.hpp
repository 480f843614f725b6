// when_all / when_any: random input sets (list and range forms, value/move-only/void types), produced
// by packages, executors, chains and relays (a task which owns the package of another input).
#pragma once
#include "common.hpp"
#include <algorithm>

namespace sc {
using stlab::future;
using stlab::packaged_task;

enum { P_PACKAGE, P_ASYNC, P_READY, P_EXC, P_CHAIN, P_RELAY };
enum { M_OK, M_THROW, M_SETEXC, M_DROP, M_HOLDOUT };
struct In {
    int type; // 0 Val 1 MVal 2 void
    int how, mode, ex, carrier = -1, completer = 0, carries = -1;
    bool kept; // another copy of the future is kept
    bool slow;
    bool succeeded = false, raised = false; // facts
    int raised_code = 0;
    int runs = 0;
    // model, phase 1
    int out = 0; // 1 success, -1 failure, 0 pending
    int code = 0;
};
inline std::vector<In> ins;
struct When {
    bool any, range, dropf, late_drop, throws, moved_exec, rec;
    int ex, n, listform;
    int calls = 0, tag = -1;
    std::vector<int> got; // values as seen by the function, in position order
    int winner = -1;
    bool dropped = false;
    bool exec_drops = false;  // the executor may lose tasks
    int ndropped = 0;
} inline wh;

struct WhenExec {
    int kind;
    void operator()(task_t f) const {
        if (wh.exec_drops && sim::user_choice(4) == 1) {
            sim::fault(sim::F_DROPTASK);
            sim::ev("drop-task", kind);
            {
                sim::quiet q;
                wh.ndropped++;
            }
            return;
        }
        TagExec{kind}(std::move(f));
    }
};

inline int in_value(int i) { return 100 + i * 7; }

template <class T>
T mk_val(int i) {
    if constexpr (!std::is_void_v<T>) return T(in_value(i));
}
template <class T>
struct Slot {
    packaged_task<int> task;
    future<T> fut, copy;
};
// tasks are kept untyped by input type: packaged_task<int> does not depend on the result
inline std::vector<packaged_task<int>> tasks;

inline void complete_in(int i);
struct Carry { // owns the package of the carried input; it is resolved by whoever runs the carrier
    packaged_task<int> t;
    int i = -1;
    Carry() = default;
    Carry(Carry&&) = default;
    Carry(packaged_task<int>&& x, int n) : t(std::move(x)), i(n) {}
};
inline void note_ok(int i) {
    sim::quiet q;
    ins[i].succeeded = true;
    sim::ev("ok", i);
}
inline void note_fail(int i, int code) {
    sim::quiet q;
    ins[i].raised = true;
    ins[i].raised_code = code;
    sim::ev("fail", i, code);
}
template <class T>
T in_body(int i, const Life& l, Carry& c) {
    {
        sim::quiet q;
        if (ins[i].runs++) sim::fail("ran-twice", "input %d ran twice", i);
    }
    l.use();
    if (ins[i].slow) jitter();
    if (c.i >= 0) {
        In& b = ins[c.i];
        if (b.mode == M_SETEXC) {
            note_fail(c.i, 1000 + c.i);
            c.t.set_exception(std::make_exception_ptr(Err{1000 + c.i}));
        } else if (b.mode == M_DROP) {
            note_fail(c.i, BROKEN);
            packaged_task<int> tmp(std::move(c.t));
        } else
            c.t(5);
    }
    if (ins[i].mode == M_THROW) {
        sim::fault(sim::F_THROW);
        note_fail(i, 1000 + i);
        throw Err{1000 + i};
    }
    note_ok(i);
    return mk_val<T>(i);
}

template <class T>
future<T> make_in(int i, packaged_task<int>& task, Carry c) {
    In& n = ins[i];
    TagExec e{n.ex};
    switch (n.how) {
        case P_PACKAGE:
        case P_RELAY: {
            auto p = stlab::package<T(int)>(
                e, [i, l = MLife(i), c = std::move(c)](int) mutable -> T { return in_body<T>(i, l, c); });
            task = std::move(p.first);
            return std::move(p.second);
        }
        case P_CHAIN: {
            auto p = stlab::package<MVal(int)>(e, [l = MLife(i)](int x) -> MVal { return MVal(x); });
            task = std::move(p.first);
            return std::move(p.second).then(e, [i, l = MLife(i), c = std::move(c)](MVal v) mutable -> T {
                if (v.get() != 5) sim::fail("wrong-input", "chain of input %d received %d", i, v.get());
                return in_body<T>(i, l, c);
            });
        }
        case P_ASYNC:
            return stlab::async(e, [i, l = MLife(i), c = std::move(c)]() mutable -> T { return in_body<T>(i, l, c); });
        case P_READY:
            note_ok(i);
            if constexpr (std::is_void_v<T>) return stlab::make_ready_future(stlab::executor_t(e));
            else return stlab::make_ready_future(mk_val<T>(i), stlab::executor_t(e));
        default:
            note_fail(i, 1000 + i);
            return stlab::make_exceptional_future<T>(std::make_exception_ptr(Err{1000 + i}), stlab::executor_t(e));
    }
}

inline void complete_in(int i) {
    In& n = ins[i];
    packaged_task<int>& t = tasks[i];
    sim::ev("complete", i, n.mode);
    switch (n.mode) {
        case M_SETEXC:
            note_fail(i, 1000 + i);
            t.set_exception(std::make_exception_ptr(Err{1000 + i}));
            break;
        case M_DROP: {
            note_fail(i, BROKEN);
            sim::fault(sim::F_DROPTASK);
            packaged_task<int> x(std::move(t));
            break;
        }
        default: t(5); break;
    }
}

// ---- the function given to when_all / when_any
inline Val when_fn_result() {
    {
        sim::quiet q;
        wh.tag = cur_tag;
        if (wh.calls++) sim::fail("called-twice", "the function of a when_%s was called %d times", wh.any ? "any" : "all", wh.calls);
        sim::ev("when-fn", wh.winner);
    }
    if (wh.throws) {
        sim::fault(sim::F_THROW);
        throw Err{900};
    }
    return Val(4242);
}
inline void got(int v) {
    sim::quiet q;
    wh.got.push_back(v);
}
inline int val_of(const Val& v) { return v.get(); }
inline int val_of(const MVal& v) { return v.get(); }

struct AllFn {
    Life l{500};
    template <class... A>
    Val operator()(A&&... a) const {
        l.use();
        (got(val_of(a)), ...);
        return when_fn_result();
    }
};
template <class T>
struct AllRangeFn {
    Life l{500};
    Val operator()(const std::vector<T>& v) const {
        l.use();
        for (auto& x : v)
            got(val_of(x));
        return when_fn_result();
    }
};
struct AllRangeVoidFn {
    Life l{500};
    Val operator()() const {
        l.use();
        return when_fn_result();
    }
};
template <class T>
struct AnyFn {
    Life l{500};
    Val operator()(T v, size_t i) const {
        l.use();
        {
            sim::quiet q;
            wh.winner = (int)i;
        }
        got(v.get());
        return when_fn_result();
    }
};
struct AnyVoidFn {
    Life l{500};
    Val operator()(size_t i) const {
        l.use();
        {
            sim::quiet q;
            wh.winner = (int)i;
        }
        return when_fn_result();
    }
};

// list forms: types per position
inline const std::vector<std::vector<int>> all_lists = {{0}, {0, 0}, {2, 2}, {0, 1, 2}, {2, 0, 2, 1}, {1, 0}, {1, 1, 1}, {2}, {0, 2, 0, 0}};
inline const std::vector<std::vector<int>> any_lists = {{0}, {0, 0}, {0, 0, 0, 0}, {1, 1, 1}, {2}, {2, 2}, {2, 2, 2, 2}, {1, 1}};

struct Inputs {
    std::vector<future<Val>> v;
    std::vector<future<MVal>> m;
    std::vector<future<void>> u;
    template <class T>
    future<T> take(int i) {
        if constexpr (std::is_same_v<T, Val>) return std::move(v[i]);
        else if constexpr (std::is_same_v<T, MVal>) return std::move(m[i]);
        else return std::move(u[i]);
    }
};

template <class E>
future<Val> build_when_e(Inputs& x, const E& e) {
    auto V = [&](int i) { return x.take<Val>(i); };
    auto M = [&](int i) { return x.take<MVal>(i); };
    auto U = [&](int i) { return x.take<void>(i); };
    using stlab::when_all;
    using stlab::when_any;
    if (!wh.any) {
        if (wh.range) {
            switch (wh.listform) {
                case 0: return when_all(e, AllRangeFn<Val>{}, std::make_pair(x.v.begin(), x.v.end()));
                case 1: return when_all(e, AllRangeFn<MVal>{}, std::make_pair(x.m.begin(), x.m.end()));
                default: return when_all(e, AllRangeVoidFn{}, std::make_pair(x.u.begin(), x.u.end()));
            }
        }
        switch (wh.listform) {
            case 0: return when_all(e, AllFn{}, V(0));
            case 1: return when_all(e, AllFn{}, V(0), V(1));
            case 2: return when_all(e, AllFn{}, U(0), U(1));
            case 3: return when_all(e, AllFn{}, V(0), M(1), U(2));
            case 4: return when_all(e, AllFn{}, U(0), V(1), U(2), M(3));
            case 5: return when_all(e, AllFn{}, M(0), V(1));
            case 6: return when_all(e, AllFn{}, M(0), M(1), M(2));
            case 7: return when_all(e, AllFn{}, U(0));
            default: return when_all(e, AllFn{}, V(0), U(1), V(2), V(3));
        }
    }
    if (wh.range) {
        switch (wh.listform) {
            case 0: return when_any(e, AnyFn<Val>{}, std::make_pair(x.v.begin(), x.v.end()));
            case 1: return when_any(e, AnyFn<MVal>{}, std::make_pair(x.m.begin(), x.m.end()));
            default: return when_any(e, AnyVoidFn{}, std::make_pair(x.u.begin(), x.u.end()));
        }
    }
    auto go = [&](auto&& ex) -> future<Val> {
        using X = decltype(ex);
        switch (wh.listform) {
            case 0: return when_any(std::forward<X>(ex), AnyFn<Val>{}, V(0));
            case 1: return when_any(std::forward<X>(ex), AnyFn<Val>{}, V(0), V(1));
            case 2: return when_any(std::forward<X>(ex), AnyFn<Val>{}, V(0), V(1), V(2), V(3));
            case 3: return when_any(std::forward<X>(ex), AnyFn<MVal>{}, M(0), M(1), M(2));
            case 4: return when_any(std::forward<X>(ex), AnyVoidFn{}, U(0));
            case 5: return when_any(std::forward<X>(ex), AnyVoidFn{}, U(0), U(1));
            case 6: return when_any(std::forward<X>(ex), AnyVoidFn{}, U(0), U(1), U(2), U(3));
            default: return when_any(std::forward<X>(ex), AnyFn<MVal>{}, M(0), M(1));
        }
    };
    if (wh.moved_exec) return go(stlab::executor_t(e));
    return go(e);
}
inline future<Val> build_when(Inputs& x, WhenExec e) { return build_when_e(x, e); }

inline void phase_model(bool holdouts_done) {
    for (int pass = 0; pass < (int)ins.size() + 1; ++pass)
        for (size_t i = 0; i < ins.size(); ++i) {
            In& n = ins[i];
            auto set = [&](int o, int c) { n.out = o; n.code = c; };
            if (n.how == P_READY) { set(1, 0); continue; }
            if (n.how == P_EXC) { set(-1, 1000 + i); continue; }
            if (n.how == P_RELAY) {
                In& a = ins[n.carrier];
                if (a.out == 0) { set(0, 0); continue; }
                // the carrier's task ran (even if it then threw), or was destroyed unrun
                bool ran = a.out == 1 || (a.mode == M_THROW && a.how != P_EXC);
                if (!ran) { set(-1, BROKEN); continue; }
            } else if (n.how != P_ASYNC && n.mode == M_HOLDOUT && !holdouts_done) {
                set(0, 0);
                continue;
            }
            switch (n.mode) {
                case M_THROW: set(-1, 1000 + i); break;
                case M_SETEXC: set(-1, 1000 + i); break;
                case M_DROP: set(-1, BROKEN); break;
                default: set(1, 0); break;
            }
        }
}

// what the combined future must show now: 1 function called, -1 failed, 0 pending
inline int when_expect() {
    int ok = 0, bad = 0, pend = 0;
    for (auto& n : ins)
        (n.out == 1 ? ok : n.out == -1 ? bad : pend)++;
    if (wh.any) {
        if (ok) return 1;
        return pend ? 0 : -1;
    }
    if (bad) return -1;
    return pend ? 0 : 1;
}

inline void check_when(future<Val>& f, const char* when) {
    int want = when_expect();
    if (!f.valid()) { // dropped by its client
        sim::quiet q;
        if (want == -1 && wh.calls) sim::fail("called-on-failure", "the function was called although %s", wh.any ? "every input failed" : "an input failed");
        return;
    }
    if (wh.ndropped) { // it fails, unless it was decided without the lost tasks
        bool pend = false;
        for (auto& n : ins)
            pend |= n.out == 0;
        if (!f.is_ready()) {
            if (pend && (wh.any || wh.ndropped == 0)) return;
            sim::fail("unresolved", "the combined future is not ready %s although its executor abandoned %d tasks", when, wh.ndropped);
        }
        if (auto e = f.exception()) {
            int code = err_code(e);
            sim::quiet q;
            bool found = code == BROKEN || (code == 900 && wh.throws && want == 1);
            for (auto& n : ins)
                found |= n.out == -1 && n.code == code;
            if (!found) sim::fail("wrong-exception", "the combined future failed with %d", code);
            if (wh.calls && code != 900) sim::fail("called-on-failure", "the function was called although the combined future failed");
            return;
        }
        if (want != 1) sim::fail("wrong-outcome", "the combined future holds a value although no success was possible");
    }
    if (f.is_ready() != (want != 0))
        sim::fail(want ? "unresolved" : "too-early", "the combined future is %sready %s although it should %sbe", want ? "not " : "", when, want ? "" : "not ");
    {
        sim::quiet q;
        if (wh.calls != (want == 1))
            sim::fail(wh.calls ? "called-on-failure" : "not-called", "the function was called %d times %s, expected %d", wh.calls, when, want == 1);
        if (want == 1) {
            if (wh.tag != wh.ex) sim::fail("wrong-executor", "the function ran on executor %d instead of %d", wh.tag, wh.ex);
            if (wh.any) {
                int w = wh.winner;
                if (w < 0 || w >= (int)ins.size()) sim::fail("bad-index", "when_any reported position %d of %zu", w, ins.size());
                if (!ins[w].succeeded) sim::fail("bad-winner", "when_any chose input %d which did not succeed", w);
                if (ins[w].type != 2 && (wh.got.size() != 1 || wh.got[0] != in_value(w)))
                    sim::fail("wrong-value", "when_any delivered %d for input %d", wh.got.empty() ? -1 : wh.got[0], w);
            } else {
                size_t k = 0;
                for (size_t i = 0; i < ins.size(); ++i)
                    if (ins[i].type != 2) {
                        if (k >= wh.got.size() || wh.got[k] != in_value((int)i))
                            sim::fail("wrong-value", "when_all delivered %d in the position of input %zu (expected %d)",
                                      k < wh.got.size() ? wh.got[k] : -1, i, in_value((int)i));
                        ++k;
                    }
                if (k != wh.got.size()) sim::fail("wrong-value", "when_all delivered %zu values instead of %zu", wh.got.size(), k);
            }
        }
    }
    if (!want) return;
    int code = 0, v = 0;
    if (auto e = f.exception()) code = err_code(e);
    else v = f.get_try()->get();
    sim::quiet q;
    if (want == 1) {
        if (wh.throws ? code != 900 : v != 4242) sim::fail("wrong-outcome", "the combined future holds code %d value %d", code, v);
    } else {
        bool found = ins.empty() && code == BROKEN;
        for (auto& n : ins)
            found |= n.out == -1 && n.code == code;
        if (!found) sim::fail("wrong-exception", "the combined future failed with %d, which no input raised", code);
    }
}

inline void run_when(bool any, unsigned faults) {
    static Env the_env;
    static std::vector<std::vector<int>> plan; // >=0 complete input, -1 jitter, -2 build, -3 attach to the combined, -4 drop it
    static Inputs x, copies;
    static future<Val> comb, comb2;
    static std::optional<future<void>> tail;
    static int tail_runs = 0, tail_code = 0;
    int K;
    {
        sim::quiet q;
        env = &the_env;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(faults);
        wh.any = any;
        wh.range = sim::W(2);
        static const int exs[] = {EX_IMM, EX_POOL, EX_WORKER, EX_SPAWN, EX_HIGH, EX_SERIAL, EX_DELAY};
        wh.ex = exs[sim::W(7)];
        wh.throws = sim::W(6) == 1;
        wh.moved_exec = sim::W(4) == 1;
        wh.exec_drops = sim::W(5) == 1;
        int fail_rate = sim::W(3); // 0 none, 1 some, 2 many
        std::vector<int> types;
        if (wh.range) {
            wh.listform = sim::W(3);
            int n = sim::W(6);
            types.assign(n, wh.listform);
        } else {
            auto& L = any ? any_lists : all_lists;
            wh.listform = sim::W((int)L.size());
            types = L[wh.listform];
        }
        K = 1 + sim::W(3);
        int n = (int)types.size();
        bool holdouts = sim::W(3) == 1;
        for (int i = 0; i < n; ++i) {
            In a{};
            a.type = types[i];
            int h = sim::W(12);
            a.how = h < 5 ? P_PACKAGE : h < 8 ? P_ASYNC : h == 8 ? P_READY : h == 9 ? P_CHAIN : P_RELAY;
            if (fail_rate && h == 8 && sim::W(2)) a.how = P_EXC;
            bool fails = fail_rate == 1 ? sim::W(4) == 1 : fail_rate == 2 ? sim::W(4) != 0 : false;
            a.mode = !fails ? M_OK : a.how == P_ASYNC ? M_THROW : M_THROW + sim::W(3);
            if (a.how == P_CHAIN && a.mode != M_OK) a.mode = M_THROW; // keeps "raised" exact
            if (holdouts && (a.how == P_PACKAGE || a.how == P_CHAIN) && sim::W(2)) a.mode = M_HOLDOUT;
            a.ex = exs[sim::W(7)];
            if (a.how == P_PACKAGE) a.ex = EX_IMM;
            a.kept = a.type == 0 && sim::W(5) == 1;
            a.slow = sim::W(3) == 1;
            a.completer = sim::W(K);
            ins.push_back(a);
        }
        for (int i = 0; i < n; ++i)
            if (ins[i].how == P_RELAY) { // carried by another input's task
                std::vector<int> c;
                for (int j = 0; j < n; ++j)
                    if (ins[j].carries < 0 && (ins[j].how == P_PACKAGE || ins[j].how == P_ASYNC || ins[j].how == P_CHAIN)) c.push_back(j);
                if (c.empty()) {
                    ins[i].how = P_PACKAGE;
                    if (ins[i].mode == M_HOLDOUT) ins[i].mode = M_OK;
                    continue;
                }
                int j = c[sim::W((int)c.size())];
                ins[i].carrier = j;
                ins[j].carries = i;
            }
        plan.resize(K);
        for (int i = 0; i < n; ++i) {
            In& a = ins[i];
            if ((a.how == P_PACKAGE || a.how == P_CHAIN) && a.mode != M_HOLDOUT) {
                auto& p = plan[a.completer];
                p.insert(p.begin() + sim::W((int)p.size() + 1), i);
            }
        }
        auto& p = plan[0];
        size_t at = sim::W((int)p.size() + 1);
        p.insert(p.begin() + at, -2);
        if (sim::W(2)) p.insert(p.begin() + at + 1 + sim::W((int)(p.size() - at)), -3);
        wh.dropf = sim::W(4) == 1;
        if (wh.dropf) p.insert(p.begin() + at + 1 + sim::W((int)(p.size() - at)), -4);
        for (auto& pl : plan) {
            int j = sim::W(3);
            while (j--) pl.insert(pl.begin() + sim::W((int)pl.size() + 1), -1);
        }
        unsigned mask = 1u << wh.ex;
        for (auto& a : ins)
            mask |= 1u << a.ex;
        env->prepare(mask);
        tasks.resize(n);
        x.v.resize(n);
        x.m.resize(n);
        x.u.resize(n);
        copies.v.resize(n);
        if (wh.range) { // only the vector of the right type is used, with exactly n elements
            if (wh.listform != 0) x.v.clear();
            if (wh.listform != 1) x.m.clear();
            if (wh.listform != 2) x.u.clear();
        }
    }
    int n = (int)ins.size();
    auto make = [&](int i, Carry c) {
        switch (ins[i].type) {
            case 0: x.v[i] = make_in<Val>(i, tasks[i], std::move(c)); break;
            case 1: x.m[i] = make_in<MVal>(i, tasks[i], std::move(c)); break;
            default: x.u[i] = make_in<void>(i, tasks[i], std::move(c)); break;
        }
        if (ins[i].kept) copies.v[i] = x.v[i];
    };
    for (int i = 0; i < n; ++i)
        if (ins[i].how == P_RELAY) make(i, Carry{});
    for (int i = 0; i < n; ++i)
        if (ins[i].how != P_RELAY) {
            int c = ins[i].carries;
            if (c >= 0) make(i, Carry(std::move(tasks[c]), c));
            else make(i, Carry{});
        }
    {
        Clients cl;
        for (int k = 0; k < K; ++k)
            cl.go([k] {
                for (int w : plan[k]) {
                    if (w >= 0) complete_in(w);
                    else if (w == -1) jitter();
                    else if (w == -2) {
                        sim::ev("build");
                        comb = build_when(x, WhenExec{wh.ex});
                        x.v.clear();
                        x.m.clear();
                        x.u.clear();
                    } else if (w == -3) {
                        if (comb.valid())
                            tail = comb.recover(TagExec{wh.ex == EX_POOL ? EX_IMM : EX_POOL}, [l = Life(501)](future<Val> f) {
                                l.use();
                                int c = f.exception() ? err_code(f.exception()) : f.get_try()->get();
                                sim::quiet q;
                                if (tail_runs++) sim::fail("ran-twice", "the continuation of the combined future ran twice");
                                tail_code = c;
                            });
                    } else {
                        sim::fault(sim::F_CANCEL);
                        sim::ev("drop-combined");
                        comb = future<Val>{};
                        wh.dropped = true;
                    }
                }
            });
        cl.join();
    }
    if (!comb.valid() && !wh.dropped) sim::fail("invalid-future", "when returned an invalid future");
    sim::quiesce();
    auto released = [&](const char* when) { // nothing needs the inputs any more
        for (int i = 0; i < n; ++i) {
            In& a = ins[i];
            bool kept = a.kept || (a.carries >= 0 && false);
            if (kept) continue;
            if ((a.how == P_PACKAGE || a.how == P_CHAIN) && !tasks[i].canceled())
                sim::fail("input-not-released", "input %d is still wanted %s", i, when);
            bool carrier_kept = a.carrier >= 0 && ins[a.carrier].kept;
            if (!carrier_kept) check_life(i, 0, when);
        }
    };
    bool holdback = false;
    for (auto& a : ins)
        holdback |= a.mode == M_HOLDOUT;
    {
        sim::quiet q;
        phase_model(false);
    }
    bool tail_alive = tail.has_value();
    if (!wh.dropped) check_when(comb, "at the first quiescence");
    else if (tail_alive) {
        // the continuation still depends on it
    }
    bool settled = when_expect() != 0 && (!wh.dropped || tail_alive);
    if (wh.ndropped) settled = comb.is_ready();
    if (settled || (wh.dropped && !tail_alive)) released(settled ? "after the combined future resolved" : "after the combined future was dropped");
    if (holdback) {
        for (int i = 0; i < n; ++i)
            if (ins[i].mode == M_HOLDOUT) complete_in(i);
        sim::quiesce();
        bool was = settled;
        {
            sim::quiet q;
            if (!was) phase_model(true);
        }
        if (!wh.dropped) check_when(comb, "at the second quiescence");
        if (wh.dropped ? !tail_alive : true) released("at the end");
    }
    if (tail_alive) {
        if (!tail->is_ready()) sim::fail("unresolved", "the continuation of the combined future never became ready");
        sim::quiet q;
        int want = when_expect();
        if (tail_runs != 1) sim::fail("lost-continuation", "the continuation of the combined future ran %d times", tail_runs);
        if (!wh.ndropped) {
        if (want == 1 && tail_code != (wh.throws ? 900 : 4242)) sim::fail("wrong-outcome", "the continuation saw %d", tail_code);
        if (want == -1 && tail_code == 4242) sim::fail("wrong-outcome", "the continuation saw a value although the combined future fails");
        if (wh.calls != (want == 1)) sim::fail(wh.calls ? "called-on-failure" : "not-called", "the function was called %d times, expected %d", wh.calls, want == 1);
        }
    }
    for (int i = 0; i < n; ++i)
        if (ins[i].kept) { // unaffected by the combined future
            auto& f = copies.v[i];
            bool carrier_lost = ins[i].carrier >= 0 && !ins[ins[i].carrier].kept && !ins[ins[i].carrier].runs;
            if (!f.is_ready()) {
                if (ins[i].carrier >= 0) continue;
                sim::fail("unresolved", "a kept copy of input %d is not ready", i);
            }
            int v = 0, code = 0;
            if (auto e = f.exception()) code = err_code(e);
            else v = f.get_try()->get();
            if (carrier_lost) continue;
            sim::quiet q;
            if (ins[i].out == 1 && v != in_value(i)) sim::fail("wrong-outcome", "a kept copy of input %d holds value %d code %d", i, v, code);
            if (ins[i].out == -1 && code != ins[i].code) sim::fail("wrong-outcome", "a kept copy of input %d holds code %d, expected %d", i, code, ins[i].code);
        }
    comb = future<Val>{};
    tail.reset();
    copies.v.clear();
    tasks.clear();
    shutdown_env();
    for (int i = 0; i < n; ++i)
        check_life(i, 0, "at the end");
    check_life(500, 0, "at the end (function)");
    check_life(501, 0, "at the end (continuation)");
    check_payloads_released("at the end");
}
} // namespace sc
