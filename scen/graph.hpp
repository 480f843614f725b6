// Random programs over futures: sources and continuations attached, completed, copied, polled by
// several client threads, checked against a sequential model of the outcome of every node.
#pragma once
#include "common.hpp"
#include <variant>

namespace sc {

using stlab::future;
using stlab::packaged_task;

struct GraphCfg {
    bool throws = false;    // user code throws
    bool drops = false;     // executors lose tasks
    bool abandons = false;  // producers abandon their package
    bool delays = true;     // delayed executor allowed
    int max_clients = 3;
    int max_nodes = 8;
};

enum NKind : int { S_ASYNC, S_ASYNC_ARGS, S_PACKAGE, S_READY, S_EXC, N_THEN, N_RECOVER, N_DETACH };
enum CMode : int { C_CALL, C_SETEXC, C_DROP, C_OVERWRITE, C_SWAP_DROP, C_CALL_TWICE };
constexpr int TV = 0, TM = 1, TVOID = 2;

struct GNode {
    int id, kind, type, parent, ex, owner;
    bool inherit, throws, rvalue, consumed, opform, constref, by_executor_t;
    int mode;       // completion mode of S_PACKAGE
    int completer;  // client
    // facts recorded during the run
    int runs = 0;
    int seen = -999; // outcome of the parent as seen by the body
    int tag = -1;
    uint64_t begun = 0;    // event at which the executor (or the completing call) began to run it
    uint64_t drop_end = 0; // C03: event after which nothing needs it
    bool dropped = false;
    bool attached = false;
    int polled = -999; // outcome seen by a poll
    // model
    int out = 0;
    int eff_ex = 0;
    bool done = false;
};

inline std::vector<GNode>* G_nodes = nullptr;

inline GNode& gn(int i) { return (*G_nodes)[i]; }

struct NodeExec { // TagExec which records drops per node
    int kind;
    int node;
    bool can_drop;
    void operator()(task_t f) const {
        if (can_drop && sim::user_choice(3) == 1) {
            sim::fault(sim::F_DROPTASK);
            sim::ev("drop-task", node);
            sim::quiet q;
            gn(node).dropped = true;
            return;
        }
        TagExec{kind}(std::move(f));
    }
};

using AnyFut = std::variant<std::monostate, future<Val>, future<MVal>, future<void>>;

inline int value_of(int in, int id) { return ((in % 10007 + 10007) % 10007) * 7 + id + 1; }

template <class R>
R make_ret(int v) {
    if constexpr (!std::is_void_v<R>) return R(v);
}
inline void node_run(int id, int seen) {
    sim::quiet q;
    GNode& n = gn(id);
    n.runs++;
    n.seen = seen;
    n.tag = cur_tag;
    if (n.kind != S_PACKAGE) n.begun = cur_begin;
    sim::ev("run", id, seen, cur_tag);
    if (n.runs > 1) sim::fail("ran-twice", "continuation %d ran %d times", id, n.runs);
}
template <class R>
R node_body(int id, int seen, const Life& l) {
    node_run(id, seen);
    l.use();
    if (gn(id).throws) {
        sim::fault(sim::F_THROW);
        throw Err{1000 + id};
    }
    return make_ret<R>(value_of(seen, id));
}

template <class T>
int final_outcome(future<T>& f, bool consume) {
    try {
        if constexpr (!std::is_same_v<T, MVal>) { // through a copy which may be consumed
            int form = sim::user_choice(4);
            if (form == 1 || (form == 2 && f.is_ready())) {
                auto c = f;
                if (form == 1) {
                    auto r = std::move(c).get_try();
                    if (!r) return -998;
                    if constexpr (std::is_void_v<T>) return 0;
                    else return r->get();
                } else if constexpr (std::is_void_v<T>) {
                    std::move(c).get_ready();
                    return 0;
                } else
                    return std::move(c).get_ready().get();
            }
        }
        if constexpr (std::is_void_v<T>) {
            auto r = f.get_try();
            if (!r) return -998;
            return 0;
        } else if constexpr (std::is_same_v<T, MVal>) {
            if (!consume) return -997;
            auto r = std::move(f).get_try();
            if (!r) return -998;
            return r->get();
        } else {
            auto r = f.get_try();
            if (!r) return -998;
            return r->get();
        }
    } catch (const Err& e) {
        return -e.code - 10;
    } catch (const stlab::future_error& e) {
        return e.code() == stlab::future_error_codes::broken_promise ? BROKEN : OTHER;
    } catch (...) {
        return OTHER;
    }
}
// outcomes: value >= 0; user error code c is -(c)-10; BROKEN = -1; OTHER = -2
inline int enc_err(const std::exception_ptr& p) {
    int c = err_code(p);
    return c > 0 ? -c - 10 : c;
}

template <class T>
int seen_of(future<T>&& f) { // in a recovery handler
    if (!f.is_ready()) sim::fail("recover-not-ready", "a recovery handler was given a future that is not ready");
    if (auto e = f.exception()) return enc_err(e);
    if constexpr (std::is_void_v<T>) {
        return 0;
    } else {
        return std::move(f).get_ready().get();
    }
}

template <class R, class T>
auto make_then_fn(int id) {
    if constexpr (std::is_void_v<T>)
        return [id, l = Life(id)]() -> R { return node_body<R>(id, 0, l); };
    else
        return [id, l = Life(id)](T x) -> R { return node_body<R>(id, x.get(), l); };
}
template <class R, class T>
auto make_then_fn_ref(int id) {
    if constexpr (std::is_void_v<T>)
        return [id, l = MLife(id)]() -> R { return node_body<R>(id, 0, l); };
    else
        return [id, l = MLife(id)](T&& x) -> R {
            T y(std::move(x));
            return node_body<R>(id, y.get(), l);
        };
}
template <class R, class T>
auto make_rec_fn(int id) {
    return [id, l = MLife(id)](future<T>&& f) -> R { return node_body<R>(id, seen_of(std::move(f)), l); };
}

template <class R, class T>
AnyFut attach_tr(GNode& n, future<T>& p) {
    NodeExec e{n.ex, n.id, n.dropped};
    e.can_drop = n.mode == 1;
    n.attached = true;
    constexpr bool copyable = !std::is_same_v<T, MVal>;
    auto go = [&](auto fn) -> future<R> {
        if constexpr (copyable) {
            if (!n.rvalue) {
                if (n.kind == N_THEN) {
                    if (n.inherit) return n.opform ? p | std::move(fn) : p.then(std::move(fn));
                    if (n.opform) return p | (stlab::executor{stlab::executor_t(e)} & std::move(fn));
                    return p.then(e, std::move(fn));
                }
            }
        }
        if (n.inherit) return n.opform ? std::move(p) | std::move(fn) : std::move(p).then(std::move(fn));
        if (n.opform) return std::move(p) | (stlab::executor{stlab::executor_t(e)} & std::move(fn));
        return std::move(p).then(e, std::move(fn));
    };
    auto gor = [&](auto fn) -> future<R> {
        if constexpr (copyable) {
            if (!n.rvalue) {
                if (n.inherit) return n.opform ? p ^ std::move(fn) : p.recover(std::move(fn));
                if (n.opform) return p ^ (stlab::executor{stlab::executor_t(e)} & std::move(fn));
                return p.recover(e, std::move(fn));
            }
        }
        if (n.inherit) return n.opform ? std::move(p) ^ std::move(fn) : std::move(p).recover(std::move(fn));
        if (n.opform) return std::move(p) ^ (stlab::executor{stlab::executor_t(e)} & std::move(fn));
        return std::move(p).recover(e, std::move(fn));
    };
    if (n.kind == N_THEN) {
        if (n.constref) return AnyFut(go(make_then_fn_ref<R, T>(n.id)));
        return AnyFut(go(make_then_fn<R, T>(n.id)));
    }
    return AnyFut(gor(make_rec_fn<R, T>(n.id)));
}

template <class T>
AnyFut attach_t(GNode& n, future<T>& p) {
    if (n.kind == N_DETACH) {
        n.attached = true;
        auto fn = [id = n.id, l = Life(n.id)](future<T>&& f) {
            int s = seen_of(std::move(f));
            node_run(id, s);
            l.use();
        };
        if constexpr (!std::is_same_v<T, MVal>) {
            if (!n.rvalue) {
                future<T>(p).detach(std::move(fn));
                return AnyFut{};
            }
        }
        std::move(p).detach(std::move(fn));
        return AnyFut{};
    }
    switch (n.type) {
        case TV: return attach_tr<Val>(n, p);
        case TM: return attach_tr<MVal>(n, p);
        default: return attach_tr<void>(n, p);
    }
}
inline AnyFut attach(GNode& n, AnyFut& p) {
    if (auto* f = std::get_if<1>(&p)) return attach_t(n, *f);
    if (auto* f = std::get_if<2>(&p)) return attach_t(n, *f);
    if (auto* f = std::get_if<3>(&p)) return attach_t(n, *f);
    sim::fail("harness", "attach to empty slot for node %d", n.id);
}

struct Source {
    std::variant<std::monostate, packaged_task<int>, packaged_task<>> task;
    AnyFut fut;
};

template <class R>
void make_source_r(GNode& n, Source& s) {
    NodeExec e{n.ex, n.id, false};
    e.can_drop = n.mode == 1 && n.kind != S_PACKAGE;
    int id = n.id;
    n.attached = true;
    switch (n.kind) {
        case S_ASYNC:
            s.fut = AnyFut(stlab::async(e, [id, l = MLife(id)]() -> R { return node_body<R>(id, 5, l); }));
            break;
        case S_ASYNC_ARGS:
            s.fut = AnyFut(stlab::async(
                e, [id, l = Life(id)](Val a, MVal b) -> R { return node_body<R>(id, a.get() + b.get(), l); }, Val(2),
                MVal(3)));
            break;
        case S_PACKAGE:
            if (n.constref) {
                auto p = stlab::package<R()>(e, [id, l = MLife(id)]() -> R { return node_body<R>(id, 5, l); });
                s.task = std::move(p.first);
                s.fut = AnyFut(std::move(p.second));
            } else {
                auto p = stlab::package<R(int)>(e, [id, l = Life(id)](int x) -> R { return node_body<R>(id, x, l); });
                s.task = std::move(p.first);
                s.fut = AnyFut(std::move(p.second));
            }
            break;
        case S_READY:
            if constexpr (std::is_void_v<R>)
                s.fut = AnyFut(stlab::make_ready_future(stlab::executor_t(e)));
            else
                s.fut = AnyFut(stlab::make_ready_future(R(value_of(5, id)), stlab::executor_t(e)));
            break;
        case S_EXC:
            s.fut = AnyFut(stlab::make_exceptional_future<R>(std::make_exception_ptr(Err{1000 + id}),
                                                             stlab::executor_t(e)));
            break;
    }
}
inline void make_source(GNode& n, Source& s) {
    switch (n.type) {
        case TV: make_source_r<Val>(n, s); break;
        case TM: make_source_r<MVal>(n, s); break;
        default: make_source_r<void>(n, s); break;
    }
}

template <class PT, class... A>
void complete_t(GNode& n, PT& t, A... a) {
    switch (n.mode) {
        case C_CALL: t(a...); break;
        case C_CALL_TWICE:
            t(a...);
            t(a...);
            break;
        case C_SETEXC: t.set_exception(std::make_exception_ptr(Err{1000 + n.id})); break;
        case C_DROP: {
            PT tmp(std::move(t));
            break;
        }
        case C_OVERWRITE: t = PT(); break;
        case C_SWAP_DROP: {
            auto f = [x = std::move(t)]() mutable {};
            auto g = std::move(f);
            break;
        }
    }
    if (!t.canceled()) sim::fail("package-alive", "a completed or abandoned package still claims to be wanted");
}
inline void complete(GNode& n, Source& s) {
    sim::ev("complete", n.id, n.mode);
    if (n.mode != C_CALL && n.mode != C_CALL_TWICE) sim::fault(n.mode == C_SETEXC ? sim::F_THROW : sim::F_DROPTASK);
    if (auto* t = std::get_if<1>(&s.task)) complete_t(n, *t, 5);
    else if (auto* u = std::get_if<2>(&s.task)) complete_t(n, *u);
}

// expected outcome, in topological (index) order
inline void model(std::vector<GNode>& ns) {
    for (auto& n : ns) {
        auto run_it = [&](int in) {
            n.done = true;
            n.seen = n.seen; // checked by caller
            return n.throws ? -(1000 + n.id) - 10 : n.type == TVOID ? 0 : value_of(in, n.id);
        };
        int expect_runs = 0, expect_seen = -999;
        if (n.kind <= S_ASYNC_ARGS) {
            if (n.dropped) n.out = BROKEN;
            else { expect_runs = 1; expect_seen = 5; n.out = run_it(5); }
            n.eff_ex = n.ex;
        } else if (n.kind == S_PACKAGE) {
            n.eff_ex = -1; // runs wherever the package is invoked
            if (n.mode == C_CALL || n.mode == C_CALL_TWICE) { expect_runs = 1; expect_seen = 5; n.out = run_it(5); }
            else n.out = n.mode == C_SETEXC ? -(1000 + n.id) - 10 : BROKEN;
        } else if (n.kind == S_READY) {
            n.out = n.type == TVOID ? 0 : value_of(5, n.id);
            n.eff_ex = -1;
        } else if (n.kind == S_EXC) {
            n.out = -(1000 + n.id) - 10;
            n.eff_ex = -1;
        } else {
            int P = ns[n.parent].out;
            n.eff_ex = n.kind == N_DETACH ? -2 : n.ex;
            if (n.dropped) n.out = BROKEN;
            else if (n.kind == N_THEN) {
                if (P < 0) n.out = P;
                else { expect_runs = 1; expect_seen = P; n.out = run_it(P); }
            } else {
                expect_runs = 1;
                expect_seen = P;
                n.out = n.kind == N_DETACH ? 0 : run_it(P);
            }
        }
        if (n.runs != expect_runs)
            sim::fail(n.runs < expect_runs ? "lost-continuation" : "extra-run",
                      "node %d (kind %d) ran %d times, expected %d (parent outcome %d)", n.id, n.kind, n.runs,
                      expect_runs, n.parent >= 0 ? ns[n.parent].out : 0);
        if (n.runs && n.seen != expect_seen)
            sim::fail("wrong-input", "node %d received %d, expected %d", n.id, n.seen, expect_seen);
        if (n.runs && n.eff_ex >= 0 && n.tag != n.eff_ex)
            sim::fail("wrong-executor", "node %d ran on executor %d, expected %d", n.id, n.tag, n.eff_ex);
    }
}

struct GOp {
    int what; // 0 attach, 1 complete, 2 poll, 3 copy+drop, 4 jitter
    int node;
};

template <class T>
void poll_t(GNode& n, future<T>& f) {
    bool r1 = f.is_ready();
    int o = -998;
    if constexpr (std::is_same_v<T, MVal>) {
        if (r1 && !f.is_ready()) sim::fail("unready", "a ready future became not ready");
        (void)o;
    } else {
        o = final_outcome(f, false);
        if (r1 && o == -998) sim::fail("ready-no-result", "a ready future has no result");
        if (o != -998 && !f.is_ready()) sim::fail("result-not-ready", "a future with a result is not ready");
        sim::quiet q;
        if (n.polled != -999 && n.polled != -998 && o != n.polled)
            sim::fail("result-changed", "node %d showed %d and later %d", n.id, n.polled, o);
        if (o != -998 || n.polled == -999) n.polled = o;
    }
}
inline void poll(GNode& n, AnyFut& f) {
    if (auto* p = std::get_if<1>(&f)) poll_t(n, *p);
    else if (auto* p = std::get_if<2>(&f)) poll_t(n, *p);
    else if (auto* p = std::get_if<3>(&f)) poll_t(n, *p);
}
inline void copy_drop(AnyFut& f) {
    if (auto* p = std::get_if<1>(&f)) {
        auto c = *p;
        sim::point();
        auto d = std::move(c);
        if (!(d == *p)) sim::fail("copy-differs", "a copy of a future does not compare equal");
    } else if (auto* p = std::get_if<2>(&f)) {
        auto d = std::move(*p);
        sim::point();
        *p = std::move(d);
    } else if (auto* p = std::get_if<3>(&f)) {
        auto c = stlab::copy(*p);
        sim::point();
        swap(c, *p);
    }
}

inline int pick_ex(const GraphCfg& c) {
    // weights: immediate, pool, worker are the most interesting
    static const int tbl[] = {EX_IMM, EX_POOL, EX_WORKER, EX_IMM, EX_POOL, EX_WORKER, EX_HIGH, EX_LOW, EX_SERIAL, EX_SPAWN, EX_DELAY};
    return tbl[sim::W(c.delays ? 11 : 10)];
}

inline void run_graph(const GraphCfg& cfg) {
    static std::vector<GNode> nodes;
    static Env the_env;
    std::vector<std::vector<GOp>> ops;
    int K;
    {
        sim::quiet q;
        env = &the_env;
        G_nodes = &nodes;
        nodes.reserve(64);
        K = 1 + sim::W(cfg.max_clients);
        ops.resize(K);
        int S = 1 + sim::W(3);
        // avail[k]: nodes whose future client k still holds
        std::vector<std::vector<int>> avail(K);
        for (int i = 0; i < S; ++i) {
            GNode n{};
            n.id = i;
            n.parent = -1;
            int k = sim::W(cfg.throws || cfg.abandons ? 12 : 11);
            n.kind = k < 4 ? S_PACKAGE : k < 8 ? S_ASYNC : k < 10 ? S_ASYNC_ARGS : k == 10 ? S_READY : S_EXC;
            n.type = sim::W(3);
            n.ex = pick_ex(cfg);
            n.throws = cfg.throws && sim::W(3) == 1;
            n.owner = n.type == TM ? sim::W(K) : -1;
            n.constref = sim::W(2);
            if (n.kind == S_PACKAGE) {
                n.completer = sim::W(K);
                int m = sim::W(8);
                n.mode = cfg.abandons ? (m < 3 ? C_CALL : m == 3 ? C_CALL_TWICE : m - 3) : (m == 7 ? C_CALL_TWICE : C_CALL);
                if (m == 7 && cfg.abandons) n.mode = C_SWAP_DROP;
            } else
                n.mode = cfg.drops && sim::W(3) == 1;
            nodes.push_back(n);
            for (int c = 0; c < K; ++c)
                if (n.owner < 0 || n.owner == c) avail[c].push_back(i);
        }
        int N = sim::W(cfg.max_nodes + 1);
        for (int i = 0; i < N; ++i) {
            int c = sim::W(K);
            if (avail[c].empty()) continue;
            GNode n{};
            n.id = (int)nodes.size();
            int pi = sim::W((int)avail[c].size());
            n.parent = avail[c][pi];
            GNode& p = nodes[n.parent];
            n.owner = c;
            int k = sim::W(8);
            n.kind = k < 4 ? N_THEN : k < 7 ? N_RECOVER : N_DETACH;
            n.type = sim::W(3);
            n.throws = cfg.throws && n.kind != N_DETACH && sim::W(4) == 1;
            n.rvalue = p.type == TM ? true : sim::W(3) == 1;
            n.inherit = sim::W(4) == 1;
            n.ex = pick_ex(cfg);
            n.opform = sim::W(3) == 1;
            n.constref = sim::W(2);
            n.mode = 0;
            if (n.inherit) {
                // the inherited executor is the parent's
                n.ex = p.ex;
                if (p.kind == S_PACKAGE) {}
                else p.mode = 0; // executors handed on to children do not drop tasks (keeps the model exact)
            } else
                n.mode = cfg.drops && sim::W(3) == 1;
            if (n.inherit && p.inherit) n.ex = p.ex;
            if (n.rvalue) {
                avail[c].erase(avail[c].begin() + pi);
                if (p.owner == c) p.consumed = true;
            }
            nodes.push_back(n);
            if (n.kind != N_DETACH) avail[c].push_back(n.id);
            ops[c].push_back({0, n.id});
            int extra = sim::W(4);
            if (extra == 1 && !avail[c].empty()) ops[c].push_back({2, avail[c][sim::W((int)avail[c].size())]});
            if (extra == 2 && !avail[c].empty()) ops[c].push_back({3, avail[c][sim::W((int)avail[c].size())]});
            if (extra == 3) ops[c].push_back({4, 0});
        }
        for (int i = 0; i < S; ++i)
            if (nodes[i].kind == S_PACKAGE) {
                auto& o = ops[nodes[i].completer];
                o.insert(o.begin() + sim::W((int)o.size() + 1), GOp{1, i});
            }
        unsigned mask = 0;
        for (auto& n : nodes)
            mask |= 1u << n.ex;
        env->prepare(mask);
    }
    {
        std::vector<Source> src;
        std::vector<std::vector<AnyFut>> hold(K);
        {
            sim::quiet q;
            for (auto& h : hold)
                h.resize(nodes.size());
            src.resize(nodes.size());
        }
        for (auto& n : nodes)
            if (n.parent < 0) {
                make_source(n, src[n.id]);
                for (int c = 0; c < K; ++c) {
                    if (n.owner >= 0) continue;
                    if (auto* f = std::get_if<1>(&src[n.id].fut)) hold[c][n.id] = *f;
                    if (auto* f = std::get_if<3>(&src[n.id].fut)) hold[c][n.id] = *f;
                }
                if (n.owner >= 0) hold[n.owner][n.id] = std::move(src[n.id].fut);
                src[n.id].fut = AnyFut{};
            }
        Clients cl;
        for (int c = 0; c < K; ++c)
            cl.go([&, c] {
                for (auto& o : ops[c]) {
                    switch (o.what) {
                        case 0: {
                            GNode& n = gn(o.node);
                            AnyFut& p = hold[c][n.parent];
                            sim::ev("attach", n.id, n.parent);
                            AnyFut r = attach(n, p);
                            if (n.kind != N_DETACH) hold[c][n.id] = std::move(r);
                            if (n.rvalue) p = AnyFut{};
                            break;
                        }
                        case 1: complete(gn(o.node), src[o.node]); break;
                        case 2: poll(gn(o.node), hold[c][o.node]); break;
                        case 3: copy_drop(hold[c][o.node]); break;
                        case 4: jitter(); break;
                    }
                }
            });
        cl.join();
        sim::quiesce();
        {
            sim::quiet q;
            model(nodes);
        }
        for (auto& n : nodes) // every node is resolved: what it captured is released, though its future is held
            check_life(n.id, 0, "although its task has run or will never run");
        // every future still held is ready with the expected outcome
        for (int c = 0; c < K; ++c)
            for (auto& n : nodes) {
                AnyFut& f = hold[c][n.id];
                auto chk = [&](auto& fut) {
                    if (!fut.valid()) sim::fail("invalid-future", "the future of node %d is not valid", n.id);
                    if (!fut.is_ready()) sim::fail("unresolved", "the future of node %d never became ready", n.id);
                    if (n.kind != N_DETACH) {
                        auto e = fut.exception();
                        if ((n.out < 0) != (bool)e)
                            sim::fail("wrong-exception-state", "node %d: exception() %s, expected outcome %d", n.id,
                                      e ? "set" : "not set", n.out);
                    }
                    int o = final_outcome(fut, true);
                    if (o != n.out) sim::fail("wrong-outcome", "node %d ended with %d, expected %d", n.id, o, n.out);
                };
                if (n.polled != -999 && n.polled != -998 && n.polled != n.out)
                    sim::fail("wrong-poll", "a query of node %d showed %d, final outcome %d", n.id, n.polled, n.out);
                if (auto* p = std::get_if<1>(&f)) chk(*p);
                else if (auto* p = std::get_if<2>(&f)) chk(*p);
                else if (auto* p = std::get_if<3>(&f)) chk(*p);
            }
    }
    shutdown_env();
    sim::quiesce();
    for (auto& n : nodes)
        check_life(n.id, 0, "after every future was released");
    check_payloads_released("after every future was released");
}

} // namespace sc
