// Cancellation: futures dropped at arbitrary moments by several threads while their producers are
// queued, running or not yet invoked; nothing unneeded may start, everything unneeded is released,
// everything still needed is unaffected.
#include "graph.hpp"
using namespace sc;
extern const char* const sim_scenario_name = "C03";

namespace {
constexpr uint64_t INF = ~0ull;
enum { O_DROP, O_COMPLETE, O_JITTER, O_DETACH, O_ATTACH_DROP, O_RESUME, O_RESET, O_OVERWRITE };
struct Op {
    int what, node;
};
template <class F>
void with(AnyFut& f, F fn) {
    if (auto* p = std::get_if<1>(&f)) fn(*p);
    else if (auto* p = std::get_if<2>(&f)) fn(*p);
    else if (auto* p = std::get_if<3>(&f)) fn(*p);
}
} // namespace

extern "C" void sim_scenario() {
    static std::vector<GNode> nodes;
    static Env the_env;
    static std::vector<std::vector<Op>> ops;
    int K, S;
    bool paused;
    std::vector<int> copies;   // extra handle of that node, dropped by another client
    {
        sim::quiet q;
        sim::set_hw(1 + sim::W(4));
        sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_TIMEJUMP | 1 << sim::F_REORDER |
                           1 << sim::F_STALL);
        env = &the_env;
        G_nodes = &nodes;
        nodes.reserve(64);
        K = 1 + sim::W(3);
        S = 1 + sim::W(2);
        paused = sim::W(2);
        bool throws = sim::W(3) == 1;
        ops.resize(K);
        static const int exs[] = {EX_WORKER, EX_POOL, EX_IMM, EX_WORKER, EX_HIGH, EX_SERIAL, EX_DELAY, EX_SPAWN};
        std::vector<int> avail;
        for (int i = 0; i < S; ++i) {
            GNode n{};
            n.id = i;
            n.parent = -1;
            int k = sim::W(6);
            n.kind = k < 3 ? S_PACKAGE : k < 5 ? S_ASYNC : S_ASYNC_ARGS;
            n.type = sim::W(3);
            n.ex = exs[sim::W(8)];
            n.throws = throws && sim::W(3) == 1;
            n.constref = sim::W(2);
            n.completer = sim::W(K);
            n.mode = 0; // C_CALL / no executor drops
            nodes.push_back(n);
            avail.push_back(i);
        }
        int N = sim::W(7);
        for (int i = 0; i < N; ++i) {
            int pi = sim::W((int)avail.size());
            GNode n{};
            n.id = (int)nodes.size();
            n.parent = avail[pi];
            GNode& p = nodes[n.parent];
            int k = sim::W(10);
            n.kind = k < 5 ? N_THEN : k < 9 ? N_RECOVER : N_DETACH;
            n.type = sim::W(3);
            n.throws = throws && n.kind != N_DETACH && sim::W(4) == 1;
            n.rvalue = p.type == TM ? true : sim::W(2) == 1;
            n.ex = exs[sim::W(8)];
            n.inherit = sim::W(4) == 1;
            if (n.inherit) n.ex = p.ex;
            n.opform = sim::W(3) == 1;
            n.constref = sim::W(2);
            if (n.rvalue) {
                p.consumed = true;
                avail.erase(avail.begin() + pi);
            }
            nodes.push_back(n);
            if (n.kind != N_DETACH) avail.push_back(n.id);
            if (avail.empty()) break;
        }
        copies.assign(nodes.size(), -1);
        // what happens to the handles
        for (int id : avail) {
            int w = sim::W(8);
            int c = sim::W(K);
            if (nodes[id].type != TM && sim::W(3) == 1) {
                copies[id] = sim::W(K);
                int what = sim::W(3) == 1 ? O_RESET : O_DROP;
                auto& o = ops[copies[id]];
                o.insert(o.begin() + sim::W((int)o.size() + 1), Op{what + 100, id});
            }
            if (w == 7) continue; // survives
            int what = w == 6 ? O_DETACH : w == 5 ? O_RESET : w == 4 ? O_OVERWRITE : O_DROP;
            auto& o = ops[c];
            o.insert(o.begin() + sim::W((int)o.size() + 1), Op{what, id});
        }
        for (int i = 0; i < S; ++i)
            if (nodes[i].kind == S_PACKAGE && sim::W(4) != 3) {
                auto& o = ops[nodes[i].completer];
                o.insert(o.begin() + sim::W((int)o.size() + 1), Op{O_COMPLETE, i});
            }
        int j = sim::W(3);
        for (int i = 0; i < j; ++i) {
            auto& o = ops[sim::W(K)];
            o.insert(o.begin() + sim::W((int)o.size() + 1), Op{O_JITTER, 0});
        }
        unsigned mask = 0;
        for (auto& n : nodes)
            mask |= 1u << n.ex;
        env->prepare(mask);
        if (!(mask >> EX_WORKER & 1)) paused = false;
        if (paused && sim::W(2)) {
            auto& o = ops[sim::W(K)];
            o.insert(o.begin() + sim::W((int)o.size() + 1), Op{O_RESUME, 0});
        }
    }
    if (paused) env->worker->pause(true);
    {
        std::vector<Source> src(nodes.size());
        std::vector<AnyFut> hold(nodes.size()), extra(nodes.size());
        std::vector<uint64_t> hdrop(nodes.size(), 0), xdrop(nodes.size(), 0); // 0: no such handle
        for (auto& n : nodes) { // build
            if (n.parent < 0) {
                make_source(n, src[n.id]);
                hold[n.id] = std::move(src[n.id].fut);
                src[n.id].fut = AnyFut{};
            } else {
                AnyFut r = attach(n, hold[n.parent]);
                if (n.rvalue) hold[n.parent] = AnyFut{};
                if (n.kind != N_DETACH) hold[n.id] = std::move(r);
            }
        }
        for (auto& n : nodes) {
            if (hold[n.id].index() != 0) hdrop[n.id] = INF;
            if (copies[n.id] >= 0) {
                if (auto* p = std::get_if<1>(&hold[n.id])) extra[n.id] = stlab::copy(*p);
                if (auto* p = std::get_if<3>(&hold[n.id])) extra[n.id] = stlab::copy(*p);
                xdrop[n.id] = INF;
            }
        }
        Clients cl;
        for (int c = 0; c < K; ++c)
            cl.go([&, c] {
                for (auto& o : ops[c]) {
                    bool x = o.what >= 100;
                    AnyFut& f = x ? extra[o.node] : hold[o.node];
                    uint64_t* when = x ? &xdrop[o.node] : &hdrop[o.node];
                    auto dropped = [&] {
                        sim::quiet q;
                        sim::fault(sim::F_CANCEL);
                        *when = sim::ev("drop", o.node, x) + 1;
                    };
                    switch (o.what % 100) {
                        case O_DROP:
                            f = AnyFut{};
                            dropped();
                            break;
                        case O_RESET:
                            with(f, [](auto& g) { g.reset(); });
                            dropped();
                            break;
                        case O_OVERWRITE:
                            with(f, [](auto& g) { g = std::decay_t<decltype(g)>{}; });
                            dropped();
                            break;
                        case O_DETACH:
                            sim::ev("detach", o.node);
                            with(f, [](auto& g) { std::move(g).detach(); });
                            f = AnyFut{};
                            break; // stays INF
                        case O_COMPLETE: {
                            GNode& n = gn(o.node);
                            {
                                sim::quiet q;
                                n.begun = sim::ev("complete", n.id) + 1;
                            }
                            if (auto* t = std::get_if<1>(&src[n.id].task)) (*t)(5);
                            else if (auto* u = std::get_if<2>(&src[n.id].task)) (*u)();
                            break;
                        }
                        case O_JITTER: jitter(); break;
                        case O_RESUME: env->worker->pause(false); break;
                    }
                }
            });
        cl.join();
        sim::quiesce();
        {
            sim::quiet q;
            for (size_t i = nodes.size(); i-- > 0;) { // children come after their parents
                GNode& n = nodes[i];
                uint64_t d = std::max(hdrop[i], xdrop[i]);
                if (n.kind == N_DETACH) d = INF;
                n.drop_end = std::max(n.drop_end, d);
                if (n.parent >= 0) gn(n.parent).drop_end = std::max(gn(n.parent).drop_end, n.drop_end);
            }
            for (auto& n : nodes) {
                if (n.runs && n.drop_end != INF && n.begun > n.drop_end)
                    sim::fail("cancelled-ran", "node %d ran although nothing needed it any more when its executor began with it",
                              n.id);
                if (n.drop_end != INF)
                    check_life(n.id, 0, "after every future that needed it was dropped");
                if (n.kind == S_PACKAGE) {
                    bool can = true;
                    if (auto* t = std::get_if<1>(&src[n.id].task)) can = t->canceled();
                    else if (auto* u = std::get_if<2>(&src[n.id].task)) can = u->canceled();
                    bool want = n.drop_end != INF || n.begun;
                    if (can != want)
                        sim::fail("canceled-flag", "package %d: canceled() is %d, expected %d", n.id, can, want);
                }
            }
            long vals = 0;
            for (auto& n : nodes)
                if (n.drop_end == INF) vals = -1;
            if (vals == 0) check_payloads_released("after every future was dropped");
        }
        if (paused) env->worker->pause(false);
        for (auto& n : nodes)
            if (n.kind == S_PACKAGE && !n.begun) {
                {
                    sim::quiet q;
                    n.begun = sim::ev("complete", n.id) + 1;
                }
                if (auto* t = std::get_if<1>(&src[n.id].task)) (*t)(5);
                else if (auto* u = std::get_if<2>(&src[n.id].task)) (*u)();
            }
        sim::quiesce();
        sim::quiet q;
        for (auto& n : nodes) {
            // outcome of the node, provided it is produced at all
            bool must = n.drop_end == INF, runs;
            int in = 5;
            if (n.parent >= 0) {
                in = gn(n.parent).out;
                runs = n.kind != N_THEN || in >= 0;
            } else
                runs = true;
            n.out = !runs ? in : n.kind == N_DETACH ? 0 : n.throws ? -(1000 + n.id) - 10 : n.type == TVOID ? 0 : value_of(in, n.id);
            if (must && n.runs != (runs ? 1 : 0))
                sim::fail(runs ? "lost-continuation" : "extra-run", "node %d, still needed, ran %d times, expected %d", n.id, n.runs, (int)runs);
            if (n.runs && !runs) sim::fail("extra-run", "node %d ran although its input failed", n.id);
            if (n.runs && n.seen != in) sim::fail("wrong-input", "node %d received %d, expected %d", n.id, n.seen, in);
            if (n.runs && n.parent >= 0 && n.kind == N_THEN && gn(n.parent).runs != 1)
                sim::fail("ghost-input", "node %d ran but its producer %d did not", n.id, n.parent);
            if (n.runs && n.kind != S_PACKAGE && n.kind != N_DETACH && n.tag != n.ex)
                sim::fail("wrong-executor", "node %d ran on executor %d, expected %d", n.id, n.tag, n.ex);
            if (n.drop_end != INF && n.begun > n.drop_end && n.runs)
                sim::fail("cancelled-ran", "node %d ran although nothing needed it any more", n.id);
        }
        for (auto& n : nodes) {
            auto chk = [&](auto& fut) {
                if (!fut.is_ready()) sim::fail("unresolved", "the future of node %d never became ready", n.id);
                int o = final_outcome(fut, true);
                if (o != n.out) sim::fail("wrong-outcome", "node %d ended with %d, expected %d", n.id, o, n.out);
            };
            if (hdrop[n.id] == INF && hold[n.id].index()) with(hold[n.id], chk);
            if (xdrop[n.id] == INF && extra[n.id].index()) with(extra[n.id], chk);
        }
    }
    shutdown_env();
    sim::quiesce();
    for (auto& n : nodes)
        check_life(n.id, 0, "at the end");
    check_payloads_released("at the end");
}
