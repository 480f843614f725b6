// Random channel networks: heads (channels with several senders, generators), function stages, await/yield
// processes, merges, splits and sinks, with buffers and executors, under send/copy/close/drop/ready histories.
// Shared by C14 - C21; each check has its own configuration.
#pragma once
#include "common.hpp"

namespace chan {
using namespace sc;
using std::chrono::milliseconds;
using std::chrono::nanoseconds;

struct Cfg {
    int max_heads = 1;
    bool moveonly = false, split = false, merge = false, gen = false, proc = false, timed = false, errors = false;
    bool drops = false, ready = false, history = false, late_attach = false, unequal = false, slow = true;
    int max_stages = 7, max_msgs = 8, max_senders = 3;
    bool pipes = true;             // receiver | sender in front of some stages
    bool want_merge = false, want_split = false, want_proc = false, want_gen = false;
    unsigned faults = 1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL;
};
inline Cfg cfg;

enum Kind { HEAD, GEN, FN, REFFN, FUNCPROC, PROC, ZIP, ZIPPROC, RR, UN, SINK, REFSINK };
inline bool is_sink(int k) { return k == SINK || k == REFSINK; }
inline bool is_merge(int k) { return k == ZIP || k == ZIPPROC || k == RR || k == UN; }
enum { W_FOREVER, W_TIMED };

// some whole milliseconds, sometimes less or a fraction more
inline long draw_ns(int ms) {
    if (!ms) return 0;
    int k = sim::W(6);
    return k == 4 ? 1 + sim::W(999999) : k == 5 ? ms * 1000000L + sim::W(999999) : ms * 1000000L;
}
struct Stage {
    int kind = FN, ex = 0, form = 0, buf = 1;
    int nup = 0, up[3] = {-1, -1, -1};
    std::vector<int> downs;
    // behaviour
    int slow = 0;                  // 0 never, 1 points, 2 time
    unsigned throws = 0;           // activation numbers that throw
    bool open_end = false;
    int need = 1, outs = 1, wait = W_FOREVER, flush = 0, again = 0, seterr = 0;
    long wait_ns = 0, ydelay_ns = 0;
    int gen_n = 0;
    bool pipe = false, tuple = false; // fed through another channel; zip() and a function of a tuple
    int pex = 0;                   // executor of the channel in between
    // readiness model
    int unready = 1;
    // state
    std::vector<int> out;          // identifiers of produced values, <0: an exception
    size_t cur[3] = {0, 0, 0};     // consumed per input
    int rr_next = 0;
    int active = 0, acts = 0, started = 0;
    bool dead = false;             // closed by an error it does not accept
    int closes = 0;
    bool detached = false;         // dropped by the scenario
    bool can_detach = false, hold = false;
    unsigned heads = 0;            // whose values it gets
    bool late = false;             // attached by a client
    bool wired = false;
    // process model
    std::vector<int> pend;
    int left = 0;
    std::vector<uint64_t> out_at;  // when the values were produced or sent
    uint64_t yield_at = 0;         // not before, for delayed yields
    bool last_wait = false, armed = false, timed_now = false;
    uint64_t armed_at = 0;
    int timeouts = 0;
    // head model
    int handles = 0;               // open senders
    std::vector<int> next_n;       // next number expected per sender
    std::vector<int> sent_n;       // number of sends begun per sender
    std::vector<int> rand_order;
};
constexpr int MAXST = 24;
inline Stage st[MAXST];
inline int nst = 0;
inline bool tearing_down = false;
inline bool drop_phase = false;
inline bool exact = false;         // simulated time passes only while nothing can run

inline int head_id(int h, int s, int n) { return (h + 1) * 1000000 + s * 10000 + n; }
inline int stage_id(int s, int k) { return (s + 101) * 1000000 + k; }
inline int id_stage(int id) { return id / 1000000 > 100 ? id / 1000000 - 101 : id / 1000000 - 1; }

inline bool has_life(int k) { return k == FN || k == FUNCPROC || k == PROC || k == ZIP || k == ZIPPROC || k == RR || k == UN || k == SINK || k == GEN; }

// A value (id > 0) or an exception (id < 0) from input p is taken by stage s.
inline void check_in(int s, int p, int id) {
    Stage& n = st[s];
    Stage& u = st[n.up[p]];
    if (u.unready > 0) sim::fail("ran-before-ready", "stage %d got a value of stage %d, which has %d unready receivers", s, n.up[p], u.unready);
    if (u.kind == HEAD && n.cur[p] == u.out.size()) {
        if (id_stage(id) != n.up[p]) sim::fail("wrong-value", "stage %d got %d from input %d, which is not a value of stage %d", s, id, p, n.up[p]);
        int snd = id % 1000000 / 10000, k = id % 10000;
        if (snd >= (int)u.next_n.size() || k >= u.sent_n[snd]) sim::fail("wrong-value", "stage %d got %d, which was not sent", s, id);
        if (k != u.next_n[snd])
            sim::fail(k < u.next_n[snd] ? "duplicate" : "out-of-order", "stage %d got value %d of sender %d of head %d, expected %d", s, k, snd,
                      n.up[p], u.next_n[snd]);
        u.next_n[snd]++;
        u.out.push_back(id);
    }
    if (n.cur[p] >= u.out.size()) sim::fail("duplicate", "stage %d got %d although stage %d produced only %zu values", s, id, n.up[p], u.out.size());
    if (u.out[n.cur[p]] != id) {
        bool before = false;
        for (size_t i = 0; i < n.cur[p]; ++i)
            before |= u.out[i] == id;
        sim::fail(before ? "duplicate" : "out-of-order", "stage %d input %d got %d as its value number %zu, expected %d of stage %d", s, p, id, n.cur[p],
                  u.out[n.cur[p]], n.up[p]);
    }
    n.cur[p]++;
}
inline int port_of(int s, int id) {
    Stage& n = st[s];
    int u = id > 0 ? id_stage(id) : -id / 1000 - 1;
    for (int p = 0; p < n.nup; ++p)
        if (n.up[p] == u) return p;
    sim::fail("wrong-value", "stage %d got %d of stage %d, which is not its input", s, id, u);
}
inline int merge_port(int s, int id) {
    Stage& n = st[s];
    if (n.kind == RR) {
        int p = n.rr_next;
        n.rr_next = (p + 1) % n.nup;
        return p;
    }
    return n.kind == UN ? port_of(s, id) : 0;
}
inline bool alive(int s) { // somebody still holds the stage
    Stage& n = st[s];
    if (!n.wired) return false;
    if (is_sink(n.kind)) return !n.detached;
    if (n.hold) return true;
    for (int d : n.downs)
        if (alive(d) || (st[d].pipe && !drop_phase)) return true; // what feeds another channel is held until the end
    return false;
}
inline size_t avail(int s) { // values the stage has for its consumers
    Stage& n = st[s];
    if (n.kind != HEAD) return n.out.size();
    size_t k = 0;
    for (int c : n.sent_n)
        k += c;
    return k;
}
inline bool next_is_unaccepted_error(int s);
// zip() in front of a function is closed by an error although the function has not yet got what came before it
inline bool front_closed(const Stage& x) {
    if (!x.tuple) return false;
    for (int p = 0; p < x.nup; ++p)
        for (size_t k = x.cur[p]; k < st[x.up[p]].out.size(); ++k)
            if (st[x.up[p]].out[k] < 0) return true;
    return false;
}
// how many values may wait for a stage, 0: any number
inline int room(const Stage& x) { return x.pipe || !x.buf ? 0 : x.buf + x.tuple; }
inline void check_room(int s) { // stage s starts to produce: nobody downstream may have a full buffer
    Stage& n = st[s];
    if (drop_phase) return; // who is gone does not count
    for (int d : n.downs) {
        Stage& x = st[d];
        if (room(x) == 0 || x.dead || !alive(d) || next_is_unaccepted_error(d) || front_closed(x)) continue;
        for (int p = 0; p < x.nup; ++p)
            if (x.up[p] == s && n.out.size() > x.cur[p] + room(x))
                sim::fail("buffer-exceeded", "stage %d goes on although stage %d has %zu of its values waiting and buffers only %d", s, d,
                          n.out.size() - x.cur[p], room(x));
    }
}
inline bool may_be_closed(int s) {
    Stage& n = st[s];
    if (n.kind == HEAD) return n.handles == 0;
    if (n.dead || n.closes || next_is_unaccepted_error(s)) return true;
    for (int p = 0; p < n.nup; ++p)
        if (may_be_closed(n.up[p])) return true;
    return false;
}
struct Act { // an activation of a stage
    int s;
    explicit Act(int s_, const char* what, bool produces = true) : s(s_) {
        sim::quiet q;
        Stage& n = st[s];
        sim::ev(what, s);
        if (n.active) sim::fail("overlap", "stage %d is activated (%s) while it is active", s, what);
        n.active = 1;
        if (cur_tag != n.ex) sim::fail("wrong-executor", "stage %d runs on executor %d instead of %d", s, cur_tag, n.ex);
        if (n.unready > 0) sim::fail("ran-before-ready", "stage %d runs although %d receivers are not ready", s, n.unready);
        if (n.dead) sim::fail("ran-after-close", "stage %d runs after it was closed by an exception", s);
        if (n.closes) sim::fail("ran-after-close", "stage %d runs (%s) after it was closed", s, what);
        if (produces) check_room(s);
        if (tearing_down) sim::fail("ran-late", "stage %d runs after everything was released", s);
    }
    void body() const {
        int m = st[s].slow;
        if (m) sim::point();
        if (m == 2) switch (sim::user_choice(4)) {
                case 1:
                    sim::fault(sim::F_SLOWTASK);
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                    break;
                case 2:
                    sim::fault(sim::F_SLOWTASK);
                    std::this_thread::sleep_for(milliseconds(2));
                    break;
                default: break;
            }
    }
    int produce() const { // id of the next result, or throws
        sim::quiet q;
        Stage& n = st[s];
        int k = n.acts++;
        if (k < 32 && (n.throws >> k & 1)) {
            int c = (s + 1) * 1000 + k;
            n.out.push_back(-c);
            n.out_at.push_back(sim::now_ns());
            sim::fault(sim::F_THROW);
            sim::ev("throw", s, c);
            n.active = 0;
            return -c;
        }
        n.out.push_back(stage_id(s, k));
        n.out_at.push_back(sim::now_ns());
        return stage_id(s, k);
    }
    ~Act() {
        sim::quiet q;
        st[s].active = 0;
    }
};
inline void take(int s, int p, int id) {
    sim::quiet q;
    sim::ev("take", s, p, id);
    check_in(s, p, id);
}
inline void delay_yield(int s) { // stage s begins to wait with its next result
    Stage& n = st[s];
    n.yield_at = n.ydelay_ns ? sim::now_ns() + (uint64_t)n.ydelay_ns : 0;
}
inline void delayed_yield(int s) {
    sim::quiet q;
    Stage& n = st[s];
    if (sim::now_ns() < n.yield_at)
        sim::fail("early-yield", "stage %d yields %llu ns before its delay of %ld ns is over", s, (unsigned long long)(n.yield_at - sim::now_ns()), n.ydelay_ns);
    delay_yield(s);
}
template <class T>
T emit(const Act& a) {
    int id = a.produce();
    if (id < 0) throw Err{-id};
    return T(id);
}

template <class T>
struct Fn { // also for merges
    int s;
    MLife l;
    T run() = delete;
    T operator()(T x) {
        l.use();
        Act a(s, "fn");
        int id = x.get();
        take(s, is_merge(st[s].kind) ? merge_port(s, id) : 0, id);
        a.body();
        return emit<T>(a);
    }
    T operator()(T x, T y) {
        l.use();
        Act a(s, "fn");
        take(s, 0, x.get());
        take(s, 1, y.get());
        a.body();
        return emit<T>(a);
    }
    T operator()(std::tuple<T, T> t) { return (*this)(std::move(std::get<0>(t)), std::move(std::get<1>(t))); }
    T operator()(T x, T y, T z) {
        l.use();
        Act a(s, "fn");
        take(s, 0, x.get());
        take(s, 1, y.get());
        take(s, 2, z.get());
        a.body();
        return emit<T>(a);
    }
};
template <class T>
struct SinkFn {
    int s;
    MLife l;
    void operator()(T x) {
        l.use();
        Act a(s, "sink");
        take(s, 0, x.get());
        a.body();
        sim::quiet q;
        st[s].acts++;
    }
};
template <class T>
struct Gen {
    int s;
    MLife l;
    int left;
    stlab::process_state_scheduled state() const {
        l.use();
        long d = st[s].ydelay_ns;
        if (left <= 0) return stlab::await_forever;
        if (d) return {stlab::process_state::yield, nanoseconds(d)};
        return stlab::yield_immediate;
    }
    T yield() {
        l.use();
        Act a(s, "yield");
        if (left <= 0) sim::fail("unexpected-yield", "generator %d is asked for more than it has", s);
        --left;
        delayed_yield(s);
        a.body();
        return emit<T>(a);
    }
};

// await/yield process: collects `need` values, then yields `outs` results.  E: accepts errors, C: has close().
template <class T>
struct ProcBase {
    int s;
    MLife l;
    ProcBase(int s_, MLife l_) : s(s_), l(std::move(l_)) {}
    ProcBase(ProcBase&&) = default;
    stlab::process_state_scheduled state() const {
        l.use();
        Stage& n = st[s];
        sim::quiet q;
        if (n.left > 0) {
            if (n.ydelay_ns) return {stlab::process_state::yield, nanoseconds(n.ydelay_ns)};
            return stlab::yield_immediate;
        }
        if (n.timed_now) return {stlab::process_state::await, nanoseconds(n.wait_ns)};
        return stlab::await_forever;
    }
    void taken(std::initializer_list<int> ids) {
        l.use();
        Act a(s, "await", false);
        {
            sim::quiet q;
            Stage& n = st[s];
            if (n.left > 0) sim::fail("await-in-yield", "process %d got input although it wants to yield", s);
            int p = 0;
            for (int id : ids) {
                int pp = n.kind == ZIPPROC ? p++ : is_merge(n.kind) ? merge_port(s, id) : 0;
                sim::ev("take", s, pp, id);
                check_in(s, pp, id);
            }
        }
        a.body();
        sim::quiet q;
        Stage& n = st[s];
        n.pend.push_back(*ids.begin());
        if ((int)n.pend.size() >= n.need) {
            n.pend.clear();
            n.left = n.outs;
            n.armed = n.timed_now = false;
            delay_yield(s);
            if (n.wait == W_TIMED && !n.left) n.timed_now = true;
        } else if (n.wait == W_TIMED)
            n.timed_now = true;
        n.armed = n.timed_now && !n.left;
        n.armed_at = sim::now_ns();
    }
    void ignored_input() { // a timed wait ends: was there nothing to take?
        Stage& n = st[s];
        if (!exact || n.nup != 1 || next_is_unaccepted_error(s)) return; // an error only closes
        Stage& u = st[n.up[0]];
        size_t k = n.cur[0];
        if (k >= u.out_at.size() || (u.kind == HEAD && u.downs.size() != 1)) return;
        if (sim::now_ns() > u.out_at[k] + 900000)
            sim::fail("input-ignored", "the timed wait of process %d ends in a yield %llu ns after value %zu of stage %d arrived", s,
                      (unsigned long long)(sim::now_ns() - u.out_at[k]), k, n.up[0]);
    }
    T yield() {
        l.use();
        Act a(s, "yield");
        {
            sim::quiet q;
            Stage& n = st[s];
            if (n.left <= 0) { // a wait timed out
                if (!n.timed_now) sim::fail("unexpected-yield", "process %d yields although it waits for input without a timeout", s);
                if (!n.armed && n.again && (n.kind == ZIPPROC || n.kind == RR)) { // part of an input starts a new wait
                    n.armed = true;
                    n.armed_at = 0;
                } else if (!n.armed && n.again && !n.last_wait) { // the one that is left when the input has gone
                    n.last_wait = next_is_unaccepted_error(s);
                    for (int p = 0; p < n.nup; ++p)
                        n.last_wait |= may_be_closed(n.up[p]);
                    n.armed = n.last_wait;
                    n.armed_at = 0;
                }
                if (!n.armed) sim::fail("second-timeout", "process %d yields a second time for one timed wait", s);
                uint64_t w = (uint64_t)n.wait_ns;
                if (sim::now_ns() < n.armed_at + w)
                    sim::fail("early-timeout", "process %d yields %llu ns after its input although its timeout is %llu ns", s,
                              (unsigned long long)(sim::now_ns() - n.armed_at), (unsigned long long)w);
                n.timeouts++;
                n.armed = false;
                if (!n.again) n.timed_now = false;
                n.pend.clear();
                sim::probe("timed wait ended in a yield");
                ignored_input();
            } else {
                --n.left;
                delayed_yield(s);
            }
        }
        a.body();
        return emit<T>(a);
    }
    void closed() {
        l.use();
        sim::quiet q;
        Stage& n = st[s];
        sim::ev("close", s);
        if (n.active) sim::fail("overlap", "process %d is closed while it is active", s);
        if (cur_tag != n.ex) sim::fail("wrong-executor", "process %d is closed on executor %d instead of %d", s, cur_tag, n.ex);
        if (n.closes++ || n.flush == -1) sim::fail("closed-twice", "process %d is closed twice", s);
        bool err = n.seterr == 0 && n.cur[0] < st[n.up[0]].out.size() && st[n.up[0]].out[n.cur[0]] < 0;
        if (is_merge(n.kind))
            for (int p = 0; p < n.nup; ++p)
                err |= n.cur[p] < st[n.up[p]].out.size() && st[n.up[p]].out[n.cur[p]] < 0;
        if (n.left > 0) sim::fail("close-before-yield", "process %d is closed although it has results to yield", s);
        if (!err) {
            for (int p = 0; p < n.nup && !(n.pipe && drop_phase); ++p) {
                Stage& u = st[n.up[p]];
                if (u.kind == HEAD && u.handles > 0) sim::fail("closed-early", "process %d is closed although a sender of channel %d is open", s, n.up[p]);
                if (u.kind == GEN) sim::fail("closed-early", "process %d is closed although its generator is alive", s);
                if (n.kind != ZIPPROC && n.kind != RR && n.cur[p] < u.out.size())
                    sim::fail("closed-early", "process %d is closed before it got %zu values of stage %d", s, u.out.size() - n.cur[p], n.up[p]);
                if (u.kind == HEAD && n.kind == PROC)
                    for (size_t k = 0; k < u.sent_n.size(); ++k)
                        if (u.next_n[k] < u.sent_n[k])
                            sim::fail("closed-early", "process %d is closed before it got all values of sender %zu of channel %d", s, k, n.up[p]);
            }
        } else {
            n.dead = true;
        }
        if (n.flush && (!n.pend.empty() || n.flush == 2) && !err) {
            n.pend.clear();
            n.left = n.outs;
            delay_yield(s);
            n.closes = 0; // yields are legal once more
            n.flush = -1;
            sim::probe("close flushes results");
        }
        n.armed = n.timed_now = false;
    }
    void error(std::exception_ptr e) {
        l.use();
        Act a(s, "set_error", false);
        int c = err_code(e);
        sim::quiet q;
        sim::ev("got-error", s, c);
        Stage& n = st[s];
        take(s, is_merge(n.kind) ? merge_port(s, -c) : 0, -c);
        if (n.timed_now && n.left <= 0 && !n.armed) { // still asks for input with a timeout: a new wait
            n.armed = true;
            n.armed_at = sim::now_ns();
        }
    }
};
template <class T>
struct Proc : ProcBase<T> { // close and set_error
    using ProcBase<T>::ProcBase;
    void await(T x) { this->taken({x.get()}); }
    void close() { this->closed(); }
    void set_error(std::exception_ptr e) { this->error(e); }
};
template <class T>
struct ProcC : ProcBase<T> { // close only
    using ProcBase<T>::ProcBase;
    void await(T x) { this->taken({x.get()}); }
    void close() { this->closed(); }
};
template <class T>
struct ProcN : ProcBase<T> { // neither
    using ProcBase<T>::ProcBase;
    void await(T x) { this->taken({x.get()}); }
};
template <class T>
struct ZipProc : ProcBase<T> {
    using ProcBase<T>::ProcBase;
    void await(T x, T y) { this->taken({x.get(), y.get()}); }
    void close() { this->closed(); }
};

template <class T>
struct Net {
    std::vector<std::optional<stlab::receiver<T>>> rx{MAXST};
    std::vector<std::optional<stlab::receiver<void>>> sinks{MAXST};
    std::vector<std::optional<stlab::receiver<void>>> pipes{MAXST};
    std::vector<std::optional<stlab::receiver<T>>> piped{MAXST};
    std::vector<std::vector<stlab::sender<T>>> tx{MAXST};
    std::deque<Fn<T>> fns;
    std::deque<SinkFn<T>> sfns;

    // ---- wiring
    template <class R, class F>
    static auto attach_form(R& r, F f, Stage& n) {
        using stlab::operator&;
        const stlab::executor e{TagExec{n.ex}};
        const stlab::buffer_size b{(size_t)n.buf};
        switch (n.form) {
            case 1: return r | (e & std::move(f));
            case 2: return r | (std::move(f) & e);
            case 3: return r | (b & std::move(f));
            case 4: return r | (std::move(f) & b);
            case 5: return r | (b & e & std::move(f));
            case 6: return r | (std::move(f) & (e & b));
            case 7: return r | ((stlab::executor{TagExec{n.ex}} & b) & std::move(f));
            case 8: return r | ((b & std::move(f)) & stlab::executor{TagExec{n.ex}});
            case 9: return r | (std::move(f) & (b & stlab::executor{TagExec{n.ex}}));
            default: return r | std::move(f);
        }
    }
    // forms without executor inherit it; forms without buffer size have 1
    static bool form_ex(int f) { return f != 0 && f != 3 && f != 4; }
    static bool form_buf(int f) { return f != 0 && f != 1 && f != 2; }

    stlab::receiver<T>& piped_from(int s, stlab::receiver<T>& r) {
        Stage& n = st[s];
        if (!n.pipe) return r;
        auto c = stlab::channel<T>(TagExec{n.pex});
        pipes[s] = r | std::move(c.first);
        piped[s] = std::move(c.second);
        return *piped[s];
    }
    void wire_sink(int s, stlab::receiver<T>& up) {
        Stage& n = st[s];
        auto& r = piped_from(s, up);
        {
            sim::quiet q;
            n.wired = true;
            n.unready = 0;
            for (int p = 0; p < n.nup; ++p)
                st[n.up[p]].downs.push_back(s);
        }
        if (n.kind == REFSINK) {
            sfns.push_back(SinkFn<T>{s, MLife(s)});
            sinks[s] = attach_form(r, std::ref(sfns.back()), n);
        } else
            sinks[s] = attach_form(r, SinkFn<T>{s, MLife(s)}, n);
        piped[s].reset();
    }
    void wire(int s) {
        Stage& n = st[s];
        sim::ev("wire", s, n.kind * 100 + n.form + n.tuple * 20 + n.pipe * 40, n.up[0] + 100 * n.up[1] + 10000 * n.buf);
        if (n.kind == HEAD) {
            auto p = stlab::channel<T>(TagExec{n.ex});
            tx[s].push_back(std::move(p.first));
            rx[s] = std::move(p.second);
            n.wired = true;
            return;
        }
        if (n.kind == GEN) {
            auto c = stlab::channel<void>(TagExec{n.ex});
            rx[s] = std::move(c) | Gen<T>{s, MLife(s), n.gen_n};
            n.wired = true;
            return;
        }
        if (is_sink(n.kind)) return wire_sink(s, *rx[n.up[0]]);
        auto& r = piped_from(s, *rx[n.up[0]]);
        for (int p = 0; p < n.nup; ++p)
            st[n.up[p]].downs.push_back(s);
        n.wired = true;
        TagExec e{n.ex};
        switch (n.kind) {
            case FN: rx[s] = attach_form(r, Fn<T>{s, MLife(s)}, n); break;
            case REFFN:
                fns.push_back(Fn<T>{s, MLife(s)});
                rx[s] = attach_form(r, std::ref(fns.back()), n);
                break;
            case FUNCPROC:
                if constexpr (std::is_copy_constructible_v<T>)
                    rx[s] = attach_form(r, stlab::function_process<T(T)>([f = std::make_shared<Fn<T>>(Fn<T>{s, MLife(s)})](T x) { return (*f)(std::move(x)); }), n);
                break;
            case PROC:
                if (n.seterr) rx[s] = attach_form(r, Proc<T>{s, MLife(s)}, n);
                else if (n.flush || n.form & 1) rx[s] = attach_form(r, ProcC<T>{s, MLife(s)}, n);
                else rx[s] = attach_form(r, ProcN<T>{s, MLife(s)}, n);
                break;
            case ZIPPROC: rx[s] = stlab::zip_with(e, ZipProc<T>{s, MLife(s)}, r, *rx[n.up[1]]); break;
            case ZIP:
                if (n.nup == 3) {
                    if (n.form & 1) rx[s] = stlab::merge_channel<stlab::zip_with_t>(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]], *rx[n.up[2]]);
                    else rx[s] = stlab::zip_with(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]], *rx[n.up[2]]);
                } else if (n.tuple)
                    rx[s] = stlab::zip(e, r, *rx[n.up[1]]) | Fn<T>{s, MLife(s)};
                else
                    rx[s] = stlab::zip_with(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]]);
                break;
            case RR:
                if constexpr (std::is_copy_constructible_v<T>) {
                    if (n.nup == 3) rx[s] = stlab::merge_channel<stlab::round_robin_t>(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]], *rx[n.up[2]]);
                    else if (n.seterr) rx[s] = stlab::merge_channel<stlab::round_robin_t>(e, Proc<T>{s, MLife(s)}, r, *rx[n.up[1]]);
                    else rx[s] = stlab::merge_channel<stlab::round_robin_t>(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]]);
                }
                break;
            case UN:
                if (n.nup == 3) rx[s] = stlab::merge_channel<stlab::unordered_t>(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]], *rx[n.up[2]]);
                else if (n.seterr) rx[s] = stlab::merge_channel<stlab::unordered_t>(e, Proc<T>{s, MLife(s)}, r, *rx[n.up[1]]);
                else rx[s] = stlab::merge_channel<stlab::unordered_t>(e, Fn<T>{s, MLife(s)}, r, *rx[n.up[1]]);
                break;
        }
        piped[s].reset(); // which makes it ready
    }
};

// ---- oracle at quiescence
inline size_t stays(int d, int p);
inline bool blocked(int s);
inline bool nothing_for(int s, int p);
inline bool waits(int s, int p) { // merge s rightly does not take the next value of input p
    Stage& n = st[s];
    if (n.kind == ZIP || n.kind == ZIPPROC) {
        for (int o = 0; o < n.nup; ++o)
            if (o != p && nothing_for(s, o)) return true;
        return nothing_for(s, p);
    } else if (n.kind == RR && n.rr_next != p)
        return nothing_for(s, n.rr_next);
    return false;
}
// A channel which is suspended because of another consumer keeps what was sent.
inline bool nothing_for(int s, int p) {
    static unsigned looking = 0;
    Stage& n = st[s];
    int u = n.up[p];
    if (n.cur[p] >= avail(u)) return true;
    if (st[u].kind != HEAD || st[u].downs.size() < 2) return false;
    if (looking >> u & 1) return true; // they may wait for each other
    looking |= 1u << u;
    bool none = false;
    for (int d : st[u].downs) {
        Stage& x = st[d];
        if (d == s || !alive(d) || x.dead || x.pipe || !x.buf) continue;
        for (int q = 0; q < x.nup; ++q)
            if (x.up[q] == u && n.cur[p] >= x.cur[q] + stays(d, q) && (waits(d, q) || blocked(d))) none = true;
    }
    looking &= ~(1u << u);
    return none;
}
// How many values of an input stage d may rightly have in its buffer for ever. The queue in front of zip() has
// one place, and what is paired waits in the queue of the function.
inline size_t stays(int d, int p) {
    Stage& x = st[d];
    if (!x.tuple) return (size_t)room(x);
    size_t pairs = (size_t)x.buf;
    for (int o = 0; o < x.nup; ++o)
        if (o != p) pairs = std::min(pairs, avail(x.up[o]) - x.cur[o]);
    return pairs + 1;
}
inline bool full(int s, size_t extra) { // a downstream of s waits for something else and has no room (and more to come)
    for (int d : st[s].downs) {
        Stage& x = st[d];
        if (!alive(d) || x.dead || room(x) == 0) continue;
        for (int p = 0; p < x.nup; ++p)
            if (x.up[p] == s && avail(s) >= x.cur[p] + stays(d, p) + extra && (waits(d, p) || blocked(d))) return true;
    }
    return false;
}
inline bool blocked(int s) { return full(s, 0); } // stage s rightly is suspended
inline bool next_is_unaccepted_error(int s) {
    Stage& n = st[s];
    if (n.seterr) return false;
    if (n.kind == RR) {
        Stage& u = st[n.up[n.rr_next]];
        return n.cur[n.rr_next] < u.out.size() && u.out[n.cur[n.rr_next]] < 0;
    }
    bool err = false, all = true;
    for (int p = 0; p < n.nup; ++p) {
        Stage& u = st[n.up[p]];
        bool have = n.cur[p] < avail(n.up[p]);
        all &= have;
        err |= n.cur[p] < u.out.size() && u.out[n.cur[p]] < 0;
    }
    return err && (n.kind != ZIP && n.kind != ZIPPROC ? true : all);
}
inline void check_drained(const char* when) {
    sim::quiet q;
    for (int s = nst - 1; s >= 0; --s) {
        Stage& n = st[s];
        if (!n.wired || !alive(s)) continue;
        if (n.active) sim::fail("stuck", "stage %d is still active %s", s, when);
        if (n.kind == HEAD || n.kind == GEN) continue;
        if (next_is_unaccepted_error(s) && !blocked(s)) n.dead = true;
    }
    for (int s = 0; s < nst; ++s) {
        Stage& n = st[s];
        if (!n.wired || !alive(s)) continue;
        if (n.kind == HEAD) continue;
        if (n.kind == GEN) {
            if ((int)n.out.size() != n.gen_n && !blocked(s))
                sim::fail("stuck", "generator %d produced only %zu of %d values %s", s, n.out.size(), n.gen_n, when);
            continue;
        }
        if (n.dead) continue;
        if (n.left > 0 && !blocked(s)) sim::fail("stuck", "process %d still has %d results to yield %s", s, n.left, when);
        if (n.armed && n.timed_now && n.left <= 0 && !blocked(s))
            sim::fail("timeout-lost", "the timed wait of process %d never ended %s", s, when);
        for (int p = 0; p < n.nup; ++p)
            if (n.cur[p] < avail(n.up[p]) && !waits(s, p) && !blocked(s) && !(st[n.up[p]].kind == HEAD && blocked(n.up[p])))
                sim::fail("lost-value", "stage %d took only %zu of the %zu values of stage %d %s", s, n.cur[p], avail(n.up[p]), n.up[p], when);
    }
}
// all senders are closed: who must be closed now?
inline bool must_close(int s) {
    Stage& n = st[s];
    if (n.kind == GEN) return false;
    // who is suspended cannot be closed as long as there is something left to be passed on
    if (n.kind == HEAD) return n.handles == 0 && n.unready <= 0 && !full(s, 1);
    if (n.dead) return true;
    if (blocked(s)) {
        if (n.left > 0 || n.timed_now) return false;
        for (int p = 0; p < n.nup; ++p)
            if (n.cur[p] < avail(n.up[p]) && !waits(s, p)) return false;
    }
    if (n.unready > 0) return false;
    for (int p = 0; p < n.nup; ++p)
        if (!must_close(n.up[p])) return false;
    return true;
}
inline void check_closed() {
    sim::quiet q;
    for (int s = 0; s < nst; ++s) {
        Stage& n = st[s];
        if (!n.wired || !alive(s) || !has_life(n.kind)) continue;
        if (must_close(s)) {
            if (g_life[s] != 0) sim::fail("not-closed", "stage %d was not released although all senders are closed", s);
            if (n.kind == PROC && (n.seterr || n.flush || (n.form & 1)) && n.closes != 1 && n.flush != -1)
                sim::fail("not-closed", "process %d was closed %d times", s, n.closes);
        }
    }
}

template <class T>
struct Run {
    Net<T> net;
    struct Op {
        int op, a, b;
    };
    enum { SEND, JIT, READY, DROPRX, DETACH, COPYTX, DROPTX, CLOSETX, MOVETX, ASSIGNTX, SWAPTX, ATTACH, COPYRX, SLEEP, MOVERX };
    std::vector<std::vector<Op>> plan;
    std::mutex hm[MAXST];
    std::vector<stlab::sender<T>> pool[8];           // per client
    std::vector<int> pool_head[8];

    void new_stage(int kind, std::vector<int> ups) {
        Stage& n = st[nst];
        n.kind = kind;
        n.nup = (int)ups.size();
        for (size_t i = 0; i < ups.size(); ++i)
            n.up[i] = ups[i];
        n.heads = ups.empty() ? 1u << nst : 0;
        bool common = false;
        for (int u : ups) {
            common |= (n.heads & st[u].heads) != 0;
            n.heads |= st[u].heads;
        }
        // branches of one source joined in step block each other when the buffers are small: not a promise
        if (common && (kind == ZIP || kind == ZIPPROC || kind == RR)) n.kind = UN;
        ++nst;
    }
    static int draw_ex() {
        static const int exs[] = {EX_POOL, EX_IMM, EX_WORKER, EX_POOL, EX_SERIAL, EX_HIGH};
        return exs[sim::W(6)];
    }
    void draw_common(int s) {
        Stage& n = st[s];
        n.slow = cfg.slow ? sim::W(exact ? 2 : 3) : 0;
        if (n.kind == HEAD || n.kind == GEN || is_merge(n.kind)) {
            n.ex = draw_ex();
            n.form = sim::W(2);
            n.pex = n.ex;
            n.tuple = n.kind == ZIP && n.nup == 2 && sim::W(3) == 1;
        } else {
            n.form = sim::W(10);
            int b = sim::W(5);
            n.buf = Net<T>::form_buf(n.form) ? b : 1;
            int e = draw_ex();
            n.pipe = cfg.pipes && sim::W(8) == 5 && !(n.kind == PROC && (n.seterr || cfg.timed));
            n.pex = n.pipe ? draw_ex() : st[n.up[0]].ex;
            n.ex = Net<T>::form_ex(n.form) ? e : n.pex;
            // ref-wrapped and plain processes only differ in who owns them
        }
        if (cfg.errors && n.kind != HEAD && n.kind != SINK && n.kind != REFSINK) {
            int m = sim::W(4);
            n.throws = m == 1 ? 1u << sim::W(5) : m == 2 ? (unsigned)sim::W(64) : 0;
        }
        if (n.kind == PROC || n.kind == ZIPPROC || ((n.kind == UN || n.kind == RR) && n.seterr)) {
            n.need = 1 + sim::W(3);
            n.outs = sim::W(4);
            if (n.outs == 3) n.outs = 1;
            if (cfg.timed) {
                n.wait = sim::W(3) ? W_TIMED : W_FOREVER;
                n.wait_ns = draw_ns(1 + sim::W(6));
                n.again = sim::W(2);
                n.ydelay_ns = sim::W(4) == 1 ? draw_ns(1 + sim::W(3)) : 0;
            }
            n.flush = n.kind == PROC ? sim::W(4) : 0;
            if (n.flush == 3) n.flush = 0; // 1: yields what it still holds when it is closed, 2: even if that is nothing
        }
        if (n.kind == GEN) {
            n.gen_n = sim::W(cfg.max_msgs * 2);
            if (cfg.timed || sim::W(4) == 1) n.ydelay_ns = draw_ns(sim::W(3));
        }
    }
    void build() {
        int H = 1 + (cfg.max_heads > 1 ? sim::W(cfg.max_heads) : 0);
        if (cfg.want_merge && H < 2) H = 2;
        for (int h = 0; h < H; ++h) {
            bool g = cfg.gen && (cfg.want_gen ? sim::W(4) != 3 : sim::W(4) == 1);
            new_stage(g ? GEN : HEAD, {});
            draw_common(nst - 1);
        }
        std::vector<int> open; // stages that need a consumer
        for (int h = 0; h < H; ++h)
            open.push_back(h);
        int grow = sim::W(cfg.max_stages);
        bool merged = false, splitted = false;
        for (int k = 0; k < grow && nst < 16; ++k) {
            int x = sim::W(10);
            int u = open[sim::W((int)open.size())];
            if (cfg.merge && open.size() > 1 && (x < 3 || (cfg.want_merge && !merged))) {
                int m = 2 + (open.size() > 2 ? sim::W(2) : 0);
                std::vector<int> ups;
                for (int i = 0; i < m; ++i) {
                    int j = sim::W((int)open.size());
                    ups.push_back(open[j]);
                    open.erase(open.begin() + j);
                }
                int mk = sim::W(5);
                int kind = mk == 0 ? ZIP : mk == 1 ? RR : mk == 2 ? UN : mk == 3 ? (cfg.proc && m == 2 ? ZIPPROC : ZIP) : UN;
                if (kind == RR && !std::is_copy_constructible_v<T>) kind = UN;
                new_stage(kind, ups);
                if ((st[nst - 1].kind == UN || st[nst - 1].kind == RR) && m == 2 && cfg.proc) st[nst - 1].seterr = mk == 4 || sim::W(3) == 1;
                draw_common(nst - 1);
                open.push_back(nst - 1);
                merged = true;
            } else if (cfg.split && (x < 6 || (cfg.want_split && !splitted)) && std::is_copy_constructible_v<T>) {
                // a second consumer of u
                int kind = FN;
                new_stage(kind, {u});
                draw_common(nst - 1);
                open.push_back(nst - 1);
                splitted = true;
            } else {
                for (size_t j = 0; j < open.size(); ++j)
                    if (open[j] == u) {
                        open.erase(open.begin() + j);
                        break;
                    }
                int y = sim::W(6);
                int kind = cfg.proc && (y < 3 || cfg.want_proc) ? PROC : y == 3 ? REFFN : y == 4 && std::is_copy_constructible_v<T> ? FUNCPROC : FN;
                new_stage(kind, {u});
                if (kind == PROC && cfg.errors) st[nst - 1].seterr = sim::W(2);
                else if (kind == PROC) st[nst - 1].seterr = sim::W(4) == 1;
                draw_common(nst - 1);
                open.push_back(nst - 1);
            }
        }
        for (int u : open) {
            if (sim::W(10) == 7) { // nobody takes the results
                st[u].open_end = true;
                continue;
            }
            new_stage(sim::W(4) == 1 ? REFSINK : SINK, {u});
            draw_common(nst - 1);
        }
        if (cfg.split && std::is_copy_constructible_v<T>) { // further sinks anywhere
            int more = sim::W(3);
            while (more-- && nst < 20) {
                int u = sim::W(nst);
                if (is_sink(st[u].kind)) continue;
                new_stage(SINK, {u});
                draw_common(nst - 1);
                st[nst - 1].late = cfg.late_attach && sim::W(2);
            }
        }
    }

    void send(int c, int slot, int sender_no) {
        int h = pool_head[c][slot];
        int n;
        {
            sim::quiet q;
            n = st[h].sent_n[sender_no]++;
            st[h].out_at.push_back(sim::now_ns());
            sim::ev("send", h, sender_no, n);
        }
        pool[c][slot](T(head_id(h, sender_no, n)));
    }
    void opened(int h) {
        sim::quiet q;
        st[h].handles++;
    }
    void closing(int h) {
        sim::quiet q;
        st[h].handles--;
        sim::ev("closing", h, st[h].handles);
    }
    std::vector<stlab::receiver<T>> rcopies[8];
    std::vector<int> rcopy_of[8];

    void make_ready(int s) {
        {
            sim::quiet q;
            st[s].unready--;
            sim::ev("ready", s, st[s].unready);
        }
        if (st[s].hold) net.rx[s]->set_ready();
        else net.rx[s].reset();
    }

    void run() {
        int C;
        std::vector<int> by_main;
        {
            sim::quiet q;
            sim::set_hw(1 + sim::W(4));
            exact = cfg.timed && sim::W(2);
            build();
            C = 1 + sim::W(3);
            plan.resize(C);
            unsigned mask = 0;
            for (int s = 0; s < nst; ++s)
                mask |= 1u << st[s].ex | 1u << st[s].pex;
            env->prepare(mask);
            unsigned faults = cfg.faults;
            if (exact) faults &= ~(1u << sim::F_TIMEJUMP | 1u << sim::F_STALL);
            sim::enable_faults(faults);
            // who sends what
            for (int h = 0; h < nst; ++h) {
                Stage& n = st[h];
                n.hold = !is_sink(n.kind) && (sim::W(3) == 1 || n.open_end);
                n.can_detach = cfg.drops && is_sink(n.kind) && sim::W(2);
                if (n.kind != HEAD) continue;
                int S = 1 + sim::W(cfg.max_senders);
                int N = sim::W(cfg.max_msgs);
                for (int s = 0; s < S; ++s) {
                    int c = sim::W(C);
                    int slot = (int)pool_head[c].size();
                    pool_head[c].push_back(h);
                    n.next_n.push_back(0);
                    n.sent_n.push_back(0);
                    int sno = s;
                    int m = s == 0 || cfg.unequal ? N : sim::W(N + 1);
                    if (cfg.unequal) m = sim::W(N + 1);
                    std::vector<Op> ops;
                    for (int i = 0; i < m; ++i) {
                        ops.push_back({SEND, slot, sno});
                        if (sim::W(3) == 1) ops.push_back({JIT, 0, 0});
                        if (cfg.timed && sim::W(3) == 1) ops.push_back({SLEEP, sim::W(8), 0});
                        if (cfg.history && sim::W(2)) ops.push_back({COPYTX + sim::W(6), slot, h});
                    }
                    if (cfg.history || sim::W(2)) ops.push_back({sim::W(2) ? CLOSETX : DROPTX, slot, 1});
                    // interleave with what the client already does
                    auto& p = plan[c];
                    std::vector<Op> mg;
                    size_t i = 0, j = 0;
                    while (i < p.size() || j < ops.size()) {
                        if (j == ops.size() || (i < p.size() && sim::W(2))) mg.push_back(p[i++]);
                        else mg.push_back(ops[j++]);
                    }
                    p = mg;
                }
            }
            // readiness
            for (int s = 0; s < nst; ++s) {
                Stage& n = st[s];
                if (is_sink(n.kind)) {
                    if (n.late) {
                        auto& p = plan[sim::W(C)];
                        p.insert(p.begin() + sim::W((int)p.size() + 1), Op{ATTACH, s, 0});
                    }
                    if (n.can_detach) {
                        auto& p = plan[sim::W(C)];
                        size_t lo = 0;
                        for (size_t i = 0; i < p.size(); ++i)
                            if (p[i].op == ATTACH && p[i].a == s) lo = i + 1;
                        bool mine = !n.late || lo;
                        if (mine) p.insert(p.begin() + lo + sim::W((int)(p.size() - lo) + 1), Op{DETACH, s, 0});
                        else n.can_detach = false;
                    }
                    continue;
                }
                if (cfg.ready && sim::W(2)) {
                    auto& p = plan[sim::W(C)];
                    p.insert(p.begin() + sim::W((int)p.size() + 1), Op{READY, s, 0});
                } else
                    by_main.push_back(s);
                if (cfg.ready && n.kind != GEN && std::is_copy_constructible_v<T>) {
                    int cp = sim::W(3);
                    while (cp--) {
                        int c = sim::W(C);
                        int slot = (int)rcopy_of[c].size();
                        rcopy_of[c].push_back(s);
                        auto& p = plan[c];
                        int at = sim::W((int)p.size() + 1);
                        int how = sim::W(4);
                        if (how < 2) n.hold = true; // kept until the end
                        p.insert(p.begin() + at, Op{how < 2 ? READY + 100 : how == 2 ? DROPRX : MOVERX, slot, 0});
                    }
                }
            }
            if (by_main.size() > 1)
                for (size_t i = by_main.size() - 1; i > 0; --i)
                    std::swap(by_main[i], by_main[sim::W((int)i + 1)]);
        }
        for (int s = 0; s < nst; ++s)
            if (!st[s].late) net.wire(s);
        for (int c = 0; c < C; ++c) {
            for (int s : rcopy_of[c]) {
                st[s].unready++;
                rcopies[c].push_back(*net.rx[s]);
            }
        }
        // late sinks are attached from their own unready copies
        std::vector<std::optional<stlab::receiver<T>>> lrx(MAXST);
        for (int s = 0; s < nst; ++s)
            if (st[s].late) {
                st[st[s].up[0]].unready++;
                lrx[s] = *net.rx[st[s].up[0]];
            }
        // senders
        for (int c = 0; c < C; ++c)
            for (size_t i = 0; i < pool_head[c].size(); ++i) {
                int h = pool_head[c][i];
                if constexpr (std::is_copy_constructible_v<T>) {
                    opened(h);
                    pool[c].push_back(net.tx[h][0]);
                } else if (!net.tx[h].empty()) { // one sender only
                    opened(h);
                    pool[c].push_back(std::move(net.tx[h][0]));
                    net.tx[h].clear();
                } else
                    pool[c].push_back(stlab::sender<T>{});
            }
        bool ready_first;
        int tmp_copies[MAXST];
        {
            sim::quiet q;
            ready_first = !cfg.ready && sim::W(2);
            for (int s = 0; s < nst; ++s)
                tmp_copies[s] = is_sink(st[s].kind) && !st[s].late ? sim::W(6) : 0;
        }
        for (int s = 0; s < nst; ++s) // handles of the ends of a network are copied, set ready and dropped at any time
            for (int k = 3; k < tmp_copies[s]; ++k) {
                auto r = *net.sinks[s];
                if (tmp_copies[s] == 5) r.set_ready();
            }
        if (ready_first)
            for (int s : by_main)
                make_ready(s);
        {
            Clients cl;
            for (int c = 0; c < C; ++c)
                cl.go([&, c] { client(c, lrx); });
            for (auto& t : net.tx)
                t.clear(); // the originals go while the clients run
            if (!ready_first)
                for (int s : by_main) {
                    if (sim::user_choice(3) == 1) jitter();
                    make_ready(s);
                }
            cl.join();
        }
        sim::quiesce();
        check_drained("at quiescence");
        // close what is still open
        for (int c = 0; c < C; ++c)
            for (size_t i = 0; i < pool[c].size(); ++i) {
                if (pool_head[c][i] < 0 || !pool_valid(c, (int)i)) continue;
                closing(pool_head[c][i]);
                if (i & 1) pool[c][i].close();
                else pool[c][i] = stlab::sender<T>{};
            }
        sim::quiesce();
        check_drained("after closing");
        check_closed();
        for (int c = 0; c < C; ++c)
            pool[c].clear();
        {
            sim::quiet q;
            drop_phase = true;
        }
        for (auto& r : rcopies)
            r.clear();
        for (auto& r : net.sinks)
            r.reset();
        for (int s = 0; s < nst; ++s)
            net.rx[s].reset();
        for (auto& r : net.pipes)
            r.reset();
        sim::quiesce(); // dropped consumers let their producers go on, maybe
        net.fns.clear();
        net.sfns.clear();
        tearing_down = true;
        shutdown_env();
        for (int s = 0; s < nst; ++s)
            if (has_life(st[s].kind)) check_life(s, 0, "after everything was dropped");
        check_payloads_released("after everything was dropped");
    }

    void client(int c, std::vector<std::optional<stlab::receiver<T>>>& lrx) {
        for (Op& o : plan[c]) switch (o.op) {
                case SEND:
                    if (pool_head[c][o.a] >= 0) {
                        if (std::is_copy_constructible_v<T> || st[pool_head[c][o.a]].handles > 0) send_if_open(c, o.a, o.b);
                    }
                    break;
                case JIT: jitter(); break;
                case SLEEP: std::this_thread::sleep_for(std::chrono::microseconds(o.a * 1000)); break;
                case READY: make_ready(o.a); break;
                case READY + 100:
                    ready_copy(c, o.a);
                    rcopies[c][o.a].set_ready();
                    break;
                case DROPRX:
                    ready_copy(c, o.a);
                    sim::fault(sim::F_CANCEL);
                    rcopies[c][o.a] = stlab::receiver<T>{};
                    break;
                case MOVERX: {
                    ready_copy(c, o.a);
                    auto r = std::move(rcopies[c][o.a]);
                    r.set_ready();
                    auto r2 = r; // a copy of a ready receiver is ready
                    break;
                }
                case ATTACH: {
                    int s = o.a;
                    sim::ev("attach", s);
                    net.wire_sink(s, *lrx[s]);
                    {
                        sim::quiet q;
                        st[st[s].up[0]].unready--;
                    }
                    lrx[s].reset();
                    break;
                }
                case DETACH: {
                    {
                        sim::quiet q;
                        st[o.a].detached = true;
                        sim::ev("detach", o.a);
                        sim::fault(sim::F_CANCEL);
                    }
                    net.sinks[o.a].reset();
                    break;
                }
                case CLOSETX:
                case DROPTX: {
                    if (pool_head[c][o.a] < 0) break;
                    if (!o.b) break;
                    drop_tx(c, o.a, o.op == CLOSETX);
                    break;
                }
                default: history(c, o); break;
            }
    }
    void ready_copy(int c, int slot) {
        sim::quiet q;
        st[rcopy_of[c][slot]].unready--;
        sim::ev("ready-copy", rcopy_of[c][slot], st[rcopy_of[c][slot]].unready);
    }
    std::vector<char> open_[8];
    bool is_open(int c, int slot) { return pool_head[c][slot] >= 0; }
    void send_if_open(int c, int slot, int sno) {
        if (!pool_valid(c, slot)) return;
        send(c, slot, sno);
    }
    bool pool_valid(int c, int slot) {
        if constexpr (std::is_copy_constructible_v<T>) return true;
        else return !(pool[c][slot] == stlab::sender<T>{});
    }
    void drop_tx(int c, int slot, bool close) {
        int h = pool_head[c][slot];
        if (pool_valid(c, slot)) {
            closing(h);
            sim::fault(sim::F_SENDERDROP);
        }
        pool_head[c][slot] = -1;
        if (close) pool[c][slot].close();
        else {
            auto x = std::move(pool[c][slot]);
        }
    }
    void history(int c, Op& o) {
        int slot = o.a;
        if (pool_head[c][slot] < 0) return;
        int h = pool_head[c][slot];
        if constexpr (!std::is_copy_constructible_v<T>) {
            if (!pool_valid(c, slot)) return;
            stlab::sender<T> x = std::move(pool[c][slot]);
            if (o.op == SWAPTX) {
                stlab::sender<T> y;
                y.swap(x);
                x = std::move(y);
            }
            pool[c][slot] = std::move(x);
        } else
            switch (o.op) {
                case COPYTX: { // a copy that goes away
                    opened(h);
                    stlab::sender<T> x = pool[c][slot];
                    closing(h);
                    break;
                }
                case MOVETX: {
                    stlab::sender<T> x = std::move(pool[c][slot]);
                    pool[c][slot] = std::move(x);
                    break;
                }
                case ASSIGNTX: { // assignment over an open sender
                    opened(h);
                    stlab::sender<T> x = pool[c][slot];
                    closing(h);
                    opened(h);
                    // x: old reference to h is dropped, a new one is taken
                    x = pool[c][slot];
                    closing(h);
                    break;
                }
                case SWAPTX: {
                    opened(h);
                    stlab::sender<T> x = pool[c][slot];
                    swap(x, pool[c][slot]);
                    closing(h);
                    break;
                }
                case DROPTX:
                case CLOSETX: { // replace the open sender by a copy of itself
                    opened(h);
                    stlab::sender<T> x = pool[c][slot];
                    closing(h);
                    pool[c][slot] = std::move(x);
                    break;
                }
            }
    }
};

inline void run_chan(const Cfg& c) {
    static Env the_env;
    bool mo;
    {
        sim::quiet q;
        cfg = c;
        env = &the_env;
        mo = cfg.moveonly && sim::W(3) == 1;
    }
    if (mo) {
        static Run<MVal> r;
        r.run();
    } else {
        static Run<Val> r;
        r.run();
    }
}
} // namespace chan
