// Driver: seeded search over simulated runs (one forked process per run), minimisation, replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace simi;

static double wall() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t mixseed(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xD1B54A32D192ED03ull + 0x8CB92BA72F3D8DD7ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

template <class T>
static T* shared_alloc(size_t n) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return (T*)p;
}

static Shared* g_sh;
static int g_jobs = 8;
static int g_alarm = 60;

static void reset(Result* r) { memset(r, 0, offsetof(Result, Wv)); r->nD = 0; }

// one run in a forked child
static void one_run(const RunSpec& s, Result* r, int retries = 3) {
    reset(r);
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        _exit(2);
    }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(g_alarm);
        run_child(s, r, g_sh);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (r->status == ST_NONE && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && retries) { // memory was short
        sleep(1);
        return one_run(s, r, retries - 1);
    }
    if (r->status == ST_NONE) {
        r->status = ST_INTERNAL;
        snprintf(r->cls, sizeof r->cls, "internal");
        snprintf(r->msg, sizeof r->msg, "run seed %llu ended without a verdict (wait status 0x%x)",
                 (unsigned long long)s.seed, st);
    }
}

struct Agg {
    uint64_t runs, ok, discards, internal, points, switches, choices, simtime, accesses;
    uint64_t faults[sim::F_NFAULT], runs_with_fault[sim::F_NFAULT];
    uint64_t probes[MAXPROBE];
    uint64_t maxthreads, events;
    uint64_t nontrivial;
    char imsg[600];
    char dmsg[200];
};
struct Ctl {
    volatile long found; // lowest index with a violation (LONG_MAX none)
    volatile long stop;
};

static void fetch_min(volatile long* p, long v) {
    long o = *p;
    while (v < o && !__atomic_compare_exchange_n(p, &o, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        ;
}

struct Batch {
    std::vector<uint64_t> seeds; // or generated
    uint64_t base = 0;
    long n = 0;
    bool replay_w = false;
    std::vector<int> W;
    std::string want_cls; // empty: any violation
    double deadline = 1e300;
};
static uint64_t run_seed(uint64_t base, long i) { return mixseed(base, (uint64_t)i) >> 1; }

struct BatchOut {
    long found = -1;
    uint64_t seed = 0;
    Agg agg{};
    long done = 0;
};

static uint64_t* g_ih;
static uint64_t* g_eh;
static Result* g_res[64];
static Agg* g_agg;
static Ctl* g_ctl;
static int g_ncpu = 1;
static cpu_set_t g_cpus;

static BatchOut run_batch(const Batch& b, bool collect) {
    g_ctl->found = __LONG_MAX__;
    memset(g_agg, 0, sizeof(Agg) * 64);
    std::vector<pid_t> pids;
    for (int j = 0; j < g_jobs; ++j) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            // pin to one cpu: simulated threads run one at a time
            int want = j % g_ncpu, c = 0;
            for (int k = 0; k < CPU_SETSIZE; ++k)
                if (CPU_ISSET(k, &g_cpus)) {
                    if (c == want) {
                        cpu_set_t one;
                        CPU_ZERO(&one);
                        CPU_SET(k, &one);
                        sched_setaffinity(0, sizeof one, &one);
                        break;
                    }
                    ++c;
                }
            Result* r = g_res[j];
            Agg& a = g_agg[j];
            for (long i = j; i < b.n; i += g_jobs) {
                if (i > g_ctl->found) break;
                if (wall() > b.deadline) break;
                RunSpec s{};
                s.seed = run_seed(b.base, i);
                s.replay_w = b.replay_w;
                s.Wv = b.W.data();
                s.nW = (int)b.W.size();
                one_run(s, r);
                a.runs++;
                a.points += r->points;
                a.switches += r->switches;
                a.choices += r->choices;
                a.simtime += r->simtime;
                a.accesses += r->accesses;
                a.events += r->nevents;
                if ((uint64_t)r->nthreads > a.maxthreads) a.maxthreads = r->nthreads;
                bool nt = false;
                for (int f = 0; f < sim::F_NFAULT; ++f) {
                    a.faults[f] += r->faults[f];
                    a.runs_with_fault[f] += r->faults[f] != 0;
                    nt |= r->faults[f] != 0;
                }
                for (int k = 0; k < MAXPROBE; ++k)
                    a.probes[k] += r->probes[k];
                if (collect) {
                    g_ih[i] = r->ihash | 1;
                    g_eh[i] = r->ehash | 1;
                    if (!nt || r->switches == 0 || r->status != ST_OK) g_ih[i] = 0;
                }
                if (r->status == ST_OK) a.ok++;
                else if (r->status == ST_DISCARD) {
                    a.discards++;
                    snprintf(a.dmsg, sizeof a.dmsg, "%s", r->msg);
                } else if (r->status == ST_INTERNAL) {
                    a.internal++;
                    snprintf(a.imsg, sizeof a.imsg, "seed %llu: %.500s", (unsigned long long)s.seed, r->msg);
                } else if (b.want_cls.empty() || b.want_cls == r->cls) {
                    fetch_min(&g_ctl->found, i);
                    break;
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            ;
    }
    BatchOut o;
    for (int j = 0; j < g_jobs; ++j) {
        Agg& a = g_agg[j];
        o.agg.runs += a.runs;
        o.agg.ok += a.ok;
        o.agg.discards += a.discards;
        o.agg.internal += a.internal;
        o.agg.points += a.points;
        o.agg.switches += a.switches;
        o.agg.choices += a.choices;
        o.agg.simtime += a.simtime;
        o.agg.accesses += a.accesses;
        o.agg.events += a.events;
        o.agg.maxthreads = std::max(o.agg.maxthreads, a.maxthreads);
        for (int f = 0; f < sim::F_NFAULT; ++f) {
            o.agg.faults[f] += a.faults[f];
            o.agg.runs_with_fault[f] += a.runs_with_fault[f];
        }
        for (int k = 0; k < MAXPROBE; ++k)
            o.agg.probes[k] += a.probes[k];
        if (a.imsg[0]) memcpy(o.agg.imsg, a.imsg, sizeof a.imsg);
        if (a.dmsg[0]) memcpy(o.agg.dmsg, a.dmsg, sizeof a.dmsg);
    }
    if (g_ctl->found != __LONG_MAX__) {
        o.found = g_ctl->found;
        o.seed = run_seed(b.base, o.found);
    }
    return o;
}

struct Case {
    uint64_t seed = 0;
    std::vector<int> W;
    std::vector<Decision> D;
    std::string cls, msg;
    uint64_t hash = 0;
};

static Result* g_r0;

static Case capture(const Result* r, uint64_t seed) {
    Case c;
    c.seed = seed;
    c.W.assign(r->Wv, r->Wv + r->nW);
    c.D.assign(r->D, r->D + r->nD);
    c.cls = r->cls;
    c.msg = r->msg;
    c.hash = r->hash;
    return c;
}

static void exec_case(const Case& c, FILE* trace = nullptr) {
    RunSpec s{};
    s.seed = c.seed;
    s.replay_w = true;
    s.Wv = c.W.data();
    s.nW = (int)c.W.size();
    s.replay_d = true;
    s.D = c.D.data();
    s.nD = (uint32_t)c.D.size();
    s.trace = trace;
    one_run(s, g_r0);
}

static void trim(std::vector<int>& w) {
    while (!w.empty() && w.back() == 0)
        w.pop_back();
}

static Case minimise(Case c, double budget) {
    double t0 = wall();
    uint64_t round = 0;
    // 1. workload: delete / zero / shrink entries; schedules are searched again for each candidate
    auto try_w = [&](std::vector<int> w) {
        trim(w);
        if (w == c.W) return false;
        Batch b;
        b.base = mixseed(c.seed, 1000 + round++);
        b.n = 240;
        b.replay_w = true;
        b.W = w;
        b.want_cls = c.cls;
        b.deadline = std::min(wall() + 4.0, t0 + budget * 0.7);
        BatchOut o = run_batch(b, false);
        if (o.found < 0) return false;
        RunSpec s{};
        s.seed = o.seed;
        s.replay_w = true;
        s.Wv = w.data();
        s.nW = (int)w.size();
        one_run(s, g_r0);
        if (g_r0->status != ST_VIOLATION || c.cls != g_r0->cls) return false;
        Case n = capture(g_r0, o.seed);
        trim(n.W);
        // accept only if it got simpler
        auto cost = [](const std::vector<int>& v) {
            long s = 0;
            for (int x : v)
                s += 1 + (x > 8 ? 8 : x);
            return s;
        };
        if (cost(n.W) >= cost(c.W)) return false;
        c = n;
        return true;
    };
    trim(c.W);
    bool progress = true;
    while (progress && wall() - t0 < budget * 0.7) {
        progress = false;
        for (size_t len = std::max<size_t>(1, c.W.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i < c.W.size() && wall() - t0 < budget * 0.7;) {
                auto w = c.W;
                w.erase(w.begin() + i, w.begin() + std::min(w.size(), i + len));
                if (try_w(w)) { progress = true; continue; }
                w = c.W;
                bool any = false;
                for (size_t k = i; k < std::min(w.size(), i + len); ++k)
                    if (w[k]) { w[k] = 0; any = true; }
                if (any && try_w(w)) { progress = true; }
                i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < c.W.size() && wall() - t0 < budget * 0.7; ++i)
            while (c.W.size() > i && c.W[i] > 1) {
                auto w = c.W;
                w[i] /= 2;
                if (!try_w(w)) break;
                progress = true;
            }
    }
    // 2. schedule and faults: delete decisions
    auto try_d = [&](const std::vector<Decision>& d) {
        Case n = c;
        n.D = d;
        exec_case(n);
        if (g_r0->status != ST_VIOLATION || c.cls != g_r0->cls) return false;
        auto W0 = c.W;
        c = capture(g_r0, c.seed);
        c.W = W0;
        return true;
    };
    try_d({});
    for (int pass = 0; pass < 3 && wall() - t0 < budget; ++pass) {
        size_t before = c.D.size();
        for (size_t len = std::max<size_t>(1, c.D.size() / 2); len >= 1; len /= 2) {
            for (size_t i = c.D.size(); i > 0 && wall() - t0 < budget;) {
                size_t lo = i > len ? i - len : 0;
                auto d = c.D;
                if (lo >= d.size()) { i = d.size(); if (!i) break; continue; }
                d.erase(d.begin() + lo, d.begin() + std::min(i, d.size()));
                try_d(d);
                i = std::min(lo, c.D.size());
            }
            if (len == 1) break;
        }
        if (c.D.size() == before) break;
    }
    return c;
}

static std::string hex(uint64_t v) {
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
    return b;
}
static void write_case(const char* path, const Case& c, const char* prop) {
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); exit(2); }
    fprintf(f, "sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nclass %s\nhash %s\n", prop,
            sim_scenario_name, (unsigned long long)c.seed, c.cls.c_str(), hex(c.hash).c_str());
    fprintf(f, "W %zu", c.W.size());
    for (int v : c.W)
        fprintf(f, " %d", v);
    fprintf(f, "\nD %zu", c.D.size());
    for (auto d : c.D)
        fprintf(f, " %u:%u", d.idx, d.val);
    fprintf(f, "\nend\n");
    fclose(f);
}
static bool read_case(const char* path, Case& c) {
    std::ifstream in(path);
    std::string line;
    bool end = false;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "seed") is >> c.seed;
        else if (k == "class") is >> c.cls;
        else if (k == "hash") { std::string h; is >> h; c.hash = strtoull(h.c_str(), nullptr, 16); }
        else if (k == "W") { size_t n; is >> n; c.W.resize(n); for (auto& x : c.W) is >> x; }
        else if (k == "D") {
            size_t n; is >> n; c.D.resize(n);
            for (auto& d : c.D) { char col; is >> d.idx >> col >> d.val; }
        } else if (k == "end") { end = true; break; }
    }
    return end;
}
static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static void append_trace(const char* path, const Case& c) {
    FILE* f = fopen(path, "a");
    if (!f) return;
    fflush(f);
    exec_case(c, f);
    fclose(f);
}

int main(int argc, char** argv) {
    // fixed addresses: re-exec is not needed, nothing depends on address values
    setenv("LC_ALL", "C", 1);
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc) { opt[a.substr(2)] = argv[i + 1]; ++i; }
        else pos.push_back(a);
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
    sched_getaffinity(0, sizeof g_cpus, &g_cpus);
    g_ncpu = CPU_COUNT(&g_cpus);
    if (g_ncpu < 1) g_ncpu = 1;
    g_jobs = std::min(60, (int)num("jobs", g_ncpu));
    g_sh = shared_alloc<Shared>(1);
    g_agg = shared_alloc<Agg>(64);
    g_ctl = shared_alloc<Ctl>(1);
    for (int j = 0; j < g_jobs; ++j)
        g_res[j] = shared_alloc<Result>(1);
    g_r0 = shared_alloc<Result>(1);
    std::string prop = opt.count("prop") ? opt["prop"] : sim_scenario_name;
    init_runtime();

    if (mode == "replay") {
        Case c;
        if (pos.empty() || !read_case(pos[0].c_str(), c)) {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        FILE* tf = opt.count("trace") ? fopen(opt["trace"].c_str(), "w") : nullptr;
        exec_case(c, tf);
        if (tf) fclose(tf);
        printf("replay: status=%d class=%s hash=%s expected_class=%s expected_hash=%s\n%s\n",
               g_r0->status, g_r0->cls, hex(g_r0->hash).c_str(), c.cls.c_str(), hex(c.hash).c_str(),
               g_r0->msg);
        if (g_r0->status == ST_VIOLATION && c.cls == g_r0->cls && c.hash == g_r0->hash) return 1;
        if (g_r0->status == ST_VIOLATION) return 3; // a different violation
        return g_r0->status == ST_INTERNAL ? 2 : 0;
    }
    if (mode == "one") { // run a single seed, print the trace
        RunSpec s{};
        s.seed = strtoull(opt["seed"].c_str(), nullptr, 0);
        if (opt.count("index")) s.seed = run_seed(mixseed(s.seed, 0), (long)num("index", 0)); // run i of a search
        if (opt.count("replayed")) { // repeated from its recorded decisions instead of the PRNG
            one_run(s, g_r0);
            exec_case(capture(g_r0, s.seed), stdout);
        } else {
            s.trace = stdout;
            one_run(s, g_r0);
        }
        printf("status %d class %s hash %s\n", g_r0->status, g_r0->cls, hex(g_r0->hash).c_str());
        return 0;
    }
    if (mode == "hashes") { // determinism evidence: print the hash of every run
        long n = (long)num("runs", 1000);
        uint64_t base = (uint64_t)num("seed", 1);
        uint64_t* h = shared_alloc<uint64_t>(n);
        for (int j = 0; j < g_jobs; ++j) {
            if (fork() == 0) {
                for (long i = j; i < n; i += g_jobs) {
                    RunSpec s{};
                    s.seed = run_seed(mixseed(base, 0), i);
                    one_run(s, g_res[j]);
                    h[i] = g_res[j]->hash ^ (uint64_t)g_res[j]->status << 60;
                }
                _exit(0);
            }
        }
        while (wait(nullptr) > 0)
            ;
        for (long i = 0; i < n; ++i)
            printf("%ld %s\n", i, hex(h[i]).c_str());
        return 0;
    }
    if (mode != "search") {
        fprintf(stderr, "usage: search|replay|one|hashes\n");
        return 2;
    }
    double t0 = wall();
    uint64_t seed = strtoull(opt.count("seed") ? opt["seed"].c_str() : "1", nullptr, 0);
    Batch b;
    b.base = mixseed(seed, 0);
    b.n = (long)num("runs", 10000);
    b.deadline = t0 + num("time", 60);
    g_ih = shared_alloc<uint64_t>(b.n);
    g_eh = shared_alloc<uint64_t>(b.n);
    printf("seed %llu: up to %ld runs on %d workers\n", (unsigned long long)seed, b.n, g_jobs);
    fflush(stdout);
    BatchOut o = run_batch(b, true);
    double t1 = wall();
    std::set<uint64_t> ih, eh;
    for (long i = 0; i < b.n; ++i) {
        if (g_ih[i]) ih.insert(g_ih[i]);
        if (g_eh[i]) eh.insert(g_eh[i]);
    }
    // determinism gate: a sample of runs repeated must give identical hashes
    long gate = 0, gate_bad = 0;
    for (long i = 0; i < std::min<long>(b.n, 24) && (long)i < (long)o.agg.runs; ++i) {
        RunSpec s{};
        s.seed = run_seed(b.base, i);
        one_run(s, g_r0);
        uint64_t h = g_r0->hash;
        // second time: replayed from its recorded decisions instead of the PRNG
        Case c = capture(g_r0, s.seed);
        exec_case(c);
        ++gate;
        if (g_r0->hash != h) {
            ++gate_bad;
            fprintf(stderr, "determinism gate: run %ld differs when replayed (%s)\n", i, g_r0->msg);
        }
    }
    int rc = 0;
    std::string vmsg, vcls;
    Case mc;
    bool have = false;
    if (o.found >= 0) {
        RunSpec s{};
        s.seed = o.seed;
        one_run(s, g_r0);
        if (g_r0->status != ST_VIOLATION) {
            fprintf(stderr, "gate: violation at run %ld did not repeat (status %d %s)\n", o.found, g_r0->status, g_r0->msg);
            rc = 2;
        } else {
            Case c = capture(g_r0, o.seed);
            Case orig = c;
            printf("violation in run %ld (seed %llu): %s: %s\n", o.found, (unsigned long long)o.seed,
                   c.cls.c_str(), c.msg.c_str());
            printf("minimising (workload %zu draws, %zu decisions)...\n", c.W.size(), c.D.size());
            fflush(stdout);
            size_t w0 = c.W.size(), d0 = c.D.size();
            c = minimise(c, num("mintime", 40));
            exec_case(c);
            if (g_r0->status != ST_VIOLATION || c.cls != g_r0->cls) {
                c = orig;
                exec_case(c);
            }
            c.hash = g_r0->hash;
            c.msg = g_r0->msg;
            exec_case(c);
            if (g_r0->status != ST_VIOLATION || g_r0->hash != c.hash) {
                fprintf(stderr, "gate: minimised violation did not repeat\n");
                rc = 2;
            } else {
                printf("minimised to %zu draws, %zu decisions (from %zu, %zu)\n", c.W.size(), c.D.size(), w0, d0);
                write_case(opt["replay"].c_str(), c, prop.c_str());
                append_trace(opt["replay"].c_str(), c);
                rc = 1;
                vmsg = c.msg;
                vcls = c.cls;
                have = true;
                mc = c;
            }
        }
    }
    if (o.agg.internal || gate_bad) {
        fprintf(stderr, "internal errors: %llu (%s) gate_bad=%ld\n", (unsigned long long)o.agg.internal, o.agg.imsg, gate_bad);
        if (rc == 0) rc = 2;
    }
    FILE* f = fopen(opt["out"].c_str(), "w");
    if (!f) { perror("out"); return 2; }
    const Agg& a = o.agg;
    fprintf(f, "{\"seed\":%llu,\"runs\":%llu,\"requested\":%ld,\"ok\":%llu,\"discarded\":%llu,\"internal\":%llu,",
            (unsigned long long)seed, (unsigned long long)a.runs, b.n, (unsigned long long)a.ok,
            (unsigned long long)a.discards, (unsigned long long)a.internal);
    fprintf(f, "\"search_s\":%.3f,\"wall_s\":%.3f,\"points\":%llu,\"switches\":%llu,\"choices\":%llu,\"accesses\":%llu,\"events\":%llu,\"simulated_ns\":%llu,\"max_threads\":%llu,",
            t1 - t0, wall() - t0, (unsigned long long)a.points, (unsigned long long)a.switches,
            (unsigned long long)a.choices, (unsigned long long)a.accesses, (unsigned long long)a.events,
            (unsigned long long)a.simtime, (unsigned long long)a.maxthreads);
    fprintf(f, "\"distinct_interleavings\":%zu,\"distinct_histories\":%zu,\"gate\":%ld,\"faults\":{", ih.size(), eh.size(), gate);
    for (int k = 0; k < sim::F_NFAULT; ++k)
        fprintf(f, "%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", k ? "," : "", fault_names[k],
                (unsigned long long)a.faults[k], (unsigned long long)a.runs_with_fault[k]);
    fprintf(f, "},\"probes\":{");
    for (int k = 0; k < g_sh->nprobe && k < MAXPROBE; ++k)
        fprintf(f, "%s\"%s\":%llu", k ? "," : "", jesc(g_sh->probe_name[k]).c_str(), (unsigned long long)a.probes[k]);
    fprintf(f, "},\"rc\":%d", rc);
    if (have)
        fprintf(f, ",\"violation\":{\"class\":\"%s\",\"message\":\"%s\",\"seed\":%llu}", jesc(vcls).c_str(),
                jesc(vmsg).c_str(), (unsigned long long)mc.seed);
    fprintf(f, "}\n");
    fclose(f);
    printf("%llu runs (%llu ok, %llu discarded) in %.1fs, %zu distinct interleavings, %zu histories\n",
           (unsigned long long)a.runs, (unsigned long long)a.ok, (unsigned long long)a.discards, t1 - t0,
           ih.size(), eh.size());
    if (a.discards) printf("last discard: %s\n", a.dmsg);
    return rc;
}
