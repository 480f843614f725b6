// internal interface between the runtime (rt.cpp) and the driver (driver.cpp)
#pragma once
#include "rt.h"
#include <cstdio>

namespace simi {
constexpr int MAXT = 64;        // simulated threads per run
constexpr int MAXW = 4096;      // workload draws per run
constexpr int MAXD = 1 << 20;   // non-default decisions per run
constexpr int MAXPROBE = 96;
constexpr int MAXEV = 1 << 16;

struct Decision {
    uint32_t idx;
    uint32_t val;
};

enum Status : int { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DISCARD = 3, ST_INTERNAL = 4 };

struct Result {
    int status;
    char cls[96];
    char msg[3000];
    uint64_t hash, ihash, ehash;
    uint64_t points, choices, switches, simtime, nevents, accesses;
    uint64_t faults[sim::F_NFAULT];
    uint64_t probes[MAXPROBE];
    int nthreads;
    int nW;
    int Wv[MAXW];
    int Wn[MAXW];
    uint32_t nD;
    Decision D[MAXD];
};

// names of probes are interned in shared memory so that counts from children can be merged
struct Shared {
    int lock;
    volatile int nprobe;
    char probe_name[MAXPROBE][64];
};

struct RunSpec {
    uint64_t seed;
    bool replay_w;            // take workload from Wv (beyond the end: 0)
    const int* Wv;
    int nW;
    bool replay_d;            // take decisions from D (everything else default)
    const Decision* D;
    uint32_t nD;
    bool want_trace;          // keep details and print them
    FILE* trace;
};

void run_child(const RunSpec&, Result*, Shared*); // never returns; called in forked child
void init_runtime();                              // once, in the driver
extern const char* fault_names[];
extern const char* kind_names[];
extern uint64_t max_points;
} // namespace simi
