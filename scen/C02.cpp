// Failures and abandonment: user code throws, executors lose tasks, producers abandon or replace
// their package; every dependent must observe the right failure exactly once.
#include "graph.hpp"
extern const char* const sim_scenario_name = "C02";
extern "C" void sim_scenario() {
    sim::set_hw(1 + sim::W(4));
    sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_TIMEJUMP | 1 << sim::F_REORDER);
    sc::GraphCfg c;
    c.throws = true;
    c.drops = sim::W(2);
    c.abandons = sim::W(3) != 0;
    sc::run_graph(c);
}
