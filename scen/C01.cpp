#include "graph.hpp"
extern const char* const sim_scenario_name = "C01";
extern "C" void sim_scenario() {
    sim::set_hw(1 + sim::W(4));
    sim::enable_faults(1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_TIMEJUMP | 1 << sim::F_REORDER);
    sc::GraphCfg c;
    sc::run_graph(c);
}
