#include "when.hpp"
extern const char* const sim_scenario_name = "C05";
extern "C" void sim_scenario() {
    sc::run_when(true, 1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL);
}
