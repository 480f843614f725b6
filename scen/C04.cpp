#include "when.hpp"
extern const char* const sim_scenario_name = "C04";
extern "C" void sim_scenario() {
    sc::run_when(false, 1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL);
}
