#include "chan.hpp"
extern const char* const sim_scenario_name = "C19";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 2;
    c.errors = true;
    c.split = true;
    c.merge = true;
    c.proc = true;
    c.moveonly = true;
    c.timed = sim::W(3) == 1;
    chan::run_chan(c);
}
