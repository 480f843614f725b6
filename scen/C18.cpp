#include "chan.hpp"
extern const char* const sim_scenario_name = "C18";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 2;
    c.history = true;
    c.moveonly = true;
    c.split = true;
    c.merge = true;
    c.proc = true;
    c.drops = true;
    c.max_msgs = 5;
    c.errors = sim::W(5) == 1;
    c.timed = sim::W(6) == 1;
    chan::run_chan(c);
}
