#include "chan.hpp"
extern const char* const sim_scenario_name = "C17";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 2;
    c.gen = c.want_gen = true;
    c.split = true;
    c.merge = true;
    c.proc = true;
    c.max_msgs = 6;
    c.errors = sim::W(4) == 1;
    c.timed = sim::W(6) == 1;
    chan::run_chan(c);
}
