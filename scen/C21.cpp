#include "chan.hpp"
extern const char* const sim_scenario_name = "C21";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 2;
    c.ready = true;
    c.late_attach = true;
    c.split = true;
    c.merge = true;
    c.proc = true;
    c.drops = true;
    c.max_msgs = 5;
    c.errors = sim::W(6) == 1;
    chan::run_chan(c);
}
