#include "chan.hpp"
extern const char* const sim_scenario_name = "C15";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 4;
    c.merge = c.want_merge = true;
    c.unequal = true;
    c.proc = true;
    c.moveonly = true;
    c.gen = true;
    chan::run_chan(c);
}
