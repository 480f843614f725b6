#include "chan.hpp"
extern const char* const sim_scenario_name = "C16";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 1;
    c.split = c.want_split = true;
    c.drops = true;
    c.proc = true;
    c.gen = true;
    chan::run_chan(c);
}
