#include "chan.hpp"
extern const char* const sim_scenario_name = "C14";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 1;
    c.proc = true;
    c.moveonly = true;
    chan::run_chan(c);
}
