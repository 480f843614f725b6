#include "chan.hpp"
extern const char* const sim_scenario_name = "C20";
extern "C" void sim_scenario() {
    chan::Cfg c;
    c.max_heads = 1;
    c.proc = c.want_proc = true;
    c.timed = true;
    c.split = true;
    int wide;
    {
        sim::quiet q;
        wide = sim::W(3) == 2;
        if (wide) { // in combination with everything else
            c.max_heads = 1 + sim::W(3);
            c.history = sim::W(2);
            c.gen = sim::W(2);
            c.errors = sim::W(2);
            c.moveonly = sim::W(3) == 1;
            c.drops = sim::W(3) == 0;
            c.ready = sim::W(3) == 0;
            c.merge = sim::W(2);
            c.max_msgs = 5;
        }
    }
    chan::run_chan(c);
}
