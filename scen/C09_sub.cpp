// One of the other scenarios, built to be run under C09's rule (memory errors only).  The names of the
// scenario's helpers are renamed so that several can be linked together.
#if defined(SUB_GRAPH)
#define sc sc_graph
#define sim_scenario c09_graph
#define sim_scenario_name c09_graph_name
#include "C02.cpp"
#elif defined(SUB_CANCEL)
#define sc sc_cancel
#define sim_scenario c09_cancel
#define sim_scenario_name c09_cancel_name
#include "C03.cpp"
#elif defined(SUB_WHEN)
#define sc sc_when
#define sim_scenario c09_when
#define sim_scenario_name c09_when_name
#include "when.hpp"
extern "C" void c09_when() {
    sc::run_when(sim::W(2), 1 << sim::F_SPURIOUS | 1 << sim::F_TRYLOCK | 1 << sim::F_REORDER | 1 << sim::F_TIMEJUMP | 1 << sim::F_STALL);
}
#elif defined(SUB_REDUCE)
#define sc sc_reduce
#define sim_scenario c09_reduce
#define sim_scenario_name c09_reduce_name
#include "C06.cpp"
#elif defined(SUB_CORO)
#define sc sc_coro
#define sim_scenario c09_coro
#define sim_scenario_name c09_coro_name
#include "C07.cpp"
#elif defined(SUB_WAIT)
#define sc sc_wait
#define sim_scenario c09_wait
#define sim_scenario_name c09_wait_name
#include "C08.cpp"
#elif defined(SUB_SERIAL)
#define sc sc_serial
#define sim_scenario c09_serial
#define sim_scenario_name c09_serial_name
#include "C12.cpp"
#elif defined(SUB_CHAN)
#define sc sc_chan
#define sim_scenario c09_chan_
#define sim_scenario_name c09_chan_name
#include "chan.hpp"
extern "C" void c09_chan() {
    chan::Cfg c;
    c.max_heads = 1 + sim::W(3);
    c.proc = c.moveonly = c.split = true;
    c.history = sim::W(2);
    c.gen = sim::W(2);
    c.errors = sim::W(3) == 0;
    c.timed = sim::W(3) == 0;
    c.drops = sim::W(3) == 0;
    c.ready = sim::W(3) == 0;
    c.merge = sim::W(2);
    c.max_msgs = 5;
    chan::run_chan(c);
}
#endif
