ID="C06-stopend"; PROPERTY="C06"
NEEDS="stop_simulation() called (here from an observer) while simulate_until() runs towards an end time."
BREAKS="The loop condition consults the stop flag only when there is no end time, so a stop request is ignored until the end time is reached."
EDITS=[("src/cosim/execution.cpp","} while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));","} while (endTime ? !timed_out(endTime, currentTime_, stepSize) : !stopped_);")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/observer/observer.hpp>
#include <chrono>
#include <cstdio>
struct stopper : cosim::observer {
    cosim::execution* e = nullptr;
    int steps = 0;
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override { if (++steps == 3) e->stop_simulation(); }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
};
int main()
{
    cosim::execution e(cosim::time_point(), std::make_shared<cosim::fixed_step_algorithm>(std::chrono::seconds(1)));
    e.add_slave(std::make_shared<mock_slave>(), "a");
    auto o = std::make_shared<stopper>();
    o->e = &e;
    e.add_observer(o);
    const bool completed = e.simulate_until(cosim::time_point() + std::chrono::seconds(20));
    if (completed || o->steps != 3) { std::printf("completed=%d after %d steps\n", completed, o->steps); return 1; }
    return 0;
}
'''
