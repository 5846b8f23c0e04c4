ID="C07-guard"; PROPERTY="C07"
NEEDS="An exception thrown by the slave during a step, followed by another attempt to step the same simulator."
BREAKS="The state guard only recognises an exception in flight when there are more than one, so a failing step leaves the simulator in its old state and it can be stepped again instead of being in the error state."
EDITS=[("src/cosim/slave_simulator.cpp","if (std::uncaught_exceptions()) {","if (std::uncaught_exceptions() > 1) {")]
DEMO=r'''
#include "mock_slave.hpp"
#include "cosim/slave_simulator.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <unistd.h>
struct failing : mock_slave {
    int steps = 0;
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        if (++steps == 2) throw std::runtime_error("boom");
        return mock_slave::do_step(t, dt);
    }
};
int main()
{
    std::signal(SIGABRT, [](int) { _exit(0); }); // a violated precondition aborts
    auto s = std::make_shared<failing>();
    cosim::slave_simulator sim(s, "a");
    sim.setup(cosim::time_point(), std::nullopt, std::nullopt);
    sim.do_iteration();
    sim.start_simulation();
    const auto dt = std::chrono::milliseconds(100);
    sim.do_step(cosim::time_point(), dt);
    try { sim.do_step(cosim::time_point() + dt, dt); return 2; } catch (const std::runtime_error&) { }
    try { sim.do_step(cosim::time_point() + dt, dt); } catch (const std::exception&) { }
    if (s->steps != 2) { std::puts("failed simulator was stepped again"); return 1; }
    return 0;
}
'''
