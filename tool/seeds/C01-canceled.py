ID="C01-canceled"; PROPERTY="C01"
NEEDS="A slave whose do_step() returns step_result::canceled (rather than failed)."
BREAKS="Only step_result::failed counts as an incomplete step, so a canceled step is silently treated as a completed one: time advances and observers are notified."
EDITS=[("src/cosim/algorithm/fixed_step_algorithm.cpp","if (info.stepResult != step_result::complete) {","if (info.stepResult == step_result::failed) {")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <chrono>
#include <cstdio>
struct canceling : mock_slave {
    int n = 0;
    cosim::step_result do_step(cosim::time_point t, cosim::duration dt) override
    {
        mock_slave::do_step(t, dt);
        return ++n == 3 ? cosim::step_result::canceled : cosim::step_result::complete;
    }
};
int main()
{
    cosim::execution e(cosim::time_point(), std::make_shared<cosim::fixed_step_algorithm>(std::chrono::seconds(1)));
    e.add_slave(std::make_shared<canceling>(), "a");
    e.step(); e.step();
    try { e.step(); } catch (const std::exception&) { return 0; }
    std::puts("canceled step not reported");
    return 1;
}
'''
