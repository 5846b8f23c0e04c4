ID="C05-lateobs"; PROPERTY="C05"
NEEDS="An observer added after the simulation was initialised, to a system with more than one simulator."
BREAKS="The observer is told of simulators added so far only up to the last but one when it is added late (loop bound depends on initialisation)."
EDITS=[("src/cosim/execution.cpp","""        observers_.push_back(obs);
        for (std::size_t i = 0; i < simulators_.size(); ++i) {""","""        observers_.push_back(obs);
        for (std::size_t i = 0; i + (initialized_ ? 1 : 0) < simulators_.size(); ++i) {""")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/observer/observer.hpp>
#include <chrono>
#include <cstdio>
struct counter : cosim::observer {
    int added = 0;
    void simulator_added(cosim::simulator_index, cosim::observable*, cosim::time_point) override { ++added; }
    void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, cosim::time_point) override { }
    void variable_disconnected(cosim::variable_id, cosim::time_point) override { }
    void simulation_initialized(cosim::step_number, cosim::time_point) override { }
    void step_complete(cosim::step_number, cosim::duration, cosim::time_point) override { }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, cosim::duration, cosim::time_point) override { }
};
int main()
{
    cosim::execution e(cosim::time_point(), std::make_shared<cosim::fixed_step_algorithm>(std::chrono::seconds(1)));
    e.add_slave(std::make_shared<mock_slave>(), "a");
    e.add_slave(std::make_shared<mock_slave>(), "b");
    auto o = std::make_shared<counter>();
    e.add_observer(o);
    e.step();
    auto late = std::make_shared<counter>();
    e.add_observer(late);
    if (o->added != 2 || late->added != 2) { std::printf("early %d late %d\n", o->added, late->added); return 1; }
    return 0;
}
'''
