ID="C39-erase"; PROPERTY="C39"
NEEDS="A modifier that is installed for a variable, then replaced by another one."
BREAKS="Installing a modifier toggles the variable's entry in the list of modified variables, so replacing a modifier removes the variable from the list."
EDITS=[("src/cosim/slave_simulator.cpp","""        if (modifier) {
            modifiedRefs.insert(ref);
        } else {""","""        if (modifier && modifiedRefs.insert(ref).second) {
            return;
        } else {""")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/manipulator.hpp>
#include <chrono>
#include <cstdio>
int main()
{
    cosim::execution e(cosim::time_point(), std::make_shared<cosim::fixed_step_algorithm>(std::chrono::seconds(1)));
    auto s = e.add_slave(std::make_shared<mock_slave>(), "a");
    auto m = std::make_shared<cosim::override_manipulator>();
    e.add_manipulator(m);
    m->override_real_variable(s, mock_slave::real_in_reference, 1.0);
    e.step();
    if (e.get_modified_variables().size() != 1) return 2;
    m->override_real_variable(s, mock_slave::real_in_reference, 2.0);
    e.step();
    if (e.get_modified_variables().size() != 1) { std::printf("%zu\n", e.get_modified_variables().size()); return 1; }
    return 0;
}
'''
