ID="C08-last"; PROPERTY="C08"
NEEDS="An input variable with a modifier that is set twice before one transmission and not set before the next one."
BREAKS="Only the first of several values set before a transmission is remembered as the variable's last value, so the next transmission applies the modifier to an outdated value."
EDITS=[("src/cosim/slave_simulator.cpp","""        it->second.lastValue = v;
        if (it->second.arrayIndex < 0) {
            it->second.arrayIndex = references_.size();""","""        if (it->second.arrayIndex < 0) {
            it->second.lastValue = v;
            it->second.arrayIndex = references_.size();""")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/slave_simulator.hpp>
#include <chrono>
#include <cstdio>
int main()
{
    auto slave = std::make_shared<mock_slave>();
    cosim::slave_simulator s(slave, "a");
    s.expose_for_getting(cosim::variable_type::real, mock_slave::real_out_reference);
    s.expose_for_setting(cosim::variable_type::real, mock_slave::real_in_reference);
    s.setup(cosim::time_point(), std::nullopt, std::nullopt);
    s.start_simulation();
    s.set_real_input_modifier(mock_slave::real_in_reference, [](double x, cosim::duration) { return x + 100; });
    s.set_real(mock_slave::real_in_reference, 1.0);
    s.set_real(mock_slave::real_in_reference, 2.0);
    const auto dt = std::chrono::seconds(1);
    s.do_step(cosim::time_point(), dt);
    const double first = s.get_real(mock_slave::real_out_reference);
    s.do_step(cosim::time_point(dt), dt);
    const double seen = s.get_real(mock_slave::real_out_reference);
    if (first != 102.0 || seen != 102.0) { std::printf("%g %g\n", first, seen); return 1; }
    return 0;
}
'''
