ID="C38-fund"; PROPERTY="C38"
NEEDS="A function whose outputs go to two simulators with different decimation factors, one of which is disconnected while the simulation runs."
BREAKS="A function's decimation factor is only updated when a connection is removed if no connection is left, so after the disconnection it is still calculated at the old rate."
EDITS=[("src/cosim/algorithm/fixed_step_algorithm.cpp","""                conns.erase(it);
                update_function_decimation_factor(f.second);
                return;""","""                conns.erase(it);
                if (conns.empty()) update_function_decimation_factor(f.second);
                return;""")]
DEMO=r'''
#include "mock_slave.hpp"
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <chrono>
#include <cstdio>
int main()
{
    auto algo = std::make_shared<cosim::fixed_step_algorithm>(std::chrono::seconds(1));
    cosim::execution e(cosim::time_point(), algo);
    double t = 0, seen = -1;
    auto src = e.add_slave(std::make_shared<mock_slave>([&](double) { return ++t; }), "src");
    auto fast = e.add_slave(std::make_shared<mock_slave>([&](double x) { seen = x; return x; }), "fast");
    auto slow = e.add_slave(std::make_shared<mock_slave>(), "slow");
    algo->set_stepsize_decimation_factor(slow, 4);
    auto sink = e.add_slave(std::make_shared<mock_slave>(), "sink");
    e.connect_variables(cosim::variable_id{fast, cosim::variable_type::real, mock_slave::real_out_reference}, cosim::variable_id{sink, cosim::variable_type::real, mock_slave::real_in_reference});
    auto f = e.add_function(std::make_shared<cosim::linear_transformation_function>(0.0, 1.0));
    e.connect_variables(cosim::variable_id{src, cosim::variable_type::real, mock_slave::real_out_reference}, cosim::function_io_id{f, cosim::variable_type::real, cosim::linear_transformation_function::in_io_reference});
    e.connect_variables(cosim::function_io_id{f, cosim::variable_type::real, cosim::linear_transformation_function::out_io_reference}, cosim::variable_id{fast, cosim::variable_type::real, mock_slave::real_in_reference});
    e.connect_variables(cosim::function_io_id{f, cosim::variable_type::real, cosim::linear_transformation_function::out_io_reference}, cosim::variable_id{slow, cosim::variable_type::real, mock_slave::real_in_reference});
    for (int i = 0; i < 4; ++i) e.step();
    algo->disconnect_variable(cosim::variable_id{slow, cosim::variable_type::real, mock_slave::real_in_reference});
    e.step(); e.step();
    const double a = seen;
    e.step();
    if (seen <= a) { std::printf("%g then %g\n", a, seen); return 1; }
    return 0;
}
'''
