// The schedule of the disk code, whose intervals are given in orbits (2 pi)
#include "hdf5_standin.hpp"
#include "rbtree.hpp"
#include "binary_program.hpp"
using namespace spec;
namespace {
const char* TASK[3] = {"write_checkpoint", "write_diagnostics", "record_time_series"};
const char* INTERVAL[3] = {"cpi", "dfi", "tsi"};
const char* N[3][3] = {{"due 0", "count 0", "last 0"}, {"due 1", "count 1", "last 1"}, {"due 2", "count 2", "last 2"}};
}
VC_PROOF(binary_tasks_marked)
{
    binary::state_t a;
    for (int k = 0; k < 3; ++k) a.schedule.insert({TASK[k], int(vc_int(N[k][1], 0, 1000000)), real(N[k][2]), vc_bool(N[k][0])});
    double t = real("t"), dt[3] = {pos("interval 0"), pos("interval 1"), pos("interval 2")};
    a.run_config = binary::create_config_template().create();
    a.solution.time.value = t;
    for (int k = 0; k < 3; ++k) a.run_config = a.run_config.set(INTERVAL[k], mara::config_parameter_t(dt[k]));
    auto b = binary::next_schedule(a);
    for (int k = 0; k < 3; ++k)
    {
        auto before = a.schedule.at(TASK[k]), after = b.at(TASK[k]);
        double interval = dt[k] * 2 * M_PI;
        bool due = t - before.last_performed >= interval;
        vc_assert("due", after.is_due == (before.is_due || due));
        vc_assert_eq("last performed", after.last_performed, before.last_performed + (due ? interval : 0));
        vc_assert("number of times performed", after.num_times_performed == before.num_times_performed);
    }
}
VC_PROOF(binary_starts)
{
    auto a = binary::create_schedule(binary::create_config_template().create());
    vc_assert("three tasks", a.size() == 3);
    for (int k = 0; k < 3; ++k) vc_assert("due at the start", a.is_due(TASK[k]) && a.num_times_performed(TASK[k]) == 0 && a.last_performed(TASK[k]) == 0);
    binary::state_t s;
    auto tfinal = real("tfinal"), t = real("t");
    s.run_config = binary::create_config_template().create().set("tfinal", mara::config_parameter_t(tfinal));
    s.solution.time.value = t;
    vc_assert("goes on until the final time", binary::simulation_should_continue(s) == (t < tfinal * 2 * M_PI));
}
