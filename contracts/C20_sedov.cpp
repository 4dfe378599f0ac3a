// The schedule of the blast wave code: marks, tasks run, stop time
#include "hdf5_standin.hpp"
#include "common.hpp"
#include <iostream>
#include "rbtree.hpp"
#include "subprog_sedov.cpp"
using namespace spec;
namespace {
using P = SedovProblem<mara::srhd>;
const char* TASK[3] = {"write_checkpoint", "write_diagnostics", "write_time_series"};
const char* INTERVAL[3] = {"cpi", "dfi", "tsi"};
const char* N[3][3] = {{"due 0", "count 0", "last 0"}, {"due 1", "count 1", "last 1"}, {"due 2", "count 2", "last 2"}};
mara::schedule_t some_schedule()
{
    mara::schedule_t s;
    for (int k = 0; k < 3; ++k) s.insert({TASK[k], int(vc_int(N[k][1], 0, 1000000)), real(N[k][2]), vc_bool(N[k][0])});
    return s;
}
int done[3], order[9], total;
mara::config_t seen;
void note(int k) { order[total++ % 9] = k; ++done[k]; }
void c_checkpoint(const P::app_state_t& s, std::string outdir)  { vc_assert("directory", outdir == "there"); note(0); }
void c_diagnostics(const P::app_state_t& s, std::string outdir) { vc_assert("directory", outdir == "there"); note(1); }
void c_time_series(const P::app_state_t& s, std::string outdir) { vc_assert("directory", outdir == "there"); note(2); }
}
VC_CONTRACT(checkpoint, &P::write_checkpoint, &c_checkpoint)
VC_CONTRACT(diagnostics, &P::write_diagnostics, &c_diagnostics)
VC_CONTRACT(time_series, &P::write_time_series, &c_time_series)
VC_PROOF(sedov_tasks_marked)
{
    auto a = some_schedule();
    double t = real("t"), dt[3] = {pos("interval 0"), pos("interval 1"), pos("interval 2")};
    auto c = config_template().create();
    for (int k = 0; k < 3; ++k) c = c.set(INTERVAL[k], mara::config_parameter_t(dt[k]));
    auto b = P::next_schedule(a, c, t);
    for (int k = 0; k < 3; ++k)
    {
        auto before = a.at(TASK[k]), after = b.at(TASK[k]);
        bool due = t - before.last_performed >= dt[k];
        vc_assert("due", after.is_due == (before.is_due || due));
        vc_assert_eq("last performed", after.last_performed, before.last_performed + (due ? dt[k] : 0));
        vc_assert("number of times performed", after.num_times_performed == before.num_times_performed);
    }
}
VC_PROOF(sedov_starts)
{
    auto a = P::create_schedule(config_template().create());
    vc_assert("three tasks", a.size() == 3);
    for (int k = 0; k < 3; ++k) vc_assert("due at the start", a.is_due(TASK[k]) && a.num_times_performed(TASK[k]) == 0 && a.last_performed(TASK[k]) == 0);
    P::app_state_t s;
    auto tfinal = real("tfinal"), t = real("t");
    s.run_config = config_template().create().set("tfinal", mara::config_parameter_t(tfinal));
    s.solution_state.time = t;
    vc_assert("goes on until the final time", P::simulation_should_continue(s) == (t < tfinal));
}
#ifndef VC_NATIVE
VC_PROOF(sedov_tasks_run)
{
    vc_use_contract("checkpoint"); vc_use_contract("diagnostics"); vc_use_contract("time_series");
    P::app_state_t a;
    a.schedule = some_schedule();
    a.run_config = config_template().create().set("outdir", std::string("there"));
    total = 0;
    for (int k = 0; k < 3; ++k) done[k] = 0;
    auto b = P::run_tasks(a);
    for (int k = 0; k < 3; ++k)
    {
        auto before = a.schedule.at(TASK[k]), after = b.schedule.at(TASK[k]);
        vc_assert("done once when due", done[k] == (before.is_due ? 1 : 0));
        vc_assert("not due any more", ! after.is_due);
        vc_assert("counted", after.num_times_performed == before.num_times_performed + (before.is_due ? 1 : 0));
        vc_assert_eq("last performed", after.last_performed, before.last_performed);
    }
}
#endif
