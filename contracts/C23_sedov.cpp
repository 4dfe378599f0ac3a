// A restart of the spherical blast wave code from a checkpoint continues from the state
// that was written.  The number of zones is bounded; the HDF5 library is represented by
// the store of hdf5_standin.hpp
#include "hdf5_standin.hpp"
#include "common.hpp"
#include <iostream>
#include "rbtree.hpp"
#include "subprog_sedov.cpp"
#include "file_names.hpp"
using namespace spec;
VC_CONTRACT(numbered, &mara::create_numbered_filename, &numbered)
namespace {
const char* TASK[3] = {"write_checkpoint", "write_diagnostics", "write_time_series"};
const char* N[3][3] = {{"due 0", "count 0", "last 0"}, {"due 1", "count 1", "last 1"}, {"due 2", "count 2", "last 2"}};
mara::schedule_t some_schedule()
{
    mara::schedule_t s;
    for (int k = 0; k < 3; ++k) s.insert({TASK[k], int(vc_int(N[k][1], 0, 1000000)), real(N[k][2]), vc_bool(N[k][0])});
    return s;
}
void same_schedule(const mara::schedule_t& a, const mara::schedule_t& b)
{
    vc_assert("number of tasks", a.size() == b.size());
    for (int k = 0; k < 3; ++k)
    {
        vc_assert("number of times performed", b.num_times_performed(TASK[k]) == a.num_times_performed(TASK[k]));
        vc_assert_eq("last performed", b.last_performed(TASK[k]), a.last_performed(TASK[k]));
        vc_assert("due", b.is_due(TASK[k]) == a.is_due(TASK[k]));
    }
}
double number(const char* f, std::size_t i, int q) { return vc_uf(f, 2, long(i), long(q)); }

template<typename S> void restart()
{
    vc_use_contract("numbered");
    using prob = SedovProblem<S>;
    scratch s;
    typename prob::app_state_t a;
    std::size_t n = std::size_t(vc_choose("zones", 1, 3));
    auto r = nd::make_unique_array<double>(nd::make_shape(n + 1));
    auto u = nd::make_unique_array<typename S::conserved_t>(nd::make_shape(n));
    for (std::size_t i = 0; i <= n; ++i) r(i) = number("r", i, 0);
    for (std::size_t i = 0; i < n; ++i) for (int q = 0; q < 5; ++q) u(i)[q].value = number("u", i, q);
    a.solution_state = {real("t"), mara::make_rational(17, 1), std::move(r).shared(), std::move(u).shared()};
    a.schedule = some_schedule();
    auto tfinal = real("tfinal");
    int nr = vc_int("nr", 1, 100000);
    a.run_config = config_template().create().set("tfinal", mara::config_parameter_t(tfinal)).set("nr", mara::config_parameter_t(nr)).set("outdir", s.path());
    prob::write_checkpoint(a, s.path());
    int count = a.schedule.num_times_performed(TASK[0]);
#ifndef VC_NATIVE
    vc_assert("the file has the number of the checkpoint", asked_number == count);
#endif
    auto option = "restart=" + s.path() + "/" + mara::create_numbered_filename("chkpt", count, "h5");
    const char* argv[2] = {"mara", option.data()};
    auto c = create_run_config(2, argv);
    vc_assert_eq("final time", c.get_double("tfinal"), tfinal);
    vc_assert("resolution", c.get_int("nr") == nr);
    vc_assert("output directory", c.get_string("outdir") == s.path());
    auto b = prob::create_app_state(c);
    auto& x = b.solution_state;
    vc_assert_eq("time", x.time, a.solution_state.time);
    vc_assert("iteration", x.iteration == a.solution_state.iteration);
    vc_assert("number of zones", x.vertices.shape(0) == n + 1 && x.conserved.shape(0) == n);
    for (std::size_t i = 0; i <= n; ++i) vc_assert_eq("radius", x.vertices(i), a.solution_state.vertices(i));
    for (std::size_t i = 0; i < n; ++i) for (int q = 0; q < 5; ++q) vc_assert_eq("conserved", x.conserved(i)[q].value, a.solution_state.conserved(i)[q].value);
    same_schedule(a.schedule, b.schedule);
}
}
VC_PROOF(bounded_restart_srhd) { restart<mara::srhd>(); }
VC_PROOF(bounded_restart_euler) { restart<mara::euler>(); }
