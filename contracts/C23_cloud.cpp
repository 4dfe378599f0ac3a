// A restart of the jet and cloud code from a checkpoint continues from the state
// that was written.  The number of zones is bounded; the HDF5 library is represented by
// the store of hdf5_standin.hpp
#include "hdf5_standin.hpp"
#include "threads.hpp"
#include <iostream>
#include "rbtree.hpp"
#include "subprog_cloud.cpp"
#include "file_names.hpp"
using namespace spec;
VC_CONTRACT(numbered, &mara::create_numbered_filename, &numbered)
namespace {
const char* TASK[3] = {"write_checkpoint", "write_diagnostics", "write_time_series"};
const char* N[3][3] = {{"due 0", "count 0", "last 0"}, {"due 1", "count 1", "last 1"}, {"due 2", "count 2", "last 2"}};
mara::schedule_t some_schedule()
{
    mara::schedule_t s;
    for (int k = 0; k < 3; ++k) s.insert({TASK[k], int(vc_int(N[k][1], 0, 1000000)), real(N[k][2]), vc_bool(N[k][0])});
    return s;
}
void same_schedule(const mara::schedule_t& a, const mara::schedule_t& b)
{
    vc_assert("number of tasks", a.size() == b.size());
    for (int k = 0; k < 3; ++k)
    {
        vc_assert("number of times performed", b.num_times_performed(TASK[k]) == a.num_times_performed(TASK[k]));
        vc_assert_eq("last performed", b.last_performed(TASK[k]), a.last_performed(TASK[k]));
        vc_assert("due", b.is_due(TASK[k]) == a.is_due(TASK[k]));
    }
}
double number(const char* f, std::size_t i, int q) { return vc_uf(f, 2, long(i), long(q)); }
}
VC_PROOF(bounded_restart)
{
    vc_use_contract("numbered");
    using P = CloudProblem;
    scratch s;
    P::app_state_t a;
    std::size_t n0 = std::size_t(vc_choose("radial zones", 1, 3)), n1 = std::size_t(vc_choose("polar zones", 1, 2));
    auto& x = a.solution;
    x.time = decltype(x.time)(real("t"));
    x.iteration = mara::make_rational(17, 1);
    auto r = nd::make_unique_array<std::decay_t<decltype(x.radial_vertices(0))>>(nd::make_shape(n0 + 1));
    auto q = nd::make_unique_array<double>(nd::make_shape(n1 + 1));
    auto u = nd::make_unique_array<std::decay_t<decltype(x.conserved(0, 0))>>(nd::make_shape(n0, n1));
    for (std::size_t i = 0; i <= n0; ++i) r(i).value = number("r", i, 0);
    for (std::size_t i = 0; i <= n1; ++i) q(i) = number("q", i, 0);
    for (std::size_t i = 0; i < n0; ++i) for (std::size_t j = 0; j < n1; ++j) for (int k = 0; k < 5; ++k) u(i, j)[k].value = number("u", i * n1 + j, k);
    x.radial_vertices = std::move(r).shared();
    x.polar_vertices = std::move(q).shared();
    x.conserved = std::move(u).shared();
    a.schedule = some_schedule();
    auto tfinal = real("tfinal");
    int nr = vc_int("nr", 1, 100000);
    a.run_config = config_template().create().set("tfinal", mara::config_parameter_t(tfinal)).set("nr", mara::config_parameter_t(nr)).set("outdir", s.path());
    P::write_checkpoint(a, s.path());
    int count = a.schedule.num_times_performed(TASK[0]);
#ifndef VC_NATIVE
    vc_assert("the file has the number of the checkpoint", asked_number == count);
#endif
    auto option = "restart=" + s.path() + "/" + mara::create_numbered_filename("chkpt", count, "h5");
    const char* argv[2] = {"mara", option.data()};
    auto c = create_run_config(2, argv);
    vc_assert_eq("final time", c.get_double("tfinal"), tfinal);
    vc_assert("resolution", c.get_int("nr") == nr);
    vc_assert("output directory", c.get_string("outdir") == s.path());
    auto b = P::create_app_state(c);
    auto& y = b.solution;
    vc_assert("same state", y.time == x.time);
    vc_assert("iteration", y.iteration == x.iteration);
    vc_assert("numbers of zones", y.radial_vertices.shape(0) == n0 + 1 && y.polar_vertices.shape(0) == n1 + 1 && y.conserved.shape(0) == n0 && y.conserved.shape(1) == n1);
    for (std::size_t i = 0; i <= n0; ++i) vc_assert_eq("radius", y.radial_vertices(i).value, x.radial_vertices(i).value);
    for (std::size_t i = 0; i <= n1; ++i) vc_assert_eq("polar angle", y.polar_vertices(i), x.polar_vertices(i));
    for (std::size_t i = 0; i < n0; ++i) for (std::size_t j = 0; j < n1; ++j) for (int k = 0; k < 5; ++k) vc_assert_eq("conserved", y.conserved(i, j)[k].value, x.conserved(i, j)[k].value);
    same_schedule(a.schedule, b.schedule);
}
