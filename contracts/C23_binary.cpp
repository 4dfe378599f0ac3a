// A restart of the disk code from a checkpoint continues from the state after the
// checkpoint was written.  Sizes are bounded; the HDF5 library is represented by the store
// of hdf5_standin.hpp
#define BINARY_SECOND_SOURCE "subprog_binary_io.cpp"
#include "hdf5_standin.hpp"
#include "rbtree.hpp"
#include "binary_program.hpp"
#include "tree_names.hpp"
#include "file_names.hpp"
using namespace spec;
#include "binary_state.hpp"
VC_CONTRACT(numbered, &mara::create_numbered_filename, &numbered)
VC_CONTRACT(format2, &mara::format_tree_index<2>, &name_of<2>)
VC_PROOF(bounded_restart_binary)
{
    vc_use_contract("format2");
    vc_use_contract("numbered");
    scratch s;
    const char* TASK[3] = {"record_time_series", "write_checkpoint", "write_diagnostics"};
    const char* COUNT[3] = {"count 0", "count 1", "count 2"};
    const char* LAST[3] = {"last 0", "last 1", "last 2"};
    binary::state_t a;
    fill_solution(a.solution);
    int n = 2;
    binary::time_series_sample_t sample[2];
    for (int k = 0; k < n; ++k) { fill(sample[k], "sample", 100 * k); a.time_series = a.time_series.prepend(sample[k]); }
    for (int k = 0; k < 3; ++k) a.schedule.insert({TASK[k], int(vc_int(COUNT[k], 0, 1000000)), real(LAST[k]), k == 1});
    auto tfinal = real("tfinal");
    int depth = vc_int("depth", 0, 10);
    a.run_config = binary::create_config_template().create().set("tfinal", mara::config_parameter_t(tfinal)).set("depth", mara::config_parameter_t(depth)).set("outdir", s.path());
    auto next = binary::run_tasks(a, solver_data_t());
    int count = a.schedule.num_times_performed("write_checkpoint");
#ifndef VC_NATIVE
    vc_assert("the file has the number of the checkpoint", asked_number == count);
#endif
    auto option = "restart=" + s.path() + "/" + mara::create_numbered_filename("chkpt", count, "h5");
    const char* argv[2] = {"mara", option.data()};
    auto c = binary::create_run_config(2, argv);
    vc_assert_eq("final time", c.get_double("tfinal"), tfinal);
    vc_assert("depth", c.get_int("depth") == depth);
    vc_assert("output directory", c.get_string("outdir") == s.path());
    auto b = binary::create_state(c);
    same_solution(a.solution, b.solution);
    vc_assert("number of samples", int(b.time_series.size()) == n);
    int m = n;
    for (auto z : b.time_series) { --m; same_numbers("sample", z, sample[m]); }
    vc_assert("number of tasks", b.schedule.size() == 3 && next.schedule.size() == 3);
    for (int k = 0; k < 3; ++k)
    {
        auto performed = a.schedule.num_times_performed(TASK[k]) + (k == 1 ? 1 : 0);
        vc_assert("times performed", b.schedule.num_times_performed(TASK[k]) == performed && next.schedule.num_times_performed(TASK[k]) == performed);
        vc_assert_eq("last performed", b.schedule.last_performed(TASK[k]), a.schedule.last_performed(TASK[k]));
        vc_assert("nothing is due", ! b.schedule.is_due(TASK[k]) && ! next.schedule.is_due(TASK[k]));
    }
    vc_assert_eq("the run goes on with the configuration read", b.run_config.get_double("tfinal"), tfinal);
}
