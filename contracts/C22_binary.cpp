// The state of the circumbinary disk code is read back from its checkpoint.  The
// HDF5 library is represented by the store of hdf5_standin.hpp; the shapes of the
// trees, the sizes of the blocks and the number of samples are fixed examples
#define BINARY_SOURCE "subprog_binary_io.cpp"
#include "hdf5_standin.hpp"
#include "binary.hpp"
#include "rbtree.hpp"
#include "tree_names.hpp"
using namespace spec;
#include "binary_state.hpp"
VC_CONTRACT(format2, &mara::format_tree_index<2>, &name_of<2>)
VC_PROOF(bounded_state)
{
    vc_use_contract("format2");
    scratch s;
    binary::state_t a, b;
    auto& x = a.solution;
    fill_solution(x);
    int n = int(vc_choose("samples", 0, 3));
    binary::time_series_sample_t sample[3];
    for (int k = 0; k < n; ++k) { fill(sample[k], "sample", 100 * k); a.time_series = a.time_series.prepend(sample[k]); }
    a.schedule.create_and_mark_as_due("write_checkpoint");
    a.schedule.create("record_time_series");
    a.run_config = mara::make_config_template().item("depth", 1).create();
    {
        auto file = h5::File(s.file("a.h5"), "w");
        auto root = file.open_group("/");
        mara::write(root, "state", a);
    }
    {
        auto file = h5::File(s.file("a.h5"), "r");
        auto root = file.open_group("/");
        mara::read(root, "state", b);
    }
    auto& y = b.solution;
    same_solution(x, y);
    vc_assert("number of samples", int(b.time_series.size()) == n);
    int k = n;
    for (auto z : b.time_series) { --k; same_numbers("sample", z, sample[k]); }
    vc_assert("schedule", b.schedule.size() == 2 && b.schedule.is_due("write_checkpoint") && ! b.schedule.is_due("record_time_series"));
}
