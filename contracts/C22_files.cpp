// What is written to a file is read back equal.  The HDF5 library is represented by
// the store of hdf5_standin.hpp.  The names, texts and sizes are fixed examples;
// the values are arbitrary
#include "hdf5_standin.hpp"
#include "nd.hpp"
#include "rbtree.hpp"
#include "tree.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
#include "tree_names.hpp"
using namespace spec;
namespace {
template<typename T> T through_file(const T& value)
{
    scratch s;
    { h5::File(s.file("a.h5"), "w").open_group("/").write("value", value); }
    return h5::File(s.file("a.h5"), "r").open_group("/").template read<T>("value");
}
template<typename F> bool refused(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
const char* V[12] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11"};
}
VC_PROOF(scalars)
{
    auto x = real("x");
    vc_assert_eq("double", through_file(x), x);
    int n = vc_int("n", -1000, 1000);
    vc_assert("int", through_file(n) == n);
    auto u = (unsigned long) vc_int("u", 0, 1000);
    vc_assert("unsigned long", through_file(u) == u);
    auto m = mara::make_mass(x);
    vc_assert_eq("dimensional value", through_file(m).value, x);
    mara::rational_number_t r; 
    r = mara::make_rational(3, 4);
    vc_assert("rational number", through_file(r) == r);
    auto s = mara::arithmetic_sequence_t<double, 3>{{x, real("y"), real("z")}};
    auto t = through_file(s);
    for (int k = 0; k < 3; ++k) vc_assert_eq("sequence", t[k], s[k]);
}
VC_PROOF(bounded_texts)
{
    for (auto text : {"", "a", "a text", "0123456789012345678901234567890123456789", "trailing space "})
        vc_assert("text", through_file(std::string(text)) == text);
    vc_assert("character", through_file('q') == 'q');
}
VC_PROOF(bounded_arrays)
{
    int n = int(vc_choose("size", 0, 4));
    std::vector<double> v;
    for (int k = 0; k < n; ++k) v.push_back(real(V[k]));
    auto w = through_file(v);
    vc_assert("size of a vector", w.size() == v.size());
    for (int k = 0; k < n; ++k) vc_assert_eq("vector", w[k], v[k]);
    mara::linked_list_t<double> l(v.begin(), v.end());
    auto m = through_file(l);
    vc_assert("size of a list", m.size() == l.size());
    int k = 0;
    for (auto x : m) vc_assert_eq("list", x, v[k++]);
}
VC_PROOF(bounded_shaped_arrays)
{
    double v[9];
    for (int k = 0; k < 9; ++k) v[k] = real(V[k]);
    for (int n0 = 1; n0 <= 3; ++n0) for (int n1 = 1; n1 <= 3; ++n1)
    {
        auto a = nd::make_unique_array<double>(n0, n1);
        for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) a(i, j) = v[i * 3 + j];
        auto s = std::move(a).shared();
        auto b = through_file(s);
        vc_assert("shape", b.shape(0) == std::size_t(n0) && b.shape(1) == std::size_t(n1));
        for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) vc_assert_eq("array", b(i, j), v[i * 3 + j]);
    }
}
VC_PROOF(bounded_part_of_an_array)
{
    // a slice written to or read from the place that a selection names
    scratch s;
    int at = int(vc_choose("at", 0, 5)), n = int(vc_choose("size", 1, 6)), jump = int(vc_choose("jump", 1, 2));
    vc_assume(at + (n - 1) * jump < 6);
    auto file = h5::File(s.file("a.h5"), "w");
    std::vector<double> v, w;
    for (int k = 0; k < 6; ++k) v.push_back(real(V[k]));
    for (int k = 0; k < n; ++k) w.push_back(real(V[6 + k]));
    file.write("v", v);
    auto sel = nd::access_pattern_t<1>().with_start(at).with_final(at + (n - 1) * jump + 1).with_jumps(jump);
    auto dset = file.open_dataset("v");
    dset.write(w, dset.get_space().select(mara::make_hdf5_hyperslab(sel)));
    auto r = file.read<std::vector<double>>("v");
    for (int k = 0; k < 6; ++k)
    {
        bool in = k >= at && (k - at) % jump == 0 && (k - at) / jump < n;
        vc_assert_eq("element", r[k], in ? w[(k - at) / jump] : v[k]);
    }
}
VC_PROOF(growing_series)
{
    // the way the codes append to time_series.h5
    scratch s;
    {
        auto file = h5::File(s.file("a.h5"), "w");
        auto plist = h5::PropertyList::dataset_create().set_chunk(1000);
        file.require_dataset("t", h5::Datatype::native_double(), h5::Dataspace::unlimited(0), plist);
    }
    double x[4];
    for (int k = 0; k < 4; ++k) x[k] = real(V[k]);
    for (int k = 0; k < 4; ++k)
    {
        auto file = h5::File(s.file("a.h5"), "r+");
        auto dset = file.open_dataset("t");
        dset.set_extent(k + 1);
        dset.write(x[k], dset.get_space().select(h5::hyperslab_t{{std::size_t(k)}, {1}, {1}, {1}}));
    }
    auto v = h5::File(s.file("a.h5"), "r").read<std::vector<double>>("t");
    vc_assert("number of samples", v.size() == 4);
    for (int k = 0; k < 4; ++k) vc_assert_eq("sample", v[k], x[k]);
}
VC_PROOF(overwriting)
{
    scratch s;
    auto x = real("x"), y = real("y");
    int n = vc_int("n", -1000, 1000);
    auto file = h5::File(s.file("a.h5"), "w");
    file.write("a", x);
    file.require_group("g").write("a", y);
    vc_assert_eq("names of different groups are different", file.read<double>("a"), x);
    file.write("a", y);
    vc_assert_eq("the value is replaced", file.read<double>("a"), y);
    vc_assert("a value of another type is refused", refused([&] { file.write("a", n); }));
    vc_assert("a value of another shape is refused", refused([&] { file.write("a", std::vector<double>{x, x}); }));
    auto tall = nd::make_unique_array<double>(3, 2), wide = nd::make_unique_array<double>(2, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) tall(i, j) = wide(j, i) = x;
    file.write("m", std::move(tall).shared());
    vc_assert("so is one of the same size", refused([&] { file.write("m", std::move(wide).shared()); }));
    vc_assert_eq("and changes nothing", file.read<double>("a"), y);
    vc_assert("reading as another type is refused", refused([&] { file.read<int>("a"); }));
    vc_assert("reading what is not there is refused", refused([&] { file.read<double>("b"); }));
    vc_assert("a group that is not there is refused", refused([&] { file.open_group("h"); }));
    vc_assert_eq("existing groups are kept", file.require_group("g").read<double>("a"), y);
    vc_assert("number of members", file.size() == 3);
    std::vector<std::string> names;
    for (auto name : file) names.push_back(name);
    vc_assert("names", names == std::vector<std::string>{"a", "g", "m"});
    file.close();
    vc_assert("a file that is not there is refused", refused([&] { h5::File(s.file("b.h5"), "r"); }));
}
VC_PROOF(configuration)
{
    scratch s;
    int n = vc_int("n", -100, 100);
    auto x = real("x");
    const auto T = mara::make_config_template().item("nr", 1).item("tfinal", 1.0).item("outdir", "data").item("restart", "");
    const auto c = T.create().set("nr", mara::config_parameter_t(n)).set("tfinal", mara::config_parameter_t(x));
    {
        auto file = h5::File(s.file("a.h5"), "w");
        mara::write_config(file.require_group("run_config"), c);
    }
    auto m = mara::read_config(h5::File(s.file("a.h5"), "r").open_group("run_config"));
    vc_assert("number of items", m.size() == 4);
    auto d = T.create().update(m);
    vc_assert("int", d.get_int("nr") == n);
    vc_assert_eq("double", d.get_double("tfinal"), x);
    vc_assert("text", d.get_string("outdir") == "data");
    vc_assert("empty text", d.get_string("restart").empty());
}
VC_PROOF(schedule)
{
    scratch s;
    const char* T[3] = {"write_checkpoint", "write_diagnostics", "time_series"};
    const char* names[3][2] = {{"due 0", "count 0"}, {"due 1", "count 1"}, {"due 2", "count 2"}};
    mara::schedule_t a;
    for (int k = 0; k < 3; ++k) a.insert({T[k], int(vc_int(names[k][1], 0, 1000000)), real(V[k]), vc_bool(names[k][0])});
    {
        auto file = h5::File(s.file("a.h5"), "w");
        mara::write_schedule(file.require_group("schedule"), a);
    }
    mara::schedule_t b = mara::read_schedule(h5::File(s.file("a.h5"), "r").open_group("schedule"));
    vc_assert("number of tasks", b.size() == 3);
    for (int k = 0; k < 3; ++k)
    {
        vc_assert("name", b.at(T[k]).name == T[k]);
        vc_assert("number of times performed", b.num_times_performed(T[k]) == a.num_times_performed(T[k]));
        vc_assert_eq("last performed", b.last_performed(T[k]), a.last_performed(T[k]));
        vc_assert("due", b.is_due(T[k]) == a.is_due(T[k]));
    }
}
namespace {
template<std::size_t R> void tree_through_file(int depth)
{
    scratch s;
    auto t = any_tree<R>(depth, "leaf");
    {
        auto file = h5::File(s.file("a.h5"), "w");
        mara::write_tree(file.require_group("t"), t);
    }
    auto u = tree<R>();
    mara::read_tree(h5::File(s.file("a.h5"), "r").open_group("t"), u);
    vc_assert("same shape", same_shape(t, u));
    leaves(u, spec::index<R>(), [] (auto i, double x) { vc_assert_eq("leaf", x, leaf_value(i, "leaf")); });
}
}
VC_CONTRACT(format1, &mara::format_tree_index<1>, &name_of<1>)
VC_CONTRACT(format2, &mara::format_tree_index<2>, &name_of<2>)
VC_PROOF(bounded_trees_1d)
{
    vc_use_contract("format1");
    tree_through_file<1>(3);
}
VC_PROOF(bounded_trees_2d)
{
    vc_use_contract("format2");
    tree_through_file<2>(1);
}
namespace {
template<std::size_t R> void names_of_nodes()
{
    const char* names[3] = {"i", "j", "k"};
    spec::index<R> i; i.level = std::size_t(vc_int("level", 0, 28));
    for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = std::size_t(vc_int(names[a], 0, (1L << i.level) - 1));
    vc_assert("name", mara::format_tree_index(i) == name_of(i));
    vc_assert("index", mara::read_tree_index<R>(mara::format_tree_index(i)) == i);
}
}
VC_PROOF(sampled_names_of_nodes)
{
    names_of_nodes<1>();
    names_of_nodes<2>();
    names_of_nodes<3>();
}
VC_PROOF(sampled_names_of_files)
{
    int n = vc_int("n", 0, 2000000);
    auto digits = std::to_string(n);
    while (digits.size() < 4) digits = "0" + digits;
    vc_assert("name", mara::create_numbered_filename("chkpt", n, "h5") == "chkpt." + digits + ".h5");
    vc_assert("with another prefix", mara::create_numbered_filename("a/diagnostics", n, "txt") == "a/diagnostics." + digits + ".txt");
}
