// Run-time configuration.  The names of the options and the texts are fixed
// examples; the values are arbitrary
#include "common.hpp"
#include <stdexcept>
#include <ostream>
#include "rbtree.hpp"
#include "app_config.hpp"
using namespace spec;
namespace {
template<typename F> bool refused(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }
}
VC_PROOF(parameters_set)
{
    int n0 = vc_int("n0", -100, 100), n1 = vc_int("n1", -100, 100);
    double t0 = real("t0"), t1 = real("t1"), f0 = real("f0");
    const auto T = mara::make_config_template().item("nr", n0).item("tfinal", t0).item("outdir", "data").item("cfl", f0);
    const auto c = T.create();
    vc_assert("default int", c.get_int("nr") == n0);
    vc_assert_eq("default double", c.get_double("tfinal"), t0);
    vc_assert_eq("another default", c.get_double("cfl"), f0);
    vc_assert("default string", c.get_string("outdir") == "data");
    auto a = c.set("nr", mara::config_parameter_t(n1));
    vc_assert("int", a.get_int("nr") == n1);
    vc_assert_eq("double is kept", a.get_double("tfinal"), t0);
    auto b = a.set("tfinal", mara::config_parameter_t(t1));
    vc_assert_eq("double", b.get_double("tfinal"), t1);
    vc_assert("int is kept", b.get_int("nr") == n1);
    auto d = b.set("outdir", std::string("elsewhere"));
    vc_assert("string", d.get_string("outdir") == "elsewhere");
    vc_assert_eq("others are kept", d.get_double("cfl"), f0);
    vc_assert("the original is unchanged", c.get_int("nr") == n0 && c.get_double("tfinal") == t0 && c.get_string("outdir") == "data");
    mara::config_parameter_map_t m;
    m["nr"] = n1;
    m["cfl"] = t1;
    auto e = c.update(m);
    vc_assert("update", e.get_int("nr") == n1 && e.get_double("cfl") == t1);
    vc_assert("others are kept by update", e.get_double("tfinal") == t0 && e.get_string("outdir") == "data");
}
VC_PROOF(bounded_wrong_parameters_are_refused)
{
    const auto c = mara::make_config_template().item("nr", 1).item("tfinal", 2.0).item("outdir", "data").create();
    vc_assert("unknown option", refused([&] { c.get_int("np"); }) && refused([&] { c.set("np", mara::config_parameter_t(1)); }) && refused([&] { c.set("np", std::string("1")); }));
    vc_assert("wrong type", refused([&] { c.set("nr", mara::config_parameter_t(1.0)); }) && refused([&] { c.set("tfinal", mara::config_parameter_t(1)); })
        && refused([&] { c.set("nr", mara::config_parameter_t(std::string("1"))); }) && refused([&] { c.set("outdir", mara::config_parameter_t(1)); }));
    mara::config_string_map_t m;
    m["np"] = "1";
    vc_assert("unknown option in update", refused([&] { c.update(m); }));
    bool wrong = false;
    try { c.get_double("nr"); } catch (const std::bad_variant_access&) { wrong = true; }
    vc_assert("value of the wrong type", wrong);
}
VC_PROOF(bounded_parameters_from_text)
{
    const auto c = mara::make_config_template().item("nr", 1).item("tfinal", 2.0).item("outdir", "data").create();
    mara::config_string_map_t m;
    m["nr"] = "-64";
    m["tfinal"] = "1.5e2";
    m["outdir"] = "12";
    auto d = c.update(m);
    vc_assert("int", d.get_int("nr") == -64);
    vc_assert_eq("double", d.get_double("tfinal"), 150.0);
    vc_assert("string", d.get_string("outdir") == "12");
    vc_assert("the original is unchanged", c.get_int("nr") == 1 && c.get_double("tfinal") == 2 && c.get_string("outdir") == "data");
    vc_assert("not a number", refused([&] { c.set("nr", std::string("many")); }) && refused([&] { c.set("tfinal", std::string("late")); }));
}
VC_PROOF(bounded_command_line)
{
    const char* argv[] = {"mara", "sedov", "nr=64", "outdir=a=b", "tfinal=", "--flag"};
    auto m = mara::argv_to_string_map(6, argv);
    vc_assert("number of options", m.size() == 3);
    vc_assert("key and value", m.at("nr") == "64");
    vc_assert("the first = separates", m.at("outdir") == "a=b");
    vc_assert("empty value", m.at("tfinal") == "");
    const char* twice[] = {"nr=64", "nr=32"};
    vc_assert("duplicates are refused", refused([&] { mara::argv_to_string_map(2, twice); }));
}
