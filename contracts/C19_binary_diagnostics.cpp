// Totals over the disk
#define BINARY_SOURCE "subprog_binary_diagnostics.cpp"
#include "binary.hpp"
using namespace spec;
#ifdef VC_NATIVE                     // for the linker; the contract does not reach them
namespace binary {
solver_data_t create_solver_data(const mara::config_t&) { return {}; }
quad_tree_t<mara::iso2d::primitive_t> recover_primitive(const solution_t&, const solver_data_t&) { throw std::logic_error("not under contract here"); }
}
#endif
VC_PROOF(bounded_disk_totals)
{
    auto w = any_world();
    double mass = 0, angmom = 0;
    each(w, [&] (const index2& b, long i, long j) {
        auto x = some_point(b, i, j); double dA = at("dA", b, i, j), sigma = at("u0", b, i, j);
        mass += sigma * dA;
        angmom += dA * (w.d.conserve_linear_p ? x[0].value * at("u2", b, i, j) - x[1].value * at("u1", b, i, j) : at("u2", b, i, j));
    });
    vc_assert_eq("mass", binary::disk_mass(w.s, w.d).value, mass);
    vc_assert_eq("angular momentum", binary::disk_angular_momentum(w.s, w.d).value, angmom);
}
