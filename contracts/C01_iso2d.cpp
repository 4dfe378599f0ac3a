// Conserved <-> primitive conversions, isothermal 2d (physics_iso2d.hpp)
#include "gas.hpp"
using namespace mara;
using namespace spec;

VC_PROOF(iso2d_linear_prim_cons_prim)
{
    auto P = iso2d_state();
    auto U = P.to_conserved_per_area();
    auto Q = iso2d::recover_primitive(U);
    for (int i = 0; i < 3; ++i) vc_assert_eq("P", Q[i], P[i]);
    vc_assert_eq("sigma", mara::get<0>(U).value, P.sigma());
    vc_assert_eq("px", mara::get<1>(U).value, P.sigma() * P.velocity_x());
    vc_assert_eq("py", mara::get<2>(U).value, P.sigma() * P.velocity_y());
}
VC_PROOF(iso2d_linear_cons_prim_cons)
{
    auto s = pos("s"); auto px = real("px"), py = real("py");
    auto U = iso2d::conserved_per_area_t{{s, px, py}};
    auto V = iso2d::recover_primitive(U).to_conserved_per_area();
    vc_assert_eq("sigma", mara::get<0>(V).value, s);
    vc_assert_eq("px", mara::get<1>(V).value, px);
    vc_assert_eq("py", mara::get<2>(V).value, py);
}
VC_PROOF(iso2d_angmom_prim_cons_prim)
{
    auto P = iso2d_state();
    auto x = location_off_origin();
    auto U = P.to_conserved_angmom_per_area(x);
    auto Q = iso2d::recover_primitive(U, x);
    for (int i = 0; i < 3; ++i) vc_assert_eq("P", Q[i], P[i]);
}
VC_PROOF(iso2d_angmom_cons_prim_cons)
{
    auto s = pos("s"); auto sr = real("sr"), lz = real("lz");
    auto x = location_off_origin();
    auto Q = iso2d::conserved_angmom_per_area_t{{s, sr, lz}};
    auto V = iso2d::recover_primitive(Q, x).to_conserved_angmom_per_area(x);
    vc_assert_eq("sigma", mara::get<0>(V).value, s);
    vc_assert_eq("sr", mara::get<1>(V).value, sr);
    vc_assert_eq("lz", mara::get<2>(V).value, lz);
}
// the two sets of conserved variables describe the same state
VC_PROOF(iso2d_angmom_agrees_with_linear)
{
    auto P = iso2d_state();
    auto x = location_off_origin();
    auto Q = P.to_conserved_angmom_per_area(x);
    auto U = P.to_conserved_per_area();
    auto V = iso2d::to_conserved_per_area(Q, x);
    vc_assert_eq("sigma", mara::get<0>(V).value, mara::get<0>(U).value);
    vc_assert_eq("px", mara::get<1>(V).value, mara::get<1>(U).value);
    vc_assert_eq("py", mara::get<2>(V).value, mara::get<2>(U).value);
    auto px = iso2d::momentum_vector(U)[0].value, py = iso2d::momentum_vector(U)[1].value;
    vc_assert_eq("lz_is_x_cross_p", mara::get<2>(Q).value, x[0].value * py - x[1].value * px);
    vc_assert_eq("sr_is_x_dot_p", mara::get<1>(Q).value, x[0].value * px + x[1].value * py);
    vc_assert_eq("angular_momentum()", iso2d::angular_momentum(U, x).value, mara::get<2>(Q).value);
}
VC_PROOF(iso2d_negative_density_is_rejected)
{
    auto s = vc_real("s", -5, -0.01);
    vc_assume(s < 0);
    auto a = real("a"), b = real("b");
    auto x = location_off_origin();
    bool t1 = false, t2 = false;
    try { iso2d::recover_primitive(iso2d::conserved_per_area_t{{s, a, b}}); } catch (const std::invalid_argument&) { t1 = true; }
    try { iso2d::recover_primitive(iso2d::conserved_angmom_per_area_t{{s, a, b}}, x); } catch (const std::invalid_argument&) { t2 = true; }
    vc_assert("linear form throws", t1);
    vc_assert("angmom form throws", t2);
}
