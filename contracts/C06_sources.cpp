// Geometric source terms: the difference between the divergence of the stress
// tensor in curvilinear form and the divergence of fluxes the grid computes
#include "gas.hpp"
using namespace mara;
using namespace spec;

static double polar_angle()
{
    auto q = vc_real("theta", 0.1, 3.0);
    vc_assume(std::sin(q) != 0);
    return q;
}
template<typename State> static void spherical(State P, double g)
{
    auto r = pos("r", 0.2, 10.0), q = polar_angle();
    auto S = P.spherical_geometry_source_terms(r, q, g);
    auto Tr = P.flux(unit_vector_t::on_axis(0), g);
    auto Tq = P.flux(unit_vector_t::on_axis(1), g);
    auto Tp = P.flux(unit_vector_t::on_axis(2), g);
    auto cot = std::cos(q) / std::sin(q);
    vc_assert_eq("no mass source", S[0].value, 0);
    vc_assert_eq("radial", S[1].value * r, Tq[2].value + Tp[3].value);
    vc_assert_eq("polar", S[2].value * r, cot * Tp[3].value - Tq[1].value);
    vc_assert_eq("azimuthal", S[3].value * r, -(Tp[1].value + cot * Tp[2].value));
    vc_assert_eq("no energy source", S[4].value, 0);
    vc_assert_eq("stress is symmetric", Tr[2].value, Tq[1].value);
}
VC_PROOF(euler_spherical_sources) { auto g = gamma_index(); spherical(euler_state(), g); }
VC_PROOF(srhd_spherical_sources)  { auto g = gamma_index_rel(); spherical(srhd_state(), g); }

template<typename State> static void radial(State P, double g)
{
    P[2] = 0; P[3] = 0;
    auto r = pos("r", 0.2, 10.0), q = polar_angle();
    auto S = P.spherical_geometry_source_terms_radial(r, g);
    auto T = P.spherical_geometry_source_terms(r, q, g);
    vc_assert_eq("mass", S[0].value, T[0].value);
    vc_assert_eq("radial momentum", S[1].value, T[1].value);
    vc_assert_eq("pressure term", S[1].value * r, 2 * P.gas_pressure());
    vc_assert_eq("polar", S[2].value, 0);
    vc_assert_eq("azimuthal", S[3].value, 0);
    vc_assert_eq("energy", S[4].value, T[4].value);
}
VC_PROOF(euler_radial_sources) { auto g = gamma_index(); radial(euler_state(), g); }
VC_PROOF(srhd_radial_sources)  { auto g = gamma_index_rel(); radial(srhd_state(), g); }

// gas at rest with uniform pressure in a spherical cell stays at rest: the
// source equals the pressure force on the faces for any inner and outer radius
// (volume average of 2 p / r against the area difference)
template<typename State> static void hydrostatic(State P, double g)
{
    P[1] = 0; P[2] = 0; P[3] = 0;
    auto r0 = pos("r0", 0.2, 10.0), dr = pos("dr", 0.01, 5.0);
    auto r1 = r0 + dr;
    auto F = P.flux(unit_vector_t::on_axis(0), g);
    // area * flux difference over volume, with the radius at which the source is exact
    auto area = [] (double r) { return r * r; };
    auto vol = (r1 * r1 * r1 - r0 * r0 * r0) / 3;
    auto rc = 2 * vol / (area(r1) - area(r0));
    auto S = P.spherical_geometry_source_terms_radial(rc, g);
    vc_assert_eq("equilibrium", S[1].value * vol, F[1].value * area(r1) - F[1].value * area(r0));
}
VC_PROOF(euler_hydrostatic) { auto g = gamma_index(); hydrostatic(euler_state(), g); }
VC_PROOF(srhd_hydrostatic)  { auto g = gamma_index_rel(); hydrostatic(srhd_state(), g); }

// isothermal 2d, angular momentum form: div(x.F) = x.div(F) + tr F, and
// div(x ^ F) = x ^ div(F) because the stress is symmetric
VC_PROOF(iso2d_angmom_sources)
{
    auto P = iso2d_state(); auto c2 = pos("c2");
    auto S = P.source_terms_conserved_angmom(c2);
    auto Fx = P.flux(unit_vector_t::on_axis_1(), c2);
    auto Fy = P.flux(unit_vector_t::on_axis_2(), c2);
    vc_assert_eq("mass", mara::get<0>(S).value, 0);
    vc_assert_eq("radial momentum is trace of stress", mara::get<1>(S).value, mara::get<1>(Fx).value + mara::get<2>(Fy).value);
    vc_assert_eq("angular momentum", mara::get<2>(S).value, mara::get<2>(Fx).value - mara::get<1>(Fy).value);
    vc_assert_eq("torque free", mara::get<2>(S).value, 0);
}
VC_PROOF(iso2d_angmom_flux)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2(); auto x = location("x", "y");
    auto F = P.flux(n, c2);
    auto G = iso2d::to_conserved_angmom_flux(F, x);
    vc_assert_eq("mass", mara::get<0>(G).value, mara::get<0>(F).value);
    vc_assert_eq("x.F", mara::get<1>(G).value, x[0].value * mara::get<1>(F).value + x[1].value * mara::get<2>(F).value);
    vc_assert_eq("x^F", mara::get<2>(G).value, x[0].value * mara::get<2>(F).value - x[1].value * mara::get<1>(F).value);
    // advection of the angular-momentum densities plus the pressure force and torque
    auto Q = P.to_conserved_angmom_per_area(x);
    auto v = P.velocity_along(n), p = P.gas_pressure(c2);
    auto xn = x[0].value * n.get_n1() + x[1].value * n.get_n2(), xt = x[0].value * n.get_n2() - x[1].value * n.get_n1();
    vc_assert_eq("radial flux", mara::get<1>(G).value, v * mara::get<1>(Q).value + p * xn);
    vc_assert_eq("angular momentum flux", mara::get<2>(G).value, v * mara::get<2>(Q).value + p * xt);
}
