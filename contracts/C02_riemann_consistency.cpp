// Riemann solver consistency: equal states on both sides give the physical flux
#include "gas.hpp"
using namespace mara;
using namespace spec;

VC_PROOF(euler_hlle_consistent)
{
    auto P = euler_state(); auto g = gamma_index(); auto n = unit3();
    auto F = euler::riemann_hlle(P, P, n, g);
    auto G = P.flux(n, g);
    for (int i = 0; i < 5; ++i) vc_assert_eq("F(P,P)=F(P)", F[i].value, G[i].value);
}
VC_PROOF(iso2d_hlle_consistent)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2();
    auto F = iso2d::riemann_hlle(P, P, c2, c2, n);
    auto G = P.flux(n, c2);
    vc_assert_eq("sigma", mara::get<0>(F).value, mara::get<0>(G).value);
    vc_assert_eq("px", mara::get<1>(F).value, mara::get<1>(G).value);
    vc_assert_eq("py", mara::get<2>(F).value, mara::get<2>(G).value);
}
VC_PROOF(srhd_hlle_consistent)
{
    auto P = srhd_state(); auto g = gamma_index_rel(); auto n = unit3();
    auto F = srhd::riemann_hlle(P, P, n, g);
    auto G = P.flux(n, g);
    for (int i = 0; i < 5; ++i) vc_assert_eq("F(P,P)=F(P)", F[i].value, G[i].value);
}
VC_PROOF(iso2d_hllc_consistent)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2();
    auto F = iso2d::riemann_hllc(P, P, c2, c2, n);
    auto G = P.flux(n, c2);
    vc_assert_eq("sigma", mara::get<0>(F).value, mara::get<0>(G).value);
    vc_assert_eq("px", mara::get<1>(F).value, mara::get<1>(G).value);
    vc_assert_eq("py", mara::get<2>(F).value, mara::get<2>(G).value);
}
VC_PROOF(iso2d_hllc_variables_uniform)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2();
    auto V = iso2d::compute_hllc_variables(P, P, c2, c2, n);
    vc_assert_eq("contact speed is the normal velocity", V.contact_speed(), P.velocity_along(n));
    auto U = V.interface_conserved_state();
    auto W = P.to_conserved_per_area();
    vc_assert_eq("sigma", mara::get<0>(U).value, mara::get<0>(W).value);
    vc_assert_eq("px", mara::get<1>(U).value, mara::get<1>(W).value);
    vc_assert_eq("py", mara::get<2>(U).value, mara::get<2>(W).value);
}
// the physical flux is the advected conserved density plus the pressure work
VC_PROOF(euler_flux_meaning)
{
    auto P = euler_state(); auto g = gamma_index(); auto n = unit3();
    auto F = P.flux(n, g);
    auto U = P.to_conserved_density(g);
    auto G = P.flux(n, U);
    auto vn = P[1] * n.get_n1() + P[2] * n.get_n2() + P[3] * n.get_n3();
    auto p = P.gas_pressure();
    double work[5] = {0, p * n.get_n1(), p * n.get_n2(), p * n.get_n3(), p * vn};
    for (int i = 0; i < 5; ++i)
    {
        vc_assert_eq("flux", F[i].value, vn * U[i].value + work[i]);
        vc_assert_eq("flux overload", F[i].value, G[i].value);
    }
}
VC_PROOF(srhd_flux_meaning)
{
    auto P = srhd_state(); auto g = gamma_index_rel(); auto n = unit3();
    auto F = P.flux(n, g);
    auto U = P.to_conserved_density(g);
    auto G = P.flux(n, U);
    auto p = P.gas_pressure();
    auto W = std::sqrt(1 + P[1] * P[1] + P[2] * P[2] + P[3] * P[3]);
    auto vn = (P[1] * n.get_n1() + P[2] * n.get_n2() + P[3] * n.get_n3()) / W;
    double work[5] = {0, p * n.get_n1(), p * n.get_n2(), p * n.get_n3(), p * vn};
    for (int i = 0; i < 5; ++i)
    {
        vc_assert_eq("flux", F[i].value, vn * U[i].value + work[i]);
        vc_assert_eq("flux overload", F[i].value, G[i].value);
    }
}
VC_PROOF(iso2d_flux_meaning)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2();
    auto F = P.flux(n, c2);
    auto vn = P[1] * n.get_n1() + P[2] * n.get_n2();
    vc_assert_eq("sigma", mara::get<0>(F).value, P.sigma() * vn);
    vc_assert_eq("px", mara::get<1>(F).value, P.sigma() * vn * P[1] + P.sigma() * c2 * n.get_n1());
    vc_assert_eq("py", mara::get<2>(F).value, P.sigma() * vn * P[2] + P.sigma() * c2 * n.get_n2());
}
