// Conserved -> primitive recovery, special relativistic gas (physics_srhd.hpp).
// The root is found by Newton iteration, so the round trip holds to the stated
// tolerance (sampled); everything else is proved for any number of iterations.
#include "gas.hpp"
using namespace mara;
using namespace spec;
namespace {
srhd::conserved_density_t conserved()
{
    srhd::conserved_density_t U;
    U[0] = pos("D"); U[1] = real("S1"); U[2] = real("S2"); U[3] = real("S3"); U[4] = pos("tau");
    return U;
}
}
VC_PROOF(srhd_conserved_meaning)
{
    auto P = srhd_state(); auto g = gamma_index_rel();
    auto U = P.to_conserved_density(g);
    auto W = P.lorentz_factor(), h = P.specific_enthalpy(g);
    vc_assert_eq("lorentz factor", W * W, 1 + P[1] * P[1] + P[2] * P[2] + P[3] * P[3]);
    vc_assert("lorentz factor at least one", W >= 1);
    vc_assert_eq("enthalpy", h * P[0], P[0] + P[4] / (g - 1) + P[4]);
    vc_assert_eq("mass", U[0].value, P[0] * W);
    for (int i = 1; i < 4; ++i) vc_assert_eq("momentum", U[i].value, P[0] * h * W * P[i]);
    vc_assert_eq("energy without rest mass", U[4].value, P[0] * h * W * W - P[4] - P[0] * W);
    vc_assert_eq("sound speed", P.sound_speed_squared(g) * (P[0] * h), g * P[4]);
    auto n = unit3();
    vc_assert_eq("velocity along a direction", P.beta_along(n) * W, P[1] * n.get_n1() + P[2] * n.get_n2() + P[3] * n.get_n3());
}
// whatever is returned is physical; everything else is refused
VC_PROOF(srhd_recovery_is_physical)
{
    vc_cut_loops(); vc_opaque_text(); vc_assume_defined("a Newton iterate at which a denominator is exactly zero");
    auto U = conserved(); auto g = gamma_index_rel(); auto T = vc_real("floor", 0, 1); vc_assume(T >= 0);
    srhd::primitive_t P; bool threw = false;
    try { P = srhd::recover_primitive(U, g, T); } catch (const std::invalid_argument&) { threw = true; }
    if (threw) return;
    vc_assert("density", P[0] > 0);
    vc_assert("pressure", P[4] > 0);
    vc_assert_eq("velocity parallel to momentum (12)", P[1] * U[2].value, P[2] * U[1].value);
    vc_assert_eq("velocity parallel to momentum (23)", P[2] * U[3].value, P[3] * U[2].value);
    vc_assert_eq("velocity parallel to momentum (31)", P[3] * U[1].value, P[1] * U[3].value);
    vc_assert_le("temperature not below the floor", T * P[0], P[4]);
    auto E = U[4].value + U[0].value + P[4];
    vc_assert_eq("velocity", P[1] * P[0] * E, U[0].value * U[1].value);
}
VC_PROOF(sampled_srhd_recovery_at_rest)
{
    srhd::conserved_density_t U;
    auto D = pos("D"), tau = pos("tau"), g = gamma_index_rel();
    U[0] = D; U[1] = 0.0; U[2] = 0.0; U[3] = 0.0; U[4] = tau;
    auto P = srhd::recover_primitive(U, g, 0.0);
    vc_assert_eq("density", P[0], D);
    for (int i = 1; i < 4; ++i) vc_assert_eq("at rest", P[i], 0.0);
    vc_assert("pressure", P[4] - (g - 1) * tau < 1e-9 * (1 + tau) && (g - 1) * tau - P[4] < 1e-9 * (1 + tau));
}
VC_PROOF(sampled_srhd_round_trip)
{
    auto P = srhd_state(); auto g = gamma_index_rel();
    vc_assume(g > 1.1); vc_assume(P[4] > 1e-3 * P[0] && P[4] < 1e3 * P[0] && P[0] > 1e-2);
    vc_assume(P.gamma_beta_squared() < 25);
    auto Q = srhd::recover_primitive(P.to_conserved_density(g), g, 0.0);
    for (int i = 0; i < 5; ++i) { auto d = Q[i] - P[i]; vc_assert("recovered", (d < 0 ? -d : d) <= 1e-5 * (1 + (P[i] < 0 ? -P[i] : P[i]))); }
}
