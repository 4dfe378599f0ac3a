#include "gas.hpp"
using namespace mara;
using namespace spec;

VC_PROOF(euler_wavespeeds)
{
    auto P = euler_state(); auto g = gamma_index(); auto n = unit3();
    auto a = P.wavespeeds(n, g);
    auto vn = P.velocity_along(n);
    auto c2 = g * P.gas_pressure() / P.mass_density();
    vc_assert_eq("sound speed", P.sound_speed_squared(g), c2);
    vc_assert("m < v", a.m.value < vn);
    vc_assert("v < p", vn < a.p.value);
    vc_assert_eq("centred on the flow", a.m.value + a.p.value, 2 * vn);
    vc_assert_eq("width is twice the sound speed", (a.p.value - a.m.value) * (a.p.value - a.m.value), 4 * c2);
    vc_assert_eq("velocity_along", vn, P[1] * n.get_n1() + P[2] * n.get_n2() + P[3] * n.get_n3());
    vc_assert_eq("velocity_squared", P.velocity_squared(), P[1] * P[1] + P[2] * P[2] + P[3] * P[3]);
}
VC_PROOF(iso2d_wavespeeds)
{
    auto P = iso2d_state(); auto c2 = pos("c2"); auto n = unit2();
    auto a = P.wavespeeds(n, c2);
    auto vn = P.velocity_along(n);
    vc_assert("m < v", a.m.value < vn);
    vc_assert("v < p", vn < a.p.value);
    vc_assert_eq("centred on the flow", a.m.value + a.p.value, 2 * vn);
    vc_assert_eq("width is twice the sound speed", (a.p.value - a.m.value) * (a.p.value - a.m.value), 4 * c2);
}
// the CFL speed bounds every signal along the grid axes
VC_PROOF(iso2d_max_wavespeed)
{
    auto P = iso2d_state(); auto c2 = pos("c2");
    auto a = P.max_wavespeed(c2);
    for (int axis = 0; axis < 2; ++axis)
    {
        auto w = P.wavespeeds(unit_vector_t::on_axis(axis), c2);
        vc_assert("bounds p", std::fabs(w.p.value) <= a);
        vc_assert("bounds m", std::fabs(w.m.value) <= a);
    }
    auto cs = std::sqrt(c2);
    vc_assert("attained", a == std::fabs(P[1]) + cs || a == std::fabs(P[2]) + cs);
}
VC_PROOF(srhd_wavespeeds)
{
    auto P = srhd_state(); auto g = gamma_index_rel(); auto n = unit3();
    srhd_ordered(P, n, g);
    auto a = P.wavespeeds(n, g);
    auto vn = P.beta_along(n);
    vc_assert("fluid is subluminal", vn * vn < 1);
    auto c2 = P.sound_speed_squared(g);
    vc_assert("sound is subluminal", c2 > 0 && c2 < 1);
    vc_assert("m <= v", a.m.value <= vn);
    vc_assert("v <= p", vn <= a.p.value);
    vc_assert("m subluminal", a.m.value > -1);
    vc_assert("p subluminal", a.p.value < 1);
}
// the sound-wave eigenvalues solve the relativistic characteristic equation
VC_PROOF(srhd_characteristic_equation)
{
    auto P = srhd_state(); auto g = gamma_index_rel(); auto n = unit3();
    srhd_ordered(P, n, g);
    auto a = P.wavespeeds(n, g);
    auto W = P.lorentz_factor();
    auto vn = P.beta_along(n);
    auto h = P.enthalpy_density(g);
    auto c2 = P.sound_speed_squared(g);
    vc_assert_eq("lorentz factor", W * W, 1 + P[1] * P[1] + P[2] * P[2] + P[3] * P[3]);
    vc_assert_eq("sound speed", c2 * h, g * P[4]);
    vc_assert_eq("enthalpy", h, P[0] + P[4] * g / (g - 1));
    vc_assert_eq("specific enthalpy", P.specific_enthalpy(g) * P[0], h);
    for (double l : {a.m.value, a.p.value})
        vc_assert_eq("characteristic", W * W * (l - vn) * (l - vn) * (1 - c2), c2 * (1 - l * l));
}
