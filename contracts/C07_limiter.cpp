// Slope limiter of the piecewise-linear reconstruction
#include "gas.hpp"
#include "math_interpolation.hpp"
using namespace mara;
using namespace spec;

static double theta12() { auto t = vc_real("theta", 1.0, 2.0); vc_assume(t >= 1 && t <= 2); return t; }
static double theta_any() { auto t = vc_real("theta", 0.0, 2.0); vc_assume(t >= 0 && t <= 2); return t; }

VC_PROOF(plm_is_minmod)
{
    auto yl = real("yl"), y0 = real("y0"), yr = real("yr"); auto t = theta_any();
    auto g = plm_gradient(yl, y0, yr, t);
    auto up   = (y0 > yl) && (yr > y0);
    auto down = (y0 < yl) && (yr < y0);
    auto a = t * std::fabs(y0 - yl), b = 0.5 * std::fabs(yr - yl), c = t * std::fabs(yr - y0);
    auto m = std::min(a, std::min(b, c));
    vc_assert_eq("minmod of scaled one-sided and centred slopes", g, up ? m : (down ? -m : 0.0));
}
// no new extrema: reconstructed face values stay between the neighbours
VC_PROOF(plm_faces_bounded)
{
    auto yl = real("yl"), y0 = real("y0"), yr = real("yr"); auto t = theta_any();
    auto g = plm_gradient(yl, y0, yr, t);
    auto fr = y0 + 0.5 * g, fl = y0 - 0.5 * g;
    vc_assert("right face", fr <= std::max(y0, yr) && fr >= std::min(y0, yr));
    vc_assert("left face", fl <= std::max(y0, yl) && fl >= std::min(y0, yl));
}
VC_PROOF(plm_extremum_is_flat)
{
    auto yl = real("yl"), y0 = real("y0"), yr = real("yr"); auto t = theta_any();
    vc_assume((y0 >= yl && y0 >= yr) || (y0 <= yl && y0 <= yr));
    vc_assert_eq("flat", plm_gradient(yl, y0, yr, t), 0.0);
}
VC_PROOF(plm_linear_exact)
{
    auto y0 = real("y0"), s = real("s"); auto t = theta12();
    vc_assert_eq("slope", plm_gradient(y0 - s, y0, y0 + s, t), s);
}
VC_PROOF(plm_symmetries)
{
    auto yl = real("yl"), y0 = real("y0"), yr = real("yr"); auto t = theta_any();
    auto g = plm_gradient(yl, y0, yr, t);
    vc_assert_eq("mirror", plm_gradient(yr, y0, yl, t), -g);
    vc_assert_eq("negate", plm_gradient(-yl, -y0, -yr, t), -g);
    auto k = real("k");
    vc_assert_eq("shift", plm_gradient(yl + k, y0 + k, yr + k, t), g);
    auto c = pos("c");
    vc_assert_eq("scale", plm_gradient(c * yl, c * y0, c * yr, t), c * g);
    vc_assert_eq("theta = 0 is piecewise constant", plm_gradient(yl, y0, yr, 0.0), 0.0);
}
// every container overload limits each component on its own
VC_PROOF(plm_componentwise)
{
    auto t = theta_any();
    auto a = euler_left(), b = euler_state(), c = euler_right();
    euler::primitive_t G = plm_gradient(a, b, c, t);
    for (int i = 0; i < 5; ++i) vc_assert_eq("derivable sequence", G[i], plm_gradient(a[i], b[i], c[i], t));
    arithmetic_sequence_t<unit_length<double>, 3> x, y, z;
    for (int i = 0; i < 3; ++i) { x[i] = a[i]; y[i] = b[i]; z[i] = c[i]; }
    auto H = plm_gradient(x, y, z, t);
    for (int i = 0; i < 3; ++i) vc_assert_eq("sequence", H[i].value, plm_gradient(a[i], b[i], c[i], t));
    auto p = iso2d::conserved_t{{a[0], a[1], a[2]}}, q = iso2d::conserved_t{{b[0], b[1], b[2]}}, r = iso2d::conserved_t{{c[0], c[1], c[2]}};
    auto K = plm_gradient(p, q, r, t);
    vc_assert_eq("tuple 0", mara::get<0>(K).value, plm_gradient(a[0], b[0], c[0], t));
    vc_assert_eq("tuple 1", mara::get<1>(K).value, plm_gradient(a[1], b[1], c[1], t));
    vc_assert_eq("tuple 2", mara::get<2>(K).value, plm_gradient(a[2], b[2], c[2], t));
}
