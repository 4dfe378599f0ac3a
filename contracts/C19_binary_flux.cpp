// Intercell fluxes of the circumbinary disk code
#include "binary.hpp"
using namespace spec;
namespace {
flux2 some_flux(const prim2& l, const prim2& r, double cl, double cr, const mara::unit_vector_t& n)
{
    auto f = [&] (const char* k) { return vc_ufr(k, 11, l[0], l[1], l[2], r[0], r[1], r[2], cl, cr, n.get_n1(), n.get_n2(), n.get_n3()); };
    return mara::make_arithmetic_tuple(mara::make_dimensional<-1, 1, -1>(f("F0")), mara::make_dimensional<0, 1, -2>(f("F1")), mara::make_dimensional<0, 1, -2>(f("F2")));
}
}
VC_CONTRACT(riemann, &mara::iso2d::riemann_hlle, &some_flux)
VC_PROOF(intercell_flux)
{
    vc_use_contract("riemann");
    auto axis = std::size_t(vc_choose("axis", 0, 1)), level = std::size_t(vc_choose("level", 0, 3));
    auto d = parameters(std::size_t(vc_choose("block size", 1, 4) * 8));
    auto b = bodies();
    auto x = point(real("x"), real("y"));
    auto pl = state2("sl", "ul", "vl"), pr = state2("sr", "ur", "vr");
    auto gl = vector2("gsl", "gul", "gvl"), gr = vector2("gsr", "gur", "gvr"), hl = vector2("hsl", "hul", "hvl"), hr = vector2("hsr", "hur", "hvr");
    index2 i; i.level = level;
    auto F = intercell_flux_u(axis, b, d, i)(x, {pl, pr}, {gl, gr}, {hl, hr});
    auto Q = intercell_flux_q(axis, b, d, i)(x, {pl, pr}, {gl, gr}, {hl, hr});
    // states extrapolated to the face over half a zone
    auto h = d.domain_radius.value / double(d.block_size) / double(1 << level);
    auto el = pl, er = pr;
    for (int k = 0; k < 3; ++k) { el[k] = pl[k] + gl[k] * h; er[k] = pr[k] - gr[k] * h; }
    auto cs2 = cs2_at_position(x, b, d), nu = nu_at_position(x, cs2, d), mu = nu * (el[0] + er[0]) / 2;
    auto G = mara::iso2d::riemann_hlle(el, er, cs2, cs2, mara::unit_vector_t::on_axis(axis));
    auto& dx = axis == 0 ? gl : hl; auto& dx_ = axis == 0 ? gr : hr; auto& dy = axis == 0 ? hl : gl; auto& dy_ = axis == 0 ? hr : gr;
    auto dx_u = (dx[1] + dx_[1]) / 2, dx_v = (dx[2] + dx_[2]) / 2, dy_u = (dy[1] + dy_[1]) / 2, dy_v = (dy[2] + dy_[2]) / 2;
    // the stress is symmetric and trace free
    double t[2][2] = {{mu * (dx_u - dy_v), mu * (dx_v + dy_u)}, {mu * (dx_v + dy_u), mu * (dy_v - dx_u)}};
    auto fx = val(G, 1) - t[axis][0], fy = val(G, 2) - t[axis][1];
    vc_assert_eq("mass flux", val(F, 0), val(G, 0));
    vc_assert_eq("x-momentum flux", val(F, 1), fx);
    vc_assert_eq("y-momentum flux", val(F, 2), fy);
    auto X = x[0].value, Y = x[1].value, R = d.domain_radius.value, along = axis == 0 ? X : Y;
    vc_assert_eq("mass flux (angular momentum form)", val(Q, 0), val(G, 0));
    vc_assert_eq("radial flux", val(Q, 1), X * fx + Y * fy);
    vc_assert_eq("angular momentum flux, none through the domain boundary", val(Q, 2), along == R || along == -R ? 0.0 : X * fy - Y * fx);
}
VC_PROOF(sound_speed)
{
    auto d = parameters(8); auto b = bodies();
    auto x = point(real("x"), real("y"));
    auto X = x[0].value, Y = x[1].value, rs = d.softening_radius.value, M = d.mach_number;
    auto depth = [&] (const mara::point_mass_t& m) { auto a = X - m.position_x, c = Y - m.position_y; return m.mass / std::sqrt(a * a + c * c + rs * rs); };
    auto c2 = cs2_at_position(x, b, d);
    vc_assert_eq("locally isothermal", c2, (depth(b.body1) + depth(b.body2)) / (M * M));
    vc_assert("positive", c2 > 0);
    d.axisymmetric_cs2 = true;
    vc_assume(X * X + Y * Y > 0);
    auto r = std::sqrt(X * X + Y * Y);
    vc_assert_eq("axisymmetric", cs2_at_position(x, b, d), 1 / (r * M * M));
    vc_assert_eq("alpha viscosity", nu_at_position(x, c2, d), d.alpha * std::sqrt(c2) * r / M);
    d.nu = pos("nu");
    vc_assert_eq("constant viscosity", nu_at_position(x, c2, d), d.nu);
    d.alpha_cutoff_radius = pos("rc");
    vc_assert_eq("cut off", nu_at_position(x, c2, d), d.nu * (1 + std::tanh(3 * (r - d.alpha_cutoff_radius))) / 2);
}
VC_PROOF(gravity_and_sinks)
{
    auto d = parameters(8); auto b = bodies();
    auto x = point(real("x"), real("y"));
    auto a = x[0].value - b.body1.position_x, c = x[1].value - b.body1.position_y, rs = d.softening_radius.value;
    auto g = grav_vdot_field(d, point(b.body1.position_x, b.body1.position_y), b.body1.mass)(x);
    auto s = std::sqrt(a * a + c * c + rs * rs);
    vc_assert_eq("pull along x", g[0].value * s * s * s, -b.body1.mass * a);
    vc_assert_eq("pull along y", g[1].value * s * s * s, -b.body1.mass * c);
    auto k = sink_rate_field(d, point(b.body1.position_x, b.body1.position_y))(x);
    auto w = d.sink_radius.value;
    vc_assert_eq("sink", k.value, d.sink_rate.value * std::exp(-(a * a + c * c) / (w * w) / 2));
    vc_assert("sinks remove", k.value > 0);
}
