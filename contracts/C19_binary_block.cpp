// Fluxes through the faces of a block, their difference, and the matching of
// fluxes where the resolution changes
#include "binary.hpp"
using namespace spec;
namespace {
flux2 some_flux(const prim2& l, const prim2& r, double cl, double cr, const mara::unit_vector_t& n)
{
    auto f = [&] (const char* k) { return vc_ufr(k, 11, l[0], l[1], l[2], r[0], r[1], r[2], cl, cr, n.get_n1(), n.get_n2(), n.get_n3()); };
    return mara::make_arithmetic_tuple(mara::make_dimensional<-1, 1, -1>(f("F0")), mara::make_dimensional<0, 1, -2>(f("F1")), mara::make_dimensional<0, 1, -2>(f("F2")));
}
}
namespace {
double some_cs2(location_2d_t x, mara::two_body_state_t b, const solver_data_t& d) { return vc_ufr("cs2", 2, x[0].value, x[1].value); }
double some_nu(location_2d_t x, double cs2, const solver_data_t& d) { return vc_ufr("nu", 3, x[0].value, x[1].value, cs2); }
}
VC_CONTRACT(cs2, &cs2_at_position, &some_cs2)
VC_CONTRACT(nu, &nu_at_position, &some_nu)
VC_CONTRACT(riemann, &mara::iso2d::riemann_hlle, &some_flux)
namespace {
auto field(const char* f, std::size_t n, std::size_t m) { return root(block(n, m, [f] (long i, long j) { auto p = p_value(f, i, j); if (f[0] == 'p') vc_assume(p[0] > 0); return p; })); }
template<bool Q> void fluxes()
{
    vc_use_contract("riemann"); vc_use_contract("cs2"); vc_use_contract("nu");
    auto z = make(std::size_t(vc_choose("zones", 1, MAX)));
    auto n = z.n;
    // the extended arrays of primitives and of slopes, arbitrary
    auto px = field("px", n + 2, n), py = field("py", n, n + 2), gxx = field("gxx", n + 2, n), gxy = field("gxy", n, n + 2), gyx = field("gyx", n + 2, n), gyy = field("gyy", n, n + 2);
    auto both = [&] {
        if constexpr (Q) return block_fluxes_q(z.d, z.s, z.b, z.p0, px, py, gxx, gxy, gyx, gyy, mara::make_time(z.dt))(z.i);
        else             return block_fluxes_u(z.d, z.s, z.b, z.p0, px, py, gxx, gxy, gyx, gyy, mara::make_time(z.dt))(z.i); }();
    auto fx = std::get<0>(both); auto fy = std::get<1>(both);
    vc_assert("shapes", fx.shape(0) == n + 1 && fx.shape(1) == n && fy.shape(0) == n && fy.shape(1) == n + 1);
    auto xv = z.d.vertices.at(z.i);
    auto pair = [&] (auto& t, long i, long j, int axis) { auto a = t.at(z.i); return prim_pair_t{a(i, j), axis == 0 ? a(i + 1, j) : a(i, j + 1)}; };
    auto flux = [&] (int axis, auto x, auto p, auto g, auto h) {
        if constexpr (Q) return intercell_flux_q(axis, z.b, z.d, z.i)(x, p, g, h);
        else             return intercell_flux_u(axis, z.b, z.d, z.i)(x, p, g, h); };
    for (long i = 0; i <= long(n); ++i) for (long j = 0; j < long(n); ++j)
    {
        auto a = xv(i, j), b = xv(i, j + 1);
        auto F = flux(0, point(a[0].value, (a[1].value + b[1].value) / 2), pair(px, i, j, 0), pair(gxx, i, j, 0), pair(gyx, i, j, 0));
        for (int c = 0; c < 3; ++c) vc_assert_eq("flux through x-face times its length", val(fx(i, j), c), val(F, c) * (b[1].value - a[1].value));
    }
    for (long i = 0; i < long(n); ++i) for (long j = 0; j <= long(n); ++j)
    {
        auto a = xv(i, j), b = xv(i + 1, j);
        auto F = flux(1, point((a[0].value + b[0].value) / 2, a[1].value), pair(py, i, j, 1), pair(gyy, i, j, 1), pair(gxy, i, j, 1));
        for (int c = 0; c < 3; ++c) vc_assert_eq("flux through y-face times its length", val(fy(i, j), c), val(F, c) * (b[0].value - a[0].value));
    }
}
template<typename Flux> auto face_fluxes(const char* f, std::size_t n, std::size_t m, Flux flux) { return root(block(n, m, [&] (long i, long j) { return flux(f, i, j); })); }
auto flux_u(const char* f, long i, long j) { return u_value(f, i, j) * mara::make_area(1.0) / mara::make_time(1.0); }
auto flux_q(const char* f, long i, long j) { return q_value(f, i, j) * mara::make_area(1.0) / mara::make_time(1.0); }
}
VC_PROOF(bounded_block_fluxes_linear) { fluxes<false>(); }
VC_PROOF(bounded_block_fluxes_angular) { fluxes<true>(); }
VC_PROOF(bounded_block_update_linear)
{
    auto z = make(std::size_t(vc_choose("zones", 1, MAX)));
    auto fx = face_fluxes("fx", z.n + 1, z.n, flux_u), fy = face_fluxes("fy", z.n, z.n + 1, flux_u);
    auto [U, T] = block_update_u(z.d, z.s, z.b, z.p0, fx, fy, mara::make_time(z.dt))(z.i);
    auto [S, T0] = source_terms_u(z.d, z.s, z.b, z.p0, z.i, mara::make_time(z.dt));
    auto u = z.s.conserved_u.at(z.i); auto X = fx.at(z.i); auto Y = fy.at(z.i);
    for (long i = 0; i < long(z.n); ++i) for (long j = 0; j < long(z.n); ++j) for (int c = 0; c < 3; ++c)
        vc_assert_eq("update", (val(U(i, j), c) - val(u(i, j), c) - val(S(i, j), c)) * z.dA(i, j),
            (val(X(i, j), c) - val(X(i + 1, j), c) + val(Y(i, j), c) - val(Y(i, j + 1), c)) * z.dt);
    for (int m = 0; m < 2; ++m) vc_assert_eq("totals", T.mass_accreted_on[m].value + T.work_done_on[m].value, T0.mass_accreted_on[m].value + T0.work_done_on[m].value);
}
VC_PROOF(bounded_block_update_angular)
{
    auto z = make(std::size_t(vc_choose("zones", 1, MAX)));
    for (long k = 0; k < long(z.n); ++k) for (long l = 0; l < long(z.n); ++l) { auto x = z.xc(k, l); vc_assume(x[0].value * x[0].value + x[1].value * x[1].value > 0); }
    auto fx = face_fluxes("fx", z.n + 1, z.n, flux_q), fy = face_fluxes("fy", z.n, z.n + 1, flux_q);
    auto [U, T] = block_update_q(z.d, z.s, z.b, z.p0, fx, fy, mara::make_time(z.dt))(z.i);
    auto [S, T0] = source_terms_q(z.d, z.s, z.b, z.p0, z.i, mara::make_time(z.dt));
    auto u = z.s.conserved_q.at(z.i); auto X = fx.at(z.i); auto Y = fy.at(z.i);
    for (long i = 0; i < long(z.n); ++i) for (long j = 0; j < long(z.n); ++j) for (int c = 0; c < 3; ++c)
        vc_assert_eq("update", (val(U(i, j), c) - val(u(i, j), c) - val(S(i, j), c)) * z.dA(i, j),
            (val(X(i, j), c) - val(X(i + 1, j), c) + val(Y(i, j), c) - val(Y(i, j + 1), c)) * z.dt);
    for (int m = 0; m < 2; ++m) vc_assert_eq("totals", T.mass_accreted_on[m].value, T0.mass_accreted_on[m].value);
}
