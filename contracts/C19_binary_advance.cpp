// One step of the circumbinary scheme, from the conserved values of the whole
// mesh to the updated solution
#include <cstdio>
#include "vc.hpp"
// the report of a negative density (the step is refused then, see
// bounded_negative_density_is_refused) ends the case here
inline int vc_no_report() { vc_assume(false); return 0; }
#define printf(...) vc_no_report(), 0
namespace std { using ::vc_no_report; }
#include "binary.hpp"
#undef printf
using namespace spec;
namespace {
flux2 some_flux(const prim2& l, const prim2& r, double cl, double cr, const mara::unit_vector_t& n)
{
    auto f = [&] (const char* k) { return vc_ufr(k, 11, l[0], l[1], l[2], r[0], r[1], r[2], cl, cr, n.get_n1(), n.get_n2(), n.get_n3()); };
    return mara::make_arithmetic_tuple(mara::make_dimensional<-1, 1, -1>(f("F0")), mara::make_dimensional<0, 1, -2>(f("F1")), mara::make_dimensional<0, 1, -2>(f("F2")));
}
mara::two_body_state_t some_bodies(const mara::full_orbital_elements_t&, double t)
{
    auto f = [t] (const char* k) { return vc_ufr(k, 1, t); };
    auto m1 = f("M1"), m2 = f("M2"); vc_assume(m1 > 0); vc_assume(m2 > 0);
    return {{m1, f("X1"), f("Y1"), f("VX1"), f("VY1")}, {m2, f("X2"), f("Y2"), f("VX2"), f("VY2")}};
}
double some_cs2(location_2d_t x, mara::two_body_state_t b, const solver_data_t& d) { return vc_ufr("cs2", 2, x[0].value, x[1].value); }
double some_nu(location_2d_t x, double cs2, const solver_data_t& d) { return vc_ufr("nu", 3, x[0].value, x[1].value, cs2); }
mara::full_orbital_elements_t some_elements(const mara::two_body_state_t& s, double t)
{
    auto g = [&] (const char* k) { return vc_ufr(k, 7, s.body1.mass, s.body2.mass, s.body1.velocity_x, s.body1.velocity_y, s.body2.velocity_x, s.body2.velocity_y, t); };
    mara::full_orbital_elements_t e;
    e.pomega = g("E0"); e.tau = g("E1"); e.cm_position_x = g("E2"); e.cm_position_y = g("E3"); e.cm_velocity_x = g("E4"); e.cm_velocity_y = g("E5");
    e.elements.separation = g("E6"); e.elements.total_mass = g("E7"); e.elements.mass_ratio = g("E8"); e.elements.eccentricity = g("E9");
    return e;
}
mara::full_orbital_elements_t some_difference(const mara::full_orbital_elements_t& a, const mara::full_orbital_elements_t& b)
{
    auto p = a; auto g = [] (const char* k, double x, double y) { return vc_ufr(k, 2, x, y); };
    p.pomega = g("D0", a.pomega, b.pomega); p.tau = g("D1", a.tau, b.tau); p.cm_position_x = g("D2", a.cm_position_x, b.cm_position_x); p.cm_position_y = g("D3", a.cm_position_y, b.cm_position_y);
    p.cm_velocity_x = g("D4", a.cm_velocity_x, b.cm_velocity_x); p.cm_velocity_y = g("D5", a.cm_velocity_y, b.cm_velocity_y);
    p.elements.separation = g("D6", a.elements.separation, b.elements.separation); p.elements.total_mass = g("D7", a.elements.total_mass, b.elements.total_mass);
    p.elements.mass_ratio = g("D8", a.elements.mass_ratio, b.elements.mass_ratio); p.elements.eccentricity = g("D9", a.elements.eccentricity, b.elements.eccentricity);
    return p;
}
double some_slope(double a, double b, double c, double th) { return vc_ufr("slope", 4, a, b, c, th); }
struct box { double left; solver_data_t d; solution_t s; int depth; long n; long m; double h, dt; };
// square of m x m zones as one block, or as four
box any_box(bool linear, int depth, long n)
{
    box w; w.depth = depth; w.n = n; w.m = n << depth; w.d = parameters(n); w.dt = pos("dt"); w.d.conserve_linear_p = linear;
    double R = w.d.domain_radius.value; w.h = 2 * R / double(w.m);
    double h = w.h, L = w.left = linear || n != 3 ? -R : -0.9 * R; // no zone centered on the origin for the angular momentum form
    auto vertex = [=] (const index2& b, long i, long j) { return point(L + h * double(long(b.coordinates[0]) * n + i), L + h * double(long(b.coordinates[1]) * n + j)); };
    w.d.vertices = grid<location_2d_t>(depth, [=] (const index2& b) { return block(n + 1, n + 1, [&] (long i, long j) { return vertex(b, i, j); }); });
    w.d.cell_centers = grid<location_2d_t>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { auto p = vertex(b, i, j); return point(p[0].value + h / 2, p[1].value + h / 2); }); });
    w.d.cell_areas = grid<mara::unit_area<double>>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return mara::make_area(h * h); }); });
    w.d.buffer_rate_field = grid<mara::unit_rate<double>>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return mara::unit_rate<double>(at("buffer", b, i, j)); }); });
    w.d.initial_conserved_u = grid<cons2>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return u_value("u_init", i + n * b.coordinates[0], j + n * b.coordinates[1]); }); });
    w.d.initial_conserved_q = grid<consq>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return q_value("q_init", i + n * b.coordinates[0], j + n * b.coordinates[1]); }); });
    if (linear) w.s.conserved_u = grid<cons2>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return some_u(b, i, j); }); });
    else        w.s.conserved_q = grid<consq>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return some_q(b, i, j); }); });
    w.s.time = mara::make_time(real("time"));
    w.s.iteration = 3;
    auto v = [] (long k) { return vc_uf("so_far", 1, k); };
    for (long m = 0; m < 2; ++m) { w.s.mass_accreted_on[m] = v(1 + m); w.s.angular_momentum_accreted_on[m] = v(3 + m); w.s.integrated_torque_on[m] = v(5 + m); w.s.work_done_on[m] = v(7 + m); }
    w.s.mass_ejected = v(9); w.s.angular_momentum_ejected = v(10);
    w.s.orbital_elements_acc.pomega = v(11); w.s.orbital_elements_grav.elements.eccentricity = v(12);
    w.d.no_accretion_force = vc_choose("no_accretion_force", 0, 1);
    return w;
}
}
VC_CONTRACT(riemann, &mara::iso2d::riemann_hlle, &some_flux)
VC_CONTRACT(slope, static_cast<double (*)(double, double, double, double)>(&mara::plm_gradient), &some_slope)
VC_CONTRACT(difference, &mara::diff, &some_difference)
VC_CONTRACT(cs2, &cs2_at_position, &some_cs2)
VC_CONTRACT(nu, &nu_at_position, &some_nu)
VC_CONTRACT(two_body, static_cast<mara::two_body_state_t (*)(const mara::full_orbital_elements_t&, double)>(&mara::compute_two_body_state), &some_bodies)
VC_CONTRACT(elements, static_cast<mara::full_orbital_elements_t (*)(const mara::two_body_state_t&, double)>(&mara::compute_orbital_elements), &some_elements)
namespace {
void use()
{
    vc_use_contract("riemann"); vc_use_contract("difference"); vc_use_contract("slope"); vc_use_contract("cs2"); vc_use_contract("nu"); vc_use_contract("two_body"); vc_use_contract("elements");
}
// zone (k, l) of the whole mesh, which wraps around
struct zone { index2 b; long i, j; };
zone locate(const box& w, long k, long l)
{
    k = (k + w.m) % w.m; l = (l + w.m) % w.m;
    return {{std::size_t(w.depth), {{std::size_t(k / w.n), std::size_t(l / w.n)}}}, k % w.n, l % w.n};
}
template<bool Linear> struct reference
{
    box w; double theta; mara::two_body_state_t body;
    prim2 p(long k, long l) const
    {
        auto z = locate(w, k, l);
        if constexpr (Linear) return mara::iso2d::recover_primitive(some_u(z.b, z.i, z.j));
        else return mara::iso2d::recover_primitive(some_q(z.b, z.i, z.j), w.d.cell_centers.at(z.b)(z.i, z.j));
    }
    prim2 slope(int axis, long k, long l) const
    {
        auto a = axis == 0 ? p(k - 1, l) : p(k, l - 1), b = p(k, l), c = axis == 0 ? p(k + 1, l) : p(k, l + 1);
        prim2 g;
        for (int c0 = 0; c0 < 3; ++c0) g[c0] = mara::plm_gradient(a[c0], b[c0], c[c0], theta) / w.h;
        return g;
    }
    // flux through the lower face of zone (k, l), 0 <= k, l <= m: one value per face
    auto flux(int axis, long k, long l) const
    {
        double R = -w.left;
        auto x = axis == 0 ? point(-R + w.h * double(k), -R + w.h * (double(l) + 0.5)) : point(-R + w.h * (double(k) + 0.5), -R + w.h * double(l));
        long k0 = axis == 0 ? k - 1 : k, l0 = axis == 0 ? l : l - 1;
        prim_pair_t pp{p(k0, l0), p(k, l)}, gl{slope(axis, k0, l0), slope(axis, k, l)}, gt{slope(1 - axis, k0, l0), slope(1 - axis, k, l)};
        index2 level{std::size_t(w.depth), {}};
        if constexpr (Linear) return intercell_flux_u(axis, body, w.d, level)(x, pp, gl, gt);
        else                  return intercell_flux_q(axis, body, w.d, level)(x, pp, gl, gt);
    }
};
double element(const mara::full_orbital_elements_t& e, int k)
{
    const double v[] = {e.pomega, e.tau, e.cm_position_x, e.cm_position_y, e.cm_velocity_x, e.cm_velocity_y, e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity};
    return v[k];
}
template<bool Linear> void step(int depth, long n, bool safe)
{
    use();
    auto w = any_box(Linear, depth, n);
    vc_assume(w.s.time.value != w.d.begin_live_binary);
    auto s = binary::advance(w.s, w.d, mara::make_time(w.dt), safe);
    vc_assert_eq("time", s.time.value, w.s.time.value + w.dt);
    vc_assert("iteration", s.iteration == mara::make_rational(4));
    auto body = mara::compute_two_body_state(w.s.orbital_elements, w.s.time.value);
    reference<Linear> r{w, safe ? 0.0 : w.d.plm_theta, body};
    auto p0 = binary::recover_primitive(w.s, w.d);
    binary::source_term_total_t T;
    for (long a = 0; a < 1 << depth; ++a) for (long b = 0; b < 1 << depth; ++b)
    {
        index2 at{std::size_t(depth), {{std::size_t(a), std::size_t(b)}}};
        auto both = [&] { if constexpr (Linear) return source_terms_u(w.d, w.s, body, p0, at, mara::make_time(w.dt)); else return source_terms_q(w.d, w.s, body, p0, at, mara::make_time(w.dt)); }();
        T = T + both.second;
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j)
        {
            long k = a * n + i, l = b * n + j;
            auto fx0 = r.flux(0, k, l), fx1 = r.flux(0, k + 1, l), fy0 = r.flux(1, k, l), fy1 = r.flux(1, k, l + 1);
            for (int c = 0; c < 3; ++c)
            {
                double net = (val(fx0, c) - val(fx1, c) + val(fy0, c) - val(fy1, c)) * w.dt / w.h;
                if constexpr (Linear) vc_assert_eq("update of every zone", val(s.conserved_u.at(at)(i, j), c), val(some_u(at, i, j), c) + net + val(both.first(i, j), c));
                else                  vc_assert_eq("update of every zone", val(s.conserved_q.at(at)(i, j), c), val(some_q(at, i, j), c) + net + val(both.first(i, j), c));
            }
        }
    }
    // budgets
    for (int m = 0; m < 2; ++m)
    {
        vc_assert_eq("mass accreted", s.mass_accreted_on[m].value, w.s.mass_accreted_on[m].value + T.mass_accreted_on[m].value);
        vc_assert_eq("angular momentum accreted", s.angular_momentum_accreted_on[m].value, w.s.angular_momentum_accreted_on[m].value + T.angular_momentum_accreted_on[m].value);
        vc_assert_eq("torque", s.integrated_torque_on[m].value, w.s.integrated_torque_on[m].value + T.integrated_torque_on[m].value);
        vc_assert_eq("work", s.work_done_on[m].value, w.s.work_done_on[m].value + T.work_done_on[m].value);
    }
    vc_assert_eq("mass ejected", s.mass_ejected.value, w.s.mass_ejected.value + T.mass_ejected.value);
    vc_assert_eq("angular momentum ejected", s.angular_momentum_ejected.value, w.s.angular_momentum_ejected.value + T.angular_momentum_ejected.value);
    // back reaction on the orbit: momentum is conserved in accretion, and gravity is mutual
    auto acc = body, grv = body;
    for (int m = 0; m < 2; ++m)
    {
        auto& A = m ? acc.body2 : acc.body1; auto& G = m ? grv.body2 : grv.body1; double M = A.mass;
        A.mass = M + T.mass_accreted_on[m].value;
        if (! w.d.no_accretion_force)
        {
            A.velocity_x = (M * A.velocity_x + T.momentum_x_accreted_on[m].value) / A.mass;
            A.velocity_y = (M * A.velocity_y + T.momentum_y_accreted_on[m].value) / A.mass;
        }
        G.velocity_x += T.integrated_force_x_on[m].value / M;
        G.velocity_y += T.integrated_force_y_on[m].value / M;
    }
    auto E0 = w.s.orbital_elements;
    auto dA = mara::diff(E0, mara::compute_orbital_elements(acc, w.s.time.value)), dG = mara::diff(E0, mara::compute_orbital_elements(grv, w.s.time.value));
    bool live = w.s.time.value > w.d.begin_live_binary;
    for (int k = 0; k < 10; ++k)
    {
        vc_assert_eq("perturbation by accretion", element(s.orbital_elements_acc, k), element(w.s.orbital_elements_acc, k) + element(dA, k));
        vc_assert_eq("perturbation by gravity", element(s.orbital_elements_grav, k), element(w.s.orbital_elements_grav, k) + element(dG, k));
        double drift = k == 2 ? E0.cm_velocity_x * w.dt : k == 3 ? E0.cm_velocity_y * w.dt : 0.0;
        vc_assert_eq("orbit", element(s.orbital_elements, k), element(E0, k) + (live ? element(dA, k) + element(dG, k) + drift : 0.0));
    }
}
}
VC_PROOF(bounded_advance_linear) { if (vc_choose("blocks", 0, 1)) step<true>(1, 1, true); else step<true>(0, 3, false); }
VC_PROOF(bounded_advance_angular) { if (vc_choose("blocks", 0, 1)) step<false>(1, 1, true); else step<false>(0, 3, false); }
