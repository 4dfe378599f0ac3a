// One step of the two-dimensional relativistic code in spherical coordinates (jet
// and cloud).  The numbers of zones are bounded (1 to 3 per direction), states,
// times, radii and polar angles are arbitrary.  Riemann solver, recovery of primitive
// variables, sources and the limiter are used through their weakest contract.
#include "threads.hpp"
#include <iostream>
#include "rbtree.hpp"
#include "subprog_cloud.cpp"
using namespace spec;
namespace {
using P = CloudProblem; using mara::srhd; using prim = srhd::primitive_t;
constexpr double G = 4. / 3;
const char* F_[5] = {"f0", "f1", "f2", "f3", "f4"};
const char* S_[5] = {"s0", "s1", "s2", "s3", "s4"};
const char* P_[5] = {"p0", "p1", "p2", "p3", "p4"};
const char* U_[5] = {"u0", "u1", "u2", "u3", "u4"};
using slope_t = decltype(P::estimate_gradient_plm(1.0));

srhd::flux_vector_t some_flux(const prim& l, const prim& r, const mara::unit_vector_t& n, double g)
{
    srhd::flux_vector_t F;
    for (int k = 0; k < 5; ++k) F[k].value = vc_ufr(F_[k], 14, l[0], l[1], l[2], l[3], l[4], r[0], r[1], r[2], r[3], r[4], n.get_n1(), n.get_n2(), n.get_n3(), g);
    return F;
}
prim some_state(const srhd::conserved_density_t& u, double g, double t)
{
    prim p;
    for (int k = 0; k < 5; ++k) p[k] = vc_ufr(P_[k], 7, u[0].value, u[1].value, u[2].value, u[3].value, u[4].value, g, t);
    return p;
}
mara::arithmetic_sequence_t<mara::dimensional_value_t<-3, 1, -1, double>, 5> some_source(prim* p, double r, double q, double g)
{
    mara::arithmetic_sequence_t<mara::dimensional_value_t<-3, 1, -1, double>, 5> S = {};
    for (int k = 1; k < 4; ++k) S[k].value = vc_ufr(S_[k], 8, (*p)[0], (*p)[1], (*p)[2], (*p)[3], (*p)[4], r, q, g);
    return S;
}
double some_slope(const slope_t* f, double a, double b, double c)
{
    double theta; std::memcpy(&theta, (const void*) f, sizeof(double));
    return vc_ufr("slope", 4, a, b, c, theta);
}
double at(const srhd::conserved_t& u, int k) { return u[k].value; }
double at(const srhd::flux_vector_t& u, int k) { return u[k].value; }

P::app_state_t some_app(std::size_t n, std::size_t m, int method, int order)
{
    P::app_state_t a;
    a.run_config = config_template().create().set("reconstruct_method", mara::config_parameter_t(method)).set("rk_order", mara::config_parameter_t(order))
        .set("plm_theta", mara::config_parameter_t(vc_real("theta", 1, 2))).set("temperature_floor", mara::config_parameter_t(real("floor", 1e-6)))
        .set("jet_structure_exp", mara::config_parameter_t(pos("structure exponent"))).set("jet_opening_angle", mara::config_parameter_t(pos("opening angle")))
        .set("jet_duration", mara::config_parameter_t(pos("jet duration")));
    auto r = nd::make_unique_array<mara::unit_length<double>>(nd::make_shape(n + 1));
    auto q = nd::make_unique_array<double>(nd::make_shape(m + 1));
    auto u = nd::make_unique_array<srhd::conserved_t>(nd::make_shape(n, m));
    double x = 1, y = 0.1;
    for (std::size_t i = 0; i <= n; ++i) { auto d = vc_ufr("dr", 1, double(i)); vc_assume(d > 0); x += d; r(i) = x; }
    for (std::size_t j = 0; j <= m; ++j) { auto d = vc_ufr("dq", 1, double(j)); vc_assume(d > 0); y += 0.1 * d; q(j) = y; }
    vc_assume(y < 3.14);
    // the cosine decreases from pole to pole
    for (std::size_t j = 0; j < m; ++j) vc_assume(std::cos(q(j)) > std::cos(q(j + 1)));
    for (std::size_t i = 0; i < n; ++i) vc_assume(r(i + 1).value * r(i + 1).value * r(i + 1).value > r(i).value * r(i).value * r(i).value);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) for (int k = 0; k < 5; ++k) u(i, j)[k].value = vc_uf(U_[k], 2, long(i), long(j));
#ifdef VC_NATIVE
    // sampled: the drawn values are taken as a primitive state, so that it is physical
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
    {
        prim p;
        for (int k = 0; k < 5; ++k) p[k] = k == 0 || k == 4 ? 0.1 + std::fabs(u(i, j)[k].value) : 0.3 * u(i, j)[k].value;
        u(i, j) = p.to_conserved_density(G) * mara::make_volume((std::pow(r(i + 1).value, 3) - std::pow(r(i).value, 3)) / 3 * (std::cos(q(j)) - std::cos(q(j + 1))) * 2 * M_PI);
    }
#endif
    a.solution.time = real("t");
    a.solution.iteration = mara::make_rational(7);
    a.solution.radial_vertices = std::move(r).shared();
    a.solution.polar_vertices = std::move(q).shared();
    a.solution.conserved = std::move(u).shared();
    return a;
}
// what the step has to be, from the state alone
struct mesh_t
{
    const P::app_state_t& a; const P::solution_t& s; bool plm;
    long n, m; double theta, floor;
    mesh_t(const P::app_state_t& a, const P::solution_t& s) : a(a), s(s), plm(a.run_config.get_int("reconstruct_method") == 2),
        n(s.conserved.shape(0)), m(s.conserved.shape(1)), theta(a.run_config.get_double("plm_theta")), floor(a.run_config.get_double("temperature_floor")) {}
    double r(long i) const { return s.radial_vertices(i).value; }
    double q(long j) const { return s.polar_vertices(j); }
    double band(long j) const { return std::cos(q(j)) - std::cos(q(j + 1)); }
    double volume(long i, long j) const { return (r(i + 1) * r(i + 1) * r(i + 1) - r(i) * r(i) * r(i)) * band(j) * 2 * M_PI / 3; }
    double area_r(long i, long j) const { return r(i) * r(i) * band(j) * 2 * M_PI; }
    double area_q(long i, long j) const { return (r(i) + r(i + 1)) / 2 * (r(i + 1) - r(i)) * std::sin(q(j)) * 2 * M_PI; }
    prim zone(long i, long j) const
    {
        if (i < 0)                      // the nozzle
        {
            auto jet = P::make_jet_nozzle_model(a.run_config);
            auto ref = P::make_reference_units(a.run_config);
            auto qc = (a.solution.polar_vertices(j) + a.solution.polar_vertices(j + 1)) / 2, t = a.solution.time * ref.time();
            return prim().with_mass_density(jet.density_at_base() / ref.mass_density()).with_gamma_beta_1(jet.gamma_beta(qc, t) + jet.gamma_beta(M_PI - qc, t));
        }
        if (i >= n) i = n - 1;          // outflow
        return srhd::recover_primitive(s.conserved(i, j) / mara::make_volume(volume(i, j)), G, floor);
    }
    // zone (i, j) extrapolated by half a zone to its face in the given direction
    prim toward(long i, long j, int axis, double sign) const
    {
        auto p = zone(i, j);
        bool last = axis == 0 ? i < 0 || i >= n : j == 0 || j == m - 1;
        if (! plm || last) return p;
        auto l = axis == 0 ? zone(i - 1, j) : zone(i, j - 1), h = axis == 0 ? zone(i + 1, j) : zone(i, j + 1);
        auto slope = P::estimate_gradient_plm(theta);
        for (int k = 0; k < 5; ++k) p[k] += sign * 0.5 * slope(l[k], p[k], h[k]);
        return p;
    }
    double flux_r(long i, long j, int k) const { return at(srhd::riemann_hlle(toward(i - 1, j, 0, 1), toward(i, j, 0, -1), mara::unit_vector_t::on_axis_1(), G), k); }
    double flux_q(long i, long j, int k) const { return j == 0 || j == m ? 0.0 : at(srhd::riemann_hlle(toward(i, j - 1, 1, 1), toward(i, j, 1, -1), mara::unit_vector_t::on_axis_2(), G), k); }
    double source(long i, long j, int k) const { return zone(i, j).spherical_geometry_source_terms((r(i) + r(i + 1)) / 2, (q(j) + q(j + 1)) / 2, G)[k].value; }
};
void use() { for (auto c : {"flux", "recover", "source", "slope"}) vc_use_contract(c); }
void step(std::size_t n, std::size_t m, int method)
{
    use();
    auto a = some_app(n, m, method, 1);
    auto dt = pos("dt");
    auto t = P::advance(a, a.solution, mara::make_time(dt));
    mesh_t w(a, a.solution);
    vc_assert_eq("time", t.time, a.solution.time + dt);
    vc_assert("iteration", t.iteration == a.solution.iteration + 1);
    vc_assert("sizes", t.conserved.shape() == a.solution.conserved.shape() && t.radial_vertices.size() == n + 1 && t.polar_vertices.size() == m + 1);
    for (std::size_t i = 0; i <= n; ++i) vc_assert_eq("radii", t.radial_vertices(i).value, w.r(i));
    for (std::size_t j = 0; j <= m; ++j) vc_assert_eq("angles", t.polar_vertices(j), w.q(j));
    double total[5] = {};
    for (long i = 0; i < w.n; ++i) for (long j = 0; j < w.m; ++j) for (int k = 0; k < 5; ++k)
    {
        auto gain = (w.area_r(i, j) * w.flux_r(i, j, k) - w.area_r(i + 1, j) * w.flux_r(i + 1, j, k)
            + w.area_q(i, j) * w.flux_q(i, j, k) - w.area_q(i, j + 1) * w.flux_q(i, j + 1, k)
            + w.source(i, j, k) * w.volume(i, j)) * dt;
        auto change = at(t.conserved(i, j), k) - at(a.solution.conserved(i, j), k);
        vc_assert_eq("update", change, gain);
        total[k] += change;
    }
    for (int k : {0, 4})
    {
        double through = 0;
        for (long j = 0; j < w.m; ++j) through += w.area_r(0, j) * w.flux_r(0, j, k) - w.area_r(w.n, j) * w.flux_r(w.n, j, k);
        vc_assert_eq("conservation of mass and energy", total[k], through * dt);
    }
}
}
#ifndef VC_NATIVE
VC_CONTRACT(flux, &srhd::riemann_hlle, &some_flux)
VC_CONTRACT(source, &prim::spherical_geometry_source_terms, &some_source)
VC_CONTRACT(recover, &srhd::recover_primitive, &some_state)
VC_CONTRACT(slope, &slope_t::operator(), &some_slope)
#endif
VC_PROOF(bounded_cloud_step_piecewise_constant)
{
    auto n = vc_choose("radial zones", 1, 2), m = vc_choose("polar zones", 2, 3);
    step(n, m, 1);
}
VC_PROOF(bounded_cloud_step_piecewise_linear)
{
    step(vc_choose("radial zones", 1, 2), 3, 2);
}
// the time step is that of light across the innermost zone, and the second order
// step is the average of the state with the one two steps later
VC_PROOF(bounded_cloud_time_stepping)
{
    use();
    auto order = vc_choose("order", 0, 2);
    auto a = some_app(1, 2, 1, int(order));
    auto cfl = pos("cfl", 0.01, 0.5);
    a.run_config = a.run_config.set("cfl_number", mara::config_parameter_t(cfl));
    const auto& s = a.solution;
    auto dt = mara::make_time(cfl * (s.radial_vertices(1).value - s.radial_vertices(0).value));
    P::solution_t t;
    bool refused = false;
    try { t = P::next_solution(a); } catch (const std::invalid_argument&) { refused = true; }
    vc_assert("unknown orders are refused", refused == (order == 0));
    if (refused) return;
    auto one = P::advance(a, s, dt);
    auto two = order == 2 ? P::advance(a, one, dt) : one;
    vc_assert_eq("time", t.time, s.time + dt.value);
    vc_assert("iteration", t.iteration == s.iteration + 1);
    for (std::size_t i = 0; i < 2; ++i) vc_assert_eq("radii", t.radial_vertices(i).value, s.radial_vertices(i).value);
    for (std::size_t j = 0; j < 3; ++j) vc_assert_eq("angles", t.polar_vertices(j), s.polar_vertices(j));
    for (std::size_t j = 0; j < 2; ++j) for (int k = 0; k < 5; ++k)
        vc_assert_eq("average", at(t.conserved(0, j), k), order == 2 ? (at(s.conserved(0, j), k) + at(two.conserved(0, j), k)) / 2 : at(one.conserved(0, j), k));
}
VC_PROOF(bounded_cloud_unknown_method_is_refused)
{
    use();
    auto a = some_app(1, 2, 3, 1);
    bool refused = false;
    try { P::advance(a, a.solution, mara::make_time(0.1)); } catch (const std::invalid_argument&) { refused = true; }
    vc_assert("refused", refused);
}
