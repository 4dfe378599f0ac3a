// The parts of the circumbinary scheme that join blocks: matching of fluxes
// where the resolution changes, the time step, primitive recovery over the tree,
// diagnostics, and the arithmetic of solutions used by the Runge-Kutta average
#include "binary.hpp"
using namespace spec;
namespace {
// level one, with one of the four quadrants refined once more
template<typename T, typename F> quad_tree_t<T> refined(std::size_t which, F f)
{
    mara::arithmetic_sequence_t<quad_tree_t<T>, 4> c;
    for (std::size_t k = 0; k < 4; ++k) c[k] = grid<T>(k == which, f, index2{1, {{k & 1, k >> 1}}});
    return quad_tree_t<T>{std::make_shared<mara::arithmetic_sequence_t<quad_tree_t<T>, 4>>(c)};
}
using face_t = mara::arithmetic_sequence_t<double, 1>;
}
VC_PROOF(bounded_flux_matching_x)
{
    const long n = 2;
    auto which = std::size_t(vc_choose("refined", 0, 3));
    auto f = [] (const index2& b) { return block(n + 1, n, [&] (long i, long j) { return face_t{{at("F", b, i, j)}}; }); };
    auto tree = refined<face_t>(which, f);
    auto done = tree.indexes().map(correct_fluxes_x(tree));
    std::size_t ri = which & 1, rj = which >> 1;
    for (std::size_t k = 0; k < 4; ++k)
    {
        if (k == which) continue;
        index2 b{1, {{k & 1, k >> 1}}};
        auto F = done.at(b);
        vc_assert("shape", F.shape(0) == std::size_t(n + 1) && F.shape(1) == std::size_t(n));
        for (long i = 0; i <= n; ++i) for (long j = 0; j < n; ++j)
        {
            bool touches = b.coordinates[1] == rj && b.coordinates[0] != ri && (i == 0 || i == n);
            if (! touches) { vc_assert_eq("faces without a finer neighbour are unchanged", F(i, j)[0], at("F", b, i, j)); continue; }
            double sum = 0;
            for (long m = 2 * j; m < 2 * j + 2; ++m)
            {
                index2 fine{2, {{2 * ri + (i == 0), 2 * rj + std::size_t(m / n)}}};
                sum += at("F", fine, i == 0 ? n : 0, m % n);
            }
            vc_assert_eq("coarse flux is the sum of the two fine fluxes", F(i, j)[0], sum);
        }
    }
    for (std::size_t k = 0; k < 4; ++k)
    {
        index2 b{2, {{2 * ri + (k & 1), 2 * rj + (k >> 1)}}};
        auto F = done.at(b);
        for (long i = 0; i <= n; ++i) for (long j = 0; j < n; ++j) vc_assert_eq("fluxes of the finer blocks are unchanged", F(i, j)[0], at("F", b, i, j));
    }
}
VC_PROOF(bounded_flux_matching_y)
{
    const long n = 2;
    auto which = std::size_t(vc_choose("refined", 0, 3));
    auto f = [] (const index2& b) { return block(n, n + 1, [&] (long i, long j) { return face_t{{at("F", b, i, j)}}; }); };
    auto tree = refined<face_t>(which, f);
    auto done = tree.indexes().map(correct_fluxes_y(tree));
    std::size_t ri = which & 1, rj = which >> 1;
    for (std::size_t k = 0; k < 4; ++k)
    {
        if (k == which) continue;
        index2 b{1, {{k & 1, k >> 1}}};
        auto F = done.at(b);
        vc_assert("shape", F.shape(0) == std::size_t(n) && F.shape(1) == std::size_t(n + 1));
        for (long i = 0; i < n; ++i) for (long j = 0; j <= n; ++j)
        {
            bool touches = b.coordinates[0] == ri && b.coordinates[1] != rj && (j == 0 || j == n);
            if (! touches) { vc_assert_eq("faces without a finer neighbour are unchanged", F(i, j)[0], at("F", b, i, j)); continue; }
            double sum = 0;
            for (long m = 2 * i; m < 2 * i + 2; ++m)
            {
                index2 fine{2, {{2 * ri + std::size_t(m / n), 2 * rj + (j == 0)}}};
                sum += at("F", fine, m % n, j == 0 ? n : 0);
            }
            vc_assert_eq("coarse flux is the sum of the two fine fluxes", F(i, j)[0], sum);
        }
    }
    for (std::size_t k = 0; k < 4; ++k)
    {
        index2 b{2, {{2 * ri + (k & 1), 2 * rj + (k >> 1)}}};
        auto F = done.at(b);
        for (long i = 0; i < n; ++i) for (long j = 0; j <= n; ++j) vc_assert_eq("fluxes of the finer blocks are unchanged", F(i, j)[0], at("F", b, i, j));
    }
}
namespace {
prim2 primitive_at(const world& w, const index2& b, long i, long j)
{
    return w.d.conserve_linear_p ? mara::iso2d::recover_primitive(some_u(b, i, j)) : mara::iso2d::recover_primitive(some_q(b, i, j), some_point(b, i, j));
}
mara::two_body_state_t some_bodies(const mara::full_orbital_elements_t&, double t)
{
    auto f = [t] (const char* k) { return vc_ufr(k, 1, t); };
    auto m1 = f("M1"), m2 = f("M2"); vc_assume(m1 > 0); vc_assume(m2 > 0);
    return {{m1, f("X1"), f("Y1"), f("VX1"), f("VY1")}, {m2, f("X2"), f("Y2"), f("VX2"), f("VY2")}};
}
}
namespace {
double some_speed(const prim2& p, double c2) { auto s = vc_ufr("speed", 4, p[0], p[1], p[2], c2); vc_assume(s > 0); return s; }
prim2 some_recover_u(const cons2& u)
{
    prim2 p; const char* f[] = {"P0", "P1", "P2"};
    for (int k = 0; k < 3; ++k) p[k] = vc_ufr(f[k], 3, val(u, 0), val(u, 1), val(u, 2));
    return p;
}
prim2 some_recover_q(const consq& u, const location_2d_t& x)
{
    prim2 p; const char* f[] = {"Q0", "Q1", "Q2"};
    for (int k = 0; k < 3; ++k) p[k] = vc_ufr(f[k], 5, val(u, 0), val(u, 1), val(u, 2), x[0].value, x[1].value);
    return p;
}
}
namespace { double some_cs2(location_2d_t x, mara::two_body_state_t b, const solver_data_t& d) { return vc_ufr("cs2", 6, x[0].value, x[1].value, b.body1.mass, b.body1.position_x, b.body2.mass, b.body2.position_x); } }
VC_CONTRACT(cs2, &cs2_at_position, &some_cs2)
VC_CONTRACT(speed, &prim2::max_wavespeed, &some_speed)
VC_CONTRACT(recover_u, static_cast<prim2 (*)(const cons2&)>(&mara::iso2d::recover_primitive), &some_recover_u)
VC_CONTRACT(recover_q, static_cast<prim2 (*)(const consq&, const location_2d_t&)>(&mara::iso2d::recover_primitive), &some_recover_q)
VC_CONTRACT(two_body, static_cast<mara::two_body_state_t (*)(const mara::full_orbital_elements_t&, double)>(&mara::compute_two_body_state), &some_bodies)
VC_PROOF(bounded_primitives_of_the_tree)
{
    auto w = any_world();
    auto p = binary::recover_primitive(w.s, w.d);
    each(w, [&] (const index2& b, long i, long j) {
        auto q = primitive_at(w, b, i, j); auto r = p.at(b)(i, j);
        for (int k = 0; k < 3; ++k) vc_assert_eq("each zone from its own conserved values and position", r[k], q[k]);
    });
}
VC_PROOF(bounded_maximum_timestep)
{
    vc_use_contract("two_body"); vc_use_contract("speed"); vc_use_contract("cs2"); vc_use_contract("recover_u"); vc_use_contract("recover_q");
    auto w = any_world();
    w.s.time = mara::make_time(real("time"));
    w.d.axisymmetric_cs2 = vc_choose("axisymmetric", 0, 1);
    auto dt = binary::maximum_timestep(w.s, w.d);
    auto b2 = mara::compute_two_body_state(w.s.orbital_elements, w.s.time.value);
    double h = 2 * w.d.domain_radius.value / double(w.n) / double(1 << w.depth);
    bool attained = false;
    each(w, [&] (const index2& b, long i, long j) {
        double c2 = cs2_at_position(some_point(b, i, j), b2, w.d);
        double speed = primitive_at(w, b, i, j).max_wavespeed(c2);
        vc_assert("no signal crosses a zone in one step", dt <= h / speed);
        if (dt == h / speed) attained = true;
    });
    vc_assert("attained in some zone", attained);
    vc_assert("positive", dt > 0);
}
namespace {
// scalar fields of a solution, in a fixed order
constexpr int FIELDS = 1 + 2 + 2 + 2 + 2 + 1 + 1 + 30;
double element(const mara::full_orbital_elements_t& e, int k)
{
    switch (k)
    {
        case 0: return e.cm_position_x; case 1: return e.cm_position_y; case 2: return e.cm_velocity_x; case 3: return e.cm_velocity_y;
        case 4: return e.elements.separation; case 5: return e.elements.total_mass; case 6: return e.elements.mass_ratio; case 7: return e.elements.eccentricity;
        case 8: return e.pomega; default: return e.tau;
    }
}
mara::full_orbital_elements_t elements(const char* f)
{
    mara::full_orbital_elements_t e; auto g = [f] (long k) { return vc_uf(f, 1, k); };
    e.cm_position_x = g(0); e.cm_position_y = g(1); e.cm_velocity_x = g(2); e.cm_velocity_y = g(3);
    e.elements.separation = g(4); e.elements.total_mass = g(5); e.elements.mass_ratio = g(6); e.elements.eccentricity = g(7); e.pomega = g(8); e.tau = g(9);
    return e;
}
double entry(const solution_t& s, int k)
{
    if (k == 0) return s.time.value;
    if (k < 3) return s.mass_accreted_on[k - 1].value;
    if (k < 5) return s.angular_momentum_accreted_on[k - 3].value;
    if (k < 7) return s.integrated_torque_on[k - 5].value;
    if (k < 9) return s.work_done_on[k - 7].value;
    if (k == 9) return s.mass_ejected.value;
    if (k == 10) return s.angular_momentum_ejected.value;
    if (k < 21) return element(s.orbital_elements_acc, k - 11);
    if (k < 31) return element(s.orbital_elements_grav, k - 21);
    return element(s.orbital_elements, k - 31);
}
solution_t some_solution(const char* f, const char* g, const char* e1, const char* e2, const char* e3, const char* it, bool linear)
{
    solution_t s; auto v = [f] (long k) { return vc_uf(f, 1, k); };
    s.time = v(0);
    for (long m = 0; m < 2; ++m) { s.mass_accreted_on[m] = v(1 + m); s.angular_momentum_accreted_on[m] = v(3 + m); s.integrated_torque_on[m] = v(5 + m); s.work_done_on[m] = v(7 + m); }
    s.mass_ejected = v(9); s.angular_momentum_ejected = v(10);
    s.orbital_elements_acc = elements(e1); s.orbital_elements_grav = elements(e2); s.orbital_elements = elements(e3);
    s.iteration = mara::make_rational(int(vc_choose(it, 0, 2)), 1);
    if (linear) s.conserved_u = root(block(2, 2, [g] (long i, long j) { return u_value(g, i, j); }));
    else        s.conserved_q = root(block(2, 2, [g] (long i, long j) { return q_value(g, i, j); }));
    return s;
}
}
VC_PROOF(bounded_solution_arithmetic)
{
    bool linear = vc_choose("linear", 0, 1);
    auto a = some_solution("a", "ua", "a1", "a2", "a3", "na", linear);
    auto b = some_solution("b", "ub", "b1", "b2", "b3", "nb", linear);
    auto w = mara::make_rational(1, int(vc_choose("order", 1, 3)));
    auto c = a * w + b * (1 - w);
    double x = w.as_double();
    for (int k = 0; k < 41; ++k) vc_assert_eq("weighted sum of every field", entry(c, k), x * entry(a, k) + (1 - x) * entry(b, k));
    vc_assert("iteration", c.iteration == a.iteration * w + b.iteration * (1 - w));
    for (long i = 0; i < 2; ++i) for (long j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k)
    {
        if (linear) vc_assert_eq("conserved", val(c.conserved_u.at({})(i, j), k), x * val(u_value("ua", i, j), k) + (1 - x) * val(u_value("ub", i, j), k));
        else        vc_assert_eq("conserved", val(c.conserved_q.at({})(i, j), k), x * val(q_value("ua", i, j), k) + (1 - x) * val(q_value("ub", i, j), k));
    }
}

// negative densities are not accepted
VC_PROOF(bounded_negative_density_is_refused)
{
    bool linear = vc_choose("linear", 0, 1);
    long n = vc_choose("zones", 1, 2);
    world w = any_world(linear, 0, n);
    auto u = [] (long i, long j) { auto x = u_value("new", i, j); return x; };
    auto q = [] (long i, long j) { auto x = q_value("new", i, j); return x; };
    bool negative = false;
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (val(u(i, j), 0) < 0) negative = true;
    if (linear) w.s.conserved_u = root(block(n, n, u)); else w.s.conserved_q = root(block(n, n, q));
    bool refused = false;
    solution_t s;
    try { s = linear ? validate_u(w.s, w.d) : validate_q(w.s, w.d); } catch (const std::runtime_error&) { refused = true; }
    vc_assert("refused exactly when some density is negative", refused == negative);
    if (! refused) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) for (int k = 0; k < 3; ++k)
        vc_assert_eq("otherwise unchanged", linear ? val(s.conserved_u.at({})(i, j), k) : val(s.conserved_q.at({})(i, j), k), linear ? val(u(i, j), k) : val(q(i, j), k));
}
