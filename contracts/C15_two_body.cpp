// Two-body orbits (model_two_body.hpp).  Kepler's equation is solved by Newton
// iteration; the contracts hold whatever the number of iterations (loop cut).
#include "common.hpp"
#include "model_two_body.hpp"
using namespace mara;
using namespace spec;
namespace {
orbital_elements_t elements()
{
    orbital_elements_t el;
    el.separation = pos("a"); el.total_mass = pos("M"); el.mass_ratio = pos("q", 0.02, 3.0);
    el.eccentricity = vc_real("e", 0, 0.95); vc_assume(el.eccentricity >= 0 && el.eccentricity < 1);
    return el;
}
full_orbital_elements_t full_elements(orbital_elements_t el)
{
    full_orbital_elements_t f;
    f.elements = el; f.pomega = real("pomega", 3); f.tau = real("tau");
    f.cm_position_x = real("X"); f.cm_position_y = real("Y"); f.cm_velocity_x = real("VX"); f.cm_velocity_y = real("VY");
    return f;
}
void is_on_the_orbit(const two_body_state_t& s, const orbital_elements_t& el)
{
    auto a = el.separation, e = el.eccentricity, q = el.mass_ratio;
    auto& p = s.body1; auto& r = s.body2;
    auto x = p.position_x - r.position_x, y = p.position_y - r.position_y;
    auto u = p.velocity_x - r.velocity_x, v = p.velocity_y - r.velocity_y;
    vc_assert_eq("total mass", total_mass(s), el.total_mass);
    vc_assert_eq("mass ratio", r.mass, q * p.mass);
    vc_assert_eq("center of mass x", p.mass * p.position_x + r.mass * r.position_x, 0);
    vc_assert_eq("center of mass y", p.mass * p.position_y + r.mass * r.position_y, 0);
    vc_assert_eq("no momentum x", p.mass * p.velocity_x + r.mass * r.velocity_x, 0);
    vc_assert_eq("no momentum y", p.mass * p.velocity_y + r.mass * r.velocity_y, 0);
    // ellipse with one focus at the other body
    auto d = a * (1 - e * e) - e * x;
    vc_lemma_eq("on the ellipse", x * x + y * y, d * d);
    vc_lemma("apsides", d > 0);
    auto sp = vc_bind("sp", separation(s)), D = vc_bind("D", d);
    vc_lemma("separation", sp >= 0 && D > 0);
    vc_lemma_eq("separation squared", sp * sp, D * D);
    vc_lemma_eq("separation", sp, D);
    vc_assert_le("periapse", a * (1 - e), d);
    vc_assert_le("apoapse", d, a * (1 + e));
    auto h = x * v - y * u;
    vc_assert_eq("areal velocity", h * h, el.total_mass * a * (1 - e * e));
    vc_lemma("counter-clockwise", h > 0);
    vc_assert_eq("vis viva", (u * u + v * v) * d * a, el.total_mass * (2 * a - d));
    auto m = vc_bind("m", p.mass * r.mass);
    auto K = (p.mass * (p.velocity_x * p.velocity_x + p.velocity_y * p.velocity_y) + r.mass * (r.velocity_x * r.velocity_x + r.velocity_y * r.velocity_y)) / 2;
    vc_lemma_eq("kinetic energy", K * d * a, p.mass * r.mass * (2 * a - d) / 2);
    auto k = vc_bind("k", K);
    vc_lemma_eq("kinetic energy", k * D * a, m * (2 * a - D) / 2);
    vc_lemma_eq("kinetic and potential energy", total_energy(s), k - m / sp);
    vc_lemma_eq("energy", k - m / D, -m / a / 2);
    vc_assert_eq("energy", k - m / sp, -m / a / 2);
    vc_assert_eq("energy of the elements", orbital_energy(el), -(p.mass * r.mass) / a / 2);
    auto L = p.mass * (p.position_x * p.velocity_y - p.position_y * p.velocity_x)
           + r.mass * (r.position_x * r.velocity_y - r.position_y * r.velocity_x), L0 = orbital_angular_momentum(el);
    vc_lemma_eq("angular momentum of the relative motion", L * el.total_mass, p.mass * r.mass * h);
    vc_lemma_eq("angular momentum squared", L * L, L0 * L0);
    auto l = vc_bind("l", L), l0 = vc_bind("l0", L0), hh = vc_bind("h", h);
    vc_lemma("positive", hh > 0 && m > 0 && l0 >= 0);
    vc_lemma_eq("angular momentum of the relative motion", l * el.total_mass, m * hh);
    vc_lemma("positive", m * hh > 0);
    vc_lemma("positive", l * el.total_mass > 0);
    vc_lemma("angular momentum", l > 0);
    vc_lemma_eq("angular momentum squared", l * l, l0 * l0);
    vc_assert_eq("angular momentum", l, l0);
}
}
VC_PROOF(kepler_orbit)
{
    vc_cut_loops();
    auto el = elements(); auto t = real("t", 20);
    auto s = compute_two_body_state(el, t);
    is_on_the_orbit(s, el);
}
VC_PROOF(starts_at_periapse)
{
    auto el = elements();
    auto s = compute_two_body_state(el, 0.0);
    vc_assert_eq("x", s.body1.position_x - s.body2.position_x, el.separation * (1 - el.eccentricity));
    vc_assert_eq("y", s.body1.position_y - s.body2.position_y, 0);
}

// for t >= tau the state is the one of the unrotated orbit at t - tau, turned by
// pomega about the focus, moved to the center of mass and moving with it
static two_body_state_t orbit(const orbital_elements_t& el, double t)
{
    auto f = [&] (const char* n) { return vc_ufr(n, 5, t, el.separation, el.total_mass, el.mass_ratio, el.eccentricity); };
    return {{f("m1"), f("x1"), f("y1"), f("u1"), f("v1")}, {f("m2"), f("x2"), f("y2"), f("u2"), f("v2")}};
}
VC_CONTRACT(orbit, static_cast<two_body_state_t(*)(const orbital_elements_t&, double)>(&compute_two_body_state), &orbit)

static void same_as_local(const two_body_state_t& s, const two_body_state_t& o, const full_orbital_elements_t& f)
{
    auto c = std::cos(f.pomega), n = std::sin(f.pomega);
    auto one = [&] (const point_mass_t& b, const point_mass_t& l)
    {
        vc_assert_eq("mass", b.mass, l.mass);
        vc_assert_eq("x", b.position_x, f.cm_position_x + c * l.position_x - n * l.position_y);
        vc_assert_eq("y", b.position_y, f.cm_position_y + n * l.position_x + c * l.position_y);
        vc_assert_eq("vx", b.velocity_x, f.cm_velocity_x + c * l.velocity_x - n * l.velocity_y);
        vc_assert_eq("vy", b.velocity_y, f.cm_velocity_y + n * l.velocity_x + c * l.velocity_y);
    };
    one(s.body1, o.body1);
    one(s.body2, o.body2);
}
VC_PROOF(full_elements_place_the_orbit)
{
    auto f = full_elements(elements()); auto t = real("t", 20); vc_assume(t >= f.tau);
    vc_use_contract("orbit");
    auto s = compute_two_body_state(f, t);
    same_as_local(s, compute_two_body_state(f.elements, t - f.tau), f);
}
// before tau: whole periods are added first (here: up to three)
VC_PROOF(bounded_full_elements_before_periapse)
{
    auto f = full_elements(elements()); auto t = real("t", 20);
    auto P = orbital_period(f.elements);
    auto tp = 2 * M_PI;
    vc_assert_eq("third law", P * P * f.elements.total_mass, tp * f.elements.separation * (tp * f.elements.separation) * f.elements.separation);
    auto k = vc_choose("k", 1, 3);
    vc_assume(t + k * P >= f.tau && t + (k - 1) * P < f.tau);
    vc_use_contract("orbit");
    auto s = compute_two_body_state(f, t);
    same_as_local(s, compute_two_body_state(f.elements, t + k * P - f.tau), f);
    auto m = mean_anomaly(f, t);
    vc_assert_eq("mean anomaly", m * P, 2 * M_PI * (t + k * P - f.tau));
}
VC_PROOF(mean_anomaly_counts_from_periapse)
{
    auto f = full_elements(elements()); auto t = real("t", 20); vc_assume(t >= f.tau);
    vc_assert_eq("mean anomaly", mean_anomaly(f, t) * orbital_period(f.elements), 2 * M_PI * (t - f.tau));
}
VC_PROOF(full_elements_by_hand)
{
    auto el = elements();
    auto f = make_full_orbital_elements(el);
    vc_assert("placed at the origin", f.pomega == 0 && f.tau == 0 && f.cm_position_x == 0 && f.cm_position_y == 0 && f.cm_velocity_x == 0 && f.cm_velocity_y == 0);
    vc_assert("elements kept", f.elements.separation == el.separation && f.elements.total_mass == el.total_mass && f.elements.mass_ratio == el.mass_ratio && f.elements.eccentricity == el.eccentricity);
}
// elements of a bound pair: masses, center of mass, energy; unbound pairs are refused
VC_PROOF(elements_of_a_state)
{
    vc_assume_defined("bodies at the same place, at the center of mass or momentarily at rest");
    two_body_state_t s;
    s.body1 = { pos("m1"), real("x1"), real("y1"), real("u1"), real("v1") };
    s.body2 = { pos("m2"), real("x2"), real("y2"), real("u2"), real("v2") };
    auto& p = s.body1; auto& r = s.body2; auto t = real("t");
    auto M = p.mass + r.mass;
    auto x = p.position_x - r.position_x, y = p.position_y - r.position_y, u = p.velocity_x - r.velocity_x, v = p.velocity_y - r.velocity_y;
    auto d = std::sqrt(x * x + y * y);
    vc_assume(d > 0);
    auto E = p.mass * r.mass / M * (u * u + v * v) / 2 - p.mass * r.mass / d;     // of the relative motion
    full_orbital_elements_t f; bool threw = false;
    try { f = compute_orbital_elements(s, t); } catch (const std::invalid_argument&) { threw = true; }
    if (threw) { vc_assert("refused only if unbound", E >= 0); return; }
    vc_assert("bound", E < 0);
    vc_assert_eq("total mass", f.elements.total_mass, M);
    vc_assert_eq("mass ratio", f.elements.mass_ratio * p.mass, r.mass);
    vc_assert_eq("center x", f.cm_position_x * M, p.mass * p.position_x + r.mass * r.position_x);
    vc_assert_eq("center y", f.cm_position_y * M, p.mass * p.position_y + r.mass * r.position_y);
    vc_assert_eq("center vx", f.cm_velocity_x * M, p.mass * p.velocity_x + r.mass * r.velocity_x);
    vc_assert_eq("center vy", f.cm_velocity_y * M, p.mass * p.velocity_y + r.mass * r.velocity_y);
    vc_assert_eq("energy", orbital_energy(f.elements), E);
    vc_assert("eccentricity", f.elements.eccentricity >= 0 && f.elements.eccentricity <= 1);
}

// the root finder: whatever it returns is a root to the tolerance
VC_PROOF(newton_returns_a_root)
{
    vc_cut_loops(); vc_assume_defined("a Newton iterate where the derivative is zero");
    auto f = [] (double x) { return vc_ufr("f", 1, x); };
    auto g = [] (double x) { return vc_ufr("g", 1, x); };
#ifdef VC_NATIVE
    vc_assume(false);
#endif
    auto tol = pos("tolerance", 1e-6, 1.0);
    auto y = f(two_body::detail::solve_newton_rapheson(f, g, real("guess"), tol));
    vc_assert("root", y <= tol && -y <= tol);
}
// Kepler's equation, for any elapsed time: E - e sin E = omega t modulo 2 pi
VC_PROOF(sampled_kepler_equation)
{
    auto el = elements(); auto t = vc_real("t", -1e6, 1e6);
    auto s = compute_two_body_state(el, t);
    auto a = el.separation, e = el.eccentricity;
    auto x = s.body1.position_x - s.body2.position_x, y = s.body1.position_y - s.body2.position_y;
    auto E = std::atan2(y / std::sqrt(1 - e * e), x + a * e);
    auto d = E - e * std::sin(E) - 2 * M_PI * t / orbital_period(el);
    auto r = std::remainder(d, 2 * M_PI);
    vc_assert("mean anomaly", (r < 0 ? -r : r) < 1e-5 * (1 + (t < 0 ? -t : t) * 1e-3));
}
VC_PROOF(sampled_elements_round_trip)
{
    auto el = elements(); vc_assume(el.eccentricity > 0.02 && el.eccentricity < 0.9);
    auto f = full_elements(el); auto t = real("t", 20);
    auto s = compute_two_body_state(f, t);
    auto g = compute_orbital_elements(s, t);
    auto u = compute_two_body_state(g, t);
    auto near = [] (const char* n, double a, double b) { auto d = a - b; vc_assert(n, (d < 0 ? -d : d) < 1e-5 * (1 + (a < 0 ? -a : a))); };
    near("separation", el.separation, g.elements.separation);
    near("total mass", el.total_mass, g.elements.total_mass);
    near("mass ratio", el.mass_ratio, g.elements.mass_ratio);
    near("eccentricity", el.eccentricity, g.elements.eccentricity);
    near("cm x", f.cm_position_x, g.cm_position_x); near("cm y", f.cm_position_y, g.cm_position_y);
    near("cm vx", f.cm_velocity_x, g.cm_velocity_x); near("cm vy", f.cm_velocity_y, g.cm_velocity_y);
    near("pomega", std::cos(f.pomega - g.pomega), 1);
    near("tau", std::cos(2 * M_PI / orbital_period(el) * (f.tau - g.tau)), 1);
    near("x1", s.body1.position_x, u.body1.position_x); near("y1", s.body1.position_y, u.body1.position_y);
    near("x2", s.body2.position_x, u.body2.position_x); near("y2", s.body2.position_y, u.body2.position_y);
    near("u1", s.body1.velocity_x, u.body1.velocity_x); near("v1", s.body1.velocity_y, u.body1.velocity_y);
}
// differences and arithmetic of elements
static full_orbital_elements_t any_elements(const char* const (&n)[10])
{
    full_orbital_elements_t f;
    f.pomega = real(n[0], 3); f.tau = real(n[1]);
    f.cm_position_x = real(n[2]); f.cm_position_y = real(n[3]); f.cm_velocity_x = real(n[4]); f.cm_velocity_y = real(n[5]);
    f.elements.separation = pos(n[6]); f.elements.total_mass = pos(n[7]); f.elements.mass_ratio = pos(n[8]);
    f.elements.eccentricity = vc_real(n[9], 0, 0.95); vc_assume(f.elements.eccentricity >= 0 && f.elements.eccentricity < 1);
    return f;
}
template<typename F> static void each(const full_orbital_elements_t& r, const full_orbital_elements_t& a, const full_orbital_elements_t& b, F f)
{
    vc_assert_eq("cm x", r.cm_position_x, f(a.cm_position_x, b.cm_position_x)); vc_assert_eq("cm y", r.cm_position_y, f(a.cm_position_y, b.cm_position_y));
    vc_assert_eq("cm vx", r.cm_velocity_x, f(a.cm_velocity_x, b.cm_velocity_x)); vc_assert_eq("cm vy", r.cm_velocity_y, f(a.cm_velocity_y, b.cm_velocity_y));
    vc_assert_eq("separation", r.elements.separation, f(a.elements.separation, b.elements.separation));
    vc_assert_eq("total mass", r.elements.total_mass, f(a.elements.total_mass, b.elements.total_mass));
    vc_assert_eq("mass ratio", r.elements.mass_ratio, f(a.elements.mass_ratio, b.elements.mass_ratio));
    vc_assert_eq("eccentricity", r.elements.eccentricity, f(a.elements.eccentricity, b.elements.eccentricity));
}
static const char* const NA[10] = {"pa", "ta", "xa", "ya", "ua", "va", "aa", "Ma", "qa", "ea"};
static const char* const NB[10] = {"pb", "tb", "xb", "yb", "ub", "vb", "ab", "Mb", "qb", "eb"};
VC_PROOF(element_arithmetic)
{
    auto a = any_elements(NA), b = any_elements(NB); auto k = real("k");
    auto add = [] (double x, double y) { return x + y; };
    auto sub = [] (double x, double y) { return x - y; };
    auto mul = [k] (double x, double) { return x * k; };
    auto s = a + b, d = a - b, m = a * k;
    each(s, a, b, add); vc_assert_eq("pomega", s.pomega, a.pomega + b.pomega); vc_assert_eq("tau", s.tau, a.tau + b.tau);
    each(d, a, b, sub); vc_assert_eq("pomega", d.pomega, a.pomega - b.pomega); vc_assert_eq("tau", d.tau, a.tau - b.tau);
    each(m, a, b, mul); vc_assert_eq("pomega", m.pomega, a.pomega * k); vc_assert_eq("tau", m.tau, a.tau * k);
    auto z = make_full_orbital_elements_with_zeros();
    each(z, a, b, [] (double, double) { return 0.0; });
    vc_assert("zero", z.pomega == 0 && z.tau == 0);
    auto dt = real("dt");
    auto c = diff_cm(a, dt);
    vc_assert_eq("drift x", c.cm_position_x, a.cm_velocity_x * dt);
    vc_assert_eq("drift y", c.cm_position_y, a.cm_velocity_y * dt);
    vc_assert("drift moves nothing else", c.pomega == 0 && c.tau == 0 && c.cm_velocity_x == 0 && c.cm_velocity_y == 0 && c.elements.separation == 0
        && c.elements.total_mass == 0 && c.elements.mass_ratio == 0 && c.elements.eccentricity == 0);
}
// the step from a to b, angles and times of periapse along the shorter way round
VC_PROOF(element_difference)
{
    auto a = any_elements(NA), b = any_elements(NB);
    auto d = diff(a, b);
    each(d, a, b, [] (double x, double y) { return y - x; });
    auto shorter = [] (const char* n, double r, double delta, double period)
    {
        auto abs = [] (double x) { return x < 0 ? -x : x; };
        vc_assert(n, r == delta || r == delta + period || r == delta - period);
        vc_assert(n, abs(r) <= abs(delta) && abs(r) <= abs(delta + period) && abs(r) <= abs(delta - period));
    };
    shorter("pomega", d.pomega, b.pomega - a.pomega, 2 * M_PI);
    shorter("tau", d.tau, b.tau - a.tau, orbital_period(b.elements));
}
// relative change of the semi-major axis for small changes of mass and velocity
VC_PROOF(semi_major_axis_perturbation)
{
    two_body_state_t s, z;
    s.body1 = { pos("m1"), real("x1"), real("y1"), real("u1"), real("v1") };
    s.body2 = { pos("m2"), real("x2"), real("y2"), real("u2"), real("v2") };
    z = s;
    auto dm1 = real("dm1"), dm2 = real("dm2"), du1 = real("du1"), dv1 = real("dv1"), du2 = real("du2"), dv2 = real("dv2");
    z.body1.mass += dm1; z.body2.mass += dm2;
    z.body1.velocity_x += du1; z.body1.velocity_y += dv1; z.body2.velocity_x += du2; z.body2.velocity_y += dv2;
    auto x = s.body1.position_x - s.body2.position_x, y = s.body1.position_y - s.body2.position_y;
    vc_assume(x * x + y * y > 0);
#ifdef VC_NATIVE
    vc_assume(x * x + y * y > 1e-2);
#endif
    auto& p = s.body1; auto& r = s.body2;
    auto U = -p.mass * r.mass / separation(s);
    auto T1 = p.mass * (p.velocity_x * p.velocity_x + p.velocity_y * p.velocity_y) / 2;
    auto T2 = r.mass * (r.velocity_x * r.velocity_x + r.velocity_y * r.velocity_y) / 2;
    auto E = total_energy(s);
    vc_assert_eq("energy", E, T1 + T2 + U);
    vc_assume(E < 0);
#ifdef VC_NATIVE
    vc_assume(E < -1e-2);
#endif
    // a = -m1 m2 / 2 E
    auto dE = (T1 + U) * dm1 / p.mass + (T2 + U) * dm2 / r.mass
        + p.mass * (du1 * p.velocity_x + dv1 * p.velocity_y) + r.mass * (du2 * r.velocity_x + dv2 * r.velocity_y);
    vc_assert_eq("da / a", delta_a_over_a(z, s), dm1 / p.mass + dm2 / r.mass - dE / E);
}
