// Atmosphere, envelope and jet models
#include "common.hpp"
#include <utility>
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
using namespace spec;
namespace {
double distance(double a, double b) { return a > b ? a - b : b - a; }
auto some_atmosphere(double n1)
{
    auto r0 = pos("r0", 0.5, 2);
    auto a = mara::power_law_atmosphere_model()
    .with_coefficient(pos("f0", 0.5, 2))
    .with_inner_radius(r0)
    .with_cutoff_radius(r0 + pos("width", 0.5, 2))
    .with_inner_index(n1)
    .with_outer_index(3 + pos("steepness", 0.5, 2));
    return a;
}
auto some_envelop()
{
    auto m = mara::cloud_and_envelop_model();
    m.envelop_mass = pos("envelop mass", 0.5, 2);
    m.u1 = pos("u1", 0.5, 2);
    m.m1 = pos("m1", 0.1, 0.4);
    m.psi = pos("psi", 0.2, 0.5);
    m.cloud_index = real("cloud index", 2);
    return m.with_inner_radius(pos("r0", 0.1, 0.2));
}
void atmosphere_masses(double n1, double within)
{
    auto a = some_atmosphere(n1);
    vc_assert_eq("mass beyond the cutoff", a.mass_beyond_cutoff(), 4 * M_PI * a.density_at(a.rc) * a.rc * a.rc * a.rc / (a.n2 - 3));
    vc_assert_eq("total mass", a.total_mass(), a.mass_within_cutoff() + a.mass_beyond_cutoff());
}
}
VC_PROOF(atmosphere_parameters)
{
    auto r0 = pos("r0"), rc = pos("rc"), n1 = real("n1"), n2 = real("n2"), f0 = pos("f0");
    auto a = mara::power_law_atmosphere_model().with_coefficient(f0).with_inner_radius(r0).with_cutoff_radius(rc).with_inner_index(n1).with_outer_index(n2);
    auto b = mara::power_law_atmosphere_model().with_outer_index(n2).with_inner_index(n1).with_cutoff_radius(rc).with_inner_radius(r0).with_coefficient(f0);
    for (auto x : {a, b})
    {
        vc_assert_eq("f0", x.f0, f0);
        vc_assert_eq("r0", x.r0, r0);
        vc_assert_eq("rc", x.rc, rc);
        vc_assert_eq("n1", x.n1, n1);
        vc_assert_eq("n2", x.n2, n2);
    }
}
VC_PROOF(atmosphere_density)
{
    auto n1 = real("n1", 2);
    auto a = some_atmosphere(n1);
    auto r = pos("r", 0.1, 5);
    auto rho_c = a.f0 * std::pow(a.rc / a.r0, -n1);
    vc_assert_eq("at the cutoff", a.density_at(a.rc), rho_c);
    if (r <= a.rc)
        vc_assert_eq("within", a.density_at(r), a.f0 * std::pow(r / a.r0, -n1));
    else
        vc_assert_eq("beyond", a.density_at(r), rho_c * std::pow(r / a.rc, -a.n2));
}
VC_PROOF(atmosphere_masses)
{
    auto n1 = real("n1", 2);
    auto a = some_atmosphere(n1);
    auto rho_c = a.density_at(a.rc);
    if (n1 == 3)
        vc_assert_eq("mass within (index 3)", a.mass_within_cutoff(), 4 * M_PI * rho_c * a.rc * a.rc * a.rc * std::log(a.rc / a.r0));
    else
        // the primitive of 4 pi r^2 rho is 4 pi r^3 rho / (3 - n1)
        vc_assert_eq("mass within", a.mass_within_cutoff(), 4 * M_PI * (rho_c * a.rc * a.rc * a.rc - a.f0 * a.r0 * a.r0 * a.r0) / (3 - n1));
    vc_assert_eq("mass beyond", a.mass_beyond_cutoff(), 4 * M_PI * rho_c * a.rc * a.rc * a.rc / (a.n2 - 3));
    vc_assert_eq("total mass", a.total_mass(), a.mass_within_cutoff() + a.mass_beyond_cutoff());
}
VC_PROOF(atmosphere_of_given_mass)
{
    auto n1 = real("n1", 2);
    auto a = some_atmosphere(n1);
    auto M = pos("M");
    vc_assume_defined("atmospheres of zero mass");
    auto b = a.with_total_mass(M);
    vc_assert_eq("total mass", b.total_mass(), M);
    vc_assert_eq("r0", b.r0, a.r0);
    vc_assert_eq("rc", b.rc, a.rc);
    vc_assert_eq("n1", b.n1, a.n1);
    vc_assert_eq("n2", b.n2, a.n2);
}
VC_PROOF(atmosphere_of_infinite_mass_is_refused)
{
    auto a = some_atmosphere(2.0);
    a = a.with_outer_index(real("n2", 3));
    vc_assume(a.n2 <= 3);
    bool refused = false;
    try { a.total_mass(); } catch (const std::exception&) { refused = true; }
    vc_assert("refused", refused);
}
VC_PROOF(jet_energy)
{
    auto Ej = pos("Ej"), G0 = pos("G0"), tj = pos("tj"), qj = pos("qj", 0.05, 1), as = pos("as", 1, 3), r0 = pos("r0");
    auto a = mara::jet_nozzle_model().with_total_energy(Ej).with_lorentz_factor(G0).with_jet_duration(tj)
    .with_opening_angle(qj).with_structure_exponent(as).with_inner_radius(r0);
    // two jets of solid angle pi qj^2 and duration tj
    vc_assert_eq("energy", 2 * (M_PI * qj * qj) * tj * a.luminosity_per_steradian(0.0, 0.0), Ej);
    auto c = mara::jet_nozzle_model::light_speed_cgs;
    auto q = pos("q", 0, 1), t = pos("t", 0, 2);
    auto profile = std::exp(-std::pow(q / qj, as)) * std::exp(-t / tj);
    vc_assert_eq("luminosity profile", a.luminosity_per_steradian(q, t), a.luminosity_per_steradian(0.0, 0.0) * profile);
    vc_assert_eq("four velocity at the base", a.gamma_beta(0.0, 0.0), G0);
#ifndef VC_NATIVE
    auto u = std::exp(-0.5 * std::pow(q / qj, as)), v = std::exp(-0.5 * t / tj);
    vc_assume(u * u == std::exp(-std::pow(q / qj, as)));     // exp(x/2)^2 = exp(x)
    vc_assume(v * v == std::exp(-t / tj));
#endif
    auto gb = a.gamma_beta(q, t);
    vc_assert_eq("luminosity is carried by the gas", a.luminosity_per_steradian(q, t), a.density_at_base() * gb * gb * r0 * r0 * c * c * c);
}
VC_PROOF(envelop_velocity)
{
    auto e = some_envelop();
    auto m = pos("m", 0.2, 4), t = pos("t", 1e-10, 1e-9);
    auto c = mara::cloud_and_envelop_model::light_speed;
    auto u = e.u1 * std::pow(m / e.m1, -e.psi);
    vc_assert_eq("four velocity", e.gamma_beta(m), u);
    auto beta = e.velocity(m) / c;
    vc_assert("slower than light", beta > 0 && beta < 1);
    vc_assert_eq("four velocity of the velocity", beta * beta * (1 + u * u), u * u);
    vc_assert_eq("radius", e.radius(m, t), beta * c * t);
    vc_assert_eq("outer boundary of the envelop", e.envelop_outer_boundary(t), e.radius(e.m1, t));
    vc_assert_eq("outer boundary of the cloud", e.cloud_outer_boundary(t), e.radius(e.envelop_mass, t));
    vc_assert_eq("velocity of the cloud", e.cloud_velocity(), e.velocity(e.envelop_mass));
    vc_assert_eq("slope", e.dudm(m) * m, -e.psi * u);
    // mass element: dm = 4 pi r^2 rho Gamma dr, dr = c t dbeta, dbeta = du / Gamma^3
    auto r = e.radius(m, t), G2 = 1 + u * u;
    auto slope = e.dudm(m) < 0 ? -e.dudm(m) : e.dudm(m);
    vc_assert_eq("mass in the element", e.density(m, t) * 4 * M_PI * r * r * r * slope, G2 * beta);
}
VC_PROOF(cloud_velocity)
{
    auto e = some_envelop();
    vc_assert_eq("four velocity of the cloud", e.cloud_gamma_beta(), e.gamma_beta(e.envelop_mass));
}
VC_PROOF(mass_coordinate)
{
    // the loop of the secant method is left only where the radius is that of the mass coordinate
    auto e = some_envelop();
    auto t = pos("t", 1e-10, 1e-9), r = pos("r", 0.1, 3);
#ifdef VC_NATIVE
    r = e.radius(pos("m", 0.2, 0.8), t);
#endif
    vc_cut_loops();
    vc_assume_defined("masses in the course of the secant method of which no radius exists");
    auto m = e.mass_coordinate(r, t);
    vc_assert_le("radius", distance(std::log10(r), std::log10(e.radius(m, t))), 1e-10);
}
namespace {
// the mass coordinate is used through its contract: some positive function of radius and time
double some_mass_coordinate(mara::cloud_and_envelop_model* e, double r, double t)
{
    auto m = vc_ufr("mass coordinate", 2, r, t);
    vc_assume(m > 0);
    return m;
}
}
#ifndef VC_NATIVE
VC_CONTRACT(coordinate, &mara::cloud_and_envelop_model::mass_coordinate, &some_mass_coordinate)
#endif
VC_PROOF(cloud_and_envelop_profile)
{
    vc_use_contract("coordinate");
    auto e = some_envelop();
    auto t = pos("t", 1e-10, 1e-9), r = pos("r", 0.1, 30);
    auto c = mara::cloud_and_envelop_model::light_speed;
    auto r0 = e.cloud_outer_boundary(t), r1 = e.envelop_outer_boundary(t);
    vc_assume(r0 < r1);
    auto envelop = [&] (double x) { return e.density(e.mass_coordinate(x, t), t); };
    double d, u;
    if (r < r0)
    {
        d = envelop(r0) * std::pow(r / r0, -e.cloud_index);
        u = e.gamma_beta(e.envelop_mass);
    }
    else
    {
        auto edge = r > r1 ? r1 : r;
        d = envelop(edge) * (edge / r) * (edge / r);
        u = e.gamma_beta(e.mass_coordinate(edge, t));
    }
    vc_assert_eq("density", e.density_at(r, t), d);
    vc_assert_eq("four velocity", e.gamma_beta_at(r, t), u);
    auto beta = e.velocity_at(r, t) / c;
    vc_assert("slower than light", beta > 0 && beta < 1);
    vc_assert_eq("four velocity of the velocity", beta * beta * (1 + u * u), u * u);
}
VC_PROOF(cloud_mass)
{
    vc_use_contract("coordinate");
    auto e = some_envelop();
    auto t = pos("t", 1e-10, 1e-9);
    auto n = e.cloud_index;
    auto r1 = e.cloud_outer_boundary(t), r0 = e.inner_radius;
    vc_assume(r0 < r1 && r1 < e.envelop_outer_boundary(t));
    auto d = e.density_at(r1, t);
    auto m = e.cloud_mass(t);
    // mass between r0 and r1 of the density d (r / r1)^-n
    if (n == 3)
        vc_assert_eq("mass (index 3)", m, 4 * M_PI * d * r1 * r1 * r1 * std::log(r1 / r0));
    else
        vc_assert_eq("mass", m, 4 * M_PI * d * (r1 * r1 * r1 - r0 * r0 * r0 * std::pow(r0 / r1, -n)) / (3 - n));
    vc_assert_eq("total mass", e.total_mass(t), m + e.envelop_mass);
}
