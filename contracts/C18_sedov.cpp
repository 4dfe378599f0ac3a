// One step of the spherical blast wave code.  The number of zones is bounded
// (1 to 4), the states and the radii are arbitrary.  Riemann solver, recovery of
// primitive variables and source terms are used through their weakest contract:
// some function of their arguments.
#include "common.hpp"
#include <iostream>
#include "subprog_sedov.cpp"
using namespace spec;
namespace {
template<typename S> using prim = typename S::primitive_t;
const char* F_[5] = {"f0", "f1", "f2", "f3", "f4"};
const char* S_[5] = {"s0", "s1", "s2", "s3", "s4"};
const char* P_[5] = {"p0", "p1", "p2", "p3", "p4"};

template<typename S> typename S::flux_vector_t some_flux(const typename S::primitive_t& l, const typename S::primitive_t& r, const mara::unit_vector_t& n, double g)
{
    auto f = [&] (int k) { return vc_ufr(F_[k], 14, l[0], l[1], l[2], l[3], l[4], r[0], r[1], r[2], r[3], r[4], n.get_n1(), n.get_n2(), n.get_n3(), g); };
    typename S::flux_vector_t F;
    for (int k = 0; k < 5; ++k) F[k].value = f(k);
    return F;
}
template<typename S> typename S::primitive_t some_state(const typename S::conserved_density_t& u, double g, double t)
{
    auto f = [&] (int k) { return vc_ufr(P_[k], 7, u[0].value, u[1].value, u[2].value, u[3].value, u[4].value, g, t); };
    typename S::primitive_t p;
    for (int k = 0; k < 5; ++k) p[k] = f(k);
    return p;
}
template<typename P> mara::arithmetic_sequence_t<mara::dimensional_value_t<-3, 1, -1, double>, 5> some_source(P* p, double r, double g)
{
    mara::arithmetic_sequence_t<mara::dimensional_value_t<-3, 1, -1, double>, 5> S = {};
    for (int k = 1; k < 4; ++k) S[k].value = vc_ufr(S_[k], 7, (*p)[0], (*p)[1], (*p)[2], (*p)[3], (*p)[4], r, g);
    return S;       // none of mass and energy (C06)
}
const char* NAMES[4][5] = {{"a0", "a1", "a2", "a3", "a4"}, {"b0", "b1", "b2", "b3", "b4"}, {"c0", "c1", "c2", "c3", "c4"}, {"d0", "d1", "d2", "d3", "d4"}};
const char* RADII[5] = {"r0", "dr1", "dr2", "dr3", "dr4"};
template<typename U> double at(const U& u, int k) { return u[k].value; }
template<typename S> auto any_state(std::size_t n)
{
    typename SedovProblem<S>::solution_state_t s;
    auto r = nd::make_unique_array<double>(nd::make_shape(n + 1));
    auto u = nd::make_unique_array<typename S::conserved_t>(nd::make_shape(n));
    double x = 0;
    for (std::size_t i = 0; i <= n; ++i) { x += pos(RADII[i]); r(i) = x; }
    for (std::size_t i = 0; i < n; ++i)
    {
        u(i)[0].value = pos(NAMES[i][0]);
        u(i)[1].value = real(NAMES[i][1], 0.3);
        u(i)[2].value = real(NAMES[i][2], 0.3);
        u(i)[3].value = real(NAMES[i][3], 0.3);
        u(i)[4].value = pos(NAMES[i][4]);
#ifdef VC_NATIVE
        // sampled: the drawn values are taken as a primitive state, so that it is physical
        typename S::primitive_t p;
        for (int k = 0; k < 5; ++k) p[k] = u(i)[k].value;
        u(i) = p.to_conserved_density(4. / 3) * mara::make_volume((std::pow(r(i + 1), 3) - std::pow(r(i), 3)) / 3);
#endif
    }
    s.time = real("t");
    s.iteration = mara::make_rational(7);
    s.vertices = std::move(r).shared();
    s.conserved = std::move(u).shared();
    return s;
}
template<typename S> void step(std::size_t n)
{
    vc_use_contract("flux"); vc_use_contract("flux_srhd"); vc_use_contract("recover"); vc_use_contract("source"); vc_use_contract("source_srhd"); vc_use_contract("recover_srhd");
    auto s = any_state<S>(n);
    auto g = 4. / 3;
    auto t = SedovProblem<S>::next_solution(s);
    auto dt = vc_bind("dt", t.time - s.time);
    vc_assert_eq("time step", dt, 0.4 * (s.vertices(1) - s.vertices(0)));
    vc_assert("iteration", t.iteration == s.iteration + 1);
    vc_assert("sizes", t.vertices.shape(0) == n + 1 && t.conserved.shape(0) == n);
    auto e1 = mara::unit_vector_t::on_axis_1();
    auto volume = [&] (std::size_t i) { auto a = s.vertices(i), b = s.vertices(i + 1); return (b * b * b - a * a * a) / 3; };
    auto primitive = [&] (std::size_t i) { return S::recover_primitive(s.conserved(i) / mara::make_volume(volume(i)), g, 0.0); };
    auto mirror = primitive(0); mirror[1] = -mirror[1];
    auto flux = [&] (std::size_t i)     // at face i
    {
        return S::riemann_hlle(i == 0 ? mirror : primitive(i - 1), i == n ? primitive(n - 1) : primitive(i), e1, g);
    };
    double total[5] = {};
    for (std::size_t i = 0; i <= n; ++i) vc_assert_eq("mesh", t.vertices(i), s.vertices(i));
    for (std::size_t i = 0; i < n; ++i)
    {
        auto rl = s.vertices(i), rr = s.vertices(i + 1);
        auto fl = flux(i), fr = flux(i + 1);
        auto src = primitive(i).spherical_geometry_source_terms_radial((rl + rr) / 2, g);
        for (int k = 0; k < 5; ++k)
        {
            auto change = (rl * rl * at(fl, k) - rr * rr * at(fr, k) + at(src, k) * volume(i)) * dt;
            vc_assert_eq("update", at(t.conserved(i), k), at(s.conserved(i), k) + change);
            total[k] += at(t.conserved(i), k) - at(s.conserved(i), k);
        }
    }
    // what is gained is what crosses the two boundaries
    for (int k : {0, 4})
        vc_assert_eq("conservation of mass and energy", total[k], (s.vertices(0) * s.vertices(0) * at(flux(0), k) - s.vertices(n) * s.vertices(n) * at(flux(n), k)) * dt);
}
}
#ifndef VC_NATIVE
VC_CONTRACT(flux, &mara::euler::riemann_hlle, &some_flux<mara::euler>)
VC_CONTRACT(flux_srhd, &mara::srhd::riemann_hlle, &some_flux<mara::srhd>)
VC_CONTRACT(source, &mara::euler::primitive_t::spherical_geometry_source_terms_radial, &some_source<mara::euler::primitive_t>)
VC_CONTRACT(source_srhd, &mara::srhd::primitive_t::spherical_geometry_source_terms_radial, &some_source<mara::srhd::primitive_t>)
VC_CONTRACT(recover, &mara::euler::recover_primitive, &some_state<mara::euler>)
VC_CONTRACT(recover_srhd, &mara::srhd::recover_primitive, &some_state<mara::srhd>)
#endif
VC_PROOF(bounded_sedov_step_newtonian) { step<mara::euler>(vc_choose("zones", 1, 4)); }
VC_PROOF(bounded_sedov_step_relativistic) { step<mara::srhd>(vc_choose("zones", 1, 4)); }
