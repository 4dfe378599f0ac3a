// The circumbinary disk code, compiled into the contract.  Tree operations that
// the code hands to its thread pool are executed directly: the pool is replaced
// by one that calls the task when it is enqueued, and std::future by its value
// (assumption: the pool runs every task once and hands back what it returned).
#pragma once
#include "common.hpp"
#include <iostream>
#include <future>
#include <functional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <map>
#include <algorithm>
#include <variant>
namespace std { template<typename T> struct vc_ready { T value; T get() { return value; } }; }
#define future vc_ready
#include "core_tree.hpp"
#undef future
#include "core_thread_pool.hpp"
namespace mara {
struct vc_pool_t
{
    constexpr vc_pool_t(int) {}
    void restart(int) {}
    template<typename F, typename... A> auto enqueue(F&& fn, A&&... args) { return std::vc_ready<std::invoke_result_t<F, A...>>{fn(args...)}; }
};
}
#define thread_pool_t vc_pool_t
#ifndef BINARY_SOURCE
#define BINARY_SOURCE "subprog_binary_scheme.cpp"
#endif
#ifdef BINARY_SECOND_SOURCE
#import "subprog_binary.hpp"        // which has no include guard
#include BINARY_SOURCE
#include BINARY_SECOND_SOURCE
#else
#include BINARY_SOURCE
#endif
#undef thread_pool_t
namespace spec {
using binary::solver_data_t; using binary::solution_t; using binary::location_2d_t; using binary::quad_tree_t;
using prim2 = mara::iso2d::primitive_t;
using cons2 = mara::iso2d::conserved_per_area_t;
using consq = mara::iso2d::conserved_angmom_per_area_t;
using flux2 = mara::iso2d::flux_t;
using index2 = mara::tree_index_t<2>;
using mara::get;

template<typename T> double val(const T& x, int k) { return k == 0 ? get<0>(x).value : k == 1 ? get<1>(x).value : get<2>(x).value; }
inline prim2 state2(const char* s, const char* u, const char* v)
{
    prim2 p; p[0] = pos(s); p[1] = real(u, 1); p[2] = real(v, 1);
    return p;
}
inline prim2 vector2(const char* s, const char* u, const char* v)
{
    prim2 p; p[0] = real(s, 1); p[1] = real(u, 1); p[2] = real(v, 1);
    return p;
}
inline location_2d_t point(double x, double y) { return {{mara::make_length(x), mara::make_length(y)}}; }
inline mara::two_body_state_t bodies()
{
    return {{pos("M1"), real("X1", 1), real("Y1", 1), real("VX1", 1), real("VY1", 1)}, {pos("M2"), real("X2", 1), real("Y2", 1), real("VX2", 1), real("VY2", 1)}};
}
// scalar parameters of the solver; trees are left empty
inline solver_data_t parameters(std::size_t block_size)
{
    solver_data_t d = {};
    d.sink_rate = pos("sink_rate"); d.sink_radius = pos("sink_radius"); d.softening_radius = pos("soft");
    d.gst_suppr_radius = pos("suppr"); d.domain_radius = pos("R"); d.density_floor = 0.0;
    d.mach_number = pos("mach"); d.alpha = pos("alpha"); d.alpha_cutoff_radius = 0; d.nu = 0; d.plm_theta = vc_real("theta", 1, 2);
    d.begin_live_binary = real("begin_live"); d.rk_order = 1;
    d.axisymmetric_cs2 = false; d.conserve_linear_p = true; d.fixed_dt = false; d.no_accretion_force = false;
    d.block_size = block_size;
    return d;
}

// one N x N block (N = 1, 2) at the root of the tree, any data
constexpr int MAX = 2;
inline const char* XV[MAX + 1] = {"x0", "dx1", "dx2"};
inline const char* YV[MAX + 1] = {"y0", "dy1", "dy2"};
template<typename F> auto block(std::size_t n, std::size_t m, F f)
{
    using T = decltype(f(0, 0));
    auto A = nd::make_unique_array<T>(nd::make_shape(n, m));
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) A(i, j) = f(long(i), long(j));
    return std::move(A).shared();
}
template<typename T> auto root(const nd::shared_array<T, 2>& a) { return mara::tree_of<2>(a); }

inline cons2 u_value(const char* f, long i, long j)
{
    auto s = vc_uf(f, 3, 0L, i, j), p = vc_uf(f, 3, 1L, i, j), q = vc_uf(f, 3, 2L, i, j);
    return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(s), mara::make_dimensional<-1, 1, -1>(p), mara::make_dimensional<-1, 1, -1>(q));
}
inline consq q_value(const char* f, long i, long j)
{
    auto s = vc_uf(f, 3, 0L, i, j), p = vc_uf(f, 3, 1L, i, j), q = vc_uf(f, 3, 2L, i, j);
    return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(s), mara::make_dimensional<0, 1, -1>(p), mara::make_dimensional<0, 1, -1>(q));
}
inline prim2 p_value(const char* f, long i, long j)
{
    prim2 p;
    for (long k = 0; k < 3; ++k) p[k] = vc_uf(f, 3, k, i, j);
    return p;
}
struct setup
{
    std::size_t n; solver_data_t d; solution_t s; mara::two_body_state_t b; index2 i; double dt;
    quad_tree_t<prim2> p0;
    location_2d_t xc(long k, long l) const { return d.cell_centers.at(i)(k, l); }
    double dA(long k, long l) const { return d.cell_areas.at(i)(k, l).value; }
};
inline setup make(std::size_t n)
{
    setup z; z.n = n; z.d = parameters(n); z.d.density_floor = pos("floor", 1e-6, 1e-3); z.b = bodies(); z.dt = pos("dt");
    double x[MAX + 1], y[MAX + 1];
    x[0] = real("x0"); y[0] = real("y0");
    for (std::size_t k = 1; k <= n; ++k) { x[k] = x[k - 1] + pos(XV[k]); y[k] = y[k - 1] + pos(YV[k]); }
    z.d.vertices = root(block(n + 1, n + 1, [&] (long k, long l) { return point(x[k], y[l]); }));
    z.d.cell_centers = root(block(n, n, [&] (long k, long l) { return point((x[k] + x[k + 1]) / 2, (y[l] + y[l + 1]) / 2); }));
    z.d.cell_areas = root(block(n, n, [&] (long k, long l) { return mara::make_area((x[k + 1] - x[k]) * (y[l + 1] - y[l])); }));
    z.d.buffer_rate_field = root(block(n, n, [] (long k, long l) { return mara::unit_rate<double>(vc_uf("buffer", 2, k, l)); }));
    z.d.initial_conserved_u = root(block(n, n, [] (long k, long l) { return u_value("u_init", k, l); }));
    z.d.initial_conserved_q = root(block(n, n, [] (long k, long l) { return q_value("q_init", k, l); }));
    z.s.conserved_u = root(block(n, n, [&] (long k, long l) { auto u = u_value("u", k, l); vc_assume(get<0>(u).value >= z.d.density_floor.value); return u; }));
    z.s.conserved_q = root(block(n, n, [] (long k, long l) { auto q = q_value("q", k, l); vc_assume(get<0>(q).value > 0); return q; }));
    z.p0 = root(block(n, n, [] (long k, long l) { return p_value("p", k, l); }));
    return z;
}
template<typename F> double total(const setup& z, F f)
{
    double t = 0;
    for (std::size_t k = 0; k < z.n; ++k) for (std::size_t l = 0; l < z.n; ++l) t += f(long(k), long(l)) * z.dA(k, l);
    return t;
}
// meshes of several blocks, any data
template<typename T, typename F> quad_tree_t<T> grid(int depth, F f, const index2& at = {})
{
    if (depth == 0) return mara::tree_of<2>(f(at));
    mara::arithmetic_sequence_t<quad_tree_t<T>, 4> c;
    for (std::size_t k = 0; k < 4; ++k) c[k] = grid<T>(depth - 1, f, index2{at.level + 1, {{2 * at.coordinates[0] + (k & 1), 2 * at.coordinates[1] + (k >> 1)}}});
    return quad_tree_t<T>{std::make_shared<mara::arithmetic_sequence_t<quad_tree_t<T>, 4>>(c)};
}
inline double at(const char* f, const index2& b, long i, long j) { return vc_uf(f, 5, long(b.level), long(b.coordinates[0]), long(b.coordinates[1]), i, j); }
inline cons2 some_u(const index2& b, long i, long j)
{
    auto s = at("u0", b, i, j), p = at("u1", b, i, j), q = at("u2", b, i, j);
    vc_assume(s > 0);
    return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(s), mara::make_dimensional<-1, 1, -1>(p), mara::make_dimensional<-1, 1, -1>(q));
}
inline consq some_q(const index2& b, long i, long j)
{
    auto s = at("u0", b, i, j), p = at("u1", b, i, j), q = at("u2", b, i, j);
    vc_assume(s > 0);
    return mara::make_arithmetic_tuple(mara::make_dimensional<-2, 1, 0>(s), mara::make_dimensional<0, 1, -1>(p), mara::make_dimensional<0, 1, -1>(q));
}
inline location_2d_t some_point(const index2& b, long i, long j)
{
    auto x = at("x", b, i, j), y = at("y", b, i, j);
    vc_assume(x * x + y * y > 0);
    return point(x, y);
}
// level-one mesh (or the root block alone) with any data
struct world { solver_data_t d; solution_t s; int depth; long n; };
template<typename Fn> void each(const world& w, Fn fn)
{
    std::size_t m = 1ul << w.depth;
    for (std::size_t bi = 0; bi < m; ++bi) for (std::size_t bj = 0; bj < m; ++bj)
        for (long i = 0; i < w.n; ++i) for (long j = 0; j < w.n; ++j) fn(index2{std::size_t(w.depth), {{bi, bj}}}, i, j);
}
inline world any_world(bool linear, int depth, long n)
{
    world w{parameters(n), {}, depth, n};
    w.d.conserve_linear_p = linear;
    w.d.cell_centers = grid<location_2d_t>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return some_point(b, i, j); }); });
    w.d.cell_areas = grid<mara::unit_area<double>>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return mara::make_area(at("dA", b, i, j)); }); });
    if (linear) w.s.conserved_u = grid<cons2>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return some_u(b, i, j); }); });
    else        w.s.conserved_q = grid<consq>(depth, [=] (const index2& b) { return block(n, n, [&] (long i, long j) { return some_q(b, i, j); }); });
    return w;
}
inline world any_world() { auto l = vc_choose("linear", 0, 1); auto k = vc_choose("mesh", 0, 1); return any_world(l, k, k ? 1 : 2); }
}
