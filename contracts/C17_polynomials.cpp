// Zeros of cubic and quartic polynomials, vertex of a parabola
#include "common.hpp"
#include <utility>
#include <algorithm>
#include "math_polynomial.hpp"
using namespace spec;
namespace {
double cubic(double c3, double c2, double c1, double c0, double x) { return ((c3 * x + c2) * x + c1) * x + c0; }
struct depressed { double c3, c2, c1, c0, q, r; };
// c3 ((x + a/3)^3 + 3 q (x + a/3) - 2 r): every cubic can be written this way
depressed some_cubic(double q, double r)
{
    double c3 = real("c3", 2), a = real("a2", 1);
    vc_assume(c3 != 0);
    return {c3, c3 * a, c3 * (a * a / 3 + 3 * q), c3 * (a * a * a / 27 + q * a - 2 * r), q, r};
}
void is_root(const char* name, const depressed& p, double x) { vc_assert_eq(name, cubic(p.c3, p.c2, p.c1, p.c0, x), 0.0); }
}
VC_PROOF(parabola_vertex)
{
    // the parabola y = A (x - x0)^2 + y0 through three different points
    double A = real("A", 1), x0 = real("x0", 1), y0 = real("y0", 1), a = real("a", 1), b = real("b", 1), c = real("c", 1);
    vc_assume(A != 0 && a != b && b != c && a != c);
    auto y = [&] (double x) { return A * (x - x0) * (x - x0) + y0; };
    auto v = mara::parabola_vertex(a, b, c, y(a), y(b), y(c));
    vc_assert_eq("position", v.first, x0);
    vc_assert_eq("value", v.second, y0);
}
namespace {
// pow(x, 1/3) is the cube root of x >= 0 (assumed of the math library)
double cube_root(double x)
{
#ifdef VC_NATIVE
    return std::cbrt(x);
#else
    double a = x >= 0 ? x : -x, c = std::pow(a, 1. / 3);
    vc_assume(c * c * c == a);
    return x >= 0 ? c : -c;
#endif
}
// equal cubes have equal roots
void same_cube(double u, double v)
{
    double x = vc_bind("u", u), y = vc_bind("v", v);
    vc_lemma_eq("equal cubes", x * x * x, y * y * y);
    vc_lemma("equal roots", x == y);
}
}
VC_PROOF(cubic_with_one_real_root)
{
    double q = real("q", 1), r = real("r", 1);
    vc_assume(q * q * q + r * r > 0);
    auto p = some_cubic(q, r);
    vc_simplify_branches();
    auto d = std::sqrt(q * q * q + r * r);
    double t1 = cube_root(r + d), t2 = cube_root(r - d);
#ifndef VC_NATIVE
    same_cube(t1 * t2, -q);
#endif
    auto z = mara::cubic_roots(p.c3, p.c2, p.c1, p.c0);
    vc_assert("one root", z.num_roots == 1);
    vc_lemma_eq("formula", z.x1, t1 + t2 - p.c2 / p.c3 / 3);
    is_root("root", p, t1 + t2 - p.c2 / p.c3 / 3);
    double b = p.c2 / p.c3 + z.x1;      // p / c3 = (x - x1) (x^2 + b x + c)
    vc_assert_eq("discriminant of the quadratic factor", b * b - 4 * (p.c1 / p.c3 + b * z.x1), -3 * (t1 - t2) * (t1 - t2));
    vc_assert("the others are not real", t1 != t2);
}
VC_PROOF(cubic_with_three_real_roots)
{
    double q = real("q", 1), r = real("r", 1);
    vc_assume(q * q * q + r * r < 0);
    auto p = some_cubic(q, r);
    auto z = mara::cubic_roots(p.c3, p.c2, p.c1, p.c0);
#ifndef VC_NATIVE
    // cos 3t = 4 cos^3 t - 3 cos t (assumed of the math library)
    double t = std::acos(r / std::sqrt(-q * q * q)) / 3, c = std::cos(t), g = std::sqrt(-q);
    vc_lemma("q is negative", q < 0);
    vc_lemma_eq("root of the cube", std::sqrt(-q * q * q), -q * g);
    vc_assume(4 * c * c * c - 3 * c == r / std::sqrt(-q * q * q));
#endif
    vc_assert("three roots", z.num_roots == 3);
    is_root("root 1", p, z.x1);
    is_root("root 2", p, z.x2);
    is_root("root 3", p, z.x3);
    vc_assert_eq("sum of the roots", z.x1 + z.x2 + z.x3, -p.c2 / p.c3);
}
VC_PROOF(cubic_with_three_real_roots_ordered)
{
    double q = real("q", 1), r = real("r", 1);
    vc_assume(q * q * q + r * r < 0);
    auto p = some_cubic(q, r);
    auto z = mara::cubic_roots(p.c3, p.c2, p.c1, p.c0);
#ifndef VC_NATIVE
    vc_lemma("q is negative", q < 0);
    double t = std::acos(r / std::sqrt(-q * q * q)) / 3, g = vc_bind("g", std::sqrt(-q)), w = vc_bind("w", std::cos(t)), v = vc_bind("v", std::sin(t)), h = vc_bind("h", std::sqrt(3));
    vc_assume(w >= 0.5);                // 0 <= t <= pi / 3 (assumed of the math library)
    vc_lemma("positive", g > 0);
    vc_lemma("three", h * h == 3 && h > 0);
    vc_lemma("sine", v * v <= 3 * w * w);
    vc_lemma("sine below", h * v <= 3 * w);
    vc_lemma("sine above", -h * v <= 3 * w);
    vc_lemma("difference 2", g * (3 * w + h * v) >= 0);
    vc_lemma("difference 3", g * (3 * w - h * v) >= 0);
    vc_lemma_eq("2 below 1", z.x1 - z.x2, g * (3 * w + h * v));
    vc_lemma_eq("3 below 1", z.x1 - z.x3, g * (3 * w - h * v));
#endif
    vc_assert("the first root is the largest", z.x2 <= z.x1 && z.x3 <= z.x1);
}
VC_PROOF(cubic_with_a_double_root)
{
    double s = real("s", 1);
    auto p = some_cubic(-s * s, s * s * s);
    double c = vc_bind("c", cube_root(s * s * s));
#ifndef VC_NATIVE
    same_cube(c, s);
#endif
    auto z = mara::cubic_roots(p.c3, p.c2, p.c1, p.c0);
#ifndef VC_NATIVE
    vc_assert("three roots", z.num_roots == 3);
    is_root("root 1", p, z.x1);
    is_root("root 2", p, z.x2);
    is_root("root 3", p, z.x3);
    vc_assert_eq("the double root", z.x2, z.x3);
#endif
}
namespace {
double U1;
// cubic_roots, used through its contract: here U1 is the largest root
mara::cubic_roots_t some_cubic_roots(double c3, double c2, double c1, double c0)
{
    vc_assert_eq("U1 is a root of the resolvent cubic", cubic(c3, c2, c1, c0, U1), 0.0);
    mara::cubic_roots_t z;
    // one real root, or the first is the largest, or the other two are (and are equal)
    long which = vc_choose("largest root", 0, 2);
    z.num_roots = which ? 3 : 1;
    z.x1 = which == 2 ? real("root 1") : U1;
    z.x2 = which == 2 ? U1 : real("root 2");
    z.x3 = which == 2 ? U1 : real("root 3");
    if (which == 1) { vc_assume(z.x2 <= U1); vc_assume(z.x3 <= U1); }
    if (which == 2) vc_assume(z.x1 < U1);
    return z;
}
double quartic(const double* a, double x) { return (((x + a[3]) * x + a[2]) * x + a[1]) * x + a[0]; }
// (x^2 + p x + s) (x^2 + q x + t); pair 1 belongs to the factor with q
void quartic_contract(double d4, double p, double s, double q, double t)
{
    double a[4] = {s * t, p * t + q * s, s + t + p * q, p + q};
    U1 = s + t;
#ifdef VC_NATIVE
    // the sampled factors have to be those of the largest root: u^2 + b u + c has no larger one
    double b = U1 - a[2], c = a[1] * a[3] - 4 * a[0] + b * U1, D = b * b - 4 * c;
    vc_assume(D < 0 || -b + std::sqrt(D) <= 2 * U1);
#endif
    bool real_1 = vc_concretize(q * q - 4 * t >= 0), real_2 = vc_concretize(p * p - 4 * s >= 0);
    vc_use_contract("cubic_roots_abstract");
    auto z = mara::quartic_roots(d4, d4 * a[3], d4 * a[2], d4 * a[1], d4 * a[0]);
    if (z.pair_1_is_real)
    {
        vc_assert_eq("root 1", quartic(a, z.x1), 0.0);
        vc_assert_eq("root 2", quartic(a, z.x2), 0.0);
        vc_assert_eq("sum of roots 1 and 2", z.x1 + z.x2, -q);
    }
    if (z.pair_2_is_real)
    {
        vc_assert_eq("root 3", quartic(a, z.x3), 0.0);
        vc_assert_eq("root 4", quartic(a, z.x4), 0.0);
        vc_assert_eq("sum of roots 3 and 4", z.x3 + z.x4, -p);
    }
    vc_assert("pair 1 is real if and only if the discriminant is not negative", z.pair_1_is_real == real_1);
    vc_assert("pair 2 is real if and only if the discriminant is not negative", z.pair_2_is_real == real_2);
}
}
VC_CONTRACT(cubic_roots_abstract, &mara::cubic_roots, &some_cubic_roots)
VC_PROOF(quartic_with_different_factors)
{
    double d4 = real("d4", 2), h = real("h", 1), R = pos("R", 0.1, 1), s = real("s", 1), t = real("t", 1);
    vc_assume(d4 != 0);
    vc_simplify_branches();
    vc_lemma("square", R * R > 0);
    quartic_contract(d4, h + R, s, h - R, t);
}
VC_PROOF(quartic_with_similar_factors)
{
    double d4 = real("d4", 2), h = real("h", 1), s = real("s", 1), t = real("t", 1);
    vc_assume(d4 != 0 && t <= s);
    vc_simplify_branches();
    quartic_contract(d4, h, s, h, t);
}
