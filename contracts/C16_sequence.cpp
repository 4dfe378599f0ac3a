// Fixed-length sequences: elementwise arithmetic, reductions, rearrangements
#include "common.hpp"
#include "core_sequence.hpp"
using namespace spec;
namespace {
constexpr std::size_t N = 3;
using seq = mara::arithmetic_sequence_t<double, N>;
const char* A[4] = {"a0", "a1", "a2", "a3"};
const char* B[4] = {"b0", "b1", "b2", "b3"};
template<std::size_t R = N> auto some(const char** n) { mara::arithmetic_sequence_t<double, R> s; for (std::size_t i = 0; i < R; ++i) s[i] = real(n[i]); return s; }
template<std::size_t R = N> auto flags(const char** n) { mara::arithmetic_sequence_t<bool, R> s; for (std::size_t i = 0; i < R; ++i) s[i] = vc_bool(n[i]); return s; }
struct derived : mara::derivable_sequence_t<double, N, derived> {};
}
VC_PROOF(sequence_arithmetic)
{
    auto a = some(A), b = some(B);
    double c = real("c");
    vc_assume(b[0] != 0 && b[1] != 0 && b[2] != 0 && c != 0);
    auto add = a + b, sub = a - b, mul = a * b, div = a / b, adds = a + c, subs = a - c, muls = a * c, divs = a / c, neg = -a, pos = +a;
    for (std::size_t i = 0; i < N; ++i)
    {
        vc_assert_eq("+", add[i], a[i] + b[i]);
        vc_assert_eq("-", sub[i], a[i] - b[i]);
        vc_assert_eq("*", mul[i], a[i] * b[i]);
        vc_assert_eq("/", div[i], a[i] / b[i]);
        vc_assert_eq("+ scalar", adds[i], a[i] + c);
        vc_assert_eq("- scalar", subs[i], a[i] - c);
        vc_assert_eq("* scalar", muls[i], a[i] * c);
        vc_assert_eq("/ scalar", divs[i], a[i] / c);
        vc_assert_eq("unary -", neg[i], -a[i]);
        vc_assert_eq("unary +", pos[i], a[i]);
    }
    auto eq = a == b, ne = a != b, le = a <= b, ge = a >= b, lt = a < b, gt = a > b;
    auto eqs = a == c, nes = a != c, les = a <= c, ges = a >= c, lts = a < c, gts = a > c;
    for (std::size_t i = 0; i < N; ++i)
    {
        vc_assert("==", eq[i] == (a[i] == b[i]));
        vc_assert("!=", ne[i] == (a[i] != b[i]));
        vc_assert("<=", le[i] == (a[i] <= b[i]));
        vc_assert(">=", ge[i] == (a[i] >= b[i]));
        vc_assert("<", lt[i] == (a[i] < b[i]));
        vc_assert(">", gt[i] == (a[i] > b[i]));
        vc_assert("== scalar", eqs[i] == (a[i] == c));
        vc_assert("!= scalar", nes[i] == (a[i] != c));
        vc_assert("<= scalar", les[i] == (a[i] <= c));
        vc_assert(">= scalar", ges[i] == (a[i] >= c));
        vc_assert("< scalar", lts[i] == (a[i] < c));
        vc_assert("> scalar", gts[i] == (a[i] > c));
    }
}
VC_PROOF(sequence_logic)
{
    auto p = flags(A), q = flags(B);
    bool r = vc_bool("r");
    auto both = p && q, either = p || q;
    auto boths = p && r, eithers = p || r;
    for (std::size_t i = 0; i < N; ++i)
    {
        vc_assert("&&", both[i] == (p[i] && q[i]));
        vc_assert("||", either[i] == (p[i] || q[i]));
        vc_assert("&& scalar", boths[i] == (p[i] && r));
        vc_assert("|| scalar", eithers[i] == (p[i] || r));
    }
    vc_assert("all", p.all() == (p[0] && p[1] && p[2]));
    vc_assert("any", p.any() == (p[0] || p[1] || p[2]));
}
VC_PROOF(sequence_reductions)
{
    auto a = some(A);
    vc_assert_eq("sum", a.sum(), a[0] + a[1] + a[2]);
    auto lo = a.min(), hi = a.max();
    vc_assert("min is an element", lo == a[0] || lo == a[1] || lo == a[2]);
    vc_assert("max is an element", hi == a[0] || hi == a[1] || hi == a[2]);
    for (std::size_t i = 0; i < N; ++i) vc_assert("between min and max", lo <= a[i] && a[i] <= hi);
    auto one = mara::make_sequence(real("x"));
    vc_assert("of one element", one.sum() == one[0] && one.min() == one[0] && one.max() == one[0]);
}
VC_PROOF(sequence_functions)
{
    auto a = some(A), b = some(B);
    auto v = real("v");
    std::size_t j = vc_int("j", 0, 5);
    auto f = [] (double x) { return vc_ufr("f", 1, x); };
    auto m = a.map(f), u = a.update(j, f), s = a.set(j, v);
    auto fs = mara::iota<N>().map([] (std::size_t n) { return [n] (double x) { return vc_ufr("g", 2, double(n), x); }; });
    auto ap = fs.apply_to(a);
    auto io = mara::iota<N>();
    for (std::size_t i = 0; i < N; ++i)
    {
        vc_assert_eq("map", m[i], vc_ufr("f", 1, a[i]));
        vc_assert_eq("update", u[i], i == j ? vc_ufr("f", 1, a[i]) : a[i]);
        vc_assert_eq("set", s[i], i == j ? v : a[i]);
        vc_assert_eq("apply_to", ap[i], vc_ufr("g", 2, double(i), a[i]));
        vc_assert("iota", io[i] == i);
    }
}
VC_PROOF(sequence_rearrangement)
{
    auto a = some(A);
    auto b = some<2>(B);
    auto v = real("v");
    auto r = a.reverse();
    auto h = a.init(), t = a.tail();
    auto c = a.concat(b);
    auto ap = a.append(v), pr = a.prepend(v);
    vc_assert_eq("head", a.head(), a[0]);
    vc_assert_eq("last", a.last(), a[2]);
    vc_assert("sizes", c.size() == 5 && h.size() == 2 && t.size() == 2 && ap.size() == 4 && pr.size() == 4 && r.size() == 3);
    for (std::size_t i = 0; i < 3; ++i)
    {
        vc_assert_eq("reverse", r[i], a[2 - i]);
        vc_assert_eq("append", ap[i], a[i]);
        vc_assert_eq("prepend", pr[i + 1], a[i]);
        vc_assert_eq("concat", c[i], a[i]);
    }
    for (std::size_t i = 0; i < 2; ++i)
    {
        vc_assert_eq("init", h[i], a[i]);
        vc_assert_eq("tail", t[i], a[i + 1]);
        vc_assert_eq("concatenated", c[3 + i], b[i]);
    }
    vc_assert_eq("appended", ap[3], v);
    vc_assert_eq("prepended", pr[0], v);
    auto T = mara::make_sequence(a, a * 2.0).transpose();
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 2; ++j) vc_assert_eq("transpose", T[i][j], j == 0 ? a[i] : a[i] * 2.0);
    auto U = mara::make_sequence(a, a * 2.0, a * 3.0, a * 5.0).transpose();
    const double factor[4] = {1, 2, 3, 5};
    vc_assert("size of transpose", U.size() == 3 && U[0].size() == 4);
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 4; ++j) vc_assert_eq("transpose of more rows", U[i][j], a[i] * factor[j]);
}
VC_PROOF(sequence_access)
{
    auto a = some(A);
    const auto& ca = a;
    std::size_t j = vc_int("j", 0, 100);
    auto v = real("v");
    bool refused = false;
    try { auto x = ca.at(j); vc_assert("value", j < N); vc_assert_eq("at", x, a[vc_concretize(j)]); } catch (const std::out_of_range&) { refused = true; }
    vc_assert("out of range is refused", refused == (j >= N));
    refused = false;
    auto b = a;
    try { b.at(j) = v; } catch (const std::out_of_range&) { refused = true; }
    vc_assert("assignment out of range is refused", refused == (j >= N));
    for (std::size_t i = 0; i < N; ++i) vc_assert_eq("assigned", b[i], i == j ? v : a[i]);
    std::size_t n = 0;
    for (auto x : ca) vc_assert_eq("iteration", x, a[n++]);
    vc_assert("number of elements", n == N);
}
VC_PROOF(derived_sequence)
{
    derived a{{some(A)}}, b{{some(B)}};
    double c = real("c");
    vc_assume(c != 0);
    auto add = a + b, sub = a - b, mul = a * c, div = a / c, neg = -a, pos = +a;
    for (std::size_t i = 0; i < N; ++i)
    {
        vc_assert_eq("+", add[i], a[i] + b[i]);
        vc_assert_eq("-", sub[i], a[i] - b[i]);
        vc_assert_eq("* scalar", mul[i], a[i] * c);
        vc_assert_eq("/ scalar", div[i], a[i] / c);
        vc_assert_eq("unary -", neg[i], -a[i]);
        vc_assert_eq("unary +", pos[i], a[i]);
    }
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    vc_assert("==", a.operator==(b) == same);
    vc_assert("!=", a.operator!=(b) == ! same);
}
