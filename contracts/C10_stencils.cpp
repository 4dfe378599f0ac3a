// Stencil operators (core_ndarray_ops.hpp) along either axis of any array
#include "nd.hpp"
using namespace spec;
using nd_t = decltype(array2("", 0, 0));
namespace {
struct ax
{
    std::size_t n, m, axis; nd_t A;
    ax(long min) : n(extent("n", 1)), m(extent("m", 1)), axis(vc_choose("axis", 0, 1)), A(array2("A", n, m)) { vc_assume(A.shape(axis) >= std::size_t(min)); }
    std::size_t len() const { return A.shape(axis); }
    // element at offset k along the axis, position p across
    double at(std::size_t k, std::size_t p) const { return axis == 0 ? A(k, p) : A(p, k); }
};
template<typename B> bool shaped(const ax& a, const B& b, std::size_t length) { return b.shape(a.axis) == length && b.shape(1 - a.axis) == a.A.shape(1 - a.axis); }
template<typename B> double get(const ax& a, const B& b, std::size_t k, std::size_t p) { return a.axis == 0 ? b(k, p) : b(p, k); }
}
VC_PROOF(first_and_final)
{
    ax a(1);
    auto c = extent("c", 1);
    vc_assume(c <= a.len());
    auto F = a.A | nd::select_first(c, a.axis); auto L = a.A | nd::select_final(c, a.axis);
    vc_assert("shapes", shaped(a, F, c) && shaped(a, L, c));
    auto k = below("k", c); auto p = below("p", a.A.shape(1 - a.axis));
    vc_assert_eq("first", get(a, F, k, p), a.at(k, p));
    vc_assert_eq("final", get(a, L, k, p), a.at(a.len() - c + k, p));
    auto f = a.A | nd::take_first_on_axis(a.axis); auto l = a.A | nd::take_final_on_axis(a.axis);
    vc_assert("take shapes", shaped(a, f, 1) && shaped(a, l, 1));
    vc_assert_eq("take first", get(a, f, 0, p), a.at(0, p));
    vc_assert_eq("take final", get(a, l, 0, p), a.at(a.len() - 1, p));
}
VC_PROOF(adjacent)
{
    ax a(2);
    auto D0 = a.A | nd::drop_first_on_axis(a.axis); auto D1 = a.A | nd::drop_final_on_axis(a.axis);
    auto M = a.A | nd::midpoint_on_axis(a.axis); auto D = a.A | nd::difference_on_axis(a.axis); auto Z = a.A | nd::zip_adjacent2_on_axis(a.axis);
    auto len = a.len() - 1;
    vc_assert("shapes", shaped(a, D0, len) && shaped(a, D1, len) && shaped(a, M, len) && shaped(a, D, len) && shaped(a, Z, len));
    auto k = below("k", len); auto p = below("p", a.A.shape(1 - a.axis));
    auto l = a.at(k, p), r = a.at(k + 1, p);
    vc_assert_eq("drop first", get(a, D0, k, p), r);
    vc_assert_eq("drop final", get(a, D1, k, p), l);
    vc_assert_eq("midpoint", get(a, M, k, p), (l + r) / 2);
    vc_assert_eq("difference", get(a, D, k, p), r - l);
    auto z = a.axis == 0 ? Z(k, p) : Z(p, k);
    vc_assert_eq("left", std::get<0>(z), l);
    vc_assert_eq("right", std::get<1>(z), r);
}
VC_PROOF(adjacent_triples)
{
    ax a(3);
    auto Z = a.A | nd::zip_adjacent3_on_axis(a.axis);
    auto len = a.len() - 2;
    vc_assert("shape", shaped(a, Z, len));
    auto k = below("k", len); auto p = below("p", a.A.shape(1 - a.axis));
    auto z = a.axis == 0 ? Z(k, p) : Z(p, k);
    vc_assert_eq("left", std::get<0>(z), a.at(k, p));
    vc_assert_eq("middle", std::get<1>(z), a.at(k + 1, p));
    vc_assert_eq("right", std::get<2>(z), a.at(k + 2, p));
}
VC_PROOF(periodic)
{
    ax a(1);
    auto g = extent("g", 1);
    auto len = a.len();
    vc_assume(g <= len);
    auto E = a.A | nd::extend_periodic_on_axis(a.axis, g);
    vc_assert("shape", shaped(a, E, len + 2 * g));
    auto k = below("k", len + 2 * g); auto p = below("p", a.A.shape(1 - a.axis));
    auto e = get(a, E, k, p);
    if (k < g)            vc_assert_eq("lower guard is the far end", e, a.at(len - g + k, p));
    else if (k < len + g) vc_assert_eq("interior", e, a.at(k - g, p));
    else                  vc_assert_eq("upper guard is the near end", e, a.at(k - g - len, p));
}
VC_PROOF(zero_gradient_and_zeros)
{
    ax a(1);
    auto len = a.len();
    auto E = a.A | nd::extend_zero_gradient(a.axis); auto Z = a.A | nd::extend_zeros(a.axis);
    vc_assert("shape", shaped(a, E, len + 2) && shaped(a, Z, len + 2));
    auto k = below("k", len + 2); auto p = below("p", a.A.shape(1 - a.axis));
    auto e = get(a, E, k, p), z = get(a, Z, k, p);
    if (k == 0)        { vc_assert_eq("lower guard", e, a.at(0, p));        vc_assert_eq("lower zero", z, 0); }
    else if (k <= len) { vc_assert_eq("interior", e, a.at(k - 1, p));       vc_assert_eq("interior", z, a.at(k - 1, p)); }
    else               { vc_assert_eq("upper guard", e, a.at(len - 1, p));  vc_assert_eq("upper zero", z, 0); }
}
