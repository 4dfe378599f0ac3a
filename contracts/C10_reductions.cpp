// Reductions and evaluation into memory.  These loop over every element; they
// are decided for all contents of arrays of concrete small sizes (bounded).
#include "nd.hpp"
using namespace spec;

VC_PROOF(bounded_sum_min_max)
{
    auto n = std::size_t(vc_choose("n", 0, 3)), m = std::size_t(vc_choose("m", 1, 2));
    auto A = array2("A", n, m);
    double s = 0, lo = 0, hi = 0; bool first = true;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
    {
        auto a = A(i, j);
        s = s + a;
        if (first || a < lo) lo = a;
        if (first || a > hi) hi = a;
        first = false;
    }
    vc_assert_eq("sum", A | nd::sum(), s);
    vc_assert_eq("min", A | nd::min(), lo);
    vc_assert_eq("max", A | nd::max(), hi);
}
VC_PROOF(bounded_all_any_where)
{
    auto n = std::size_t(vc_choose("n", 0, 2)), m = std::size_t(vc_choose("m", 1, 2));
    auto A = array2("A", n, m) | nd::map([] (double x) { return x > 0; });
    bool all = true, any = false; long count = 0;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
    {
        auto a = A(i, j);
        all = all && a; any = any || a; count += a ? 1 : 0;
    }
    vc_assert("all", (A | nd::all()) == all);
    vc_assert("any", (A | nd::any()) == any);
    vc_assert("count", long(A | nd::sum()) == count);
    auto W = nd::where(A);
    vc_assert("as many indexes", long(W.size()) == count);
    std::size_t k = 0;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
        if (A(i, j))
        {
            vc_assert("in row-major order", k < W.size() && W(k) == nd::make_index(i, j));
            ++k;
        }
}
VC_PROOF(bounded_evaluation)
{
    auto n = std::size_t(vc_choose("n", 0, 3)), m = std::size_t(vc_choose("m", 0, 2));
    auto A = array2("A", n, m);
    auto S = A | nd::to_shared(); auto U = A | nd::to_unique(); auto T = A.shared();
    vc_assert("shapes", S.shape() == A.shape() && U.shape() == A.shape() && T.shape() == A.shape());
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
    {
        vc_assert_eq("shared", S(i, j), A(i, j));
        vc_assert_eq("unique", U(i, j), A(i, j));
        vc_assert_eq("shared", T(i, j), A(i, j));
    }
    auto c = S; auto d = S;
    vc_assert("shared copies alias", c.data() == d.data());
}
VC_PROOF(bounded_evaluation_rank_3)
{
    auto l = std::size_t(vc_choose("l", 1, 2)), n = std::size_t(vc_choose("n", 1, 2)), m = std::size_t(vc_choose("m", 1, 2));
    auto A = array3("A", l, n, m);
    auto S = A | nd::to_shared();
    auto R = S | nd::reshape(l * n * m);
    for (std::size_t h = 0; h < l; ++h) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
    {
        vc_assert_eq("value", S(h, i, j), A(h, i, j));
        vc_assert_eq("reshape keeps row-major order", R((h * n + i) * m + j), A(h, i, j));
    }
    bool t = false;
    auto k = std::size_t(vc_choose("k", 0, 9));
    try { S | nd::reshape(k); } catch (const std::exception&) { t = true; }
    vc_assert("reshape throws iff the size differs", t == (k != l * n * m));
}
VC_PROOF(bounded_unique_assignment)
{
    auto n = std::size_t(vc_choose("n", 1, 3)), m = std::size_t(vc_choose("m", 1, 2));
    auto i = std::size_t(vc_choose("i", 0, 2)), j = std::size_t(vc_choose("j", 0, 1));
    vc_assume(i < n && j < m);
    auto A = array2("A", n, m);
    auto U = A | nd::to_unique();
    auto x = real("x");
    U(i, j) = x;
    auto S = std::move(U).shared();
    for (std::size_t p = 0; p < n; ++p) for (std::size_t q = 0; q < m; ++q)
        vc_assert_eq("only that element changes", S(p, q), p == i && q == j ? x : A(p, q));
}
VC_PROOF(bounded_make_array_from)
{
    auto n = std::size_t(vc_choose("n", 0, 3));
    nd::buffer_t<double> b(n);
    for (std::size_t i = 0; i < n; ++i) b[i] = vc_uf("b", 1, long(i));
    auto A = nd::make_array_from(b);
    vc_assert("length", A.size() == n);
    for (std::size_t i = 0; i < n; ++i) vc_assert_eq("value", A(i), vc_uf("b", 1, long(i)));
    std::size_t k = 0;
    for (auto x : A) { vc_assert_eq("iteration", x, vc_uf("b", 1, long(k))); ++k; }
    vc_assert("iteration count", k == n);
}
