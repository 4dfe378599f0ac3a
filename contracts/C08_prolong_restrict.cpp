// Prolongation and restriction between mesh levels, for blocks of any size
#include "nd.hpp"
#include "mesh_prolong_restrict.hpp"
using namespace spec;
using namespace mara;
namespace {
using nd_t = decltype(array2("", 0, 0));
struct ax
{
    std::size_t n, m, axis; nd_t A;
    ax(long min) : n(extent("n", 1)), m(extent("m", 1)), axis(vc_choose("axis", 0, 1)), A(array2("A", n, m)) { vc_assume(A.shape(axis) >= std::size_t(min)); }
    std::size_t len() const { return A.shape(axis); }
    std::size_t other() const { return A.shape(1 - axis); }
    double at(std::size_t k, std::size_t p) const { return axis == 0 ? A(k, p) : A(p, k); }
};
template<typename B> bool shaped(const ax& a, const B& b, std::size_t length) { return b.shape(a.axis) == length && b.shape(1 - a.axis) == a.other(); }
template<typename B> double get(const ax& a, const B& b, std::size_t k, std::size_t p) { return a.axis == 0 ? b(k, p) : b(p, k); }
}
VC_PROOF(restriction_of_cells)
{
    ax a(2); vc_assume(a.len() % 2 == 0);
    auto I = a.A | restrict_cells(a.axis); auto E = a.A | restrict_extrinsic(a.axis);
    vc_assert("shapes", shaped(a, I, a.len() / 2) && shaped(a, E, a.len() / 2));
    auto k = below("k", a.len() / 2); auto p = below("p", a.other());
    vc_assert_eq("cell average", get(a, I, k, p), (a.at(2 * k, p) + a.at(2 * k + 1, p)) / 2);
    vc_assert_eq("extensive quantities add up", get(a, E, k, p), a.at(2 * k, p) + a.at(2 * k + 1, p));
}
VC_PROOF(restriction_of_vertices)
{
    ax a(1);
    auto V = a.A | restrict_verts(a.axis);
    vc_assert("shape", shaped(a, V, (a.len() + 1) / 2));
    auto k = below("k", (a.len() + 1) / 2); auto p = below("p", a.other());
    vc_assert_eq("every other vertex", get(a, V, k, p), a.at(2 * k, p));
}
VC_PROOF(prolongation)
{
    ax a(1);
    auto C = a.A | prolong_cells(a.axis); auto V = a.A | prolong_verts(a.axis);
    vc_assert("shapes", shaped(a, C, 2 * a.len()) && shaped(a, V, 2 * a.len() - 1));
    auto k = below("k", a.len()); auto p = below("p", a.other());
    vc_assert_eq("both halves carry the parent value (1)", get(a, C, 2 * k, p), a.at(k, p));
    vc_assert_eq("both halves carry the parent value (2)", get(a, C, 2 * k + 1, p), a.at(k, p));
    vc_assert_eq("vertices kept", get(a, V, 2 * k, p), a.at(k, p));
    if (k + 1 < a.len()) vc_assert_eq("vertices inserted half way", get(a, V, 2 * k + 1, p), (a.at(k, p) + a.at(k + 1, p)) / 2);
}
VC_PROOF(restriction_undoes_prolongation)
{
    ax a(1);
    auto C = a.A | prolong_cells(a.axis) | restrict_cells(a.axis);
    auto V = a.A | prolong_verts(a.axis) | restrict_verts(a.axis);
    vc_assert("shapes", shaped(a, C, a.len()) && shaped(a, V, a.len()));
    auto k = below("k", a.len()); auto p = below("p", a.other());
    vc_assert_eq("cells", get(a, C, k, p), a.at(k, p));
    vc_assert_eq("vertices", get(a, V, k, p), a.at(k, p));
}
VC_PROOF(bisection_of_cells)
{
    ax a(1);
    bool threw = false;
    try { a.A | bisect_cells(a.axis); } catch (const std::invalid_argument&) { threw = true; }
    vc_assert("throws iff the number of cells is odd", threw == (a.len() % 2 == 1));
    if (threw) return;
    auto L = a.A | bisect_cells_lower(a.axis); auto U = a.A | bisect_cells_upper(a.axis);
    auto h = a.len() / 2;
    vc_assert("shapes", shaped(a, L, h) && shaped(a, U, h));
    auto k = below("k", h); auto p = below("p", a.other());
    vc_assert_eq("lower half", get(a, L, k, p), a.at(k, p));
    vc_assert_eq("upper half", get(a, U, k, p), a.at(h + k, p));
}
VC_PROOF(bisection_of_vertices)
{
    ax a(3);
    bool threw = false;
    try { a.A | bisect_verts(a.axis); } catch (const std::invalid_argument&) { threw = true; }
    vc_assert("throws iff the number of vertices is even", threw == (a.len() % 2 == 0));
    if (threw) return;
    auto L = a.A | bisect_verts_lower(a.axis); auto U = a.A | bisect_verts_upper(a.axis);
    auto h = a.len() / 2;
    vc_assert("shapes", shaped(a, L, h + 1) && shaped(a, U, h + 1));
    auto k = below("k", h + 1); auto p = below("p", a.other());
    vc_assert_eq("lower half", get(a, L, k, p), a.at(k, p));
    vc_assert_eq("upper half", get(a, U, k, p), a.at(h + k, p));
    vc_assert_eq("halves share the middle vertex", get(a, L, h, p), get(a, U, 0, p));
}
VC_PROOF(coarse_indexes)
{
    auto i = extent("i"), j = extent("j"); auto axis = std::size_t(vc_choose("axis", 0, 1));
    auto x = nd::make_index(i, j);
    auto lo = coarsen_index_lower(x, axis), up = coarsen_index_upper(x, axis), c = coarsen_index_cells(x, axis);
    auto v = axis == 0 ? i : j;
    vc_assert("other axis untouched", lo[1 - axis] == x[1 - axis] && up[1 - axis] == x[1 - axis] && c[1 - axis] == x[1 - axis]);
    vc_assert("neighbouring coarse vertices", lo[axis] == v / 2 && up[axis] == (v + 1) / 2);
    vc_assert("parent cell", c[axis] == v / 2);
}

// the 2^Rank blocks of the next level
VC_PROOF(refine_cells_1)
{
    auto n = extent("n", 1); auto A = array1("A", n);
    auto F = A | refine_cells<1>();
    auto b = std::size_t(vc_choose("block", 0, 1)); auto i = below("i", n);
    vc_assert("shape", F[b].shape(0) == n);
    vc_assert_eq("value", F[b](i), A((b * n + i) / 2));
}
VC_PROOF(refine_cells_2)
{
    auto n = extent("n", 1), m = extent("m", 1); auto A = array2("A", n, m);
    auto F = A | refine_cells<2>();
    auto b = std::size_t(vc_choose("block", 0, 3)); auto i = below("i", n), j = below("j", m);
    vc_assert("shape", F[b].shape(0) == n && F[b].shape(1) == m);
    vc_assert_eq("value", F[b](i, j), A(((b & 1) * n + i) / 2, ((b >> 1) * m + j) / 2));
}
VC_PROOF(refine_cells_3)
{
    auto n = extent("n", 1), m = extent("m", 1), l = extent("l", 1); auto A = array3("A", n, m, l);
    auto F = A | refine_cells<3>();
    auto b = std::size_t(vc_choose("block", 0, 7)); auto i = below("i", n), j = below("j", m), k = below("k", l);
    vc_assert("shape", F[b].shape(0) == n && F[b].shape(1) == m && F[b].shape(2) == l);
    vc_assert_eq("value", F[b](i, j, k), A(((b & 1) * n + i) / 2, (((b >> 1) & 1) * m + j) / 2, ((b >> 2) * l + k) / 2));
}
VC_PROOF(refine_verts_1)
{
    auto n = extent("n", 2); auto A = array1("A", n);
    auto F = A | refine_verts<1>();
    auto b = std::size_t(vc_choose("block", 0, 1)); auto i = below("i", n);
    vc_assert("shape", F[b].shape(0) == n);
    auto I = b * (n - 1) + i;
    vc_assert_eq("value", F[b](i), (A(I / 2) + A((I + 1) / 2)) / 2);
}
VC_PROOF(refine_verts_2)
{
    auto n = extent("n", 2), m = extent("m", 2); auto A = array2("A", n, m);
    auto F = A | refine_verts<2>();
    auto b = std::size_t(vc_choose("block", 0, 3)); auto i = below("i", n), j = below("j", m);
    vc_assert("shape", F[b].shape(0) == n && F[b].shape(1) == m);
    auto I = (b & 1) * (n - 1) + i, J = (b >> 1) * (m - 1) + j;
    vc_assert_eq("value", F[b](i, j), (A(I / 2, J / 2) + A((I + 1) / 2, J / 2) + A(I / 2, (J + 1) / 2) + A((I + 1) / 2, (J + 1) / 2)) / 4);
}
VC_PROOF(refine_verts_3)
{
    auto n = extent("n", 2), m = extent("m", 2), l = extent("l", 2); auto A = array3("A", n, m, l);
    auto F = A | refine_verts<3>();
    auto b = std::size_t(vc_choose("block", 0, 7)); auto i = below("i", n), j = below("j", m), k = below("k", l);
    vc_assert("shape", F[b].shape(0) == n && F[b].shape(1) == m && F[b].shape(2) == l);
    auto I = (b & 1) * (n - 1) + i, J = ((b >> 1) & 1) * (m - 1) + j, K = (b >> 2) * (l - 1) + k;
    double s = 0;
    for (int c = 0; c < 8; ++c) s += A((I + (c & 1)) / 2, (J + ((c >> 1) & 1)) / 2, (K + (c >> 2)) / 2);
    vc_assert_eq("value", F[b](i, j, k), s / 8);
}
VC_PROOF(combine)
{
    auto n = extent("n", 1), m = extent("m", 1);
    auto A = mara::make_sequence(array2("A", n, m), array2("B", n, m), array2("C", n, m), array2("D", n, m));
    auto W = combine_cells(A);
    vc_assert("shape", W.shape(0) == 2 * n && W.shape(1) == 2 * m);
    auto b = std::size_t(vc_choose("block", 0, 3)); auto i = below("i", n), j = below("j", m);
    vc_assert_eq("each block in its orthant", W((b & 1) * n + i, (b >> 1) * m + j), A[b](i, j));
    auto X = mara::make_sequence(array1("A", n), array1("B", n));
    auto Y = combine_cells(X);
    vc_assert("shape 1", Y.shape(0) == 2 * n);
    vc_assert_eq("each block in its half", Y((b & 1) * n + i), X[b & 1](i));
}
VC_PROOF(combine_3)
{
    auto n = extent("n", 1), m = extent("m", 1), l = extent("l", 1);
    auto A = mara::make_sequence(array3("A", n, m, l), array3("B", n, m, l), array3("C", n, m, l), array3("D", n, m, l),
                                 array3("E", n, m, l), array3("F", n, m, l), array3("G", n, m, l), array3("H", n, m, l));
    auto W = combine_cells(A);
    vc_assert("shape", W.shape(0) == 2 * n && W.shape(1) == 2 * m && W.shape(2) == 2 * l);
    auto b = std::size_t(vc_choose("block", 0, 7)); auto i = below("i", n), j = below("j", m), k = below("k", l);
    vc_assert_eq("each block in its orthant", W((b & 1) * n + i, ((b >> 1) & 1) * m + j, (b >> 2) * l + k), A[b](i, j, k));
}
VC_PROOF(combine_vertices)
{
    auto n = extent("n", 2), m = extent("m", 2);
    auto A = mara::make_sequence(array2("A", n, m), array2("B", n, m), array2("C", n, m), array2("D", n, m));
    auto W = combine_verts(A);
    vc_assert("shape", W.shape(0) == 2 * n - 1 && W.shape(1) == 2 * m - 1);
    auto b = std::size_t(vc_choose("block", 0, 3)); auto i = below("i", n), j = below("j", m);
    vc_assume((b & 1) || i + 1 < n); vc_assume((b >> 1) || j + 1 < m);       // the shared vertices are those of the upper block
    vc_assert_eq("each block in its orthant", W((b & 1) * (n - 1) + i, (b >> 1) * (m - 1) + j), A[b](i, j));
    auto X = mara::make_sequence(array1("A", n), array1("B", n));
    auto Y = combine_verts(X);
    vc_assert("shape 1", Y.shape(0) == 2 * n - 1);
    vc_assert_eq("each block in its half", Y((b & 1) * (n - 1) + i), X[b & 1](i));
}
// refine into blocks, put the blocks together, coarsen: the identity
VC_PROOF(round_trip_cells)
{
    auto n = extent("n", 1), m = extent("m", 1); auto A = array2("A", n, m);
    auto B = combine_cells((A | refine_cells<2>())) | coarsen_cells<2>();
    vc_assert("shape", B.shape(0) == n && B.shape(1) == m);
    auto i = below("i", n), j = below("j", m);
    vc_assert_eq("value", B(i, j), A(i, j));
}
VC_PROOF(round_trip_vertices)
{
    auto n = extent("n", 2), m = extent("m", 2); auto A = array2("A", n, m);
    auto B = combine_verts((A | refine_verts<2>())) | coarsen_verts<2>();
    vc_assert("shape", B.shape(0) == n && B.shape(1) == m);
    auto i = below("i", n), j = below("j", m);
    vc_assert_eq("value", B(i, j), A(i, j));
}
// coarsening conserves the total of each group of cells
VC_PROOF(coarsening)
{
    auto n = extent("n", 1, BIG / 2), m = extent("m", 1, BIG / 2); auto A = array2("A", 2 * n, 2 * m);
    auto C = A | coarsen_cells<2>(); auto E = A | restrict_extrinsic(0) | restrict_extrinsic(1);
    auto V = A | coarsen_verts<2>();
    vc_assert("shapes", C.shape(0) == n && C.shape(1) == m && E.shape(0) == n && E.shape(1) == m && V.shape(0) == n && V.shape(1) == m);
    auto i = below("i", n), j = below("j", m);
    auto s = A(2 * i, 2 * j) + A(2 * i + 1, 2 * j) + A(2 * i, 2 * j + 1) + A(2 * i + 1, 2 * j + 1);
    vc_assert_eq("average of the four", C(i, j), s / 4);
    vc_assert_eq("total of the four", E(i, j), s);
    vc_assert_eq("vertex", V(i, j), A(2 * i, 2 * j));
    auto B = array1("B", 2 * n);
    vc_assert_eq("average of the two", (B | coarsen_cells<1>())(i), (B(2 * i) + B(2 * i + 1)) / 2);
    vc_assert_eq("vertex 1", (B | coarsen_verts<1>())(i), B(2 * i));
}
VC_PROOF(coarsening_3)
{
    auto n = extent("n", 1, BIG / 2), m = extent("m", 1, BIG / 2), l = extent("l", 1, BIG / 2); auto A = array3("A", 2 * n, 2 * m, 2 * l);
    auto C = A | coarsen_cells<3>(); auto V = A | coarsen_verts<3>();
    vc_assert("shapes", C.shape(0) == n && C.shape(1) == m && C.shape(2) == l && V.shape(0) == n && V.shape(1) == m && V.shape(2) == l);
    auto i = below("i", n), j = below("j", m), k = below("k", l);
    double s = 0;
    for (int c = 0; c < 8; ++c) s += A(2 * i + (c & 1), 2 * j + ((c >> 1) & 1), 2 * k + (c >> 2));
    vc_assert_eq("average of the eight", C(i, j, k), s / 8);
    vc_assert_eq("vertex", V(i, j, k), A(2 * i, 2 * j, 2 * k));
}
