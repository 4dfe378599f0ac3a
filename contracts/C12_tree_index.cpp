// Algebra of tree indexes.  Levels 0 to 30 are all the levels the
// implementation can represent (1 << level is an int), so the case split on the
// level is complete; coordinates are arbitrary.
#include "common.hpp"
#include "core_tree.hpp"
using namespace spec;
namespace {
constexpr long MAX_LEVEL = 30;
template<std::size_t R> mara::tree_index_t<R> any_index(std::size_t level, const char* names[3])
{
    mara::tree_index_t<R> i;
    i.level = level;
    for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = std::size_t(vc_int(names[a], 0, 1L << 40));
    return i;
}
const char* IJK[3] = {"i", "j", "k"};
template<std::size_t R> mara::tree_index_t<R> valid_index(std::size_t level)
{
    auto i = any_index<R>(level, IJK);
    for (std::size_t a = 0; a < R; ++a) vc_assume(i.coordinates[a] < (1ul << level));
    return i;
}
template<std::size_t R> void family(std::size_t level)
{
    auto i = valid_index<R>(level);
    auto c = i.child_indexes();
    for (std::size_t n = 0; n < (1 << R); ++n)
    {
        vc_assert("child level", c[n].level == level + 1);
        vc_assert("parent of child", c[n].parent_index() == i);
        auto rel = c[n].relative_to_parent();
        vc_assert("relative level", rel.level == 1);
        std::size_t k = 0;
        for (std::size_t a = 0; a < R; ++a)
        {
            vc_assert("child is valid", c[n].coordinates[a] < (2ul << level));
            vc_assert("position in parent", rel.coordinates[a] == ((n >> a) & 1));
            vc_assert("geometry", c[n].coordinates[a] == 2 * i.coordinates[a] + ((n >> a) & 1));
            k += (rel.orthant()[a] ? 1ul : 0ul) << a;
        }
        vc_assert("orthant in parent", k == n && mara::to_integral(rel.orthant()) == n);
        for (std::size_t m = 0; m < n; ++m) vc_assert("children are distinct", c[n] != c[m] && ! (c[n] == c[m]));
    }
}
template<std::size_t R> void descent(std::size_t level)
{
    auto i = valid_index<R>(level);
    auto o = i.orthant(); auto d = i.advance_level();
    vc_assert("one level down", d.level == level - 1);
    for (std::size_t a = 0; a < R; ++a)
    {
        vc_assert("orthant bit", o[a] == (i.coordinates[a] >= (1ul << (level - 1))));
        vc_assert("same node", d.coordinates[a] + (o[a] ? (1ul << (level - 1)) : 0ul) == i.coordinates[a]);
        vc_assert("valid below", d.coordinates[a] < (1ul << (level - 1)));
    }
    // descending and taking the parent commute
    if (level > 1) vc_assert("parent commutes with descent", i.parent_index().advance_level() == d.parent_index() && i.parent_index().orthant()[0] == o[0]);
}
template<std::size_t R> void neighbours(std::size_t level)
{
    auto i = valid_index<R>(level);
    auto L = 1ul << level;
    for (std::size_t a = 0; a < R; ++a)
    {
        auto n = i.next_on(a), p = i.prev_on(a);
        auto x = i.coordinates[a];
        vc_assert("same level", n.level == level && p.level == level);
        vc_assert("next wraps", n.coordinates[a] == (x + 1 == L ? 0 : x + 1));
        vc_assert("prev wraps", p.coordinates[a] == (x == 0 ? L - 1 : x - 1));
        vc_assert("inverse", n.prev_on(a) == i && p.next_on(a) == i);
        for (std::size_t b = 0; b < R; ++b) if (b != a) vc_assert("other axes unchanged", n.coordinates[b] == i.coordinates[b] && p.coordinates[b] == i.coordinates[b]);
        vc_assert("valid", n.coordinates[a] < L && p.coordinates[a] < L);
    }
}
}
static std::size_t extent_level(const char* n) { return std::size_t(vc_int(n, 0, MAX_LEVEL)); }
VC_PROOF(valid)
{
    auto l = std::size_t(vc_choose("level", 0, MAX_LEVEL));
    auto i = any_index<3>(l, IJK); auto j = any_index<2>(l, IJK);
    bool e = true, f = true;
    for (std::size_t a = 0; a < 3; ++a) e = e && i.coordinates[a] < (1ul << l);
    for (std::size_t a = 0; a < 2; ++a) f = f && j.coordinates[a] < (1ul << l);
    vc_assert("valid iff in bounds on its level", i.valid() == e && j.valid() == f);
}
VC_PROOF(equality)
{
    const char* U[3] = {"u", "v", "w"};
    auto l = extent_level("l"), m = extent_level("m");
    auto i = any_index<3>(l, IJK), j = any_index<3>(m, U);
    bool e = l == m;
    for (std::size_t a = 0; a < 3; ++a) e = e && i.coordinates[a] == j.coordinates[a];
    vc_assert("equality", (i == j) == e);
    vc_assert("inequality", (i != j) == ! e);
    vc_assert("with_level", i.with_level(m).level == m && (i.with_level(m).coordinates == i.coordinates).all());
}
VC_PROOF(family_1) { family<1>(std::size_t(vc_choose("level", 0, MAX_LEVEL - 1))); }
VC_PROOF(family_2) { family<2>(std::size_t(vc_choose("level", 0, MAX_LEVEL - 1))); }
VC_PROOF(family_3) { family<3>(std::size_t(vc_choose("level", 0, MAX_LEVEL - 1))); }
VC_PROOF(descent_1) { descent<1>(std::size_t(vc_choose("level", 1, MAX_LEVEL))); }
VC_PROOF(descent_2) { descent<2>(std::size_t(vc_choose("level", 1, MAX_LEVEL))); }
VC_PROOF(descent_3) { descent<3>(std::size_t(vc_choose("level", 1, MAX_LEVEL))); }
VC_PROOF(neighbours_1) { neighbours<1>(std::size_t(vc_choose("level", 0, MAX_LEVEL))); }
VC_PROOF(neighbours_2) { neighbours<2>(std::size_t(vc_choose("level", 0, MAX_LEVEL))); }
VC_PROOF(neighbours_3) { neighbours<3>(std::size_t(vc_choose("level", 0, MAX_LEVEL))); }
VC_PROOF(bits)
{
    auto n = vc_int("n", 0, 15);
    auto b = mara::binary_repr<4>(std::size_t(n));
    vc_assert("round trip", mara::to_integral(b) == std::size_t(n));
    mara::arithmetic_sequence_t<bool, 4> s;
    s[0] = vc_bool("b0"); s[1] = vc_bool("b1"); s[2] = vc_bool("b2"); s[3] = vc_bool("b3");
    auto v = mara::to_integral(s);
    vc_assert("value", v == (s[0] ? 1u : 0u) + (s[1] ? 2u : 0u) + (s[2] ? 4u : 0u) + (s[3] ? 8u : 0u));
    auto t = mara::binary_repr<4>(v);
    vc_assert("round trip", t[0] == s[0] && t[1] == s[1] && t[2] == s[2] && t[3] == s[3]);
}
// the space-filling curve visits every node of a level once, moving to an
// adjacent node at each step
template<int L> static void hilbert()
{
    constexpr long n = 1L << L;
    long x[n * n], y[n * n]; bool seen[n * n];
    for (long k = 0; k < n * n; ++k) seen[k] = false;
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j)
    {
        auto h = long(mara::hilbert_index(mara::make_tree_index(i, j).with_level(L)));
        vc_assert("in range", h >= 0 && h < n * n);
        if (! (h >= 0 && h < n * n)) return;
        vc_assert("visited once", ! seen[h]);
        seen[h] = true; x[h] = i; y[h] = j;
    }
    for (long k = 0; k + 1 < n * n; ++k)
        vc_assert("adjacent steps", seen[k] && seen[k + 1] && std::abs(x[k + 1] - x[k]) + std::abs(y[k + 1] - y[k]) == 1);
}
VC_PROOF(bounded_hilbert_curve) { hilbert<0>(); hilbert<1>(); hilbert<2>(); hilbert<3>(); hilbert<4>(); }
