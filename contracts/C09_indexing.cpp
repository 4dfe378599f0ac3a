// Index arithmetic of nd arrays: row-major storage and strided regions
#include "nd.hpp"
using namespace spec;

VC_PROOF(volume_is_product)
{
    auto a = extent("a"), b = extent("b"), c = extent("c");
    vc_assert("rank 1", nd::make_shape(a).volume() == a);
    vc_assert("rank 2", nd::make_shape(a, b).volume() == a * b);
    vc_assert("rank 3", nd::make_shape(a, b, c).volume() == a * b * c);
}
VC_PROOF(contains)
{
    auto a = extent("a"), b = extent("b"), i = extent("i"), j = extent("j");
    vc_assert("shape contains", nd::make_shape(a, b).contains(nd::make_index(i, j)) == (i < a && j < b));
}
// row-major offsets: inside the buffer, and the position is recovered by
// division, so different indexes never share storage
VC_PROOF(offset_rank_1)
{
    auto a = extent("a"); auto i = below("i", a);
    auto s = nd::make_strides_row_major(nd::make_shape(a));
    vc_assert("offset", s.compute_offset(nd::make_index(i)) == i);
}
VC_PROOF(offset_rank_2)
{
    auto a = extent("a"), b = extent("b"); auto i = below("i", a), j = below("j", b);
    auto s = nd::make_strides_row_major(nd::make_shape(a, b));
    auto o = s.compute_offset(nd::make_index(i, j));
    vc_assert("row major", o == i * b + j);
    vc_lemma("row fits", (i + 1) * b <= a * b);
    vc_assert("in bounds", o < nd::make_shape(a, b).volume());
    vc_assert("recover j", o % b == j);
    vc_assert("recover i", o / b == i);
}
VC_PROOF(offset_rank_3)
{
    auto a = extent("a"), b = extent("b"), c = extent("c"); auto i = below("i", a), j = below("j", b), k = below("k", c);
    auto s = nd::make_strides_row_major(nd::make_shape(a, b, c));
    auto o = s.compute_offset(nd::make_index(i, j, k));
    auto r = i * b + j;
    vc_assert("row major", o == r * c + k);
    vc_lemma("row fits", (i + 1) * b <= a * b);
    vc_lemma("rows", r + 1 <= a * b);
    vc_lemma("row fits", (r + 1) * c <= a * b * c);
    vc_assert("in bounds", o < nd::make_shape(a, b, c).volume());
}
// a strided region generates exactly start, start + jump, ... below final
VC_PROOF(region_shape)
{
    auto s = extent("start"), f = extent("final"); auto j = extent("jump", 1, 64);
    vc_assume(s <= f);
    auto p = nd::access_pattern_t<1>().with_start(s).with_final(f).with_jumps(long(j));
    auto n = p.shape()[0];
    vc_assert("empty iff start == final", (n == 0) == (s == f));
    if (n > 0)
    {
        vc_assert("last generated index is inside", s + (n - 1) * j < f);
    }
    vc_assert("no more fit", s + n * j >= f);
    vc_assert("size", p.size() == n);
}
VC_PROOF(region_mapping)
{
    auto s = extent("start"), f = extent("final"); auto j = extent("jump", 1, 64);
    vc_assume(s <= f);
    auto p = nd::access_pattern_t<1>().with_start(s).with_final(f).with_jumps(long(j));
    auto i = extent("i");
    auto in = p.contains(nd::make_index(i));
    auto m = p.map_index(nd::make_index(i));
    vc_assert("map", m[0] == s + i * j);
    vc_assert("contained maps inside", in == (m[0] < f));
    if (in)
    {
        vc_assert("generates what it maps", p.generates(m));
        vc_assert("inverse", p.inverse_map_index(m)[0] == i);
    }
    auto k = extent("k");
    if (p.generates(nd::make_index(k)))
    {
        auto q = p.inverse_map_index(nd::make_index(k));
        vc_assert("generated is contained", p.contains(q));
        vc_assert("generated is mapped", p.map_index(q)[0] == k);
        vc_assert("generated is in range", k >= s && k < f);
    }
    else
    {
        vc_assert("not generated is not mapped", ! (in && m[0] == k));
    }
}
VC_PROOF(region_axes_independent)
{
    auto s0 = extent("s0"), s1 = extent("s1"), f0 = extent("f0"), f1 = extent("f1"); auto j0 = extent("j0", 1, 8), j1 = extent("j1", 1, 8);
    vc_assume(s0 <= f0 && s1 <= f1);
    auto p = nd::access_pattern_t<2>().with_start(s0, s1).with_final(f0, f1).with_jumps(long(j0), long(j1));
    auto q = nd::access_pattern_t<1>().with_start(s0).with_final(f0).with_jumps(long(j0));
    auto r = nd::access_pattern_t<1>().with_start(s1).with_final(f1).with_jumps(long(j1));
    auto i = extent("i"), k = extent("k");
    vc_assert("shape", p.shape()[0] == q.shape()[0] && p.shape()[1] == r.shape()[0]);
    vc_assert("map", p.map_index(nd::make_index(i, k))[0] == q.map_index(nd::make_index(i))[0]);
    vc_assert("map", p.map_index(nd::make_index(i, k))[1] == r.map_index(nd::make_index(k))[0]);
    vc_assert("generates", p.generates(nd::make_index(i, k)) == (q.generates(nd::make_index(i)) && r.generates(nd::make_index(k))));
}
// a selection is accepted exactly when all its indexes lie in the parent
VC_PROOF(within)
{
    auto s = extent("start"), f = extent("final"), n = extent("parent"); auto j = extent("jump", 1, 64);
    vc_assume(s <= f);
    auto p = nd::access_pattern_t<1>().with_start(s).with_final(f).with_jumps(long(j));
    auto i = extent("i");
    auto w = p.within(nd::make_shape(n));
    if (w && p.contains(nd::make_index(i)))
    {
        vc_assert("accepted selections stay inside", p.map_index(nd::make_index(i))[0] < n);
    }
    if (! w)
    {
        auto last = p.shape()[0] - 1;
        vc_assert("rejected selections reach outside", p.shape()[0] > 0 && p.map_index(nd::make_index(last))[0] >= n);
    }
}
// iteration visits the region in row-major order, each index once
VC_PROOF(advance_rank_1)
{
    auto s = extent("start"), f = extent("final"); auto j = extent("jump", 1, 64);
    vc_assume(s < f);
    auto p = nd::access_pattern_t<1>().with_start(s).with_final(f).with_jumps(long(j));
    auto n = p.shape()[0];
    auto k = below("k", n);
    auto m = p.map_index(nd::make_index(k));
    auto more = p.advance(m);
    vc_assert("continues iff not last", more == (k + 1 < n));
    if (more) vc_assert("next", m[0] == p.map_index(nd::make_index(k + 1))[0]);
    else      vc_assert("end", nd::access_pattern_t<1>::iterator{p, m} == p.end());
}
VC_PROOF(advance_rank_2)
{
    auto s0 = extent("s0"), s1 = extent("s1"), f0 = extent("f0"), f1 = extent("f1"); auto j0 = extent("j0", 1, 8), j1 = extent("j1", 1, 8);
    vc_assume(s0 < f0 && s1 < f1);
    auto p = nd::access_pattern_t<2>().with_start(s0, s1).with_final(f0, f1).with_jumps(long(j0), long(j1));
    auto n0 = p.shape()[0], n1 = p.shape()[1];
    auto k0 = below("k0", n0), k1 = below("k1", n1);
    auto m = p.map_index(nd::make_index(k0, k1));
    auto more = p.advance(m);
    bool wrap = k1 + 1 == n1;
    vc_assert("continues iff not last", more == ! (wrap && k0 + 1 == n0));
    if (more)
    {
        auto e = p.map_index(nd::make_index(wrap ? k0 + 1 : k0, wrap ? 0 : k1 + 1));
        vc_assert("next", m[0] == e[0] && m[1] == e[1]);
    }
    else
    {
        vc_assert("end", m[0] == f0 && m[1] == f1);
    }
}
VC_PROOF(advance_rank_3)
{
    auto n0 = extent("n0", 1), n1 = extent("n1", 1), n2 = extent("n2", 1);
    auto p = nd::make_access_pattern(n0, n1, n2);
    auto i = below("i", n0), j = below("j", n1), k = below("k", n2);
    auto m = nd::make_index(i, j, k);
    auto st = nd::make_strides_row_major(p.shape());
    auto o = st.compute_offset(m);
    auto more = p.advance(m);
    bool last = i + 1 == n0 && j + 1 == n1 && k + 1 == n2;
    vc_assert("continues iff not last", more == ! last);
    if (more)
    {
        vc_assert("inside", m[0] < n0 && m[1] < n1 && m[2] < n2);
        vc_assert("consecutive storage", st.compute_offset(m) == o + 1);
    }
}
VC_PROOF(iteration_bounds)
{
    auto s0 = extent("s0"), s1 = extent("s1"), f0 = extent("f0"), f1 = extent("f1");
    vc_assume(s0 <= f0 && s1 <= f1);
    auto p = nd::access_pattern_t<2>().with_start(s0, s1).with_final(f0, f1);
    vc_assert("empty", p.empty() == (s0 == f0 || s1 == f1));
    vc_assert("nothing to visit", (p.begin() == p.end()) == p.empty());
    if (p.begin() != p.end())
    {
        vc_assert("starts at start", (*p.begin())[0] == s0 && (*p.begin())[1] == s1);
    }
}
