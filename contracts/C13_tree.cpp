// The tree container: every shape up to the stated depth, arbitrary values.
#include "tree.hpp"
using namespace spec;
namespace {
template<std::size_t R> void lookup(int depth)
{
    auto t = any_tree<R>(depth, "v");
    auto i = any_index<R>(depth + 1);
    auto k = kind(t, i);
    vc_assert("contains_node iff a node is there", t.contains_node(i) == (k != 0));
    vc_assert("contains iff a leaf is there", t.contains(i) == (k == 1));
    bool threw = false, oor = false;
    try { vc_assert_eq("at returns the leaf value", t.at(i), leaf_value(i, "v")); }
    catch (const std::out_of_range&) { threw = oor = true; }
    catch (const std::exception&) { threw = true; }
    vc_assert("at throws iff there is no leaf", threw == (k != 1));
    vc_assert("at throws out-of-range", threw == oor);
    bool failed = false;
    try
    {
        auto f = t.find(i);
        vc_assert("find has a value iff a leaf is there", f.has_value() == (k == 1));
        if (f.has_value()) vc_assert_eq("find value", f.value(), leaf_value(i, "v"));
    }
    catch (const std::exception&) { failed = true; }
    vc_assert("find cannot fail", ! failed);
    bool missing = false;
    try { auto& n = t.node_at(i); vc_assert("node_at finds the node", n.has_value() == (k == 1)); }
    catch (const std::out_of_range&) { missing = true; }
    vc_assert("node_at throws iff there is no node", missing == (k == 0));
}
template<std::size_t R> void reductions(int depth)
{
    auto t = any_tree<R>(depth, "v");
    std::size_t count = 0, deep = 0; double s = 0, lo = 0, hi = 0, first = 0; bool any = false, all = true;
    leaves(t, {}, [&] (auto i, double v)
    {
        vc_assert("structure", v == leaf_value(i, "v"));
        if (count == 0) first = v;
        if (count == 0 || v < lo) lo = v;
        if (count == 0 || v > hi) hi = v;
        ++count; s += v; any = any || v != 0; all = all && v != 0;
        if (i.level > deep) deep = i.level;
    });
    vc_assert("size is the number of leaves", t.size() == count);
    vc_assert("depth", t.depth() == deep);
    vc_assert_eq("front", t.front(), first);
    vc_assert_eq("sum", t.sum(), s);
    vc_assert_eq("min", t.min(), lo);
    vc_assert_eq("max", t.max(), hi);
    vc_assert("any", t.any() == any);
    vc_assert("all", t.all() == all);
}
template<std::size_t R> void structure(int depth)
{
    auto t = any_tree<R>(depth, "v");
    auto I = t.indexes();
    vc_assert("indexes mirror the tree", same_shape(t, I));
    leaves(I, {}, [&] (auto i, auto j) { vc_assert("index of each leaf", i == j); });
    auto m = t.map([] (double x) { return vc_ufr("f", 1, x); });
    vc_assert("map keeps the shape", same_shape(t, m));
    leaves(m, {}, [&] (auto i, double v) { vc_assert_eq("map value", v, vc_ufr("f", 1, leaf_value(i, "v"))); });
    auto p = t.pair_indexes();
    leaves(p, {}, [&] (auto i, auto v) { vc_assert("pair index", v.first == i); vc_assert_eq("pair value", v.second, leaf_value(i, "v")); });
    std::size_t n = 0;
    double order[64];
    t.sink([&] (double v) { order[n++] = v; });
    std::size_t k = 0;
    leaves(t, {}, [&] (auto, double v) { vc_assert_eq("sink visits depth first", order[k++], v); });
    vc_assert("sink visits every leaf once", k == n);
}
template<std::size_t R> void arithmetic(int depth)
{
    auto t = any_tree<R>(depth, "v");
    auto u = t.map([] (double x) { return vc_ufr("g", 1, x); });
    auto x = real("x");
    leaves(t + u, {}, [&] (auto i, double v) { auto a = leaf_value(i, "v"); vc_assert_eq("add", v, a + vc_ufr("g", 1, a)); });
    leaves(t - u, {}, [&] (auto i, double v) { auto a = leaf_value(i, "v"); vc_assert_eq("sub", v, a - vc_ufr("g", 1, a)); });
    leaves(t * u, {}, [&] (auto i, double v) { auto a = leaf_value(i, "v"); vc_assert_eq("mul", v, a * vc_ufr("g", 1, a)); });
    leaves(t + x, {}, [&] (auto i, double v) { vc_assert_eq("add scalar", v, leaf_value(i, "v") + x); });
    leaves(t - x, {}, [&] (auto i, double v) { vc_assert_eq("sub scalar", v, leaf_value(i, "v") - x); });
    leaves(t * x, {}, [&] (auto i, double v) { vc_assert_eq("mul scalar", v, leaf_value(i, "v") * x); });
    leaves(-t, {}, [&] (auto i, double v) { vc_assert_eq("neg", v, -leaf_value(i, "v")); });
    leaves(t < u, {}, [&] (auto i, bool v) { auto a = leaf_value(i, "v"); vc_assert("less", v == (a < vc_ufr("g", 1, a))); });
    leaves(t >= x, {}, [&] (auto i, bool v) { vc_assert("at least", v == (leaf_value(i, "v") >= x)); });
    vc_assert("shape", same_shape(t, t + u) && same_shape(t, t * x) && same_shape(t, t < u));
}
template<std::size_t R> void mismatch(int depth)
{
    auto t = any_tree<R>(depth, "v"); auto u = any_tree<R>(depth, "w");
    bool threw = false;
    try
    {
        auto p = t.pair(u);
        leaves(p, {}, [&] (auto i, auto v) { vc_assert_eq("first", v.first, leaf_value(i, "v")); vc_assert_eq("second", v.second, leaf_value(i, "w")); });
        vc_assert("shape", same_shape(p, t));
    }
    catch (const std::exception&) { threw = true; }
    vc_assert("pairing throws iff the shapes differ", threw == ! same_shape(t, u));
}
template<std::size_t R> void insertion(int depth, int level)
{
    auto t = any_tree<R>(depth, "v");
    auto i = any_index<R>(level);
    auto k = kind(t, i);
    auto x = real("x");
    bool threw = false;
    try
    {
        auto u = t.insert(i, x);
        vc_assert("inserted", kind(u, i) == 1 && u.at(i) == x);
        leaves(t, {}, [&] (auto j, double v)
        {
            // leaves that do not contain the target are untouched
            bool above = j.level <= i.level;
            for (std::size_t a = 0; a < R; ++a) above = above && (i.coordinates[a] >> (i.level >= j.level ? i.level - j.level : 0)) == j.coordinates[a];
            if (! above) vc_assert("other leaves unchanged", kind(u, j) == 1 && u.at(j) == v);
        });
    }
    catch (const std::exception&) { threw = true; }
    vc_assert("throws iff the target has children", threw == (k == 2));
    vc_assert("the original is unchanged", kind(t, i) == k);
}
template<std::size_t R> void updating(int depth)
{
    auto t = any_tree<R>(depth, "v");
    auto i = any_index<R>(depth);
    bool threw = false;
    tree<R> u;
    try { u = t.update(i, [] (double v) { return vc_ufr("f", 1, v); }); } catch (const std::out_of_range&) { threw = true; }
    vc_assert("throws iff there is no such node", threw == (kind(t, i) == 0));
    if (threw) return;
    vc_assert("same shape", same_shape(t, u));
    leaves(u, {}, [&] (auto j, double v)
    {
        bool below = j.level >= i.level;
        for (std::size_t a = 0; a < R; ++a) below = below && (j.coordinates[a] >> (j.level >= i.level ? j.level - i.level : 0)) == i.coordinates[a];
        auto o = leaf_value(j, "v");
        vc_assert_eq("updated exactly below the target", v, below ? vc_ufr("f", 1, o) : o);
    });
}
template<std::size_t R> void bifurcation(int depth)
{
    auto t = any_tree<R>(depth, "v");
    auto part = [] (double x) { return mara::iota<1 << R>().map([x] (std::size_t n) { return vc_ufr("part", 2, x, double(n)); }); };
    auto u = t.bifurcate_if([] (double x) { return x > 0; }, part);
    auto w = t.bifurcate_all(part);
    leaves(t, {}, [&] (auto i, double v)
    {
        vc_assert("all split", kind(w, i) == 2);
        if (v > 0)
        {
            vc_assert("split where the predicate holds", kind(u, i) == 2);
            for (std::size_t n = 0; n < (1 << R); ++n)
            {
                vc_assert_eq("child value", u.at(child(i, n)), vc_ufr("part", 2, v, double(n)));
                vc_assert_eq("child value", w.at(child(i, n)), vc_ufr("part", 2, v, double(n)));
            }
        }
        else vc_assert("kept elsewhere", kind(u, i) == 1 && u.at(i) == v);
    });
}
}
VC_PROOF(bounded_lookup_rank_1) { lookup<1>(3); }
VC_PROOF(bounded_lookup_rank_2) { lookup<2>(2); }
VC_PROOF(bounded_lookup_rank_3) { lookup<3>(1); }
VC_PROOF(bounded_reductions_rank_1) { reductions<1>(2); }
VC_PROOF(bounded_reductions_rank_2) { reductions<2>(1); }
VC_PROOF(bounded_structure_rank_1) { structure<1>(3); }
VC_PROOF(bounded_structure_rank_2) { structure<2>(2); }
VC_PROOF(bounded_arithmetic_rank_1) { arithmetic<1>(2); }
VC_PROOF(bounded_arithmetic_rank_2) { arithmetic<2>(1); }
VC_PROOF(bounded_mismatch_rank_1) { mismatch<1>(2); }
VC_PROOF(bounded_mismatch_rank_2) { mismatch<2>(1); }
VC_PROOF(bounded_insertion_rank_1) { insertion<1>(2, 3); }
VC_PROOF(bounded_insertion_rank_2) { insertion<2>(1, 2); }
VC_PROOF(bounded_updating_rank_1) { updating<1>(2); }
VC_PROOF(bounded_updating_rank_2) { updating<2>(2); }
VC_PROOF(bounded_bifurcation_rank_1) { bifurcation<1>(1); }
VC_PROOF(bounded_bifurcation_rank_2) { bifurcation<2>(1); }
