// The tree container, by structural induction: each recursive function is
// verified for an arbitrary node with the recursive calls on the children
// replaced by their contract (an arbitrary function of the child and of the
// arguments).  Together with the leaf case these equations determine the result
// on every tree of every depth.
#include "tree.hpp"
using namespace spec;
namespace {
using T2 = tree<2>; using I2 = spec::index<2>; using B2 = mara::arithmetic_binary_tree_t<bool, 2>; using X2 = mara::arithmetic_binary_tree_t<I2, 2>;
using kids_t = mara::arithmetic_sequence_t<T2, 4>; using bkids_t = mara::arithmetic_sequence_t<B2, 4>;

// the children: in the proof opaque nodes told apart by a tag, natively arbitrary subtrees
T2 opaque(const char* f, int n)
{
#ifdef VC_NATIVE
    I2 at; at.level = 7; at.coordinates[0] = n; at.coordinates[1] = 0;
    return any_tree<2>(2, f, at);
#else
    (void) f;
    return T2{double(n)};
#endif
}
B2 opaque_b(int n)
{
#ifdef VC_NATIVE
    return opaque("b", n).map([] (double x) { return x > 0; });
#else
    return B2{bool(n % 2)};
#endif
}
struct F { double operator()(double x) const { return vc_ufr("f", 1, x); } };
struct P { bool operator()(double x) const { return vc_ufr("p", 1, x) > 0; } };
struct S { auto operator()(double x) const { return mara::make_sequence(vc_ufr("s0", 1, x), vc_ufr("s1", 1, x), vc_ufr("s2", 1, x), vc_ufr("s3", 1, x)); } };
struct R { double seen[64]; int n = 0; void operator()(double x) { if (n < 64) seen[n++] = x; } };
I2 asked;                                                       // the index the recursive call was given
template<typename T> void same(const char* name, const mara::arithmetic_binary_tree_t<T, 2>& a, const mara::arithmetic_binary_tree_t<T, 2>& b)
{
    bool eq = a.__impl.index() == b.__impl.index();
    vc_assert(name, eq);
    if (! eq) return;
    if (a.__impl.index() == 0)
    {
        if constexpr (std::is_same<T, double>::value) vc_assert_eq(name, std::get<0>(a.__impl), std::get<0>(b.__impl));
        else vc_assert(name, std::get<0>(a.__impl) == std::get<0>(b.__impl));
        return;
    }
    for (int n = 0; n < 4; ++n) same(name, (*std::get<1>(a.__impl))[n], (*std::get<1>(b.__impl))[n]);
}
long tag(const T2& t) { return long(std::get<0>(t.__impl)); }
kids_t kids(const char* f = "v") { return {opaque(f, 0), opaque(f, 1), opaque(f, 2), opaque(f, 3)}; }
T2 node(const kids_t& k) { return T2{std::make_shared<kids_t>(k)}; }
I2 some_index(long lo)
{
    I2 i; i.level = std::size_t(vc_choose("level", lo, 30));
    i.coordinates[0] = std::size_t(vc_int("i", 0, (1L << i.level) - 1)); i.coordinates[1] = std::size_t(vc_int("j", 0, (1L << i.level) - 1));
    return i;
}
// the child a valid index leads to, and the index as that child sees it
std::size_t towards(const I2& i) { auto h = 1ul << (i.level - 1); return (i.coordinates[0] >= h ? 1u : 0u) + (i.coordinates[1] >= h ? 2u : 0u); }
I2 below(const I2& i)
{
    auto h = 1ul << (i.level - 1); I2 r; r.level = i.level - 1;
    for (int a = 0; a < 2; ++a) r.coordinates[a] = i.coordinates[a] >= h ? i.coordinates[a] - h : i.coordinates[a];
    return r;
}
}
#ifdef VC_NATIVE
#define IH(CALL, STUB) CALL
#else
#define IH(CALL, STUB) STUB
#endif
#define CHILD(k, n) (n == 0 ? k[0] : n == 1 ? k[1] : n == 2 ? k[2] : k[3])

extern "C++" {
bool ih_contains_node(const T2* t, const I2& i) { return vc_ufi("contains_node", 4, tag(*t), long(i.level), long(i.coordinates[0]), long(i.coordinates[1])) > 0; }
bool ih_contains     (const T2* t, const I2& i) { return vc_ufi("contains",      4, tag(*t), long(i.level), long(i.coordinates[0]), long(i.coordinates[1])) > 0; }
const T2& ih_node_at (const T2* t, const I2& i) { asked = i; return *t; }
const double& ih_front(const T2* t)             { return std::get<0>(t->__impl); }
X2 ih_indexes        (const T2* t, const I2& i) { I2 r = i; r.coordinates[0] = 1000 * r.coordinates[0] + std::size_t(tag(*t)); return X2{r}; }
T2 ih_insert         (const T2* t, const I2& i, const double& v) { asked = i; return T2{vc_uf("insert", 1, tag(*t)) + v}; }
T2 ih_map            (const T2* t, const F&)    { return T2{vc_uf("map", 1, tag(*t))}; }
T2 ih_update         (const T2* t, const I2& i, const F&) { asked = i; return T2{vc_uf("update", 1, tag(*t))}; }
T2 ih_binary_op      (const T2* t, const T2& u, std::plus<>&&) { return T2{vc_uf("binary_op", 2, tag(*t), tag(u))}; }
T2 ih_bifurcate_if   (const T2* t, const P&, const S&) { return T2{vc_uf("bifurcate_if", 1, tag(*t))}; }
T2 ih_bifurcate_all  (const T2* t, const S&)    { return T2{vc_uf("bifurcate_all", 1, tag(*t))}; }
void ih_sink         (const T2* t, R& r)        { r(1000.0 + tag(*t)); }
std::size_t ih_size  (const T2* t)              { auto n = vc_ufi("size", 1, tag(*t)); vc_assume(n >= 1 && n <= (1L << 40)); return std::size_t(n); }
std::size_t ih_depth (const T2* t, std::size_t d) { auto n = vc_ufi("depth", 1, tag(*t)); vc_assume(n >= 0 && n <= 60); return d + std::size_t(n); }
double ih_sum        (const T2* t)              { return vc_uf("sum", 1, tag(*t)); }
double ih_min        (const T2* t)              { return vc_uf("min", 1, tag(*t)); }
double ih_max        (const T2* t)              { return vc_uf("max", 1, tag(*t)); }
bool ih_any          (const T2* t)              { return vc_ufi("any", 1, tag(*t)) > 0; }
bool ih_all          (const T2* t)              { return vc_ufi("all", 1, tag(*t)) > 0; }
}
VC_CONTRACT(node_at, static_cast<const T2& (T2::*)(const I2&) const>(&T2::node_at), &ih_node_at)
VC_CONTRACT(front, &T2::front, &ih_front)
VC_CONTRACT(indexes, &T2::indexes, &ih_indexes)
VC_CONTRACT(insert, &T2::insert, &ih_insert)
VC_CONTRACT(map, static_cast<T2 (T2::*)(const F&) const>(&T2::map<const F&>), &ih_map)
VC_CONTRACT(update, &T2::update<const F&>, &ih_update)
VC_CONTRACT(binary_op, static_cast<T2 (T2::*)(const T2&, std::plus<>&&) const>(&T2::binary_op<double, std::plus<>>), &ih_binary_op)
VC_CONTRACT(bifurcate_if, static_cast<T2 (T2::*)(const P&, const S&) const>(&T2::bifurcate_if<const P&, const S&>), &ih_bifurcate_if)
VC_CONTRACT(bifurcate_all, static_cast<T2 (T2::*)(const S&) const>(&T2::bifurcate_all<const S&>), &ih_bifurcate_all)
VC_CONTRACT(sink, &T2::sink<R&>, &ih_sink)
VC_CONTRACT(contains_node, &T2::contains_node, &ih_contains_node)
VC_CONTRACT(contains, &T2::contains, &ih_contains)
VC_CONTRACT(size, &T2::size, &ih_size)
VC_CONTRACT(depth, &T2::depth, &ih_depth)
VC_CONTRACT(sum, &T2::sum, &ih_sum)
VC_CONTRACT(min, &T2::min, &ih_min)
VC_CONTRACT(max, &T2::max, &ih_max)
VC_CONTRACT(any, &T2::any, &ih_any)
VC_CONTRACT(all, &T2::all, &ih_all)

VC_PROOF(inductive_contains)
{
    vc_use_hypothesis("contains_node"); vc_use_hypothesis("contains");
    auto k = kids(); auto t = node(k);
    auto i = some_index(0);
    if (i.level == 0)
    {
        vc_assert("the root is a node", t.contains_node(i));
        vc_assert("the root is not a leaf", ! t.contains(i));
    }
    else
    {
        auto n = towards(i); auto b = below(i);
        vc_assert("contains_node asks the child in that orthant", t.contains_node(i) == IH(CHILD(k, n).contains_node(b), ih_contains_node(&CHILD(k, n), b)));
        vc_assert("contains asks the child in that orthant", t.contains(i) == IH(CHILD(k, n).contains(b), ih_contains(&CHILD(k, n), b)));
    }
}
VC_PROOF(inductive_leaf)
{
    auto x = real("x");
    auto t = mara::tree_of<2>(x);
    auto i = some_index(0);
    vc_assert("contains_node", t.contains_node(i) == (i.level == 0));
    vc_assert("contains", t.contains(i) == (i.level == 0));
    vc_assert("size and depth", t.size() == 1 && t.depth() == 0);
    vc_assert_eq("sum", t.sum(), x);
    vc_assert_eq("min", t.min(), x);
    vc_assert_eq("max", t.max(), x);
    vc_assert("any, all", t.any() == (x != 0) && t.all() == (x != 0));
    bool threw = false;
    try { vc_assert_eq("at", t.at(i), x); } catch (const std::out_of_range&) { threw = true; }
    vc_assert("at throws unless the index is the root", threw == (i.level != 0));
    auto f = t.find(i);
    vc_assert("find", f.has_value() == (i.level == 0));
}
VC_PROOF(inductive_reductions)
{
    for (auto f : {"size", "depth", "sum", "min", "max", "any", "all"}) vc_use_hypothesis(f);
    auto k = kids(); auto t = node(k);
#ifndef VC_NATIVE
    for (int n = 0; n < 4; ++n) { ih_size(&k[n]); ih_depth(&k[n], 0); }      // sizes and depths of the subtrees are natural numbers
#endif
    std::size_t size = 0, depth = 0; double s = 0, lo = 0, hi = 0; bool any = false, all = true;
    for (int n = 0; n < 4; ++n)
    {
        size += IH(k[n].size(), ih_size(&k[n]));
        auto d = IH(k[n].depth(), ih_depth(&k[n], 0));
        if (d > depth) depth = d;
        s += IH(k[n].sum(), ih_sum(&k[n]));
        auto m = IH(k[n].min(), ih_min(&k[n])), M = IH(k[n].max(), ih_max(&k[n]));
        if (n == 0 || m < lo) lo = m;
        if (n == 0 || M > hi) hi = M;
        any = any || IH(k[n].any(), ih_any(&k[n]));
        all = all && IH(k[n].all(), ih_all(&k[n]));
    }
    vc_assert("size adds up", t.size() == size);
    vc_assert("depth is one more than the deepest child", t.depth() == depth + 1);
    vc_assert_eq("sum adds up", t.sum(), s);
    vc_assert_eq("min", t.min(), lo);
    vc_assert_eq("max", t.max(), hi);
    vc_assert("any", t.any() == any);
    vc_assert("all", t.all() == all);
}

VC_PROOF(inductive_access)
{
    vc_use_hypothesis("node_at"); vc_use_hypothesis("front"); vc_use_hypothesis("indexes"); vc_use_hypothesis("sink");
    auto k = kids(); auto t = node(k);
    auto& kk = *std::get<1>(t.__impl);
    vc_assert("front is the front of the first child", &t.front() == &kk[0].front());
    R r; t.sink(r);
    R q; for (int n = 0; n < 4; ++n) IH(k[n].sink(q), ih_sink(&k[n], q));
    vc_assert("sink visits as many", r.n == q.n);
    for (int n = 0; n < q.n; ++n) vc_assert_eq("sink visits the children in order", r.seen[n], q.seen[n]);
    auto i = some_index(0);
    auto x = t.indexes(i);
    vc_assert("indexes of a node are a node", x.__impl.index() == 1);
    for (int n = 0; n < 4; ++n) { auto c = child(i, n); same("indexes of each child", (*std::get<1>(x.__impl))[n], IH(k[n].indexes(c), ih_indexes(&k[n], c))); }
    if (i.level == 0) { vc_assert("node_at of the root", &t.node_at(i) == &t); return; }
    auto n = towards(i); auto b = below(i);
#ifdef VC_NATIVE
    bool a0 = false, a1 = false; const T2* p = nullptr; const T2* q1 = nullptr;
    try { p = &t.node_at(i); } catch (const std::out_of_range&) { a0 = true; }
    try { q1 = &kk[n].node_at(b); } catch (const std::out_of_range&) { a1 = true; }
    vc_assert("node_at descends into the child in that orthant", a0 == a1 && p == q1);
#else
    auto& found = t.node_at(i);
    vc_assert("node_at descends into the child in that orthant", &found == &CHILD(kk, n));
    vc_assert("node_at asks the child for the node below", asked == b);
#endif
}
VC_PROOF(inductive_construction)
{
    for (auto f : {"insert", "map", "update", "binary_op", "bifurcate_if", "bifurcate_all"}) vc_use_hypothesis(f);
    auto k = kids(), l = kids("w"); auto t = node(k), u = node(l);
    const F f; const P p; const S s;
    auto m = t.map(f); auto bi = t.bifurcate_if(p, s), ba = t.bifurcate_all(s);
    vc_assert("a node maps to a node", m.__impl.index() == 1 && bi.__impl.index() == 1 && ba.__impl.index() == 1);
    for (int n = 0; n < 4; ++n)
    {
        same("map acts on each child", (*std::get<1>(m.__impl))[n], IH(k[n].map(f), ih_map(&k[n], f)));
        same("bifurcate_if acts on each child", (*std::get<1>(bi.__impl))[n], IH(k[n].bifurcate_if(p, s), ih_bifurcate_if(&k[n], p, s)));
        same("bifurcate_all acts on each child", (*std::get<1>(ba.__impl))[n], IH(k[n].bifurcate_all(s), ih_bifurcate_all(&k[n], s)));
    }
#ifndef VC_NATIVE
    auto sum = t + u;
    vc_assert("a sum of nodes is a node", sum.__impl.index() == 1);
    for (int n = 0; n < 4; ++n) same("sum acts on pairs of children", (*std::get<1>(sum.__impl))[n], ih_binary_op(&k[n], l[n], {}));
#endif
    for (int n = 0; n < 4; ++n) same("the original is unchanged", (*std::get<1>(t.__impl))[n], k[n]);
}
VC_PROOF(inductive_modification)
{
    vc_use_hypothesis("insert"); vc_use_hypothesis("update"); 
    auto k = kids(); auto t = node(k);
    const F f; auto v = real("v");
    auto i = some_index(1);
    auto n = towards(i); auto b = below(i);
#ifndef VC_NATIVE
    asked = {};
    auto ins = t.insert(i, v);
    vc_assert("insert asks the child for the node below", asked == b);
    asked = {};
    auto upd = t.update(i, f);
    vc_assert("update asks the child for the node below", asked == b);
    vc_assert("still a node", ins.__impl.index() == 1 && upd.__impl.index() == 1);
    for (std::size_t c = 0; c < 4; ++c)
    {
        same("insert changes exactly the child in that orthant", (*std::get<1>(ins.__impl))[c], c == n ? ih_insert(&k[c], b, v) : k[c]);
        same("update changes exactly the child in that orthant", (*std::get<1>(upd.__impl))[c], c == n ? ih_update(&k[c], b, f) : k[c]);
    }
#else
    (void) n; (void) b;
#endif
    for (int c = 0; c < 4; ++c) same("the original is unchanged", (*std::get<1>(t.__impl))[c], k[c]);
}
// the leaf case of the constructing functions
VC_PROOF(inductive_leaf_construction)
{
    auto x = real("x"), y = real("y");
    auto t = mara::tree_of<2>(x), u = mara::tree_of<2>(y);
    const F f; const P p; const S s;
    same("map", t.map(f), mara::tree_of<2>(f(x)));
    same("update", t.update(I2{}, f), mara::tree_of<2>(f(x)));
    same("sum", t + u, mara::tree_of<2>(x + y));
    same("insert", t.insert(I2{}, y), u);
    vc_assert_eq("front", t.front(), x);
    auto i = some_index(0);
    same("indexes", t.indexes(i), mara::tree_of<2>(i));
    auto b = t.bifurcate_if(p, s), a = t.bifurcate_all(s);
    auto split = s(x);
    vc_assert("bifurcate_if splits where the predicate holds", b.__impl.index() == std::size_t(p(x)));
    vc_assert("bifurcate_all splits", a.__impl.index() == 1);
    for (int n = 0; n < 4; ++n)
    {
        same("bifurcate_all", (*std::get<1>(a.__impl))[n], mara::tree_of<2>(split[n]));
        if (p(x)) same("bifurcate_if", (*std::get<1>(b.__impl))[n], mara::tree_of<2>(split[n]));
    }
    if (! p(x)) same("kept", b, t);
    auto k = kids(); bool t1 = false, t2 = false;
    try { t + node(k); } catch (const std::exception&) { t1 = true; }
    try { node(k) + t; } catch (const std::exception&) { t2 = true; }
    vc_assert("a leaf does not combine with a node", t1 && t2);
    if (i.level > 0)
    {
        bool threw = false;
        try { t.update(i, f); } catch (const std::out_of_range&) { threw = true; }
        vc_assert("update below a leaf throws", threw);
    }
}
