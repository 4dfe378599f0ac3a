// Blocks of a tree seen from any node: neighbour blocks at any relative
// refinement, the 2:1 balance condition, and the geometry of the vertex tree.
#include "tree.hpp"
#include "nd.hpp"
#include "mesh_tree_operators.hpp"
using namespace spec;
namespace {
using I1 = spec::index<1>; using I2 = spec::index<2>;
using line_t = nd::shared_array<double, 1>; using lines_t = mara::arithmetic_binary_tree_t<line_t, 1>;
using block_t = nd::shared_array<double, 2>; using blocks_t = mara::arithmetic_binary_tree_t<block_t, 2>;
using post_t = decltype(nd::to_shared());

// a block of cells (or vertices) with arbitrary contents, an arbitrary function of its index
line_t block(const char* f, const I1& i, long n, long = 1)
{
    return nd::make_array([=] (auto x) { return vc_uf(f, 3, long(i.level), long(i.coordinates[0]), long(x[0])); }, nd::make_shape(std::size_t(n))) | nd::to_shared();
}
block_t block(const char* f, const I2& i, long n, long m)
{
    return nd::make_array([=] (auto x) { return vc_uf(f, 5, long(i.level), long(i.coordinates[0]), long(i.coordinates[1]), long(x[0]), long(x[1])); }, nd::make_shape(std::size_t(n), std::size_t(m))) | nd::to_shared();
}
template<std::size_t R> long ask(const char* f, const spec::index<R>& i)
{
    return R == 1 ? vc_ufi(f, 2, long(i.level), long(i.coordinates[0])) : vc_ufi(f, 3, long(i.level), long(i.coordinates[0]), long(i.coordinates[R - 1]));
}
// native runs: trees of bounded depth
template<typename V, std::size_t R> mara::arithmetic_binary_tree_t<V, R> block_tree(int depth, long n, long m, const spec::index<R>& at = {})
{
    if (depth == 0 || vc_choose("split", 0, 1) == 0) return mara::tree_of<R>(block("v", at, n, m));
    mara::arithmetic_sequence_t<mara::arithmetic_binary_tree_t<V, R>, 1 << R> c;
    for (std::size_t k = 0; k < (1 << R); ++k) c[k] = block_tree<V, R>(depth - 1, n, m, child(at, k));
    return mara::arithmetic_binary_tree_t<V, R>{std::make_shared<mara::arithmetic_sequence_t<mara::arithmetic_binary_tree_t<V, R>, 1 << R>>(c)};
}
template<std::size_t R> spec::index<R> parent(const spec::index<R>& i)
{
    spec::index<R> p; p.level = i.level - 1;
    for (std::size_t a = 0; a < R; ++a) p.coordinates[a] = i.coordinates[a] / 2;
    return p;
}
template<typename V, std::size_t R> mara::arithmetic_binary_tree_t<V, R> some_tree(long n, long m)
{
#ifdef VC_NATIVE
    return block_tree<V, R>(3 - int(R) / 2, n, m);
#else
    return mara::tree_of<R>(V()); (void) n; (void) m;
#endif
}
template<std::size_t R> spec::index<R> some_node()
{
#ifdef VC_NATIVE
    const long top = 3;
#else
    const long top = 28;
#endif
    spec::index<R> i; i.level = std::size_t(vc_int("level", 0, top)); 
    const char* names[] = {"i", "j"};
    for (std::size_t a = 0; a < R; ++a) { i.coordinates[a] = std::size_t(vc_int(names[a], 0, (1L << top) - 1)); vc_assume(i.level > 0 || i.coordinates[a] == 0); }
#ifdef VC_NATIVE
    for (std::size_t a = 0; a < R; ++a) vc_assume(i.coordinates[a] < (1ul << i.level));
#endif
    return i;
}
#ifdef VC_NATIVE
#define CONTRACT_OF(CALL, STUB) CALL
#else
#define CONTRACT_OF(CALL, STUB) STUB
#endif
}
// The functions called, by their contracts: which nodes are leaves, which exist,
// and what a leaf holds are arbitrary functions of the index (C13 proves that
// contains, contains_node and at are functions of the tree and the index), and
// so is the result of the recursive calls.
extern "C++" {
bool c_leaf1(const lines_t*, const I1& i) { return ask("leaf", i) > 0; }
bool c_leaf2(const blocks_t*, const I2& i) { return ask("leaf", i) > 0; }
bool c_node1(const lines_t*, const I1& i) { return ask("leaf", i) > 0 || ask("node", i) > 0; }
bool c_node2(const blocks_t*, const I2& i) { return ask("leaf", i) > 0 || ask("node", i) > 0; }
const line_t& c_cells1_at(const lines_t*, const I1& i) { return *new line_t(block("v", i, 4)); }
const block_t& c_cells2_at(const blocks_t*, const I2& i) { return *new block_t(block("v", i, 2, 4)); }
const line_t& c_verts1_at(const lines_t*, const I1& i) { return *new line_t(block("v", i, 5)); }
const block_t& c_verts2_at(const blocks_t*, const I2& i) { return *new block_t(block("v", i, 3, 3)); }
line_t c_cells1(const lines_t&, I1 i, post_t&&) { return block("w", i, 4); }
block_t c_cells2(const blocks_t&, I2 i, post_t&&) { return block("w", i, 2, 4); }
line_t c_verts1(const lines_t&, I1 i) { return block("w", i, 5); }
block_t c_verts2(const blocks_t&, I2 i) { return block("w", i, 3, 3); }
}
VC_CONTRACT(leaf1, &lines_t::contains, &c_leaf1)
VC_CONTRACT(leaf2, &blocks_t::contains, &c_leaf2)
VC_CONTRACT(node1, &lines_t::contains_node, &c_node1)
VC_CONTRACT(node2, &blocks_t::contains_node, &c_node2)
VC_CONTRACT(cells1_at, &lines_t::at, &c_cells1_at)
VC_CONTRACT(cells2_at, &blocks_t::at, &c_cells2_at)
VC_CONTRACT(verts1_at, &lines_t::at, &c_verts1_at)
VC_CONTRACT(verts2_at, &blocks_t::at, &c_verts2_at)
VC_CONTRACT(cells1, (&mara::get_cell_block<line_t, 1, post_t>), &c_cells1)
VC_CONTRACT(cells2, (&mara::get_cell_block<block_t, 2, post_t>), &c_cells2)
VC_CONTRACT(verts1, (&mara::get_vertex_block<line_t, 1>), &c_verts1)
VC_CONTRACT(verts2, (&mara::get_vertex_block<block_t, 2>), &c_verts2)

VC_PROOF(inductive_cell_block_rank_1)
{
    vc_use_contract("leaf1"); vc_use_contract("node1"); vc_use_contract("cells1_at"); vc_use_hypothesis("cells1");
    auto t = some_tree<line_t, 1>(4, 1); auto i = some_node<1>();
    bool leaf = t.contains(i), above = i.level > 0 && t.contains(parent(i)), node = t.contains_node(i);
    bool threw = false; line_t b;
    try { b = mara::get_cell_block(t, i, nd::to_shared()); } catch (const std::exception&) { threw = true; }
    vc_assert("refused iff neither the node nor a leaf above it exists", threw == ! (leaf || above || node));
    if (threw) return;
    vc_assert("shape", b.shape(0) == 4);
    auto x = vc_choose("x", 0, 3); 
    if (leaf) vc_assert_eq("a leaf is returned as it is", b(x), t.at(i)(x));
    else if (above) vc_assert_eq("below a leaf: the value of the parent cell", b(x), t.at(parent(i))(((i.coordinates[0] % 2) * 4 + x) / 2));
    else
    {
        auto c = child(i, x / 2); auto w = CONTRACT_OF(mara::get_cell_block(t, c, nd::to_shared()), c_cells1(t, c, nd::to_shared()));
        vc_assert_eq("above leaves: the mean of the child cells", b(x), (w((2 * x) % 4) + w((2 * x) % 4 + 1)) / 2);
    }
}
VC_PROOF(inductive_cell_block_rank_2)
{
    vc_use_contract("leaf2"); vc_use_contract("node2"); vc_use_contract("cells2_at"); vc_use_hypothesis("cells2");
    auto t = some_tree<block_t, 2>(2, 4); auto i = some_node<2>();
    bool leaf = t.contains(i), above = i.level > 0 && t.contains(parent(i)), node = t.contains_node(i);
    bool threw = false; block_t b;
    try { b = mara::get_cell_block(t, i, nd::to_shared()); } catch (const std::exception&) { threw = true; }
    vc_assert("refused iff neither the node nor a leaf above it exists", threw == ! (leaf || above || node));
    if (threw) return;
    vc_assert("shape", b.shape(0) == 2 && b.shape(1) == 4);
    auto x = vc_choose("x", 0, 1), y = vc_choose("y", 0, 3);
    if (leaf) vc_assert_eq("a leaf is returned as it is", b(x, y), t.at(i)(x, y));
    else if (above) vc_assert_eq("below a leaf: the value of the parent cell", b(x, y), t.at(parent(i))(((i.coordinates[0] % 2) * 2 + x) / 2, ((i.coordinates[1] % 2) * 4 + y) / 2));
    else
    {
        auto c = child(i, x + 2 * (y / 2)); auto w = CONTRACT_OF(mara::get_cell_block(t, c, nd::to_shared()), c_cells2(t, c, nd::to_shared()));
        auto Y = (2 * y) % 4;
        vc_assert_eq("above leaves: the mean of the child cells", b(x, y), (w(0, Y) + w(1, Y) + w(0, Y + 1) + w(1, Y + 1)) / 4);
    }
}
VC_PROOF(inductive_vertex_block_rank_1)
{
    vc_use_contract("leaf1"); vc_use_contract("node1"); vc_use_contract("verts1_at"); vc_use_hypothesis("verts1");
    auto t = some_tree<line_t, 1>(5, 1); auto i = some_node<1>();
    bool leaf = t.contains(i), above = i.level > 0 && t.contains(parent(i)), node = t.contains_node(i);
    bool threw = false; line_t b;
    try { b = mara::get_vertex_block(t, i); } catch (const std::exception&) { threw = true; }
    vc_assert("refused iff neither the node nor a leaf above it exists", threw == ! (leaf || above || node));
    if (threw) return;
    vc_assert("shape", b.shape(0) == 5);
    auto x = vc_choose("x", 0, 4);
    auto X = (i.coordinates[0] % 2) * 4 + x;
    if (leaf) vc_assert_eq("a leaf is returned as it is", b(x), t.at(i)(x));
    else if (above) { auto& p = t.at(parent(i)); vc_assert_eq("below a leaf: vertices of the bisected block", b(x), (p(X / 2) + p((X + 1) / 2)) / 2); }
    else
    {
        auto h = x / 2 - (x == 4 ? 1 : 0); auto c = child(i, std::size_t(x >= 2)); auto w = CONTRACT_OF(mara::get_vertex_block(t, c), c_verts1(t, c));
        (void) h; vc_assert_eq("above leaves: every other vertex of the children", b(x), w(2 * x - (x >= 2 ? 4 : 0)));
    }
}
VC_PROOF(inductive_vertex_block_rank_2)
{
    vc_use_contract("leaf2"); vc_use_contract("node2"); vc_use_contract("verts2_at"); vc_use_hypothesis("verts2");
    auto t = some_tree<block_t, 2>(3, 3); auto i = some_node<2>();
    bool leaf = t.contains(i), above = i.level > 0 && t.contains(parent(i)), node = t.contains_node(i);
    bool threw = false; block_t b;
    try { b = mara::get_vertex_block(t, i); } catch (const std::exception&) { threw = true; }
    vc_assert("refused iff neither the node nor a leaf above it exists", threw == ! (leaf || above || node));
    if (threw) return;
    vc_assert("shape", b.shape(0) == 3 && b.shape(1) == 3);
    auto x = vc_choose("x", 0, 2), y = vc_choose("y", 0, 2);
    auto X = (i.coordinates[0] % 2) * 2 + x, Y = (i.coordinates[1] % 2) * 2 + y;
    if (leaf) vc_assert_eq("a leaf is returned as it is", b(x, y), t.at(i)(x, y));
    else if (above) { auto& p = t.at(parent(i)); vc_assert_eq("below a leaf: vertices of the bisected block", b(x, y), (p(X / 2, Y / 2) + p((X + 1) / 2, Y / 2) + p(X / 2, (Y + 1) / 2) + p((X + 1) / 2, (Y + 1) / 2)) / 4); }
    else
    {
        auto c = child(i, std::size_t(x >= 1) + 2 * std::size_t(y >= 1)); auto w = CONTRACT_OF(mara::get_vertex_block(t, c), c_verts2(t, c));
        vc_assert_eq("above leaves: every other vertex of the children", b(x, y), w(2 * x - (x >= 1 ? 2 : 0), 2 * y - (y >= 1 ? 2 : 0)));
    }
}

// the balance condition: an arbitrary leaf of an arbitrary tree
namespace {
using J2 = mara::arithmetic_binary_tree_t<I2, 2>;
I2 neighbor(const I2& l, int d)
{
    I2 q = l; std::size_t N = 1ul << l.level; auto& c = q.coordinates[d / 2];
    c = d % 2 ? (c + 1 == N ? 0 : c + 1) : (c == 0 ? N - 1 : c - 1);
    return q;
}
}
extern "C++" {
I2 leaf_index;
J2 c_indexes(const J2*, const I2&) { return J2{leaf_index}; }
bool c_contains_node(const J2*, const I2& i) { return ask("node", i) > 0; }
const J2& c_node_at(const J2*, const I2& i) { return *new J2{i}; }
std::size_t c_depth(const J2* t, std::size_t) { auto d = ask("depth", std::get<0>(t->__impl)); vc_assume(d >= 0 && d < 60); return std::size_t(d); }
}
VC_CONTRACT(indexes, &J2::indexes, &c_indexes)
VC_CONTRACT(contains_node, &J2::contains_node, &c_contains_node)
VC_CONTRACT(node_at, static_cast<const J2& (J2::*)(const I2&) const>(&J2::node_at), &c_node_at)
VC_CONTRACT(depth, &J2::depth, &c_depth)

VC_PROOF(inductive_over_refined)
{
    vc_use_contract("indexes"); vc_use_contract("contains_node"); vc_use_contract("node_at"); vc_use_contract("depth");
#ifdef VC_NATIVE
    auto deep = I2{}; deep.level = 3; for (int a = 0; a < 2; ++a) deep.coordinates[a] = std::size_t(vc_int(a ? "J" : "I", 0, 7));
    auto t = J2{I2{}}.insert(deep, deep);
    leaves(t, {}, [&] (const I2& l, const I2&)
    {
        leaf_index = l;
#else
        leaf_index.level = std::size_t(vc_choose("level", 0, 28));
        auto N = 1L << leaf_index.level;
        leaf_index.coordinates[0] = std::size_t(vc_int("i", 0, N - 1)); leaf_index.coordinates[1] = std::size_t(vc_int("j", 0, N - 1));
        auto l = leaf_index; J2 t{I2{}};
#endif
        auto o = mara::over_refined_neighbors(t);
        bool expect = false;
        for (int d = 0; d < 4; ++d)
        {
            auto q = neighbor(l, d);
            if (t.contains_node(q)) { auto& n = t.node_at(q); expect = n.depth() > 1 || expect; }
        }
#ifdef VC_NATIVE
        vc_assert("a leaf is flagged iff a face neighbour is refined twice or more", o.at(l) == expect);
    });
#else
        vc_assert("a leaf stays a leaf", o.__impl.index() == 0);
        if (o.__impl.index() == 0) vc_assert("a leaf is flagged iff a face neighbour is refined twice or more", std::get<0>(o.__impl) == expect);
#endif
}

namespace {
using verts_t = mara::amr_types::vertex_2d_tree_t;
template<typename T> int finest(const mara::arithmetic_binary_tree_t<T, 2>& t)
{
    if (t.__impl.index() == 0) return 0;
    int d = 0;
    for (std::size_t c = 0; c < 4; ++c) { auto f = 1 + finest((*std::get<1>(t.__impl))[c]); if (f > d) d = f; }
    return d;
}
template<typename T> const mara::arithmetic_binary_tree_t<T, 2>* walk(const mara::arithmetic_binary_tree_t<T, 2>* t, const I2& i)
{
    for (std::size_t l = i.level; l > 0; --l)
    {
        if (t->__impl.index() == 0) return nullptr;
        t = &(*std::get<1>(t->__impl))[((i.coordinates[0] >> (l - 1)) & 1) + 2 * ((i.coordinates[1] >> (l - 1)) & 1)];
    }
    return t;
}
void geometry(const verts_t& t, long nx, long ny)
{
    leaves(t, {}, [&] (const I2& l, const auto& v)
    {
        vc_assert("block size", v.shape(0) == std::size_t(nx + 1) && v.shape(1) == std::size_t(ny + 1));
        double N = double(1ul << l.level);
        for (long i = 0; i <= nx; ++i) for (long j = 0; j <= ny; ++j)
        {
            vc_assert_eq("x of each vertex", v(i, j)[0].value, -1 + 2 * (double(l.coordinates[0]) + double(i) / double(nx)) / N);
            vc_assert_eq("y of each vertex", v(i, j)[1].value, -1 + 2 * (double(l.coordinates[1]) + double(j) / double(ny)) / N);
        }
    });
}
void balanced(const verts_t& t)
{
    leaves(t, {}, [&] (const I2& l, const auto&)
    {
        for (int d = 0; d < 4; ++d)
        {
            auto q = neighbor(l, d); auto n = walk(&t, q);
            if (n) vc_assert("face neighbours are at most one level finer", finest(*n) <= 1);
        }
    });
}
void vertex_tree(int r0, int r1, int r2, int depth)
{
    // refine by radius, differently on each level
    auto pred = [=] (std::size_t level, double r) { return level == 0 ? r0 > 0 : level == 1 ? (r1 == 2 || (r1 == 1 && r < 0.9)) : (r2 == 2 ? r > 0.8 : r2 == 1 && r < 0.6); };
    auto t = mara::create_vertex_quadtree(pred, 1, 2, depth);
    balanced(t);
    geometry(t, 1, 2);
    leaves(t, {}, [&] (const I2& l, const auto&) { vc_assert("no deeper than asked", l.level <= std::size_t(depth)); });
    if (r0 == 0 || depth == 0) vc_assert("not refined where the predicate does not hold", t.__impl.index() == 0);
    else vc_assert("refined where the predicate holds", t.__impl.index() == 1);
}
}
VC_PROOF(bounded_vertex_quadtree_1)
{
    auto c = vc_choose("case", 0, 3);
    vertex_tree(c > 1, c > 2 ? 2 : 0, 0, c == 0 ? 0 : c == 3 ? 2 : 1);
}
VC_PROOF(bounded_vertex_quadtree_2) { vertex_tree(1, 1, 1, 3); }
VC_PROOF(bounded_vertex_quadtree_3) { vertex_tree(1, 1, 2, 3); }
// one corner refined down to a chosen depth: the neighbours are refined as far as needed
VC_PROOF(bounded_ensure_valid)
{
    auto corner = vc_choose("corner", 0, 3);
    auto t = mara::create_vertex_quadtree([] (auto l, double) { return l == 0; }, 1, 1, 1);
    auto split = [] (auto v) { return (v | mara::refine_verts<2>()).map(nd::to_shared()); };
    auto target = [=] (double X, double Y) { return [=] (auto v) { auto x = v(0, 0)[0].value, y = v(0, 0)[1].value, X1 = v(1, 1)[0].value, Y1 = v(1, 1)[1].value; return x < X && X < X1 && y < Y && Y < Y1; }; };
    double X = corner & 1 ? 0.06 : -0.06, Y = corner & 2 ? 0.94 : -0.06;
    for (int d = 0; d < 2; ++d) t = t.bifurcate_if(target(X, Y), split);
    auto v = mara::ensure_valid_quadtree(t);
    balanced(v);
    geometry(v, 1, 1);
    leaves(t, {}, [&] (const I2& l, const auto&) { vc_assert("every block of the original is still there, as it was or refined", walk(&v, l) != nullptr); });
}
