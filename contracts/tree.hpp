// Trees of bounded depth with arbitrary values
#pragma once
#include "common.hpp"
#include "core_tree.hpp"
namespace spec {
template<std::size_t R> using tree = mara::arithmetic_binary_tree_t<double, R>;
template<std::size_t R> using index = mara::tree_index_t<R>;

// a specification-side picture of the tree: which nodes exist, and leaf values
template<std::size_t R> double leaf_value(const index<R>& i, const char* f)
{
    long c[3] = {0, 0, 0};
    for (std::size_t a = 0; a < R; ++a) c[a] = long(i.coordinates[a]);
    return vc_uf(f, 4, long(i.level), c[0], c[1], c[2]);
}
template<std::size_t R> index<R> child(const index<R>& i, std::size_t n)
{
    index<R> r; r.level = i.level + 1;
    for (std::size_t a = 0; a < R; ++a) r.coordinates[a] = 2 * i.coordinates[a] + ((n >> a) & 1);
    return r;
}
// every shape of at most the given depth (one case per shape)
template<std::size_t R> tree<R> any_tree(int depth, const char* f, const index<R>& at = {})
{
    if (depth == 0 || vc_choose("split", 0, 1) == 0) return mara::tree_of<R>(leaf_value(at, f));
    mara::arithmetic_sequence_t<tree<R>, 1 << R> c;
    for (std::size_t n = 0; n < (1 << R); ++n) c[n] = any_tree<R>(depth - 1, f, child(at, n));
    return tree<R>{std::make_shared<mara::arithmetic_sequence_t<tree<R>, 1 << R>>(c)};
}
// reference walk over the leaves: fn(index, value)
template<typename T, std::size_t R, typename Fn> void leaves(const mara::arithmetic_binary_tree_t<T, R>& t, const index<R>& at, Fn fn)
{
    if (t.__impl.index() == 0) { fn(at, std::get<0>(t.__impl)); return; }
    for (std::size_t n = 0; n < (1 << R); ++n) leaves((*std::get<1>(t.__impl))[n], child(at, n), fn);
}
// 0: no such node, 1: leaf, 2: internal
template<typename T, std::size_t R> int kind(const mara::arithmetic_binary_tree_t<T, R>& t, const index<R>& i, const index<R>& at = {})
{
    if (at.level == i.level) { return at == i ? (t.__impl.index() == 0 ? 1 : 2) : 0; }
    if (t.__impl.index() == 0) return 0;
    for (std::size_t n = 0; n < (1 << R); ++n) if (auto k = kind((*std::get<1>(t.__impl))[n], i, child(at, n))) return k;
    return 0;
}
template<typename T, typename U, std::size_t R> bool same_shape(const mara::arithmetic_binary_tree_t<T, R>& a, const mara::arithmetic_binary_tree_t<U, R>& b)
{
    if (a.__impl.index() != b.__impl.index()) return false;
    if (a.__impl.index() == 0) return true;
    for (std::size_t n = 0; n < (1 << R); ++n) if (! same_shape((*std::get<1>(a.__impl))[n], (*std::get<1>(b.__impl))[n])) return false;
    return true;
}
template<std::size_t R> index<R> any_index(int max_level)
{
    const char* names[3] = {"i", "j", "k"};
    index<R> r; r.level = std::size_t(vc_choose("level", 0, max_level));
    for (std::size_t a = 0; a < R; ++a) r.coordinates[a] = std::size_t(vc_choose(names[a], 0, (1 << r.level) - 1));
    return r;
}
}
