// Shared pieces for the contracts on nd arrays
#pragma once
#include "common.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"

namespace spec {
constexpr long BIG = 1L << 20;    // extents per axis: 2^20 (volumes up to 2^60 in rank 3)

inline std::size_t extent(const char* n, long lo = 0, long hi = BIG) { return std::size_t(vc_int(n, lo, hi)); }

// an index inside the extent n
inline std::size_t below(const char* name, std::size_t n)
{
    auto i = std::size_t(vc_int(name, 0, BIG));
    vc_assume(i < n);
    return i;
}

// lazily evaluated arrays with arbitrary shape and arbitrary contents
inline auto array1(const char* f, std::size_t n)
{
    return nd::make_array([f] (auto i) { return vc_uf(f, 1, long(i[0])); }, nd::make_shape(n));
}
inline auto array2(const char* f, std::size_t n, std::size_t m)
{
    return nd::make_array([f] (auto i) { return vc_uf(f, 2, long(i[0]), long(i[1])); }, nd::make_shape(n, m));
}
inline auto array3(const char* f, std::size_t n, std::size_t m, std::size_t l)
{
    return nd::make_array([f] (auto i) { return vc_uf(f, 3, long(i[0]), long(i[1]), long(i[2])); }, nd::make_shape(n, m, l));
}
}
