// contract of mara::format_tree_index (sampled in C22_files.cpp): level and
// coordinates, with the digits that the number of nodes of the level has
#pragma once
#include <string>
#include "core_tree.hpp"
namespace spec {
template<std::size_t R> std::string name_of(const mara::tree_index_t<R>& i)
{
    int width = 1;
    for (std::size_t n = std::size_t(1) << i.level; n >= 10; n /= 10) ++width;
    auto digits = [] (std::size_t n, int least) { std::string s; do { s.insert(s.begin(), char('0' + n % 10)); n /= 10; } while (n); while (int(s.size()) < least) s.insert(s.begin(), '0'); return s; };
    auto r = digits(i.level, 1);
    for (std::size_t a = 0; a < R; ++a) { r += a == 0 ? ':' : '-'; r += digits(i.coordinates[a], width); }
    return r;
}
}
