// Immutable linked lists of 0 to 3 arbitrary values
#include "common.hpp"
#include <initializer_list>
#include <iterator>
#include "core_linked_list.hpp"
using namespace spec;
namespace {
using list = mara::linked_list_t<double>;
const char* A[4] = {"a0", "a1", "a2", "a3"};
const char* B[4] = {"b0", "b1", "b2", "b3"};
struct model { std::size_t n; double x[8]; };
model some(const char* name, const char** v)
{
    model m;
    m.n = vc_choose(name, 0, 3);
    for (std::size_t i = 0; i < m.n; ++i) m.x[i] = real(v[i]);
    return m;
}
list build(const model& m) { list l; for (std::size_t i = m.n; i-- > 0; ) l = l.prepend(m.x[i]); return l; }
void is(const char* name, list l, const model& m)
{
    std::size_t k = 0;
    for (; ! l.empty() && k < 8; ++k)
    {
        if (k < m.n) vc_assert_eq(name, l.head(), m.x[k]);
        auto t = l.tail();
        l = t;
    }
    vc_assert("number of items", k == m.n);
}
model plus(const model& a, const model& b)
{
    model m = a;
    for (std::size_t i = 0; i < b.n; ++i) m.x[m.n++] = b.x[i];
    return m;
}
}
VC_PROOF(bounded_list_construction)
{
    auto m = some("n", A);
    auto l = build(m);
    is("prepend", l, m);
    is("range", list(m.x, m.x + m.n), m);
    double a = real("p"), b = real("q");
    model two = {2, {a, b}};
    is("initializer list", list{a, b}, two);
    vc_assert("size", l.size() == m.n);
    vc_assert("empty", l.empty() == (m.n == 0));
    std::size_t k = 0;
    for (auto x : l) { vc_assert_eq("iteration", x, m.x[k]); ++k; }
    vc_assert("number of iterations", k == m.n);
}
VC_PROOF(bounded_list_operations)
{
    auto m = some("n", A), o = some("m", B);
    auto l = build(m), k = build(o);
    auto v = real("v");
    model one = {1, {v}};
    is("append", l.append(v), plus(m, one));
    is("prepend", l.prepend(v), plus(one, m));
    is("concat", l.concat(k), plus(m, o));
    model r = m;
    for (std::size_t i = 0; i < m.n; ++i) r.x[i] = m.x[m.n - 1 - i];
    is("reverse", l.reverse(), r);
    is("the list is unchanged", l, m);
    is("the other list is unchanged", k, o);
}
VC_PROOF(bounded_list_comparison)
{
    auto m = some("n", A), o = some("m", B);
    bool same = m.n == o.n;
    for (std::size_t i = 0; i < m.n && i < o.n; ++i) same = same & (m.x[i] == o.x[i]);
    auto l = build(m), k = build(o);
    vc_assert("==", (l == k) == same);
    vc_assert("!=", (l != k) == ! same);
}
VC_PROOF(empty_list_is_refused)
{
    list l;
    int refused = 0;
    try { l.head(); } catch (const std::out_of_range&) { ++refused; }
    try { l.tail(); } catch (const std::out_of_range&) { ++refused; }
    vc_assert("refused", refused == 2);
}
VC_PROOF(list_nodes)
{
    // a list is its head and its tail
    auto m = some("n", A);
    auto l = build(m);
    auto v = real("v");
    auto p = l.prepend(v);
    vc_assert("not empty", ! p.empty());
    vc_assert_eq("head", p.head(), v);
    vc_assert("tail", p.tail() == l);
}
