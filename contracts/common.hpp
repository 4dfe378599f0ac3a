// Shared pieces of the contracts.
#pragma once
#include "vc.hpp"
#include "core_geometric.hpp"

namespace spec {

inline double pos(const char* n, double lo = 0.05, double hi = 10.0)
{
    auto x = vc_real(n, lo, hi);
    vc_assume(x > 0);
    return x;
}
inline double real(const char* n, double m = 5.0) { return vc_real(n, -m, m); }

// adiabatic index, 1 < gamma
inline double gamma_index()
{
    auto g = vc_real("gamma", 1.05, 3.0);
    vc_assume(g > 1);
    return g;
}
// 1 < gamma <= 2 (causal relativistic ideal gas)
inline double gamma_index_rel()
{
    auto g = vc_real("gamma", 1.05, 2.0);
    vc_assume(g > 1 && g <= 2);
    return g;
}

// any object satisfying the class invariant of unit_vector_t (squares sum to 1;
// the constructor contract that establishes it is proved under C16)
inline mara::unit_vector_t unit_of(double a, double b, double c)
{
#ifdef VC_NATIVE
    double n = std::sqrt(a * a + b * b + c * c);
    vc_assume(n > 1e-3);
    a /= n; b /= n; c /= n;
    vc_record("n1", a); vc_record("n2", b); vc_record("n3", c);
#else
    vc_assume(a * a + b * b + c * c == 1);
#endif
    double m[3] = {a, b, c};
    mara::unit_vector_t n_;
    static_assert(sizeof(n_) == sizeof(m));
    std::memcpy((void*) &n_, m, sizeof(m));
    return n_;
}
inline mara::unit_vector_t unit3(const char* n = "n")
{
    auto a = vc_real("n1", -1, 1), b = vc_real("n2", -1, 1), c = vc_real("n3", -1, 1);
    return unit_of(a, b, c);
}
inline mara::unit_vector_t unit2()
{
    auto a = vc_real("n1", -1, 1), b = vc_real("n2", -1, 1);
    return unit_of(a, b, 0.0);
}
inline mara::unit_vector_t opposite(const mara::unit_vector_t& n)
{
    double m[3] = {-n.get_n1(), -n.get_n2(), -n.get_n3()};
    mara::unit_vector_t r;
    std::memcpy((void*) &r, m, sizeof(m));
    return r;
}
}
