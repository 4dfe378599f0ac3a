// Symbolic gas states.
#pragma once
#include "common.hpp"
#include "core_rational.hpp"
#include "physics_euler.hpp"
#include "physics_iso2d.hpp"
#include "physics_srhd.hpp"

namespace spec {
using namespace mara;
inline euler::primitive_t euler_state(const char* d, const char* u, const char* v, const char* w, const char* p)
{
    euler::primitive_t P;
    P[0] = pos(d); P[1] = real(u); P[2] = real(v); P[3] = real(w); P[4] = pos(p);
    return P;
}
inline euler::primitive_t euler_state() { return euler_state("d", "u", "v", "w", "p"); }
inline euler::primitive_t euler_left() { return euler_state("dl", "ul", "vl", "wl", "pl"); }
inline euler::primitive_t euler_right() { return euler_state("dr", "ur", "vr", "wr", "pr"); }

inline srhd::primitive_t srhd_state(const char* d, const char* u, const char* v, const char* w, const char* p)
{
    srhd::primitive_t P;
    P[0] = pos(d); P[1] = real(u); P[2] = real(v); P[3] = real(w); P[4] = pos(p);
    return P;
}
inline srhd::primitive_t srhd_state() { return srhd_state("d", "u", "v", "w", "p"); }
inline srhd::primitive_t srhd_left() { return srhd_state("dl", "ul", "vl", "wl", "pl"); }
inline srhd::primitive_t srhd_right() { return srhd_state("dr", "ur", "vr", "wr", "pr"); }

inline iso2d::primitive_t iso2d_state(const char* s, const char* u, const char* v)
{
    iso2d::primitive_t P;
    P[0] = pos(s); P[1] = real(u); P[2] = real(v);
    return P;
}
inline iso2d::primitive_t iso2d_state() { return iso2d_state("s", "u", "v"); }
inline iso2d::primitive_t iso2d_left() { return iso2d_state("sl", "ul", "vl"); }
inline iso2d::primitive_t iso2d_right() { return iso2d_state("sr", "ur", "vr"); }

inline iso2d::location_2d_t location(const char* x, const char* y)
{
    return {{ make_length(real(x)), make_length(real(y)) }};
}
inline iso2d::location_2d_t location_off_origin()
{
    auto x = location("x", "y");
    vc_assume(x[0].value * x[0].value + x[1].value * x[1].value > 0);
#ifdef VC_NATIVE
    vc_assume(x[0].value * x[0].value + x[1].value * x[1].value > 1e-4);
#endif
    return x;
}

// wavespeeds are ordered (lemma, proved wherever it is used)
inline void srhd_ordered(const srhd::primitive_t& P, const unit_vector_t& n, double g)
{
    auto vn = P.beta_along(n), uu = P.gamma_beta_squared(), c2 = P.sound_speed_squared(g);
    vc_lemma("sound is subluminal", c2 > 0 && c2 < 1);
    // Lagrange: |u|^2 = (u.n)^2 + |u x n|^2
    double cx = P[2] * n.get_n3() - P[3] * n.get_n2(), cy = P[3] * n.get_n1() - P[1] * n.get_n3(), cz = P[1] * n.get_n2() - P[2] * n.get_n1();
    double cc = cx * cx + cy * cy + cz * cz;
    vc_lemma("sum of squares", cc >= 0);
    vc_lemma_eq("lagrange", vn * vn * (1 + uu) + cc, uu);
    vc_lemma("normal velocity", vn * vn * (1 + uu) <= uu);
    vc_lemma("normal velocity", vn * vn <= uu / (1 + uu));
    vc_lemma("fluid is subluminal", uu / (1 + uu) < 1);
    auto a = P.wavespeeds(n, g);
    vc_lemma("wavespeeds ordered", a.m.value < a.p.value);
}
}
