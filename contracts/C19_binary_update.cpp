// Update of one block of the circumbinary disk code: N x N zones (N = 1, 2), any
// data.  What the sources take from the gas is what the totals record.
#include "binary.hpp"
using namespace spec;
namespace {
double moment(const location_2d_t& x, double fx, double fy) { return x[0].value * fy - x[1].value * fx; }
struct pieces { double grav[2][2], sink[2]; };        // acceleration by and sink rate of either body
pieces at(const setup& z, const location_2d_t& x)
{
    pieces r;
    int k = 0;
    for (auto& m : {z.b.body1, z.b.body2})
    {
        auto g = grav_vdot_field(z.d, point(m.position_x, m.position_y), m.mass)(x);
        r.grav[k][0] = g[0].value; r.grav[k][1] = g[1].value;
        r.sink[k] = sink_rate_field(z.d, point(m.position_x, m.position_y))(x).value;
        ++k;
    }
    return r;
}
}
namespace {
// budget of one conserved quantity: per zone, the source is the sum of its
// parts, and the totals recorded for each part are minus the sums of the part
enum { SINK1, SINK2, GRAV1, GRAV2, BUFFER, PARTS };
template<typename Source, typename Part> void budget(const setup& z, const char* name, Source source, Part part, const double (&recorded)[PARTS])
{
    double sum = 0, parts[PARTS] = {};
    for (long k = 0; k < long(z.n); ++k) for (long l = 0; l < long(z.n); ++l)
    {
        double a = z.dA(k, l), s = vc_bind("s", source(k, l) * a), t = 0;
        for (int p = 0; p < PARTS; ++p)
        {
            auto q = vc_bind("q", part(k, l, p) * a);
            parts[p] += q; t += q;
        }
        vc_lemma_eq(name, s, t);
        sum += s;
    }
    double gain = 0;
    for (int p = 0; p < PARTS; ++p) { auto r = vc_bind("r", recorded[p]); vc_lemma_eq(name, r, -parts[p]); gain += r; }
    vc_assert_eq(name, sum + gain, 0);
}
}
VC_PROOF(bounded_sources_linear_momentum)
{
    auto z = make(std::size_t(vc_choose("zones", 1, MAX)));
    auto [S, T] = source_terms_u(z.d, z.s, z.b, z.p0, z.i, mara::make_time(z.dt));
    auto u = z.s.conserved_u.at(z.i), u0 = z.d.initial_conserved_u.at(z.i); auto br = z.d.buffer_rate_field.at(z.i);
    vc_assert("shape", S.shape(0) == z.n && S.shape(1) == z.n);
    auto part = [&] (long k, long l, int c, int p)
    {
        if (p == BUFFER) return (val(u0(k, l), c) - val(u(k, l), c)) * br(k, l).value * z.dt;
        if (p == SINK1 || p == SINK2) return -val(u(k, l), c) * at(z, z.xc(k, l)).sink[p - SINK1] * z.dt;
        return c == 0 ? 0.0 : val(u(k, l), 0) * at(z, z.xc(k, l)).grav[p - GRAV1][c - 1] * z.dt;
    };
    auto lz = [&] (long k, long l, int p) { return moment(z.xc(k, l), part(k, l, 1, p), part(k, l, 2, p)); };
    for (long k = 0; k < long(z.n); ++k) for (long l = 0; l < long(z.n); ++l) for (int c = 0; c < 3; ++c)
        vc_assert_eq("source", val(S(k, l), c), part(k, l, c, 0) + part(k, l, c, 1) + part(k, l, c, 2) + part(k, l, c, 3) + part(k, l, c, 4));
    for (int m = 0; m < 2; ++m)
    {
        vc_assert_eq("x-momentum accreted", T.momentum_x_accreted_on[m].value, -total(z, [&] (long k, long l) { return part(k, l, 1, SINK1 + m); }));
        vc_assert_eq("y-momentum accreted", T.momentum_y_accreted_on[m].value, -total(z, [&] (long k, long l) { return part(k, l, 2, SINK1 + m); }));
        vc_assert_eq("force along x", T.integrated_force_x_on[m].value, -total(z, [&] (long k, long l) { return part(k, l, 1, GRAV1 + m); }));
        vc_assert_eq("force along y", T.integrated_force_y_on[m].value, -total(z, [&] (long k, long l) { return part(k, l, 2, GRAV1 + m); }));
    }
    budget(z, "mass budget", [&, S=S] (long k, long l) { return val(S(k, l), 0); }, [&] (long k, long l, int p) { return part(k, l, 0, p); },
        {T.mass_accreted_on[0].value, T.mass_accreted_on[1].value, 0, 0, T.mass_ejected.value});
    budget(z, "angular momentum budget", [&, S=S] (long k, long l) { return moment(z.xc(k, l), val(S(k, l), 1), val(S(k, l), 2)); }, lz,
        {T.angular_momentum_accreted_on[0].value, T.angular_momentum_accreted_on[1].value, T.integrated_torque_on[0].value, T.integrated_torque_on[1].value, T.angular_momentum_ejected.value});
}
VC_PROOF(bounded_sources_angular_momentum)
{
    auto z = make(std::size_t(vc_choose("zones", 1, MAX)));
    for (long k = 0; k < long(z.n); ++k) for (long l = 0; l < long(z.n); ++l) { auto x = z.xc(k, l); vc_assume(x[0].value * x[0].value + x[1].value * x[1].value > 0); }
    auto [S, T] = source_terms_q(z.d, z.s, z.b, z.p0, z.i, mara::make_time(z.dt));
    auto q = z.s.conserved_q.at(z.i), q0 = z.d.initial_conserved_q.at(z.i); auto br = z.d.buffer_rate_field.at(z.i);
    vc_assert("shape", S.shape(0) == z.n && S.shape(1) == z.n);
    // per zone: (sigma, radial moment, angular momentum)
    auto part = [&] (long k, long l, int c, int p)
    {
        auto x = z.xc(k, l); auto w = at(z, x);
        if (p == BUFFER) return (val(q0(k, l), c) - val(q(k, l), c)) * br(k, l).value * z.dt;
        if (p == SINK1 || p == SINK2) return -val(q(k, l), c) * w.sink[p - SINK1] * z.dt;
        auto fx = val(q(k, l), 0) * w.grav[p - GRAV1][0] * z.dt, fy = val(q(k, l), 0) * w.grav[p - GRAV1][1] * z.dt;
        return c == 0 ? 0.0 : c == 1 ? x[0].value * fx + x[1].value * fy : moment(x, fx, fy);
    };
    auto geom = [&] (long k, long l, int c)
    {
        auto x = z.xc(k, l); auto r2 = x[0].value * x[0].value + x[1].value * x[1].value, w = z.d.gst_suppr_radius.value;
        return val(z.p0.at(z.i)(k, l).source_terms_conserved_angmom(cs2_at_position(x, z.b, z.d)), c) * (1 - std::exp(-r2 / (w * w))) * z.dt;
    };
    for (long k = 0; k < long(z.n); ++k) for (long l = 0; l < long(z.n); ++l) for (int c = 0; c < 3; ++c)
        vc_assert_eq("source", val(S(k, l), c), part(k, l, c, 0) + part(k, l, c, 1) + part(k, l, c, 2) + part(k, l, c, 3) + part(k, l, c, 4) + geom(k, l, c));
    budget(z, "mass budget", [&, S=S] (long k, long l) { return val(S(k, l), 0); }, [&] (long k, long l, int p) { return part(k, l, 0, p); },
        {T.mass_accreted_on[0].value, T.mass_accreted_on[1].value, 0, 0, T.mass_ejected.value});
    budget(z, "angular momentum budget", [&, S=S] (long k, long l) { return val(S(k, l), 2); }, [&] (long k, long l, int p) { return part(k, l, 2, p); },
        {T.angular_momentum_accreted_on[0].value, T.angular_momentum_accreted_on[1].value, T.integrated_torque_on[0].value, T.integrated_torque_on[1].value, T.angular_momentum_ejected.value});
    for (int m = 0; m < 2; ++m)
    {
        auto force = [&] (long k, long l, int c) { return val(q(k, l), 0) * at(z, z.xc(k, l)).grav[m][c] * z.dt; };
        vc_assert_eq("force along x", T.integrated_force_x_on[m].value, -total(z, [&] (long k, long l) { return force(k, l, 0); }));
        vc_assert_eq("force along y", T.integrated_force_y_on[m].value, -total(z, [&] (long k, long l) { return force(k, l, 1); }));
        // linear momentum of (r p_r, L_z): p = (r p_r x + L y') / r^2
        auto px = [&] (long k, long l) { auto x = z.xc(k, l); auto a = x[0].value, b = x[1].value; return (a * part(k, l, 1, SINK1 + m) - b * part(k, l, 2, SINK1 + m)) / (a * a + b * b); };
        auto py = [&] (long k, long l) { auto x = z.xc(k, l); auto a = x[0].value, b = x[1].value; return (b * part(k, l, 1, SINK1 + m) + a * part(k, l, 2, SINK1 + m)) / (a * a + b * b); };
        vc_assert_eq("x-momentum accreted", T.momentum_x_accreted_on[m].value, -total(z, px));
        vc_assert_eq("y-momentum accreted", T.momentum_y_accreted_on[m].value, -total(z, py));
    }
}
