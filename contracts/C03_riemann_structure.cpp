// Mirror symmetry, upwinding and wave structure of the Riemann solvers
#include "gas.hpp"
using namespace mara;
using namespace spec;

// exchanging the states and reversing the face normal reverses the flux: the
// two cells sharing a face see equal and opposite fluxes
VC_PROOF(euler_hlle_mirror)
{
    auto Pl = euler_left(), Pr = euler_right(); auto g = gamma_index(); auto n = unit3();
    auto F = euler::riemann_hlle(Pl, Pr, n, g);
    auto G = euler::riemann_hlle(Pr, Pl, opposite(n), g);
    for (int i = 0; i < 5; ++i) vc_assert_eq("F(l,r,n)=-F(r,l,-n)", F[i].value, -G[i].value);
}
// (for the relativistic solver the same follows from srhd_hlle_formula, the odd parity of flux and
// wavespeeds in the normal, and this identity)
VC_PROOF(srhd_parity)
{
    auto P = srhd_state(); auto g = gamma_index_rel(); auto n = unit3(); auto m = opposite(n);
    srhd_ordered(P, n, g);
    auto a = P.wavespeeds(n, g), b = P.wavespeeds(m, g);
    vc_assert_eq("m", a.m.value, -b.p.value);
    vc_assert_eq("p", a.p.value, -b.m.value);
    auto F = P.flux(n, g), G = P.flux(m, g);
    for (int i = 0; i < 5; ++i) vc_assert_eq("flux", F[i].value, -G[i].value);
}
VC_PROOF(hlle_mirror_identity)
{
    double al_m = real("al_m"), al_p = real("al_p"), ar_m = real("ar_m"), ar_p = real("ar_p");
    vc_assume(al_m < al_p && ar_m < ar_p);
    double Ul = real("Ul"), Ur = real("Ur"), Fl = real("Fl"), Fr = real("Fr");
    auto hlle = [] (double Ul, double Ur, double Fl, double Fr, double alm, double alp, double arm, double arp)
    {
        double am = std::min(0.0, std::min(alm, arm)), ap = std::max(0.0, std::max(alp, arp));
        return (ap * Fl - am * Fr + ap * am * (Ur - Ul)) / (ap - am);
    };
    vc_assert_eq("identity", hlle(Ul, Ur, Fl, Fr, al_m, al_p, ar_m, ar_p), -hlle(Ur, Ul, -Fr, -Fl, -ar_p, -ar_m, -al_p, -al_m));
}
VC_PROOF(iso2d_hlle_mirror)
{
    auto Pl = iso2d_left(), Pr = iso2d_right(); auto cl = pos("cl2"), cr = pos("cr2"); auto n = unit2();
    auto F = iso2d::riemann_hlle(Pl, Pr, cl, cr, n);
    auto G = iso2d::riemann_hlle(Pr, Pl, cr, cl, opposite(n));
    vc_assert_eq("sigma", mara::get<0>(F).value, -mara::get<0>(G).value);
    vc_assert_eq("px", mara::get<1>(F).value, -mara::get<1>(G).value);
    vc_assert_eq("py", mara::get<2>(F).value, -mara::get<2>(G).value);
}
// HLLE weights: with a- = min(0, all speeds), a+ = max(0, all speeds)
VC_PROOF(euler_hlle_formula)
{
    auto Pl = euler_left(), Pr = euler_right(); auto g = gamma_index(); auto n = unit3();
    auto F = euler::riemann_hlle(Pl, Pr, n, g);
    auto Ul = Pl.to_conserved_density(g), Ur = Pr.to_conserved_density(g);
    auto Fl = Pl.flux(n, g), Fr = Pr.flux(n, g);
    auto al = Pl.wavespeeds(n, g), ar = Pr.wavespeeds(n, g);
    double am = std::min(0.0, std::min(al.m.value, ar.m.value));
    double ap = std::max(0.0, std::max(al.p.value, ar.p.value));
    for (int i = 0; i < 5; ++i)
        vc_assert_eq("hlle", F[i].value * (ap - am), ap * Fl[i].value - am * Fr[i].value + ap * am * (Ur[i].value - Ul[i].value));
}
VC_PROOF(srhd_hlle_formula)
{
    auto Pl = srhd_left(), Pr = srhd_right(); auto g = gamma_index_rel(); auto n = unit3();
    srhd_ordered(Pl, n, g); srhd_ordered(Pr, n, g);
    auto F = srhd::riemann_hlle(Pl, Pr, n, g);
    auto Ul = Pl.to_conserved_density(g), Ur = Pr.to_conserved_density(g);
    auto Fl = Pl.flux(n, g), Fr = Pr.flux(n, g);
    auto al = Pl.wavespeeds(n, g), ar = Pr.wavespeeds(n, g);
    double am = std::min(0.0, std::min(al.m.value, ar.m.value));
    double ap = std::max(0.0, std::max(al.p.value, ar.p.value));
    for (int i = 0; i < 5; ++i)
        vc_assert_eq("hlle", F[i].value * (ap - am), ap * Fl[i].value - am * Fr[i].value + ap * am * (Ur[i].value - Ul[i].value));
}
VC_PROOF(iso2d_hlle_formula)
{
    auto Pl = iso2d_left(), Pr = iso2d_right(); auto cl = pos("cl2"), cr = pos("cr2"); auto n = unit2();
    auto F = iso2d::riemann_hlle(Pl, Pr, cl, cr, n);
    auto Ul = Pl.to_conserved_per_area(), Ur = Pr.to_conserved_per_area();
    auto Fl = Pl.flux(n, cl), Fr = Pr.flux(n, cr);
    auto al = Pl.wavespeeds(n, cl), ar = Pr.wavespeeds(n, cr);
    double am = std::min(0.0, std::min(al.m.value, ar.m.value));
    double ap = std::max(0.0, std::max(al.p.value, ar.p.value));
    vc_assert_eq("sigma", mara::get<0>(F).value * (ap - am), ap * mara::get<0>(Fl).value - am * mara::get<0>(Fr).value + ap * am * (mara::get<0>(Ur).value - mara::get<0>(Ul).value));
    vc_assert_eq("px", mara::get<1>(F).value * (ap - am), ap * mara::get<1>(Fl).value - am * mara::get<1>(Fr).value + ap * am * (mara::get<1>(Ur).value - mara::get<1>(Ul).value));
    vc_assert_eq("py", mara::get<2>(F).value * (ap - am), ap * mara::get<2>(Fl).value - am * mara::get<2>(Fr).value + ap * am * (mara::get<2>(Ur).value - mara::get<2>(Ul).value));
}
// supersonic flow: pure upwinding
VC_PROOF(euler_hlle_upwind)
{
    auto Pl = euler_left(), Pr = euler_right(); auto g = gamma_index(); auto n = unit3();
    auto al = Pl.wavespeeds(n, g), ar = Pr.wavespeeds(n, g);
    auto F = euler::riemann_hlle(Pl, Pr, n, g);
    auto Fl = Pl.flux(n, g), Fr = Pr.flux(n, g);
    auto right = vc_bool("rightgoing");
    if (right) vc_assume(al.m.value > 0 && ar.m.value > 0);
    else       vc_assume(al.p.value < 0 && ar.p.value < 0);
    for (int i = 0; i < 5; ++i) vc_assert_eq("upwind", F[i].value, right ? Fl[i].value : Fr[i].value);
}
// (relativistic: srhd_hlle_formula and this identity)
VC_PROOF(hlle_upwind_identity)
{
    double al_m = real("al_m"), al_p = real("al_p"), ar_m = real("ar_m"), ar_p = real("ar_p"), F = real("F");
    vc_assume(al_m < al_p && ar_m < ar_p);
    double Ul = real("Ul"), Ur = real("Ur"), Fl = real("Fl"), Fr = real("Fr");
    double am = std::min(0.0, std::min(al_m, ar_m)), ap = std::max(0.0, std::max(al_p, ar_p));
#ifdef VC_NATIVE
    F = (ap * Fl - am * Fr + ap * am * (Ur - Ul)) / (ap - am);
#endif
    vc_assume(F * (ap - am) == ap * Fl - am * Fr + ap * am * (Ur - Ul));
    auto right = vc_bool("rightgoing");
    if (right) vc_assume(al_m > 0 && ar_m > 0);
    else       vc_assume(al_p < 0 && ar_p < 0);
    vc_assert_eq("upwind", F, right ? Fl : Fr);
}
VC_PROOF(iso2d_hllc_mirror)
{
    auto Pl = iso2d_left(), Pr = iso2d_right(); auto cl = pos("cl2"), cr = pos("cr2"); auto n = unit2();
    auto V = iso2d::compute_hllc_variables(Pl, Pr, cl, cr, n);
    auto W = iso2d::compute_hllc_variables(Pr, Pl, cr, cl, opposite(n));
    vc_assert_eq("sstar", V.sstar, -W.sstar);
    vc_assert_eq("sl", V.sl, -W.sr);
    vc_assert_eq("sr", V.sr, -W.sl);
    // the fan is ordered and no wave is exactly stationary
    vc_assume(V.sl < V.sstar && V.sstar < V.sr);
    vc_assume(V.sstar != 0 && V.sl != 0 && V.sr != 0);
    auto F = iso2d::riemann_hllc(Pl, Pr, cl, cr, n);
    auto G = iso2d::riemann_hllc(Pr, Pl, cr, cl, opposite(n));
    vc_assert_eq("sigma", mara::get<0>(F).value, -mara::get<0>(G).value);
    vc_assert_eq("px", mara::get<1>(F).value, -mara::get<1>(G).value);
    vc_assert_eq("py", mara::get<2>(F).value, -mara::get<2>(G).value);
}
// the fan is ordered, encloses both fluid velocities
VC_PROOF(iso2d_hllc_wave_order)
{
    auto Pl = iso2d_left(), Pr = iso2d_right(); auto cl = pos("cl2"), cr = pos("cr2"); auto n = unit2();
    auto V = iso2d::compute_hllc_variables(Pl, Pr, cl, cr, n);
    vc_assert("sl < ul", V.sl < V.ul);
    vc_assert("sr > ur", V.sr > V.ur);
    vc_assert("sl <= ul - al", V.sl <= Pl.wavespeeds(n, cl).m.value);
    vc_assert("sr >= ur + ar", V.sr >= Pr.wavespeeds(n, cr).p.value);
}
VC_PROOF(iso2d_hllc_states)
{
    auto Pl = iso2d_left(), Pr = iso2d_right(); auto cl = pos("cl2"), cr = pos("cr2"); auto n = unit2();
    auto V = iso2d::compute_hllc_variables(Pl, Pr, cl, cr, n);
    auto Ul = Pl.to_conserved_per_area(); auto Fl = Pl.flux(n, cl);
    vc_assert_eq("ul", V.ul, Pl.velocity_along(n));
    vc_assert_eq("ur", V.ur, Pr.velocity_along(n));
    vc_assert_eq("Fl0", mara::get<0>(V.Fl()).value, mara::get<0>(Fl).value);
    vc_assert_eq("Fl1", mara::get<1>(V.Fl()).value, mara::get<1>(Fl).value);
    vc_assert_eq("Fl2", mara::get<2>(V.Fl()).value, mara::get<2>(Fl).value);
    vc_assert_eq("Ul1", mara::get<1>(V.Ul()).value, mara::get<1>(Ul).value);
    auto Fr = Pr.flux(n, cr);
    vc_assert_eq("Fr0", mara::get<0>(V.Fr()).value, mara::get<0>(Fr).value);
    vc_assert_eq("Fr1", mara::get<1>(V.Fr()).value, mara::get<1>(Fr).value);
    vc_assert_eq("Fr2", mara::get<2>(V.Fr()).value, mara::get<2>(Fr).value);
    vc_assume(V.sl < V.sstar && V.sstar < V.sr);
    auto Us = V.Ul_star(), Ws = V.Ur_star();
    // both star states move with the contact
    vc_assert_eq("left star normal velocity", (mara::get<1>(Us) * n.get_n1() + mara::get<2>(Us) * n.get_n2()).value, V.sstar * mara::get<0>(Us).value);
    vc_assert_eq("right star normal velocity", (mara::get<1>(Ws) * n.get_n1() + mara::get<2>(Ws) * n.get_n2()).value, V.sstar * mara::get<0>(Ws).value);
}
