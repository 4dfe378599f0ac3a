// Linear structure of the adiabatic gas equations: flux Jacobian and its
// eigensystem, and the Roe average
#include "gas.hpp"
using namespace mara;
using namespace spec;

static double num(double x) { return x; }
template<typename D> static double num(D x) { return x.value; }

// derivative at e = 0 of a polynomial of degree <= 4 from five exact samples
template<typename F> static double slope(F f) { return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / 12; }

// the Jacobian maps any variation of the conserved state to the variation of
// the flux; both variations are taken from to_conserved_density and flux
VC_PROOF(jacobian_is_derivative_of_flux)
{
    auto P = euler_state(); auto g = gamma_index();
    euler::primitive_t D;
    D[0] = real("dd"); D[1] = real("du"); D[2] = real("dv"); D[3] = real("dw"); D[4] = real("dp");
    auto at = [&] (double e) { euler::primitive_t Q; for (int i = 0; i < 5; ++i) Q[i] = P[i] + e * D[i]; return Q; };
    auto n = unit_vector_t::on_axis(0);
    auto A = P.flux_jacobian(g);
    double dU[5], dF[5];
    for (int i = 0; i < 5; ++i)
    {
        dU[i] = slope([&] (double e) { return at(e).to_conserved_density(g)[i].value; });
        dF[i] = slope([&] (double e) { return at(e).flux(n, g)[i].value; });
    }
    for (int i = 0; i < 5; ++i)
    {
        double s = 0;
        for (int j = 0; j < 5; ++j) s = s + num(A(i, j)) * dU[j];
        vc_assert_eq("A dU = dF", s, dF[i]);
    }
}
VC_PROOF(eigenvectors)
{
    auto P = euler_state(); auto g = gamma_index();
    auto A = P.flux_jacobian(g);
    auto E = P.eigenvalues(g);
    auto R = P.right_eigenvectors(g);
    auto L = P.left_eigenvectors(g);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 5; ++j)
        {
            double ar = 0, lr = 0, la = 0, rl = 0;
            for (int k = 0; k < 5; ++k)
            {
                ar = ar + num(A(i, k)) * num(R(k, j));
                lr = lr + num(L(i, k)) * num(R(k, j));
                rl = rl + num(R(i, k)) * num(L(k, j));
            }
            vc_assert_eq("A R = R E", ar, num(R(i, j)) * num(E(j, j)));
            vc_assert_eq("L R = 1", lr, i == j ? 1.0 : 0.0);
            vc_assert_eq("R L = 1", rl, i == j ? 1.0 : 0.0);
            if (i != j) vc_assert_eq("E diagonal", num(E(i, j)), 0.0);
        }
}
VC_PROOF(eigenvalues_are_signal_speeds)
{
    auto P = euler_state(); auto g = gamma_index();
    auto E = P.eigenvalues(g);
    auto w = P.wavespeeds(unit_vector_t::on_axis(0), g);
    vc_assert_eq("u-a", num(E(0, 0)), w.m.value);
    vc_assert_eq("u", num(E(1, 1)), P[1]);
    vc_assert_eq("u", num(E(2, 2)), P[1]);
    vc_assert_eq("u", num(E(3, 3)), P[1]);
    vc_assert_eq("u+a", num(E(4, 4)), w.p.value);
    auto sys = P.eigensystem(g);
    auto R = P.right_eigenvectors(g); auto L = P.left_eigenvectors(g);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 5; ++j)
        {
            vc_assert_eq("eigensystem().0", num(std::get<0>(sys)(i, j)), num(E(i, j)));
            vc_assert_eq("eigensystem().1", num(std::get<1>(sys)(i, j)), num(R(i, j)));
            vc_assert_eq("eigensystem().2", num(std::get<2>(sys)(i, j)), num(L(i, j)));
        }
}
VC_PROOF(euler_roe_average)
{
    auto Pl = euler_left(), Pr = euler_right();
    auto Q = euler::roe_average(Pl, Pr), S = euler::roe_average(Pr, Pl);
    for (int i = 0; i < 5; ++i)
    {
        vc_assert_eq("symmetric", Q[i], S[i]);
        vc_assert("between", Q[i] >= std::min(Pl[i], Pr[i]) && Q[i] <= std::max(Pl[i], Pr[i]));
        double kl = std::sqrt(Pl[0]), kr = std::sqrt(Pr[0]);
        vc_assert_eq("weighted by root density", Q[i] * (kl + kr), Pl[i] * kl + Pr[i] * kr);
    }
    auto T = euler::roe_average(Pl, Pl);
    for (int i = 0; i < 5; ++i) vc_assert_eq("consistent", T[i], Pl[i]);
}
VC_PROOF(iso2d_roe_average)
{
    auto Pl = iso2d_left(), Pr = iso2d_right();
    auto Q = iso2d::roe_average(Pl, Pr), S = iso2d::roe_average(Pr, Pl);
    for (int i = 0; i < 3; ++i)
    {
        vc_assert_eq("symmetric", Q[i], S[i]);
        vc_assert("between", Q[i] >= std::min(Pl[i], Pr[i]) && Q[i] <= std::max(Pl[i], Pr[i]));
        double kl = std::sqrt(Pl[0]), kr = std::sqrt(Pr[0]);
        vc_assert_eq("weighted by root density", Q[i] * (kl + kr), Pl[i] * kl + Pr[i] * kr);
    }
    auto T = iso2d::roe_average(Pl, Pl);
    for (int i = 0; i < 3; ++i) vc_assert_eq("consistent", T[i], Pl[i]);
}
// documented: A(Q) (Ur - Ul) = F(Ur) - F(Ul)
VC_PROOF(euler_roe_property)
{
    auto Pl = euler_left(), Pr = euler_right(); auto g = gamma_index();
    auto Q = euler::roe_average(Pl, Pr);
    auto A = Q.flux_jacobian(g);
    auto n = unit_vector_t::on_axis(0);
    auto Ul = Pl.to_conserved_density(g), Ur = Pr.to_conserved_density(g);
    auto Fl = Pl.flux(n, g), Fr = Pr.flux(n, g);
    for (int i = 0; i < 5; ++i)
    {
        double s = 0;
        for (int j = 0; j < 5; ++j) s = s + num(A(i, j)) * (Ur[j] - Ul[j]).value;
        vc_assert_eq(i == 4 ? "energy row" : "other rows", s, (Fr[i] - Fl[i]).value);
    }
}
