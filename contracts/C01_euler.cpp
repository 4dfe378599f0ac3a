// Conserved <-> primitive conversions, ideal gas (physics_euler.hpp)
#include "gas.hpp"
using namespace mara;
using namespace spec;

VC_PROOF(euler_prim_cons_prim)
{
    auto P = euler_state();
    auto g = gamma_index();
    auto U = P.to_conserved_density(g);
    auto Q = euler::recover_primitive(U, g, 0.0);
    vc_assert_eq("mass_density", Q[0], P[0]);
    vc_assert_eq("velocity_1", Q[1], P[1]);
    vc_assert_eq("velocity_2", Q[2], P[2]);
    vc_assert_eq("velocity_3", Q[3], P[3]);
    vc_assert_eq("gas_pressure", Q[4], P[4]);
}
VC_PROOF(euler_cons_prim_cons)
{
    euler::conserved_density_t U;
    U[0] = pos("U0"); U[1] = real("U1"); U[2] = real("U2"); U[3] = real("U3"); U[4] = real("U4");
    auto g = gamma_index();
    auto P = euler::recover_primitive(U, g, 0.0);
    auto V = P.to_conserved_density(g);
    for (int i = 0; i < 5; ++i) vc_assert_eq("U", V[i].value, U[i].value);
}
// the conserved densities are the mass, momentum and total energy of the state
VC_PROOF(euler_conserved_meaning)
{
    auto P = euler_state();
    auto g = gamma_index();
    auto U = P.to_conserved_density(g);
    vc_assert_eq("mass", U[0].value, P.mass_density());
    vc_assert_eq("momentum_1", U[1].value, P.mass_density() * P.velocity_1());
    vc_assert_eq("momentum_2", U[2].value, P.mass_density() * P.velocity_2());
    vc_assert_eq("momentum_3", U[3].value, P.mass_density() * P.velocity_3());
    auto e_int = P.gas_pressure() / (g - 1);
    auto e_kin = 0.5 * (U[1].value * U[1].value + U[2].value * U[2].value + U[3].value * U[3].value) / U[0].value;
    vc_assert_eq("energy", U[4].value, e_kin + e_int);
    vc_assert_eq("enthalpy", P.enthalpy_density(g), e_int + P.gas_pressure());
    vc_assert_eq("specific_enthalpy", P.specific_enthalpy(g) * P.mass_density(), P.enthalpy_density(g));
}
// with a temperature floor, physical states come back unchanged and the
// recovered temperature of an unphysical state is never below the floor
VC_PROOF(euler_temperature_floor)
{
    euler::conserved_density_t U;
    U[0] = pos("U0"); U[1] = real("U1"); U[2] = real("U2"); U[3] = real("U3"); U[4] = real("U4");
    auto g = gamma_index();
    auto T = pos("floor", 1e-3, 2.0);
    auto P = euler::recover_primitive(U, g, 0.0);
    auto Q = euler::recover_primitive(U, g, T);
    for (int i = 0; i < 4; ++i) vc_assert_eq("density_and_velocity_unaffected", Q[i], P[i]);
    auto pf = T * U[0].value;
    vc_assert_eq("pressure_is_max", Q[4], P[4] > pf ? P[4] : pf);
}
