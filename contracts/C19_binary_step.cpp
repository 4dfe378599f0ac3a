// The step the disk code takes: size, Runge-Kutta stages, and the retry with a tenth of
// the step in safe mode when a step fails
#include "rbtree.hpp"
#include "hdf5_standin.hpp"
#include "binary_program.hpp"
using namespace spec;
namespace {
double ejected(double t, double m, double dt, bool safe) { return vc_ufr("ejected", 4, t, m, dt, safe ? 1.0 : 0.0); }
}
VC_PROOF(program_step)
{
    solution_t s;
    solver_data_t d;
    s.time.value = real("time");
    s.mass_ejected.value = real("ejected so far");
    s.iteration = 5;
    double cfl = d.cfl_number = pos("cfl");
    d.recommended_time_step.value = pos("recommended");
    d.fixed_dt = vc_bool("fixed dt");
    d.rk_order = int(vc_choose("rk_order", 1, 2));
    vc_program::fails = vc_bool("fails");
    vc_program::steps = vc_program::safe_steps = 0;
    auto r = binary::next_solution(s, d);
    bool safe = vc_program::fails;
    double t = s.time.value, m = s.mass_ejected.value;
    double dt = (d.fixed_dt ? d.recommended_time_step.value : cfl * vc_ufr("time step", 1, t)) * (safe ? 0.1 : 1.0);
    vc_assert_eq("time", r.time.value, t + dt);
    vc_assert("iteration", r.iteration == mara::make_rational(6, 1));
    auto m1 = ejected(t, m, dt, safe), m2 = ejected(t + dt, m1, dt, safe);
    vc_assert_eq("state", r.mass_ejected.value, d.rk_order == 1 ? m1 : 0.5 * m + 0.5 * m2);
    vc_assert("steps", vc_program::safe_steps == (safe ? d.rk_order : 0) && vc_program::steps == (safe ? 1 : d.rk_order));
}
VC_PROOF(bounded_other_orders_are_refused)
{
    solution_t s;
    solver_data_t d;
    vc_program::fails = false;
    for (int order : {-1, 0, 3, 4})
    {
        d.rk_order = order;
        d.cfl_number = d.recommended_time_step.value = 1;
        d.fixed_dt = 1;
        bool refused = false;
        try { binary::next_solution(s, d); } catch (const std::invalid_argument&) { refused = true; }
        vc_assert("refused", refused);
    }
}
