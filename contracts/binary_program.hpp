// The driver of the circumbinary disk code (subprog_binary.cpp).  What the other files
// of that code define is declared only: here it stands for its contract (some function
// of its arguments; the contracts themselves are proved in C19)
#pragma once
#define BINARY_SOURCE "subprog_binary.cpp"
#ifndef BINARY_SECOND_SOURCE
#define BINARY_SECOND_SOURCE "subprog_binary_io.cpp"
#endif
#include "binary.hpp"
namespace vc_program {
inline bool fails = false;               // whether a step that is not in safe mode fails
inline int steps = 0, safe_steps = 0;
}
namespace binary {
// a solution is characterised by its time and the mass ejected so far
solution_t advance(const solution_t& s, const solver_data_t&, mara::unit_time<double> dt, bool safe_mode)
{
    if (safe_mode) ++vc_program::safe_steps; else ++vc_program::steps;
    if (! safe_mode && vc_program::fails) throw std::runtime_error("failed");
    auto r = s;
    r.time = s.time + dt;
    r.iteration = s.iteration + 1;
    r.mass_ejected.value = vc_ufr("ejected", 4, s.time.value, s.mass_ejected.value, dt.value, safe_mode ? 1.0 : 0.0);
    return r;
}
solution_t solution_t::operator+(const solution_t& o) const { auto r = *this; r.time = time + o.time; r.iteration = iteration + o.iteration; r.mass_ejected = mass_ejected + o.mass_ejected; return r; }
solution_t solution_t::operator*(mara::rational_number_t k) const { auto r = *this; r.time = time * k.as_double(); r.iteration = iteration * k; r.mass_ejected = mass_ejected * k.as_double(); return r; }
double maximum_timestep(const solution_t& s, const solver_data_t&) { return vc_ufr("time step", 1, s.time.value); }
diagnostic_fields_t diagnostic_fields(const solution_t&, const mara::config_t&) { return {}; }
mara::unit_mass<double> disk_mass(const solution_t& s, const solver_data_t&) { return vc_ufr("disk mass", 1, s.time.value); }
mara::unit_angmom<double> disk_angular_momentum(const solution_t& s, const solver_data_t&) { return vc_ufr("disk angmom", 1, s.time.value); }
solver_data_t create_solver_data(const mara::config_t&) { return {}; }
void set_scheme_globals(const mara::config_t&) {}
}
