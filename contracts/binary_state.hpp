// Arbitrary solutions of the circumbinary disk code (one block or four, of 1 x 2 zones)
#pragma once
namespace {
double number(const char* f, int k) { return vc_uf(f, 1, long(k)); }
template<typename T> nd::shared_array<T, 2> block(const char* f, int at)
{
    auto a = nd::make_unique_array<T>(1, 2);
    for (int j = 0; j < 2; ++j) for (int q = 0; q < 3; ++q) reinterpret_cast<double*>(&a(0, j))[q] = number(f, at * 6 + j * 3 + q);
    return std::move(a).shared();
}
template<typename T> quad_tree_t<T> blocks(const char* f, int at, bool split)
{
    if (! split) return mara::tree_of<2>(block<T>(f, at));
    mara::arithmetic_sequence_t<quad_tree_t<T>, 4> c;
    for (int n = 0; n < 4; ++n) c[n] = mara::tree_of<2>(block<T>(f, n + 1));
    return quad_tree_t<T>{std::make_shared<mara::arithmetic_sequence_t<quad_tree_t<T>, 4>>(c)};
}
template<typename T> void same_blocks(const char* what, const quad_tree_t<T>& t, const quad_tree_t<T>& u)
{
    vc_assert(what, t.__impl.index() == u.__impl.index());
    if (t.__impl.index() == 1)
    {
        for (int n = 0; n < 4; ++n) same_blocks(what, (*std::get<1>(t.__impl))[n], (*std::get<1>(u.__impl))[n]);
        return;
    }
    auto a = std::get<0>(t.__impl), b = std::get<0>(u.__impl);
    vc_assert(what, b.shape(0) == 1 && b.shape(1) == 2);
    for (int j = 0; j < 2; ++j) for (int q = 0; q < 3; ++q)
        vc_assert_eq(what, reinterpret_cast<const double*>(&b(0, j))[q], reinterpret_cast<const double*>(&a(0, j))[q]);
}
// plain structures of doubles
template<typename T> void fill(T& x, const char* f, int at)
{
    static_assert(sizeof(T) % 8 == 0);
    for (std::size_t k = 0; k < sizeof(T) / 8; ++k) reinterpret_cast<double*>(&x)[k] = number(f, at + int(k));
}
template<typename T> void same_numbers(const char* what, const T& x, const T& y)
{
    for (std::size_t k = 0; k < sizeof(T) / 8; ++k) vc_assert_eq(what, reinterpret_cast<const double*>(&x)[k], reinterpret_cast<const double*>(&y)[k]);
}
}
namespace {
void fill_solution(binary::solution_t& x)
{
    bool split = vc_choose("split", 0, 1);
    x.time.value = real("time");
    x.iteration = mara::make_rational(7, 2);
    x.conserved_u = blocks<cons2>("u", 0, split);
    x.conserved_q = blocks<consq>("q", 0, split);
    fill(x.mass_accreted_on, "mass accreted", 0);
    fill(x.angular_momentum_accreted_on, "angmom accreted", 0);
    fill(x.integrated_torque_on, "torque", 0);
    fill(x.work_done_on, "work", 0);
    fill(x.mass_ejected, "mass ejected", 0);
    fill(x.angular_momentum_ejected, "angmom ejected", 0);
    fill(x.orbital_elements_acc, "elements acc", 0);
    fill(x.orbital_elements_grav, "elements grav", 0);
    fill(x.orbital_elements, "elements", 0);
}
void same_solution(const binary::solution_t& x, const binary::solution_t& y)
{
    vc_assert_eq("time", y.time.value, x.time.value);
    vc_assert("iteration", y.iteration == x.iteration);
    same_blocks("conserved u", x.conserved_u, y.conserved_u);
    same_blocks("conserved q", x.conserved_q, y.conserved_q);
    same_numbers("mass accreted", x.mass_accreted_on, y.mass_accreted_on);
    same_numbers("angular momentum accreted", x.angular_momentum_accreted_on, y.angular_momentum_accreted_on);
    same_numbers("torque", x.integrated_torque_on, y.integrated_torque_on);
    same_numbers("work", x.work_done_on, y.work_done_on);
    same_numbers("mass ejected", x.mass_ejected, y.mass_ejected);
    same_numbers("angular momentum ejected", x.angular_momentum_ejected, y.angular_momentum_ejected);
    same_numbers("orbital elements acc", x.orbital_elements_acc, y.orbital_elements_acc);
    same_numbers("orbital elements grav", x.orbital_elements_grav, y.orbital_elements_grav);
    same_numbers("orbital elements", x.orbital_elements, y.orbital_elements);
}
}
