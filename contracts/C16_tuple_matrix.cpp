// Tuples, matrices, dimensional values, unit vectors
#include "common.hpp"
#include <tuple>
#include "core_tuple.hpp"
#include "core_matrix.hpp"
#include "core_dimensional.hpp"
#include "core_geometric.hpp"
using namespace spec;
namespace {
using mass = mara::unit_mass<double>;
using length_t = mara::unit_length<double>;
struct pair_t : mara::derivable_tuple_t<pair_t, mass, double> {};
const char* M_[6] = {"m0", "m1", "m2", "m3", "m4", "m5"};
const char* K_[6] = {"k0", "k1", "k2", "k3", "k4", "k5"};
template<std::size_t R, std::size_t C> auto some_matrix(const char** n)
{
    mara::matrix_t<double, R, C> m;
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = real(n[i * C + j]);
    return m;
}
}
VC_PROOF(tuple_arithmetic)
{
    auto a = mara::make_arithmetic_tuple(mass(real("a0")), real("a1"));
    auto b = mara::make_arithmetic_tuple(mass(real("b0")), real("b1"));
    double c = real("c");
    vc_assume(c != 0);
    auto a0 = mara::get<0>(a).value, a1 = mara::get<1>(a), b0 = mara::get<0>(b).value, b1 = mara::get<1>(b);
    auto add = a + b, sub = a - b, mul = a * c, div = a / c, neg = -a;
    vc_assert_eq("+ (0)", mara::get<0>(add).value, a0 + b0);
    vc_assert_eq("+ (1)", mara::get<1>(add), a1 + b1);
    vc_assert_eq("- (0)", mara::get<0>(sub).value, a0 - b0);
    vc_assert_eq("- (1)", mara::get<1>(sub), a1 - b1);
    vc_assert_eq("* (0)", mara::get<0>(mul).value, a0 * c);
    vc_assert_eq("* (1)", mara::get<1>(mul), a1 * c);
    vc_assert_eq("/ (0)", mara::get<0>(div).value, a0 / c);
    vc_assert_eq("/ (1)", mara::get<1>(div), a1 / c);
    vc_assert_eq("unary - (0)", mara::get<0>(neg).value, -a0);
    vc_assert_eq("unary - (1)", mara::get<1>(neg), -a1);
    auto le = a <= b;
    vc_assert("<= (0)", mara::get<0>(le) == (a0 <= b0));
    vc_assert("<= (1)", mara::get<1>(le) == (a1 <= b1));
    auto eq = (a == b).to_sequence();
    vc_assert("== (0)", eq[0] == (a0 == b0));
    vc_assert("== (1)", eq[1] == (a1 == b1));
    auto s = a.set<1>(c);
    vc_assert_eq("set (0)", mara::get<0>(s).value, a0);
    vc_assert_eq("set (1)", mara::get<1>(s), c);
    auto d = mara::make_arithmetic_tuple(a1, b1) * mara::make_arithmetic_tuple(c, a0);
    vc_assert_eq("* tuple (0)", mara::get<0>(d), a1 * c);
    vc_assert_eq("* tuple (1)", mara::get<1>(d), b1 * a0);
    auto m = mara::make_arithmetic_tuple(a1, b1).map([] (double x) { return vc_ufr("f", 1, x); });
    vc_assert_eq("map (0)", mara::get<0>(m), vc_ufr("f", 1, a1));
    vc_assert_eq("map (1)", mara::get<1>(m), vc_ufr("f", 1, b1));
    auto q = mara::make_arithmetic_tuple(a1, b1).to_sequence();
    vc_assert("to_sequence", q.size() == 2 && q[0] == a1 && q[1] == b1);
    pair_t x{{a}}, y{{b}};
    auto z = x + y, w = x - y, v = x * c, u = x / c, n = -x;
    vc_assert_eq("derived + (0)", mara::get<0>(z.__impl).value, a0 + b0);
    vc_assert_eq("derived + (1)", mara::get<1>(z.__impl), a1 + b1);
    vc_assert_eq("derived - (0)", mara::get<0>(w.__impl).value, a0 - b0);
    vc_assert_eq("derived - (1)", mara::get<1>(w.__impl), a1 - b1);
    vc_assert_eq("derived * (0)", mara::get<0>(v.__impl).value, a0 * c);
    vc_assert_eq("derived / (1)", mara::get<1>(u.__impl), a1 / c);
    bool same = a0 == b0 && a1 == b1;
    vc_assert("derived ==", x.operator==(y) == same);
    vc_assert("derived !=", x.operator!=(y) == ! same);
    vc_assert_eq("derived unary - (0)", mara::get<0>(n.__impl).value, -a0);
}
VC_PROOF(matrix_arithmetic)
{
    auto a = some_matrix<2, 3>(M_), b = some_matrix<2, 3>(K_);
    double c = real("c");
    vc_assume(c != 0);
    auto add = a + b, sub = a - b, mul = a * c, div = a / c;
    bool same = true;
    for (std::size_t i = 0; i < 2; ++i)
        for (std::size_t j = 0; j < 3; ++j)
        {
            vc_assert_eq("+", add(i, j), a(i, j) + b(i, j));
            vc_assert_eq("-", sub(i, j), a(i, j) - b(i, j));
            vc_assert_eq("* scalar", mul(i, j), a(i, j) * c);
            vc_assert_eq("/ scalar", div(i, j), a(i, j) / c);
            same = same & (a(i, j) == b(i, j));
        }
    vc_assert("==", (a == b) == same);
    vc_assert("!=", (a != b) == ! same);
}
VC_PROOF(matrix_product)
{
    auto a = some_matrix<2, 3>(M_);
    auto b = some_matrix<3, 2>(K_);
    auto p = a * b, q = mara::matrix_product(a, b);
    for (std::size_t i = 0; i < 2; ++i)
        for (std::size_t j = 0; j < 2; ++j)
        {
            vc_assert_eq("product", p(i, j), a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j));
            vc_assert_eq("matrix_product", q(i, j), p(i, j));
        }
    auto I = mara::identity_matrix<double, 3>();
    auto aI = a * I;
    auto Z = mara::zero_matrix<double, 2, 3>();
    auto x = real("x"), y = real("y"), z = real("z");
    auto D = mara::diagonal_matrix<double>(x, y, z);
    for (std::size_t i = 0; i < 2; ++i)
        for (std::size_t j = 0; j < 3; ++j)
        {
            vc_assert_eq("identity", aI(i, j), a(i, j));
            vc_assert_eq("zero", Z(i, j), 0.0);
        }
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j)
            vc_assert_eq("diagonal", D(i, j), i != j ? 0.0 : i == 0 ? x : i == 1 ? y : z);
}
VC_PROOF(dimensional_arithmetic)
{
    double x = real("x"), y = real("y"), c = real("c");
    vc_assume(y != 0 && c != 0);
    auto a = mara::make_mass(x), b = mara::make_mass(y);
    auto l = mara::make_length(y);
    vc_assert_eq("+", (a + b).value, x + y);
    vc_assert_eq("-", (a - b).value, x - y);
    vc_assert_eq("* scalar", (a * c).value, x * c);
    vc_assert_eq("/ scalar", (a / c).value, x / c);
    vc_assert_eq("ratio", a / b, x / y);
    vc_assert_eq("*", (a * l).value, x * y);
    vc_assert_eq("/", (a / l).value, x / y);
    vc_assert_eq("unary -", (-a).value, -x);
    vc_assert_eq("square", l.pow<2>().value, y * y);
    vc_assert_eq("cube", l.pow<3>().value, y * y * y);
    vc_assert_eq("inverse", l.pow<-1>().value * y, 1.0);
    auto sq = l.pow<2>();
    vc_assert_eq("square root", sq.pow<1, 2>().value * sq.pow<1, 2>().value, y * y);
    auto s = a; s += b;
    vc_assert_eq("+=", s.value, x + y);
    s = a; s -= b;
    vc_assert_eq("-=", s.value, x - y);
    vc_assert("==", (a == b) == (x == y));
    vc_assert("!=", (a != b) == (x != y));
    vc_assert("<=", (a <= b) == (x <= y));
    vc_assert(">=", (a >= b) == (x >= y));
    vc_assert("<", (a < b) == (x < y));
    vc_assert(">", (a > b) == (x > y));
    vc_assert_eq("scalar", mara::make_scalar(x).scalar(), x);
    // exponents of length, mass and time
    auto dims = [] (auto v, int C, int G, int S) { return v.dimensions() == std::make_tuple(C, G, S); };
    vc_assert("dimensions of products and quotients", dims(a * l, 1, 1, 0) && dims(a / l, -1, 1, 0) && dims(l.template pow<3>(), 3, 0, 0) && dims(sq.template pow<1, 2>(), 1, 0, 0)
        && dims(l / mara::make_time(y) / mara::make_time(y) * a, 1, 1, -2));
    vc_assert("dimensions of the named quantities", dims(mara::make_scalar(x), 0, 0, 0) && dims(l, 1, 0, 0) && dims(a, 0, 1, 0) && dims(mara::make_time(x), 0, 0, 1)
        && dims(mara::make_rate(x), 0, 0, -1) && dims(mara::make_area(x), 2, 0, 0) && dims(mara::make_volume(x), 3, 0, 0) && dims(mara::make_velocity(x), 1, 0, -1)
        && dims(mara::make_flux(x), -2, 1, -1) && dims(mara::make_flow(x), 0, 1, -1) && dims(mara::make_mass_density(x), -3, 1, 0) && dims(mara::make_flow_density(x), -3, 1, -1)
        && dims(mara::make_energy(x), 2, 1, -2) && dims(mara::make_force(x), 1, 1, -2) && dims(mara::make_momentum(x), 1, 1, -1) && dims(mara::make_torque(x), 2, 1, -2)
        && dims(mara::make_angmom(x), 2, 1, -1));
    vc_assert("values of the named quantities", mara::make_time(x).value == x && mara::make_rate(x).value == x && mara::make_area(x).value == x && mara::make_volume(x).value == x
        && mara::make_velocity(x).value == x && mara::make_flux(x).value == x && mara::make_flow(x).value == x && mara::make_mass_density(x).value == x && mara::make_flow_density(x).value == x
        && mara::make_energy(x).value == x && mara::make_force(x).value == x && mara::make_momentum(x).value == x && mara::make_torque(x).value == x && mara::make_angmom(x).value == x);
}
VC_PROOF(unit_vector)
{
    double x = real("x"), y = real("y"), z = real("z");
    vc_assume(x * x + y * y + z * z > 0);
    mara::unit_vector_t n(x, y, z);
    auto a = n.get_n1(), b = n.get_n2(), c = n.get_n3();
    vc_assert_eq("length one", a * a + b * b + c * c, 1.0);
    auto r = std::sqrt(x * x + y * y + z * z);
    vc_assert_eq("direction 1", a * r, x);
    vc_assert_eq("direction 2", b * r, y);
    vc_assert_eq("direction 3", c * r, z);
    vc_assert("components", n[0] == a && n[1] == b && n[2] == c);
    double u = real("u"), v = real("v"), w = real("w");
    vc_assert_eq("projection", n.project(u, v, w), u * a + v * b + w * c);
    auto s = n * u;
    vc_assert_eq("scaled 1", s[0], a * u);
    vc_assert_eq("scaled 2", s[1], b * u);
    vc_assert_eq("scaled 3", s[2], c * u);
    std::size_t k = vc_int("axis", 0, 50);
    bool refused = false;
    try
    {
        auto e = mara::unit_vector_t::on_axis(k);
        vc_assert("axis", e.get_n1() == (k == 0) && e.get_n2() == (k == 1) && e.get_n3() == (k == 2));
    }
    catch (const std::invalid_argument&) { refused = true; }
    vc_assert("other axes are refused", refused == (k > 2));
    refused = false;
    try { n[k]; } catch (const std::invalid_argument&) { refused = true; }
    vc_assert("other components are refused", refused == (k > 2));
}
