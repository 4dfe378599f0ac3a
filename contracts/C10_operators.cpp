// Lazy array operators as index functions: for every shape and every index of
// the result, the value is the documented element of the operand(s)
#include "nd.hpp"
using namespace spec;

template<typename Fn> static bool throws(Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }

VC_PROOF(map_and_arithmetic)
{
    auto n = extent("n"), m = extent("m"); auto i = below("i", n), j = below("j", m);
    auto A = array2("A", n, m), B = array2("B", n, m);
    auto a = A(i, j), b = B(i, j);
    auto x = real("x");
    auto M = A | nd::map([] (double v) { return vc_ufr("f", 1, v); });
    vc_assert("map shape", M.shape() == A.shape() && M.size() == n * m);
    vc_assert_eq("map", M(i, j), vc_ufr("f", 1, a));
    vc_assert("sum shape", (A + B).shape() == A.shape());
    vc_assert_eq("add", (A + B)(i, j), a + b);
    vc_assert_eq("sub", (A - B)(i, j), a - b);
    vc_assert_eq("mul", (A * B)(i, j), a * b);
    vc_assert_eq("scalar add", (A + x)(i, j), a + x);
    vc_assert_eq("scalar sub", (A - x)(i, j), a - x);
    vc_assert_eq("scalar mul", (A * x)(i, j), a * x);
    vc_assert_eq("neg", (-A)(i, j), -a);
    vc_assert_eq("pos", (+A)(i, j), a);
    vc_assert_eq("multiply op", (A | nd::multiply(x))(i, j), a * x);
    vc_assert("le", (A <= B)(i, j) == (a <= b));
    vc_assert("lt", (A < B)(i, j) == (a < b));
    vc_assert("ge", (A >= B)(i, j) == (a >= b));
    vc_assert("gt", (A > B)(i, j) == (a > b));
    vc_assert("eq", (A == B)(i, j) == (a == b));
    vc_assert("ne", (A != B)(i, j) == (a != b));
    vc_assert("and", ((A < B) && (A <= x))(i, j) == (a < b && a <= x));
    vc_assert("or", ((A < B) || (A <= x))(i, j) == (a < b || a <= x));
    vc_assert("not", (! (A < B))(i, j) == ! (a < b));
    vc_assume(b != 0 && x != 0);
    vc_assert_eq("div", (A / B)(i, j), a / b);
    vc_assert_eq("scalar div", (A / x)(i, j), a / x);
    vc_assert_eq("divide op", (A | nd::divide(x))(i, j), a / x);
}
VC_PROOF(binary_op_shape_mismatch)
{
    auto n = extent("n"), m = extent("m"), p = extent("p"), q = extent("q");
    auto A = array2("A", n, m), B = array2("B", p, q);
    vc_assert("throws iff shapes differ", throws([&] { A + B; }) == (n != p || m != q));
}
VC_PROOF(zip_and_get)
{
    auto n = extent("n"), m = extent("m"), p = extent("p"); auto i = below("i", n);
    auto A = array1("A", n), B = array1("B", m), C = array1("C", p);
    auto bad = n != m || m != p;
    vc_assert("throws iff shapes differ", throws([&] { nd::zip(A, B, C); }) == bad);
    vc_assume(! bad);
    auto Z = nd::zip(A, B, C);
    vc_assert("shape", Z.shape() == A.shape());
    vc_assert_eq("first", std::get<0>(Z(i)), A(i));
    vc_assert_eq("second", std::get<1>(Z(i)), B(i));
    vc_assert_eq("third", std::get<2>(Z(i)), C(i));
    auto [a, b, c] = nd::unzip(Z);
    vc_assert_eq("unzip first", a(i), A(i));
    vc_assert_eq("unzip second", b(i), B(i));
    vc_assert_eq("unzip third", c(i), C(i));
    vc_assert("unzip shape", a.shape() == A.shape() && b.shape() == A.shape() && c.shape() == A.shape());
    vc_assert_eq("get", nd::get<1>(Z)(i), B(i));
    vc_assert_eq("apply", (Z | nd::apply([] (double u, double v, double w) { return vc_ufr("f", 3, u, v, w); }))(i), vc_ufr("f", 3, A(i), B(i), C(i)));
}
VC_PROOF(products)
{
    auto n = extent("n"), m = extent("m"), l = extent("l"); auto i = below("i", n), j = below("j", m), k = below("k", l);
    auto A = array1("A", n), B = array1("B", m), C = array1("C", l);
    auto P = nd::cartesian_product(A, B, C);
    vc_assert("shape", P.shape() == nd::make_shape(n, m, l));
    vc_assert_eq("axis 0", std::get<0>(P(i, j, k)), A(i));
    vc_assert_eq("axis 1", std::get<1>(P(i, j, k)), B(j));
    vc_assert_eq("axis 2", std::get<2>(P(i, j, k)), C(k));
    auto [x, y] = nd::meshgrid(A, B);
    vc_assert("mesh shape", x.shape() == nd::make_shape(n, m) && y.shape() == nd::make_shape(n, m));
    vc_assert_eq("mesh 0", x(i, j), A(i));
    vc_assert_eq("mesh 1", y(i, j), B(j));
}
VC_PROOF(select_region)
{
    auto n = extent("n"), m = extent("m");
    auto s0 = extent("s0"), s1 = extent("s1"), f0 = extent("f0"), f1 = extent("f1");
    auto j0 = extent("j0", 1, 16), j1 = extent("j1", 1, 16);
    vc_assume(s0 < f0 && s1 < f1);
    auto A = array2("A", n, m);
    auto p = nd::access_pattern_t<2>().with_start(s0, s1).with_final(f0, f1).with_jumps(long(j0), long(j1));
    auto bad = ! p.within(A.shape());
    vc_assert("throws iff the region leaves the array", throws([&] { A | nd::select(p); }) == bad);
    if (! bad)
    {
        auto S = A | nd::select(p);
        auto T = A | nd::select_from(s0, s1).to(f0, f1).jumping(long(j0), long(j1));
        auto i = below("i", S.shape(0)), j = below("j", S.shape(1));
        vc_assert("shape", S.shape() == p.shape());
        vc_assert_eq("value", S(i, j), vc_uf("A", 2, long(s0 + i * j0), long(s1 + j * j1)));
        vc_assert("builder shape", T.shape() == p.shape());
        vc_assert_eq("builder value", T(i, j), S(i, j));
    }
}
VC_PROOF(select_axis)
{
    auto n = extent("n", 1), m = extent("m", 1); auto axis = vc_choose("axis", 0, 1);
    auto s = extent("start"), f = extent("final");
    auto A = array2("A", n, m);
    auto len = axis == 0 ? n : m;
    vc_assume(s <= f && f <= len);
    auto S = A | nd::select_axis(axis).from(s).to(f);
    auto T = A | nd::select_axis(axis).from(s).to(len - f).from_the_end();
    vc_assert("length", S.shape(axis) == f - s && T.shape(axis) == f - s);
    vc_assert("other length", S.shape(1 - axis) == A.shape(1 - axis) && T.shape(1 - axis) == A.shape(1 - axis));
    auto i = below("i", S.shape(0)), j = below("j", S.shape(1));
    auto e = axis == 0 ? A(s + i, j) : A(i, s + j);
    vc_assert_eq("value", S(i, j), e);
    vc_assert_eq("value from the end", T(i, j), e);
}
VC_PROOF(select_axis_jumping)
{
    auto n = extent("n", 1); auto s = extent("start"), f = extent("final"); auto q = extent("jump", 1, 32);
    auto A = array1("A", n);
    vc_assume(s <= f && f <= n);
    auto S = A | nd::select_axis(0).from(s).to(f).jumping(q);
    auto k = S.shape(0);
    vc_assert("nothing left over", s + k * q >= f);
    auto i = below("i", k);
    vc_assert("inside", s + i * q < f);
    vc_assert_eq("value", S(i), A(s + i * q));
}
VC_PROOF(select_axis_rank)
{
    auto n = extent("n", 2), m = extent("m", 2); auto axis = extent("axis", 0, 100);
    auto A = array2("A", n, m);
    vc_assert("throws iff no such axis", throws([&] { A | nd::select_axis(axis).from(0).to(1); }) == (axis >= 2));
    vc_assert("shift throws iff no such axis", throws([&] { A | nd::shift_by(-1).along_axis(axis); }) == (axis >= 2));
    vc_assert("freeze throws iff no such axis", throws([&] { A | nd::freeze_axis(axis); }) == (axis >= 2));
    vc_assert("collect throws iff no such axis", throws([&] { A | nd::collect(nd::sum()).along_axis(axis); }) == (axis >= 2));
    if (axis >= 2) vc_assert("concat throws if no such axis", throws([&] { A | nd::concat(A).on_axis(axis); }));
}
VC_PROOF(shift_negative)
{
    auto n = extent("n"), m = extent("m"); auto axis = vc_choose("axis", 0, 1); auto d = extent("d", 0, 1 << 20);
    auto A = array2("A", n, m);
    auto bad = d >= A.shape(axis);
    vc_assert("throws iff the shift exceeds the length", throws([&] { A | nd::shift_by(-int(d)).along_axis(axis); }) == bad);
    vc_assume(! bad);
    auto S = A | nd::shift_by(-int(d)).along_axis(axis);
    vc_assert("length", S.shape(axis) == A.shape(axis) - d && S.shape(1 - axis) == A.shape(1 - axis));
    auto i = below("i", S.shape(0)), j = below("j", S.shape(1));
    vc_assert_eq("value", S(i, j), axis == 0 ? A(i + d, j) : A(i, j + d));
}
VC_PROOF(shift_positive)
{
    auto n = extent("n", 2); auto d = extent("d", 1, 1 << 20);
    vc_assume(d < n);
    auto I = nd::index_array(n) | nd::map([] (auto i) { return i[0]; });
    auto S = I | nd::shift_by(int(d));
    auto i = below("i", S.shape(0));
    vc_assert("reads inside the source", S(i) < n);
}
VC_PROOF(freeze)
{
    auto n = extent("n"), m = extent("m"), l = extent("l"); auto axis = vc_choose("axis", 0, 2);
    auto A = array3("A", n, m, l);
    auto at = below("at", A.shape(axis));
    auto F = A | nd::freeze_axis(axis).at_index(at);
    auto a0 = axis == 0 ? 1 : 0, a1 = axis == 2 ? 1 : 2;
    vc_assert("shape", F.shape(0) == A.shape(a0) && F.shape(1) == A.shape(a1));
    auto i = below("i", F.shape(0)), j = below("j", F.shape(1));
    vc_assert_eq("value", F(i, j), axis == 0 ? A(at, i, j) : axis == 1 ? A(i, at, j) : A(i, j, at));
}
VC_PROOF(collect)
{
    auto n = extent("n"), m = extent("m"), l = extent("l"); auto axis = vc_choose("axis", 0, 2);
    auto A = array3("A", n, m, l);
    auto k = below("k", A.shape(axis));
    // the reduction sees exactly the elements of one line along the axis
    auto len = A.shape(axis);
    auto C = A | nd::collect([len, k] (auto line) { vc_assert("line length", line.shape() == nd::make_shape(len)); return line(k); }).along_axis(axis);
    auto a0 = axis == 0 ? 1 : 0, a1 = axis == 2 ? 1 : 2;
    vc_assert("shape", C.shape(0) == A.shape(a0) && C.shape(1) == A.shape(a1));
    auto i = below("i", C.shape(0)), j = below("j", C.shape(1));
    vc_assert_eq("value", C(i, j), axis == 0 ? A(k, i, j) : axis == 1 ? A(i, k, j) : A(i, j, k));
}
VC_PROOF(concat)
{
    auto n = extent("n"), m = extent("m"), p = extent("p"), q = extent("q"); auto axis = vc_choose("axis", 0, 1);
    auto A = array2("A", n, m), B = array2("B", p, q);
    auto bad = A.shape(1 - axis) != B.shape(1 - axis);
    vc_assert("throws iff cross sections differ", throws([&] { A | nd::concat(B).on_axis(axis); }) == bad);
    vc_assume(! bad);
    auto C = A | nd::concat(B).on_axis(axis);
    vc_assert("length", C.shape(axis) == A.shape(axis) + B.shape(axis) && C.shape(1 - axis) == A.shape(1 - axis));
    auto i = below("i", C.shape(0)), j = below("j", C.shape(1));
    auto x = axis == 0 ? i : j;
    auto e = x < A.shape(axis) ? A(i, j) : axis == 0 ? B(i - n, j) : B(i, j - m);
    vc_assert_eq("value", C(i, j), e);
}
VC_PROOF(replace)
{
    auto n = extent("n"), m = extent("m");
    auto s0 = extent("s0"), s1 = extent("s1"), f0 = extent("f0"), f1 = extent("f1");
    vc_assume(s0 < f0 && s1 < f1 && f0 <= n && f1 <= m);
    auto r0 = extent("r0"), r1 = extent("r1");
    auto A = array2("A", n, m), B = array2("B", r0, r1);
    auto p = nd::access_pattern_t<2>().with_start(s0, s1).with_final(f0, f1);
    auto bad = r0 != f0 - s0 || r1 != f1 - s1;
    vc_assert("throws iff the shapes differ", throws([&] { A | nd::replace(p, B); }) == bad);
    vc_assume(! bad);
    auto R = A | nd::replace(p, B);
    auto T = A | nd::replace_from(s0, s1).to(f0, f1).with(B);
    vc_assert("shape", R.shape() == A.shape() && T.shape() == A.shape());
    auto i = below("i", n), j = below("j", m);
    auto in = i >= s0 && i < f0 && j >= s1 && j < f1;
    vc_assert_eq("value", R(i, j), in ? B(i - s0, j - s1) : A(i, j));
    vc_assert_eq("builder value", T(i, j), R(i, j));
}
VC_PROOF(replace_strided)
{
    auto n = extent("n"), s = extent("start"), f = extent("final"); auto q = extent("jump", 1, 16);
    vc_assume(s < f && f <= n);
    auto A = array1("A", n);
    auto p = nd::access_pattern_t<1>().with_start(s).with_final(f).with_jumps(long(q));
    auto B = array1("B", p.shape()[0]);
    auto R = A | nd::replace(p, B);
    auto i = below("i", n);
    auto in = i >= s && i < f && (i - s) % q == 0;
    vc_assert_eq("value", R(i), in ? B((i - s) / q) : A(i));
}
VC_PROOF(read_indexes)
{
    auto n = extent("n"), m = extent("m"), l = extent("l"); auto k = below("k", l);
    auto A = array2("A", n, m);
    auto I = nd::make_array([] (auto i) { return nd::make_index(std::size_t(vc_ufi("I", 1, long(i[0]))), std::size_t(vc_ufi("J", 1, long(i[0])))); }, nd::make_shape(l));
    auto R = A | nd::read_indexes(I);
    vc_assert("shape", R.shape() == I.shape());
    vc_assert_eq("value", R(k), A(I(k)));
    auto i = below("i", n), j = below("j", m);
    vc_assert_eq("read_index", (A | nd::read_index(i, j)), A(i, j));
}
VC_PROOF(bounds_check)
{
    auto n = extent("n"), m = extent("m"); auto i = extent("i"), j = extent("j");
    auto A = array2("A", n, m);
    auto B = A | nd::bounds_check();
    vc_assert("shape", B.shape() == A.shape());
    vc_assert("throws iff outside", throws([&] { B(i, j); }) == (i >= n || j >= m));
    if (i < n && j < m) vc_assert_eq("value", B(i, j), A(i, j));
}
VC_PROOF(index_array)
{
    auto n = extent("n"), m = extent("m"); auto i = below("i", n), j = below("j", m);
    auto I = nd::index_array(n, m);
    vc_assert("shape", I.shape() == nd::make_shape(n, m));
    vc_assert("identity", I(i, j) == nd::make_index(i, j));
    vc_assert_eq("zeros", nd::zeros<double>(n, m)(i, j), 0);
    vc_assert_eq("ones", nd::ones<double>(n, m)(i, j), 1);
    vc_assert("constant shape", nd::zeros<double>(n, m).shape() == nd::make_shape(n, m) && nd::ones<double>(n, m).shape() == nd::make_shape(n, m));
}
VC_PROOF(arange_count)
{
    auto n = vc_int("n", 0, 1 << 20);
    auto A = nd::arange(int(n));
    vc_assert("length", A.size() == std::size_t(n));
    auto i = below("i", A.size());
    vc_assert("value", A(i) == i);
}
VC_PROOF(arange_step)
{
    auto a = vc_int("start", -(1 << 20), 1 << 20), b = vc_int("final", -(1 << 20), 1 << 20), q = vc_int("step", -32, 32);
    auto bad = q == 0 || (q > 0 ? b < a : b > a);
    vc_assert("throws iff there is no such range", throws([&] { nd::arange(int(a), int(b), int(q)); }) == bad);
    vc_assume(! bad);
    auto A = nd::arange(int(a), int(b), int(q));
    auto len = long(A.size());
    vc_assert("covers the range", q > 0 ? a + len * q >= b : a + len * q <= b);
    auto i = below("i", A.size());
    auto v = long(A(i));
    vc_assert("value", v == a + long(i) * q);
    vc_assert("inside the range", q > 0 ? v < b : v > b);
}
VC_PROOF(linspace)
{
    auto x0 = real("x0"), x1 = real("x1"); auto n = extent("n", 2);
    auto A = nd::linspace(x0, x1, n);
    vc_assert("length", A.size() == n);
    vc_assert_eq("first", A(0), x0);
    vc_assert_eq("last", A(n - 1), x1);
    auto i = below("i", n);
    vc_assume(i + 1 < n);
    vc_assert_eq("equally spaced", (A(i + 1) - A(i)) * double(n - 1), x1 - x0);
}
