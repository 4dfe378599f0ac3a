// Rational numbers (iteration counters of the time integrators are rationals).
// A number is identified with its value num / den; the canonical form has a
// positive denominator.  The arithmetic is verified against the contract of
// gcd ("a positive common divisor"); that gcd returns the greatest common
// divisor is established by complete execution for all |num|, |den| <= 48 and by
// native sampling beyond, so canonicity (== decides equality of values) is
// labelled bounded.
#include "common.hpp"
#include <string>
#include <cstdlib>
#define private public
#include "core_rational.hpp"
#undef private
using mara::rational_number_t;
namespace {
// gcd(a, b) for positive a, b is a positive common divisor; the inputs of
// construction are written with the divisor that is returned
long div_g, div_p, div_q;
int common_divisor(unsigned int a, unsigned int b)
{
    vc_assert("argument of gcd", long(a) == div_g * div_p && long(b) == div_g * div_q);
    return int(div_g);
}
// reduce: the same value, a positive denominator, nothing grows, the sign is on the numerator
#ifndef VC_NATIVE
const char* N_[] = {"n'0", "n'1", "n'2", "n'3", "n'4", "n'5", "n'6", "n'7"};
const char* D_[] = {"d'0", "d'1", "d'2", "d'3", "d'4", "d'5", "d'6", "d'7"};
int reductions = 0;
void canonical(rational_number_t* r)
{
    long n = r->num, d = r->den;
    vc_assert("denominator is not zero", d != 0);
    long a = vc_int(N_[reductions], -2147483647L, 2147483647L), b = vc_int(D_[reductions], 1, 2147483647L);
    ++reductions;
    vc_assume(a * d == n * b);
    vc_assume(n == 0 ? a == 0 && b == 1 : ((n < 0) == (d < 0)) ? a >= 1 : a <= -1);
    vc_assume(b <= (d < 0 ? -d : d) && (a < 0 ? -a : a) <= (n < 0 ? -n : n));
    r->num = int(a); r->den = int(b);
}
int absent(unsigned int, unsigned int) { return 0; }
void absent_reduce(rational_number_t*) {}
template<typename T> constexpr auto gcd_of(int) -> decltype(&T::gcd) { return &T::gcd; }
template<typename T> constexpr int (*gcd_of(long))(unsigned int, unsigned int) { return &absent; }
template<typename T> constexpr auto reduce_of(int) -> decltype(&T::reduce) { return &T::reduce; }
template<typename T> constexpr void (*reduce_of(long))(rational_number_t*) { return &absent_reduce; }
#endif
constexpr long M = 20000;        // products and sums of two products stay inside int
constexpr long K = 2147483647L;

struct frac { long n, d; };
// an arbitrary number in canonical form (not built by the constructor, so no obligation about it is assumed)
rational_number_t number(const char* n, const char* d, long m = M)
{
    rational_number_t r;
    r.num = int(vc_int(n, -m, m)); r.den = int(vc_int(d, 1, m));
    vc_assume(r.num != 0 || r.den == 1);
    return r;
}
struct pair_t { rational_number_t x, y; long a, b, c, d; };
pair_t two()
{
    vc_use_contract("reduce");
    auto x = number("a", "b"), y = number("c", "d");
    return {x, y, x.num, x.den, y.num, y.den};
}
bool value(const rational_number_t& r, long n, long d)
{
    return r.den > 0 && long(r.num) * d == n * long(r.den);
}
template<typename F> bool throws(F f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
}
#ifndef VC_NATIVE
VC_CONTRACT(gcd, (gcd_of<rational_number_t>(0)), &common_divisor)
VC_CONTRACT(reduce, (reduce_of<rational_number_t>(0)), &canonical)
#endif

// the contract of reduce, for all numerators and denominators a * g, b * g where
// g is the divisor returned by gcd
VC_PROOF(reduce)
{
    vc_use_contract("gcd");
    div_g = vc_int("g", 1, K); div_p = vc_int("p", 1, K); div_q = vc_int("q", 1, K);
#ifdef VC_NATIVE
    div_g %= 100; div_p %= 1000; div_q %= 1000; vc_assume(div_g && div_p && div_q);
#endif
    long s = vc_choose("negative numerator", 0, 1) ? -1 : 1, t = vc_choose("negative denominator", 0, 1) ? -1 : 1;
    vc_assume(div_g * div_p <= K && div_g * div_q <= K);
    long n = s * (div_g * div_p), d = t * (div_g * div_q);
    rational_number_t r; r.num = int(n); r.den = int(d);
    r.reduce();
    vc_assert("sign", (r.num > 0) == (s == t) && r.num != 0);
    vc_assert("positive denominator", r.den >= 1);
    vc_assert("same value", long(r.num) * d == n * long(r.den));
    vc_assert("no growth", long(r.den) <= t * d && long(r.num) <= s * n && -long(r.num) <= s * n);
}
VC_PROOF(zero_is_canonical)
{
    long d = vc_int("d", -K, K);
    vc_assume(d != 0);
    auto r = rational_number_t(0, int(d));
    vc_assert("zero", r.get_numerator() == 0 && r.get_denominator() == 1);
    vc_assert("equal to zero", r == 0 && ! (r != 0) && r.is_integral() && r.as_integral() == 0);
}
VC_PROOF(construction)
{
    vc_use_contract("reduce");
    long n = vc_int("n", -K, K), d = vc_int("d", -K, K);
    bool bad = throws([&] { auto r = mara::make_rational(int(n), int(d)); vc_assert("value", value(r, n, d)); });
    vc_assert("throws if and only if the denominator is zero", bad == (d == 0));
    auto i = mara::make_rational(int(n));
    vc_assert("integer", i.get_numerator() == n && i.get_denominator() == 1);
    rational_number_t z;
    vc_assert("default is zero", z.get_numerator() == 0 && z.get_denominator() == 1);
}
VC_PROOF(sum)        { auto [x, y, a, b, c, d] = two(); vc_assert("sum", value(x + y, a * d + b * c, b * d)); }
VC_PROOF(difference) { auto [x, y, a, b, c, d] = two(); vc_assert("difference", value(x - y, a * d - b * c, b * d)); }
VC_PROOF(product)    { auto [x, y, a, b, c, d] = two(); vc_assert("product", value(x * y, a * c, b * d)); }
VC_PROOF(quotient)
{
    auto [x, y, a, b, c, d] = two();
    bool bad = throws([&, x=x, y=y, a=a, b=b, c=c, d=d] { vc_assert("quotient", value(x / y, c < 0 ? -a * d : a * d, c < 0 ? -b * c : b * c)); });
    vc_assert("throws if and only if dividing by zero", bad == (c == 0));
}
VC_PROOF(unary)
{
    auto [x, y, a, b, c, d] = two();
    vc_assert("plus", value(+x, a, b));
    vc_assert("minus", value(-x, -a, b));
}
VC_PROOF(order)
{
    auto [x, y, a, b, c, d] = two();
    long l = a * d, r = b * c;
    vc_assert("less", (x < y) == (l < r));
    vc_assert("greater", (x > y) == (l > r));
    vc_assert("less or equal", (x <= y) == (l <= r));
    vc_assert("greater or equal", (x >= y) == (l >= r));
    vc_assert("equality", (x == y) == (a == c && b == d));
    vc_assert("inequality", (x != y) == ! (x == y));
}
VC_PROOF(with_integers)
{
    vc_use_contract("reduce");
    auto x = number("a", "b"); long a = x.num, b = x.den, i = vc_int("i", -M, M); int k = int(i);
    vc_assert("sum", value(x + k, a + b * i, b) && value(k + x, a + b * i, b));
    vc_assert("difference", value(x - k, a - b * i, b) && value(k - x, b * i - a, b));
    auto u = x, v = x;
    u += k; v -= k;
    vc_assert("increment", value(u, a + b * i, b) && value(v, a - b * i, b));
}
VC_PROOF(products_with_integers)
{
    vc_use_contract("reduce");
    auto x = number("a", "b"); long a = x.num, b = x.den, i = vc_int("i", -M, M); int k = int(i);
    vc_assert("product", value(x * k, a * i, b));
    if (i) vc_assert("quotient", value(x / k, i < 0 ? -a : a, i < 0 ? -b * i : b * i));
}
VC_PROOF(order_with_integers)
{
    vc_use_contract("reduce");
    auto x = number("a", "b"); long a = x.num, b = x.den, i = vc_int("i", -M, M); int k = int(i);
    vc_assert("order", (x < k) == (a < b * i) && (x > k) == (a > b * i) && (x <= k) == (a <= b * i) && (x >= k) == (a >= b * i));
    vc_assert("equality", (x == k) == (a == i && b == 1) && (x != k) == ! (x == k));
}
VC_PROOF(conversions)
{
    vc_opaque_text();
    auto x = number("a", "b", K); long a = x.num, b = x.den;
    double y = spec::real("y");
    vc_assert("integral", x.is_integral() == (b == 1));
    bool bad = throws([&] { vc_assert("as integral", x.as_integral() == a); });
    vc_assert("throws if and only if not an integer", bad == (b != 1));
    vc_assert_eq("as double", x.as_double() * b, a);
    vc_assert_eq("plus real", (x + y - y) * b, a);
    vc_assert_eq("minus real", (x - y + y) * b, a);
    vc_assert_eq("times real", x * y * b, a * y);
    if (y != 0) vc_assert_eq("over real", x / y * y * b, a);
}
// gcd and canonical form by complete execution
VC_PROOF(bounded_canonical_form)
{
    for (int n = -12; n <= 12; ++n) for (int d = 1; d <= 12; ++d) for (int s = -1; s <= 1; s += 2)
    {
        auto r = rational_number_t(s * n, s * d);
        int p = r.get_numerator(), q = r.get_denominator(), m = p < 0 ? -p : p;
        vc_assert("same value", q > 0 && p * d == n * q);
        for (int k = 2; k <= 12; ++k) vc_assert("reduced", q % k != 0 || m % k != 0);
    }
}
VC_PROOF(sampled_canonical_form)
{
    long n = vc_int("n", -200000, 200000), d = vc_int("d", -3000, 3000), k = vc_int("k", -50, 50), w = vc_int("w", 0, 3);
    if (w == 1) d = 1L << (d < 0 ? -d % 17 : d % 17);
    if (w == 2) d = k;
    if (w == 3) n = n % 1000 * d % 200000;
    vc_assume(d != 0 && k != 0);
    auto r = rational_number_t(int(n), int(d)), s = rational_number_t(int(n * k), int(d * k));
    vc_assert("value", value(r, n, d));
    vc_assert("== decides equality of values", r == s && ! (r != s));
    long a = r.get_numerator() < 0 ? -r.get_numerator() : r.get_numerator(), b = r.get_denominator();
    while (b) { long t = a % b; a = b; b = t; }
    vc_assert("reduced", a == 1);
    vc_assert("is integral", r.is_integral() == (n % d == 0));
}
