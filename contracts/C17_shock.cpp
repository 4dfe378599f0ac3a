// Shock locator: arrays of 2 to 4 arbitrary values
#include "common.hpp"
#include "physics_euler.hpp"
#include "post_shock_locator.hpp"
using namespace spec;
namespace {
const char* Y[5] = {"y0", "y1", "y2", "y3", "y4"};
auto some_values(std::size_t n)
{
    auto y = nd::make_unique_array<double>(nd::make_shape(n));
    for (std::size_t i = 0; i < n; ++i) y(i) = real(Y[i]);
    return std::move(y).shared();
}
// only the pressure and density matter to the shock locator
struct gas { double d, p; double gas_pressure() const { return p; } double specific_entropy(double g) const { return vc_ufr("entropy", 3, d, p, g); } };
}
VC_PROOF(bounded_maximum_behind)
{
    std::size_t n = vc_choose("n", 2, 4), i = vc_choose("index", 0, 3);
    vc_assume(i < n);
    auto y = some_values(n);
    std::size_t j = mara::find_index_of_maximum_behind(y, i);
    vc_assert("behind", j <= i);
    for (std::size_t k = j; k < i; ++k) vc_assert("rises towards the maximum", y(k) > y(k + 1));
    if (j > 0) vc_assert("maximum", !(y(j - 1) > y(j)));
}
VC_PROOF(bounded_shock_index)
{
    // the shock is where the entropy falls most (the first such place)
    std::size_t n = vc_choose("n", 2, 4);
    auto p = nd::make_unique_array<gas>(nd::make_shape(n));
    for (std::size_t i = 0; i < n; ++i) p(i) = gas{1.0, real(Y[i])};
    auto P = std::move(p).shared();
    double g = gamma_index();
    std::size_t j = mara::find_shock_index(P, g)[0];
    auto drop = [&] (std::size_t i) { return P(i + 1).specific_entropy(g) - P(i).specific_entropy(g); };
    vc_assert("an interface", j + 1 < n);
    for (std::size_t i = 0; i + 1 < n; ++i)
    {
        vc_assert("steepest fall", drop(j) <= drop(i));
        if (i < j) vc_assert("first", drop(j) < drop(i));
    }
}
VC_PROOF(bounded_plateau_ahead)
{
    std::size_t n = vc_choose("n", 3, 5), i = vc_choose("index", 0, 4);
    vc_assume(i < n);
    auto p = nd::make_unique_array<gas>(nd::make_shape(n));
    for (std::size_t k = 0; k < n; ++k) p(k) = gas{1.0, pos(Y[k])};
    auto P = std::move(p).shared();
    auto slope = [&] (std::size_t k) { return std::log(P(k + 1).p) - std::log(P(k).p); };
    std::size_t j = mara::find_index_of_pressure_plateau_ahead(P, i);
    if (j != 0)
    {
        vc_assert("ahead", j >= i && j >= 2 && j < n);
        for (std::size_t k = i; k < j; ++k) vc_assert("steepening", slope(k - 1) < 0.5 * slope(k - 2));
        vc_assert("plateau", !(slope(j - 1) < 0.5 * slope(j - 2)));
    }
    else
    {
        // the search has left the array
        bool left = i < 2;
        std::size_t k = i;
        while (! left && k < n && slope(k - 1) < 0.5 * slope(k - 2)) ++k;
        vc_assert("no plateau", left || k >= n);
    }
}
