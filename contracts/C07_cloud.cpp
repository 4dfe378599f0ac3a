// The relativistic spherical code carries its own copy of the limiter
#include "common.hpp"
#include <iostream>
#include "subprog_cloud.cpp"
#include "math_interpolation.hpp"
using namespace spec;

VC_PROOF(cloud_limiter_is_the_limiter)
{
    auto yl = spec::real("yl"), y0 = spec::real("y0"), yr = spec::real("yr");
    auto t = vc_real("theta", 0.0, 2.0); vc_assume(t >= 0 && t <= 2);
    vc_assert_eq("same slope", CloudProblem::estimate_gradient_plm(t)(yl, y0, yr), mara::plm_gradient(yl, y0, yr, t));
}
