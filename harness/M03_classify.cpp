// @sources fisx_math.cpp
// @bounds classification: all 2^64 bit patterns of a double (bit-precise floating point); width: energies and noise in [0, 200], Fano factors in [0, 1]; error functions: [-6, 6]
#include "fisx_math.h"
using namespace fisx;
HARNESS(classification)
{
    sym::use_fp();
    double x = sym::fp("x");
    bool nan = !(x == x);
    bool inf = sym::holds(sym::eq(x, std::numeric_limits<double>::infinity())) || sym::holds(sym::eq(x, -std::numeric_limits<double>::infinity()));
    sym::check("isNumber", Math::isNumber(x) == !nan);
    sym::check("isFiniteNumber", Math::isFiniteNumber(x) == (!nan && !inf));
}
HARNESS(width)
{
    double e = sym::real("energy", 0.0, 200.0), n = sym::real("noise", 0.0, 200.0), f = sym::real("fano", 0.0, 1.0), g = sym::real("quantum", 1e-4, 0.1);
    double w = Math::getFWHM(e, n, f, g);
    sym::check_eq("square", w * w, n * n + e * f * 5.54518 * g, 2e-5);
    sym::check_le("not-negative", 0.0, w);
    double v = Math::getFWHM(e, n, f);
    sym::check_eq("default-quantum", v, Math::getFWHM(e, n, f, 0.00385));
    double de = sym::real("de", 0.0, 50.0), dn = sym::real("dn", 0.0, 50.0);
    sym::check_le("grows-with-energy", w, Math::getFWHM(e + de, n, f, g));
    sym::check_le("grows-with-noise", w, Math::getFWHM(e, n + dn, f, g));
}
// Chebyshev fit of the complementary error function, relative error below 1.2e-7
static double fit(const double &z)
{
    static const double c[] = {-1.26551223, 1.00002368, 0.3740916, 0.09678418, -0.18628806, 0.27886807, -1.13520398, 1.48851587, -0.82215223, 0.17087277};
    double t = 1.0 / (1.0 + 0.5 * z), s = 0.0;
    for (int i = 9; i > 0; i--) s = (s + c[i]) * t;
    return t * std::exp(c[0] + s - z * z);
}
HARNESS(error_functions)
{
    double x = sym::real("x", -6.0, 6.0);
    double c = Math::erfc(x), e = Math::erf(x);
    sym::check_eq("complement", e + c, 1.0);
    sym::check("odd", sym::near(Math::erf(-x), -e, 1e-6));
    sym::check("reflection", sym::near(Math::erfc(-x), 2.0 - c, 1e-6));
    sym::check("fit", sym::near(c, x < 0.0 ? 2.0 - fit(-x) : fit(x), 1e-6));
}
HARNESS(known_values)
{
    // tabulated erfc at fixed points
    double x[] = {0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0}, v[] = {1.0, 0.7236736098317631, 0.4795001221869535, 0.15729920705028513, 0.033894853524689274, 0.004677734981047266, 2.209049699858544e-05};
    for (int i = 0; i < 7; i++)
    {
        sym::check("erfc", sym::near(Math::erfc(x[i]), v[i], 1e-6));
        sym::check("erf-negative", sym::near(Math::erf(-x[i]), v[i] - 1.0, 1e-6));
    }
}
