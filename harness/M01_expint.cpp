// @sources fisx_math.cpp
// @bounds arguments in [-2, 0) and (0, 1] as they are, (1, 100] (700 thorough) (continued fraction of at most the number of terms the code itself needs), orders 1 to 5 (8 thorough); solver arithmetic is exact
// @QMS 8000
#include "fisx_math.h"
using namespace fisx;

static const double GAMMA = 0.57721566490153286;
// E1(x) + log|x| by its power series, truncation error below 1e-12 for |x| <= 2
static double series(const double &x, int terms = 14)
{
    double s = -GAMMA, t = 1.0;
    for (int n = 1; n <= (terms); n++)
    {
        t = t * x / double(n);
        if (n % 2) s += t / double(n); else s -= t / double(n);
    }
    return s;
}

HARNESS(small)
{
    double x = sym::real("x", 1e-9, 1.0);
    double e = 0.0;
    int r = sym::outcome([&] { e = Math::E1(x); });
    sym::check("accepted", r == 0);
    if (r) return;
    double d = e + std::log(x) - series(x);
    sym::check("accuracy", sym::near(d, 0.0, 3e-7));
    sym::check("deBoerD", sym::near(Math::deBoerD(x), std::exp(x) * e, 1e-12));
    sym::check("polynomial", sym::near(Math::AS_5_1_53(x), series(x), 3e-7));
}
HARNESS(negative)
{
    double x = sym::real("x", -2.0, -1e-9);
    double e = Math::E1(x);
    sym::check("accuracy", sym::near(e + std::log(-x) - series(x, 20), 0.0, 1e-5));
    sym::check("deBoerD", sym::near(Math::deBoerD(x), std::exp(x) * e, 1e-12));
}
HARNESS(refusals)
{
    int n = sym::choose("n", -3, 0);
    double x = sym::real("x", 0.0, 50.0);
    sym::check("order", sym::outcome([&] { Math::En(n, x); }) == 2);
    sym::check("zero", sym::outcome([&] { Math::E1(0.0); }) == 1);
    sym::check("zero-order-1", sym::outcome([&] { Math::En(1, 0.0); }) == 1);
    double y = sym::real("y", -50.0, 50.0), v = 0.0;
    int r = sym::outcome([&] { v = Math::AS_5_1_53(y); });
    sym::check("polynomial-domain", (r == 1) == (y > 1.0));
    r = sym::outcome([&] { v = Math::AS_5_1_56(y); });
    sym::check("rational-domain", (r == 1) == (y < 1.0));
}
HARNESS(recurrence)
{
    int n = sym::choose("n", 1, sym::tier() ? 8 : 5);
    sym::use_univariate();
    double x = sym::real("x", 1e-6, 100.0);
    double a = Math::En(n, x), b = Math::En(n + 1, x);
    sym::check_eq("relation", double(n) * b, std::exp(-x) - x * a);
    if (n == 1) sym::check_eq("first-order", a, Math::E1(x));
    sym::check_eq("at-zero", Math::En(n + 1, 0.0), 1.0 / double(n));
}
HARNESS(large)
{
    sym::use_univariate();
    double x = sym::real("x", 1.0, sym::tier() ? 700.0 : 100.0);
    sym::assume(sym::lt(1.0, x));
    double d = Math::deBoerD(x);
    sym::check_eq("E1", Math::E1(x), std::exp(-x) * d);
    // Abramowitz & Stegun 5.1.56, |error| < 2e-8 on x*exp(x)*E1(x)
    sym::check("accuracy", sym::near(x * d, Math::AS_5_1_56(x), 1e-6));
}
