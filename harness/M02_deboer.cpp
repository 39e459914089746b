// @sources fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::deBoerD\(
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub Math::isFiniteNumber is true for every real value (M03 decides it bit-precisely); overflow of intermediate results is outside the bounds
// @stub Math::deBoerD(x) = exp(x)*E1(x) is an arbitrary function of x here (M01 decides its values); everything else in the integrals is the real code
// @bounds attenuation coefficients in [1e-3, 1e3] cm2/g ([0.1, 1e3] between layers), densities up to 25 and thicknesses up to 10, p and q in [0.1, 1e3]
#include "fisx_math.h"
using namespace fisx;
#ifdef SYMX
static double dvalue(const double &x)
{
    // exp(x) E1(x): series below 1, continued fraction above
    if (x == 0.0) return std::numeric_limits<double>::infinity();
    if (x > 1.0)
    {
        double f = 0.0;
        for (int k = 400; k > 0; k--) f = double(k * k) / (x + double(2 * k + 1) - f);
        return 1.0 / (x + 1.0 - f);
    }
    double s = -0.57721566490153286 - std::log(x < 0.0 ? -x : x), t = 1.0;
    for (int n = 1; n <= 10; n++) { t = -t * x / double(n); s -= t / double(n); }
    return std::exp(x) * s;
}
namespace fisx { bool Math::isFiniteNumber(const double &x) { return sym::finite(x); }
double Math::deBoerD(const double &x) { return sym::function("deBoerD", dvalue, x); } }
#endif
static double logabs(const double &x) { return x < 0.0 ? std::log(-x) : std::log(x); }

HARNESS(intralayer)
{
    double m1 = sym::real("mu1", 1e-3, 1e3), m2 = sym::real("mu2", 1e-3, 1e3), mj = sym::real("muj", 1e-3, 1e3);
    double rho = sym::real("density", 1e-3, 25.0), t = sym::real("thickness", 1e-8, 10.0);
    double d = rho * t, s = m1 + m2;
    sym::assume(!sym::eq(m2, mj));
    double got = 0.0;
    int r = sym::outcome([&] { got = Math::deBoerL0(m1, m2, mj, rho, t); });
    if (sym::holds(sym::lt(10.0, s * d)))
    {
        sym::check("thick-accepted", r == 0);
        if (r == 0) sym::check_eq("thick", got, std::log(1.0 + m1 / mj) / (m1 * s));
        return;
    }
    if (sym::holds(sym::lt(s * d, 0.01)))
    {
        sym::check("thin-accepted", r == 0);
        if (r == 0) sym::check_eq("thin", got, 0.0);
        return;
    }
    double body = Math::deBoerD((mj - m2) * d) / (m2 * s) - Math::deBoerD(mj * d) / (m1 * m2) + Math::deBoerD((mj + m1) * d) / (m1 * s);
    double want = std::exp(-(m1 + mj) * d) * body + std::log(1.0 + m1 / mj) / (m1 * s) + std::exp(-s * d) * logabs(1.0 - m2 / mj) / (m2 * s);
    sym::check("refused-only-if-negative", r == 0 || r == 2);
    if (r == 0)
    {
        sym::check_eq("value", got, want);
        sym::check_le("not-negative", 0.0, got);
    }
    else sym::check_le("negative-when-refused", want, 0.0);
}
HARNESS(refusals)
{
    int which = sym::choose("which", 0, 2), how = sym::choose("how", 0, 3);
    double m[3];
    for (int i = 0; i < 3; i++) m[i] = sym::real("mu" + std::to_string(i), 1e-2, 10.0);
    double rho = sym::real("density", 0.1, 10.0), t = sym::real("thickness", 1e-6, 1.0);
    double inf = std::numeric_limits<double>::infinity();
    m[which] = how == 0 ? sym::real("bad", -5.0, 0.0) : how == 1 ? inf : how == 2 ? -inf : std::numeric_limits<double>::quiet_NaN();
    sym::check("refused", sym::outcome([&] { Math::deBoerL0(m[0], m[1], m[2], rho, t); }) == 2);
}
struct P { double p, q, d1, d2, m1, m2, b; };
static P params(bool between)
{
    P a;
    a.p = sym::real("p", 0.1, 1e3); a.q = sym::real("q", 0.1, 1e3);
    a.d1 = sym::real("d1", 1e-3, 10.0); a.d2 = sym::real("d2", 1e-3, 10.0);
    a.m1 = sym::real("mu1j", 0.1, 1e3); a.m2 = sym::real("mu2j", 0.1, 1e3);
    a.b = 0.0;
    if (between) a.b = sym::real("between", 1e-6, 20.0);
    sym::assume(!sym::eq(a.q, a.m1));
    sym::assume(sym::le(a.q * a.d1, 100.0));
    return a;
}
static double V(const P &a, const double &d1, const double &d2)
{
    double t = a.m1 * d1 + a.b + a.m2 * d2, w = a.p * a.m1 + a.q * a.m2;
    double h = a.m2 / (a.p * w) * Math::deBoerD((1.0 + a.p / a.m2) * t) + a.m1 / (a.q * w) * Math::deBoerD((1.0 - a.q / a.m1) * t) - Math::deBoerD(t) / (a.p * a.q);
    return std::exp((a.q - a.m1) * d1 - (a.p + a.m2) * d2 - a.b) * h;
}
static double V00(const P &a)
{
    double w = a.p * a.m1 + a.q * a.m2;
    return -((a.m2 / a.p) * std::log(1.0 + a.p / a.m2) + (a.m1 / a.q) * logabs(1.0 - a.q / a.m1)) / w;
}
HARNESS(corner)
{
    int between = sym::choose("between", 0, 1), c = sym::choose("corner", 0, 3);
    P a = params(between);
    double d1 = c & 1 ? a.d1 : double(0.0), d2 = c & 2 ? a.d2 : double(0.0);
    double got = Math::deBoerV(a.p, a.q, d1, d2, a.m1, a.m2, a.b);
    sym::check_eq("value", got, !between && c == 0 ? V00(a) : V(a, d1, d2));
}
HARNESS(interlayer)
{
    int between = sym::choose("between", 0, 1);
    P a = params(between);
    double got = Math::deBoerX(a.p, a.q, a.d1, a.d2, a.m1, a.m2, a.b);
    double v00 = between ? V(a, 0.0, 0.0) : V00(a);
    sym::check_eq("alternating-sum", got, V(a, a.d1, a.d2) - V(a, a.d1, 0.0) - V(a, 0.0, a.d2) + v00, 1e-6);
    sym::check_eq("corners", got, Math::deBoerV(a.p, a.q, a.d1, a.d2, a.m1, a.m2, a.b) - Math::deBoerV(a.p, a.q, a.d1, 0.0, a.m1, a.m2, a.b)
                  - Math::deBoerV(a.p, a.q, 0.0, a.d2, a.m1, a.m2, a.b) + Math::deBoerV(a.p, a.q, 0.0, 0.0, a.m1, a.m2, a.b), 1e-6);
}
HARNESS(default_no_layer_between)
{
    P a = params(false);
    sym::check_eq("same", Math::deBoerX(a.p, a.q, a.d1, a.d2, a.m1, a.m2), Math::deBoerX(a.p, a.q, a.d1, a.d2, a.m1, a.m2, 0.0));
}
