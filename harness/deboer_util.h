// The de Boer integrals as arbitrary non-negative functions of their arguments (M02 decides how the real ones are built).
#ifndef DEBOER_UTIL_H
#define DEBOER_UTIL_H
#include "fisx_math.h"
#ifdef SYMX
namespace fisx {
double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj, const double & density, const double & thickness)
{
    std::vector<double> a; a.push_back(mu1); a.push_back(mu2); a.push_back(muj); a.push_back(density); a.push_back(thickness);
    return sym::arbitrary("L0", a, 0.0, 1000.0);
}
double Math::deBoerX(const double & p, const double & q, const double & d1, const double & d2, const double & mu1j, const double & mu2j, const double & mubj_dt)
{
    std::vector<double> a; a.push_back(p); a.push_back(q); a.push_back(d1); a.push_back(d2); a.push_back(mu1j); a.push_back(mu2j); a.push_back(mubj_dt);
    return sym::arbitrary("X", a, 0.0, 1000.0);
}
}
#endif
#endif
