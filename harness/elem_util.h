// A small element whose tables and shell data are symbolic; every piece of data goes through Element's public setters.
#ifndef ELEM_UTIL_H
#define ELEM_UTIL_H
#include "fisx_element.h"
#include "fisx_math.h"
#ifdef SYMX
// finiteness of a term is a property of the real value: no need to look at DBL_MAX
namespace fisx { bool Math::isFiniteNumber(const double & x) { return sym::finite(x); } }
#endif
namespace eu {
typedef std::map<std::string, double> Map;
typedef std::vector<double> Vec;
typedef std::vector<std::string> Names;
static const char *SH[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
static inline std::string num(const std::string &a, int i) { return a + std::to_string(i); }
static inline Vec two(const double &a, const double &b) { Vec v; v.push_back(a); v.push_back(b); return v; }
static inline Names names(const std::string &t) { std::istringstream i(t); Names r; std::string w; while (i >> w) r.push_back(w); return r; }
// strictly ascending energies in [lo, hi], at least gap apart; `twice` >= 0 repeats that one
static inline Vec grid(const std::string &n, int size, int twice, double lo, double hi, double gap)
{
    Vec v;
    for (int i = 0; i < size; i++)
    {
        if (twice >= 0 && i == twice + 1) { v.push_back(v[twice]); continue; }
        double x = sym::real(num(n, i), lo, hi);
        if (i) sym::assume(sym::le(v[i - 1] + gap, x));
        v.push_back(x);
    }
    return v;
}
static inline Vec values(const std::string &n, int size, double lo, double hi)
{
    Vec v;
    for (int i = 0; i < size; i++) v.push_back(sym::real(num(n, i), lo, hi));
    return v;
}
static inline double get(const Map &m, const std::string &k)
{
    Map::const_iterator i = m.find(k);
    sym::check("answer has its keys", i != m.end());
    if (i == m.end()) return 0.0;
    return i->second;
}
// ln r * ln(x1/x0) == ln y0 * ln(x1/x) + ln y1 * ln(x/x0)
static inline void loglog(const std::string &label, const double &r, const double &x, const double &x0, const double &y0, const double &x1, const double &y1)
{
    sym::check(label + " positive", sym::lt(0.0, r));
    if (!sym::holds(sym::lt(0.0, r))) return;
    sym::check_eq(label, log(r) * (log(x1) - log(x0)), log(y0) * (log(x1) - log(x)) + log(y1) * (log(x) - log(x0)), 1e-6);
}
static inline Map bindings(const double &K, const double &L1, const double &M1)
{
    Map b;
    for (int i = 0; i < 9; i++) b[SH[i]] = 0.0;
    b["K"] = K; b["L1"] = L1; b["M1"] = M1;
    return b;
}
}
#endif
