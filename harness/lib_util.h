// A small library: the real Elements class over the in-memory data directory, some of its elements replaced by ones with
// symbolic mass attenuation coefficients (tabulated exactly at the energies that matter).
#ifndef LIB_UTIL_H
#define LIB_UTIL_H
#include "fakedata_impl.h"
#include "fisx_math.h"
#include "fisx_element.h"
#include "fisx_elements.h"
#ifdef SYMX
namespace fisx { bool Math::isFiniteNumber(const double & x) { return sym::finite(x); } }
#endif
namespace lu {
typedef std::map<std::string, double> Map;
typedef std::vector<double> Vec;
typedef std::vector<std::string> Names;
static inline Names names(const std::string &t) { std::istringstream i(t); Names r; std::string w; while (i >> w) r.push_back(w); return r; }
static const char *PROC[] = {"coherent", "compton", "pair", "photoelectric"};
// one element with tables given on `energies`; values symbolic when `free`
static fisx::Element element(const std::string &name, int z, const Vec &energies, bool free, double mass)
{
    fisx::Element e(name, z);
    e.setAtomicMass(mass);
    Vec v[4];
    for (size_t i = 0; i < energies.size(); i++)
        for (int p = 0; p < 4; p++)
        {
            if (free) v[p].push_back(sym::real(name + "." + PROC[p] + std::to_string(i), 1e-4, 100.0));
            else v[p].push_back(0.01 * (1 + p + 4 * i) + 0.001 * z);
        }
    e.setMassAttenuationCoefficients(energies, v[3], v[0], v[1], v[2]);
    return e;
}
static inline double get(const Map &m, const std::string &k)
{
    Map::const_iterator i = m.find(k);
    sym::check("answer has its keys", i != m.end());
    if (i == m.end()) return 0.0;
    return i->second;
}
}
#endif
