// Samples for the fluorescence calculation: elements whose line energies, edges and table energies are fixed numbers
// (binary fractions, so that line energies are exact) while every coefficient, yield, rate, density, ... is symbolic.
//   Fe: K edge 7, lines KL2 6.25, KL3 6.5, KM3 6.9375     Ti: K edge 5, lines KL3 4.5, KM3 4.875     Si: no lines
#ifndef XRF_UTIL_H
#define XRF_UTIL_H
#include "lib_util.h"
#include "fisx_layer.h"
#include "fisx_detector.h"
#include "fisx_xrf.h"
namespace xu {
using namespace lu;
static const double PI = 3.14159265358979323846;
static const char *SH[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
static Vec vec(int n, const double *v) { return Vec(v, v + n); }
// every energy at which anything is asked
static Vec grid()
{
    static const double g[] = {0.03125, 4.5, 4.875, 6.25, 6.5, 6.9375, 10.0, 20.0, 30.0};
    return vec(9, g);
}
struct Spec { std::string name; int z; double K, L2, L3, M3; bool lines; };
static Spec spec(const std::string &n)
{
    Spec s; s.name = n; s.lines = n != "Si";
    if (n == "Fe") { s.z = 26; s.K = 7.0; s.L2 = 0.75; s.L3 = 0.5; s.M3 = 0.0625; }
    else if (n == "Ti") { s.z = 22; s.K = 5.0; s.L2 = 0.5; s.L3 = 0.5; s.M3 = 0.125; }
    else { s.z = 14; s.K = s.L2 = s.L3 = s.M3 = 0.0; }
    return s;
}
// level: 0 concrete data, 1 symbolic coefficients, 2 also symbolic yields and rates, 3 symbolic photoelectric and (beam energies) coherent coefficients
static fisx::Element element(const std::string &n, int level)
{
    Spec s = spec(n);
    Vec e = grid();
    fisx::Element x(s.name, s.z);
    x.setAtomicMass(2.0 * s.z);
    Map b; for (int i = 0; i < 9; i++) b[SH[i]] = 0.0;
    b["K"] = s.K; b["L2"] = s.L2; b["L3"] = s.L3; b["M3"] = s.M3;
    x.setBindingEnergies(b);
    Vec coh, comp, pair, rest, k;
    for (size_t i = 0; i < e.size(); i++)
    {
        bool f = level > 0;
        std::string id = n + std::to_string(i);
        coh.push_back(f && (level != 3 || i > 5) ? sym::real(id + ".coherent", 1e-4, 100.0) : double(0.25));
        comp.push_back(f && level != 3 ? sym::real(id + ".compton", 1e-4, 100.0) : double(0.125));
        pair.push_back(0.0);
        rest.push_back(f ? sym::real(id + ".photo", 1e-4, 1000.0) : double(2.0 + s.z / (1.0 + e[i])));
        k.push_back(e[i] < s.K ? double(0.0) : double(50.0 / e[i]));
    }
    x.setMassAttenuationCoefficients(e, rest, coh, comp, pair);
    x.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, rest);
    if (!s.lines) return x;
    x.setPartialPhotoelectricMassAttenuationCoefficients("K", e, k);
    Vec outer; for (size_t i = 0; i < e.size(); i++) outer.push_back(2.0 / (1.0 + e[i]));
    x.setPartialPhotoelectricMassAttenuationCoefficients("L2", e, outer);
    x.setPartialPhotoelectricMassAttenuationCoefficients("L3", e, outer);
    x.setPartialPhotoelectricMassAttenuationCoefficients("M3", e, outer);
    std::vector<std::string> l; Vec v;
    if (n == "Fe") { l.push_back("KL2"); v.push_back(level == 2 ? sym::real(n + ".KL2", 1e-3, 1.0) : double(0.25)); }
    l.push_back("KL3"); v.push_back(level == 2 ? sym::real(n + ".KL3", 1e-3, 1.0) : double(0.5));
    l.push_back("KM3"); v.push_back(level == 2 ? sym::real(n + ".KM3", 1e-3, 1.0) : double(0.125));
    x.setRadiativeTransitions("K", l, v);
    Map c; c["omega"] = level == 2 ? sym::real(n + ".omegaK", 1e-3, 1.0) : double(0.25);
    x.setShellConstants("K", c);
    return x;
}
static fisx::Elements *library(int level, const std::string &which)
{
    fisx::Elements *L = fake::library();
    Names n = names(which);
    for (size_t i = 0; i < n.size(); i++) L->addElement(element(n[i], level));
    return L;
}
static fisx::Material mixture(const std::string &name, const std::string &parts, const std::string &id, bool fixed = false)
{
    fisx::Material m(name, 1.0, 1.0);
    Map c; Names n = names(parts);
    static const double part[] = {0.25, 0.75};
    for (size_t i = 0; i < n.size(); i++) c[n[i]] = fixed ? part[i] : sym::real(id + "." + n[i], 0.05, 1.0);
    m.setComposition(c);
    return m;
}
// kind of material: an element's name or a mixture of those given
static fisx::Layer layer(const std::string &what, const std::string &id, bool covered, bool fixed = false)
{
    double rho = sym::real(id + ".density", 0.05, 20.0), t = sym::real(id + ".thickness", 1e-4, 1.0);
    double f = covered ? sym::real(id + ".covered", 0.0, 1.0) : double(1.0);
    if (what.find(' ') == std::string::npos) return fisx::Layer(what, rho, t, f);
    fisx::Layer y(id, rho, t, f);
    y.setMaterial(mixture(id, what, id, fixed));
    return y;
}
static double mu(const fisx::Elements &L, const fisx::Layer &y, const double &e) { return get(L.getMassAttenuationCoefficients(y.getComposition(L), e), "total"); }
static double rhot(const fisx::Layer &y) { return y.getDensity() * y.getThickness(); }
static double fraction(const fisx::Elements &L, const fisx::Layer &y, const std::string &e)
{
    Map c = y.getComposition(L);
    return c.find(e) == c.end() ? double(0.0) : c.find(e)->second;
}
typedef std::map<std::string, Map> Lines;
typedef std::map<std::string, std::map<int, Lines> > Result;
}
#endif
