// An element with symbolic shells K, L1, L2, L3, M1 (or fewer): rates, yields and binding energies
#ifndef CASCADE_UTIL_H
#define CASCADE_UTIL_H
#include "elem_util.h"
namespace eu {
struct Atom { int n; std::map<std::string, Map> lines; };    // lines[shell]["KL2"] = rate given
static void constants(fisx::Element &el, const std::string &s, const std::string &cks)
{
    Map c; double left = 1.0;
    Names k = names("omega " + cks);
    for (size_t i = 0; i < k.size(); i++)
    {
        std::string key = k[i] == "omega" ? "omega" : k[i];
        double v = sym::real(s + "." + key, 0.01, 0.3);
        c[key] = v;
    }
    el.setShellConstants(s, c);
}
static void rates(fisx::Element &el, Atom &a, const std::string &s, const std::string &rad, const std::string &aug)
{
    Names l = names(rad), g = names(aug); Vec lv, gv;
    for (size_t i = 0; i < l.size(); i++) { lv.push_back(sym::real("r" + l[i], 0.01, 10.0)); a.lines[s][l[i]] = lv[i]; }
    for (size_t i = 0; i < g.size(); i++) gv.push_back(sym::real("a" + g[i], 0.01, 10.0));
    if (l.size()) el.setRadiativeTransitions(s, l, lv);
    if (g.size()) el.setNonradiativeTransitions(s, g, gv);
}
// shells K, L1, L2, L3, M1, M2 in this order; n of them
static Atom atom(fisx::Element &el, int n, const Map &binding)
{
    Atom a; a.n = n;
    el.setBindingEnergies(binding);
    rates(el, a, "K", "KL2 KL3 KM3", "K-L1L2 K-L1M1");
    constants(el, "K", "");
    if (n > 1) { rates(el, a, "L1", "L1M2 L1M3", "L1-M1M1 L1-L2M1 L1-L3M2"); constants(el, "L1", "f12 f13"); }
    if (n > 2) { rates(el, a, "L2", "L2M1 L2M4", "L2-M1M2 L2-L3M1"); constants(el, "L2", "f23"); }
    if (n > 3) { rates(el, a, "L3", "L3M1 L3M5", "L3-M1M1"); constants(el, "L3", ""); }
    if (n > 4) { rates(el, a, "M1", "M1N2", ""); constants(el, "M1", ""); }
    return a;
}
static Map shells(int n) { Map b; for (int i = 0; i < n; i++) b[SH[i]] = 10.0 / (i + 1); return b; }
}
#endif
