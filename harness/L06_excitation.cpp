// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds one element with K, L1, L3 and M1 shells, their rates, yields and Coster-Kronig probability, its photoelectric and partial photoelectric coefficients at two energies all symbolic; 1 to 3 energies out of those two (repeats included) or any energy in [20, 60] keV between them; weights in [0, 10], one for all, one each or none given; caches off, on and filled, also filled for another energy only; cascade cache on
#include "lib_util.h"
using namespace fisx;
using namespace lu;
typedef std::map<std::string, Map> Lines;
static Vec two(const double &a, const double &b) { Vec v; v.push_back(a); v.push_back(b); return v; }
static Vec values(const std::string &n) { return two(sym::real(n + "0", 0.001, 1000.0), sym::real(n + "1", 0.001, 1000.0)); }
static fisx::Element atom(bool lean)
{
    fisx::Element e("Fe", 26);
    e.setAtomicMass(55.8);
    Map b; Names all = names("K L1 L2 L3 M1 M2 M3 M4 M5");
    for (size_t i = 0; i < all.size(); i++) b[all[i]] = 0.0;
    b["K"] = 7.1; b["L1"] = 0.85; b["L3"] = 0.71; b["M1"] = 0.09; b["M3"] = 0.05;
    e.setBindingEnergies(b);
    Vec g = two(20.0, 60.0);
    e.setMassAttenuationCoefficients(g, two(1.0, 2.0), two(0.1, 0.2), two(0.3, 0.4));
    const char *sh[] = {"K", "L1", "L3", "M1"};
    for (int i = 0; i < 4; i++)
    {
        std::string s = sh[i];
        e.setPartialPhotoelectricMassAttenuationCoefficients(s, g, lean && i > 1 ? two(1.0 + i, 0.5 * i) : values("mu" + s));
        Map c; c["omega"] = lean && i > 1 ? double(0.015625 * i) : sym::real("omega" + s, 0.001, 0.4);
        if (i == 1) c["f13"] = sym::real("f13", 0.001, 0.5);
        e.setShellConstants(s, c);
    }
    e.setPartialPhotoelectricMassAttenuationCoefficients("M3", g, two(0.25, 0.125));
    e.setPartialPhotoelectricMassAttenuationCoefficients("all other", g, two(0.5, 0.0625));
    e.setRadiativeTransitions("K", names("KL3 KM3"), values("rK"));
    e.setRadiativeTransitions("L1", names("L1M3"), Vec(1, 1.0));
    e.setRadiativeTransitions("L3", names("L3M1 L3M5"), values("rL3"));
    e.setNonradiativeTransitions("K", names("K-L1L3 K-M1M1"), values("aK"));
    return e;
}
static void same(const std::string &w, Lines &a, Lines &b, const double &factor)
{
    sym::check(w + ": same lines", a.size() == b.size());
    for (Lines::iterator i = b.begin(); i != b.end(); ++i)
    {
        sym::check(w + ": line listed", a.find(i->first) != a.end());
        if (a.find(i->first) == a.end()) continue;
        sym::check_eq(w + ": rate scales", get(a[i->first], "rate"), get(i->second, "rate") * factor);
        sym::check_eq(w + ": factor scales", get(a[i->first], "factor"), get(i->second, "factor") * factor);
        sym::check_eq(w + ": energy stays", get(a[i->first], "energy"), get(i->second, "energy"));
    }
}
// one energy: lines of the vacancies left by the photoelectric effect
HARNESS(definition)
{
    Elements *L = fake::library();
    fisx::Element e = atom(false);
    L->addElement(e);
    double x = 20.0;
    switch (sym::choose("energy", 0, 3)) { case 0: x = 20.0; break; case 1: x = 60.0; break; case 2: x = 5.0; break; default: x = sym::real("x", 21.0, 59.0); }
    double w = sym::real("w", 0.0, 10.0);
    int cache = sym::choose("cache", 0, 3);
    if (cache == 3) { L->setElementCascadeCacheEnabled("Fe", 1); L->fillElementCascadeCache("Fe"); }
    else if (cache) { L->setCacheEnabled("Fe", 1); L->fillCache("Fe", Vec(1, cache == 1 ? x : double(33.0))); }
    if (cache == 2) sym::assume(!sym::eq(x, 33.0));
    Lines got = L->getExcitationFactors("Fe", x, w);
    Map mu = e.getMassAttenuationCoefficients(x), part = e.getPartialPhotoelectricMassAttenuationCoefficients(x);
    Map share = e.getInitialPhotoelectricVacancyDistribution(x);
    Lines lines = e.getXRayLinesFromVacancyDistribution(share, 1, 1);
    double photo = 0.0;
    for (Map::iterator i = part.begin(); i != part.end(); ++i) photo = photo + i->second;
    sym::check_eq("photoelectric is the sum of the shells", get(mu, "photoelectric"), photo);
    sym::check("the lines are those of the vacancies", got.size() == lines.size());
    for (Lines::iterator i = lines.begin(); i != lines.end(); ++i)
    {
        if (got.find(i->first) == got.end()) { sym::check("line of the vacancies listed", false); continue; }
        sym::check_eq("factor is weight times emission", get(got[i->first], "factor"), w * get(i->second, "rate"));
        sym::check_eq("rate is photoelectric times emission", get(got[i->first], "rate"), w * get(i->second, "rate") * photo);
        sym::check_eq("energy is the one of the line", get(got[i->first], "energy"), get(i->second, "energy"));
    }
}
HARNESS(several)
{
    Elements *L = fake::library();
    L->addElement(atom(true));
    int n = sym::choose("energies", 0, 3);
    Vec e, w;
    for (int i = 0; i < n; i++) e.push_back(sym::choose("energy" + std::to_string(i), 0, 1) ? double(20.0) : double(60.0));
    int given = sym::choose("weights", 0, 2);
    if (given == 1) w.push_back(sym::real("w", 0.0, 10.0));
    if (given == 2) for (int i = 0; i < n; i++) w.push_back(sym::real("w" + std::to_string(i), 0.0, 10.0));
    int cache = sym::choose("cache", 0, 3);
    Lines alone[3];
    for (int i = 0; i < n; i++) alone[i] = L->getExcitationFactors("Fe", e[i]);
    if (cache == 3) { L->setElementCascadeCacheEnabled("Fe", 1); L->fillElementCascadeCache("Fe"); }
    else if (cache) { L->setCacheEnabled("Fe", 1); L->fillCache("Fe", cache == 1 ? two(20.0, 60.0) : Vec(1, 60.0)); }
    std::vector<Lines> got = L->getExcitationFactors("Fe", e, w);
    sym::check("one answer per energy", got.size() == (size_t) n);
    if (got.size() != (size_t) n) return;
    for (int i = 0; i < n; i++) same("energy by energy", got[i], alone[i], given == 2 ? w[i] : given == 1 ? w[0] : double(1.0 / n));
    // and again: asking does not change the answer
    std::vector<Lines> again = L->getExcitationFactors("Fe", e, w);
    for (int i = 0; i < n; i++) same("again", again[i], got[i], 1.0);
    if (n)
    {
        Lines one = L->getExcitationFactors("Fe", e[0]);
        same("alone afterwards", one, alone[0], 1.0);
    }
}
