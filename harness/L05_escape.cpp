// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds a material of two elements, the lighter one without lines, with K lines whose rates, yield, partial and total coefficients are symbolic at the incident and line energies; mass fraction in [0.01, 1]; intensity threshold in [0, 0.1]; incidence angle 90 degrees or any in [5, 175] and its negative; thickness 0 or in [1e-4, 10]; histories of one cache filling, one change of a setting or of the element data and one question
#include "lib_util.h"
#include "fisx_detector.h"
using namespace fisx;
using namespace lu;
typedef std::map<std::string, Map> Lines;
static Vec grid() { Vec g; g.push_back(6.25); g.push_back(6.5); g.push_back(20.0); g.push_back(40.0); return g; }
static Vec values(const std::string &n, size_t k) { Vec v; for (size_t i = 0; i < k; i++) v.push_back(sym::real(n + std::to_string(i), 0.001, 1000.0)); return v; }
static Vec fixed(const double &x) { Vec v(4, x); v[2] = x * 0.5; v[3] = x * 0.25; return v; }
// level 0: everything known; 1: rates and yield symbolic; 2: coefficients too
static fisx::Element heavy(const std::string &tag, int level)
{
    fisx::Element e("Fe", 26);
    e.setAtomicMass(55.8);
    Map b; Names all = names("K L1 L2 L3 M1 M2 M3 M4 M5");
    for (size_t i = 0; i < all.size(); i++) b[all[i]] = 0.0;
    b["K"] = 7.0; b["L2"] = 0.75; b["L3"] = 0.5;
    e.setBindingEnergies(b);
    Vec g = grid();
    e.setMassAttenuationCoefficients(g, fixed(1.0), level > 1 ? values(tag + "coherent", 4) : fixed(2.0), fixed(0.5));
    Vec above; above.push_back(7.0); above.push_back(20.0); above.push_back(40.0);
    Vec k = level > 1 ? values(tag + "muK", 3) : Vec(3, 8.0);
    e.setPartialPhotoelectricMassAttenuationCoefficients("K", above, k);
    e.setPartialPhotoelectricMassAttenuationCoefficients("L2", g, fixed(2.0));
    e.setPartialPhotoelectricMassAttenuationCoefficients("L3", g, fixed(4.0));
    e.setPartialPhotoelectricMassAttenuationCoefficients("all other", g, fixed(1.0));
    Map c; c["omega"] = level ? sym::real(tag + "omegaK", 0.01, 0.9) : double(0.25);
    e.setShellConstants("K", c);
    e.setRadiativeTransitions("K", names("KL2 KL3"), level ? values(tag + "rK", 2) : Vec(2, 3.0));
    return e;
}
static fisx::Element light(int level)
{
    fisx::Element e("O", 8);
    e.setAtomicMass(16.0);
    Map b; Names all = names("K L1 L2 L3 M1 M2 M3 M4 M5");
    for (size_t i = 0; i < all.size(); i++) b[all[i]] = 0.0;
    e.setBindingEnergies(b);
    Vec g = grid();
    e.setMassAttenuationCoefficients(g, fixed(1.0), level > 1 ? values("O.coherent", 4) : fixed(1.0), fixed(0.25));
    e.setPartialPhotoelectricMassAttenuationCoefficients("all other", g, fixed(2.0));
    return e;
}
// count libraries with the same data
static std::vector<Elements *> library(int level, int count = 1)
{
    std::vector<Elements *> r;
    fisx::Element h = heavy("", level), l = light(level);
    for (int i = 0; i < count; i++)
    {
        r.push_back(fake::library());
        r[i]->addElement(h);
        r[i]->addElement(l);
    }
    return r;
}
static Map material(const double &w) { Map m; m["Fe"] = w; m["O"] = 1.0 - w; return m; }
static double sine(const double &alpha)
{
    if (sym::holds(sym::eq(alpha, 90.0))) return 1.0;
    double s = sin(alpha * (3.141592653589793 / 180.));
    return sym::holds(sym::lt(s, 0.0)) ? -s : s;
}
// the documented formula
static Lines expected(Elements &L, const Map &m, const double &x, const double &least, const double &alpha, const double &thick)
{
    Lines r;
    double mu = get(L.getMassAttenuationCoefficients(m, x), "total"), s = sine(alpha);
    for (Map::const_iterator i = m.begin(); i != m.end(); ++i)
    {
        Lines l = L.getExcitationFactors(i->first, x, i->second);
        for (Lines::iterator j = l.begin(); j != l.end(); ++j)
        {
            double f = get(j->second, "energy"), t = s * (get(L.getMassAttenuationCoefficients(m, f), "total") / mu);
            double rate = get(j->second, "rate") * ((0.5 / mu) * (1.0 - t * log(1 + 1.0 / t)));
            if (!sym::holds(sym::lt(least, rate))) continue;
            if (sym::holds(sym::lt(0.0, thick))) rate = rate / (1.0 - exp(-mu * thick / s));
            Map v; v["rate"] = rate; v["energy"] = x - f;
            r[i->first + "_" + j->first + "esc"] = v;
        }
    }
    return r;
}
static void same(const std::string &w, Lines a, Lines b)
{
    sym::check(w + ": same peaks", a.size() == b.size());
    for (Lines::iterator i = b.begin(); i != b.end(); ++i)
    {
        bool have = a.find(i->first) != a.end();
        sym::check(w + ": peak listed", have);
        if (!have) continue;
        sym::check_eq(w + ": energy", get(a[i->first], "energy"), get(i->second, "energy"));
        sym::check_eq(w + ": rate", get(a[i->first], "rate"), get(i->second, "rate"));
        sym::check(w + ": nothing else", a[i->first].size() == 2);
    }
}
HARNESS(formula)
{
    Elements *L = library(2)[0];
    double x = sym::choose("energy", 0, 1) ? double(40.0) : double(20.0);
    double w = sym::choose("pure", 0, 1) ? double(1.0) : double(0.25);
    double least = sym::choose("no threshold", 0, 1) ? double(0.0) : sym::real("least", 0.0, 0.1);
    int a = sym::choose("angle", 0, 2);
    double alpha = 90.0;
    if (a) { alpha = sym::real("alpha", 5.0, 175.0); sym::assume(!sym::eq(alpha, 90.0)); }
    if (a == 2) alpha = -alpha;
    double thick = sym::choose("thin", 0, 1) ? sym::real("d", 1e-4, 10.0) : double(0.0);
    Map m = material(w);
    if (sym::holds(sym::eq(w, 1.0))) { m.clear(); m["Fe"] = 1.0; }
    Lines got = L->getEscape(m, x, 0.01, least, 4, alpha, thick);
    same("formula", got, expected(*L, m, x, least, alpha, thick));
    for (Lines::iterator i = got.begin(); i != got.end(); ++i) sym::check("ratio is positive", sym::lt(0.0, get(i->second, "rate")));
}
// below the edge there is nothing to escape
HARNESS(below)
{
    Elements *L = library(1)[0];
    double x = 6.5;
    sym::check("no peak below the edge", L->getEscape(material(sym::real("w", 0.01, 1.0)), x).empty());
}
// the escape cache of the library
HARNESS(library_cache)
{
    std::vector<Elements *> both = library(1, 2); Elements *L = both[0], *F = both[1];
    sym::check("the cache is not used unless requested", L->isEscapeCacheEnabled() == 0);
    double w = 0.25, least = sym::choose("no threshold", 0, 1) ? double(0.0) : sym::real("least", 1e-3, 0.1);
    double alpha = 45.0, thick = 0.0, near = 0.01; int n = 4;
    Map m = material(w);
    int enabled = sym::choose("enabled", 0, 1);
    L->setEscapeCacheEnabled(enabled);
    sym::check("the flag is kept", (L->isEscapeCacheEnabled() != 0) == (enabled != 0));
    Vec e(1, 20.0); if (sym::choose("both filled", 0, 1)) e.push_back(40.0);
    L->updateEscapeCache(m, e, near, least, n, alpha, thick);
    int change = sym::choose("change", 0, 13);
    switch (change)
    {
    case 1: m = material(0.5); break;
    case 2: { double v = sym::real("least2", 1e-3, 0.1); sym::assume(!sym::eq(v, least)); least = v; break; }
    case 3: alpha = 90.0; break;
    case 4: alpha = -45.0; break;
    case 5: thick = sym::real("d", 0.01, 10.0); break;
    case 6: m.clear(); m["Fe"] = 1.0; break;
    case 7: { fisx::Element e2 = heavy("new.", 1); L->addElement(e2); F->addElement(e2); break; }
    case 8: L->clearEscapeCache(); break;
    case 9: L->setEscapeCacheEnabled(0); break;
    case 10: L->setEscapeCacheEnabled(0); L->setEscapeCacheEnabled(1); break;
    case 11: { Map o; o["O"] = w; o["Fe"] = 1.0 - w; m = o; break; }
    case 12: L->updateEscapeCache(m, e, near, least * 0.5 + 0.001, n, 90.0, 0.0); break;     // filled for other conditions
    case 13: { Map o; o["Fe"] = w; o["Si"] = 1.0 - w; L->addElement(fisx::Element(light(1))); m = material(w); L->updateEscapeCache(material(w * 0.5), e, near, least, n, alpha, thick); break; }
    }
    if (sym::choose("update again", 0, 1)) L->updateEscapeCache(m, e, near, least, n, alpha, thick);
    double x = sym::choose("asked", 0, 1) ? double(20.0) : double(40.0);
    Lines got = L->getEscape(m, x, near, least, n, alpha, thick);
    same("as without cache", got, F->getEscape(m, x, near, least, n, alpha, thick));
    same("again", L->getEscape(m, x, near, least, n, alpha, thick), got);
}
// new attenuation data for an element through the library
HARNESS(new_attenuation)
{
    std::vector<Elements *> both = library(0, 2); Elements *L = both[0], *F = both[1];
    Map m; m["Si"] = 0.5; m["Fe"] = 0.5;
    L->setEscapeCacheEnabled(1);
    L->updateEscapeCache(m, Vec(1, 20.0), 0.01, 0.0, 4, 90.0, 0.0);
    Vec g = grid();
    if (sym::choose("coefficients", 0, 1))
    {
        Vec p = fixed(3.0), c = values("coherent", 4), i = fixed(0.5), z(4, 0.0);
        L->setMassAttenuationCoefficients("Si", g, p, c, i, z);
        F->setMassAttenuationCoefficients("Si", g, p, c, i, z);
    }
    else
    {
        Vec c = values("coherent", 1);
        fisx::Element e = heavy("", 1);
        L->addElement(e); F->addElement(e);
    }
    same("new data at once", L->getEscape(m, 20.0, 0.01, 0.0, 4, 90.0, 0.0), F->getEscape(m, 20.0, 0.01, 0.0, 4, 90.0, 0.0));
}
static Detector detector(const double &w, const double &least, int n, const double &near)
{
    Material m("Det", 5.0, 0.1);
    Names e = names("Fe O"); Vec f; f.push_back(w); f.push_back(1.0 - w);
    m.setComposition(e, f);
    Detector d("Det", 5.0, 0.1);
    d.setMaterial(m);
    d.setMinimumEscapePeakIntensity(least);
    d.setMaximumNumberOfEscapePeaks(n);
    d.setMinimumEscapePeakEnergy(near);
    return d;
}
HARNESS(detector_settings)
{
    Elements *L = library(1)[0];
    double w = 0.25, least = sym::real("least", 1e-3, 0.1), least2 = sym::real("least2", 1e-3, 0.1), w2 = w;
    Detector d = detector(w, least, 4, 0.01);
    sym::check_eq("threshold kept", d.getEscapePeakIntensityThreshold(), least);
    std::string label = sym::choose("label", 0, 1) ? "library" : "";
    int update = sym::choose("update", 0, 1);
    Lines before = d.getEscape(20.0, *L, label, update);
    same("detector asks for its material", before, L->getEscape(material(w), 20.0, 0.01, least, 4, 90.0, 0.0));
    int change = sym::choose("change", 0, 5);
    switch (change)
    {
    case 1: d.setMinimumEscapePeakIntensity(least2); least = least2; break;
    case 2:
        {
            w2 = 0.5;
            Material m("Other", 2.0, 0.1);
            Names e = names("Fe O"); Vec f; f.push_back(w2); f.push_back(1.0 - w2);
            m.setComposition(e, f);
            d.setMaterial(m);
            break;
        }
    case 3: d.setMaterial(std::string("Fe2O3")); break;
    case 4: d.clearEscapePeakCache(); break;
    case 5: label = "another"; break;
    }
    double x = sym::choose("asked", 0, 1) ? double(20.0) : double(40.0);
    Lines got = d.getEscape(x, *L, label, 0);
    same("settings reflected at once", got, L->getEscape(change == 3 ? L->getComposition("Fe2O3") : material(w2), x, 0.01, least, 4, 90.0, 0.0));
    same("again", d.getEscape(x, *L, label, 0), got);
}
// energyThreshold: separation under which two lines count as one; nThreshold: how many peaks at most
HARNESS(limits)
{
    Elements *L = library(0)[0];
    Map m; m["Fe"] = 1.0;
    int n = sym::choose("most", 1, 4), near = sym::choose("near", 0, 1);
    Lines got = L->getEscape(m, 20.0, near ? 0.5 : 0.01, 0.0, n, 90.0, 0.0);
    sym::check("at most the maximum number of peaks", (int) got.size() <= n);
    if (near) sym::check("lines closer than the energy threshold count as one", got.size() <= 1);
}
