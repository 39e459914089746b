// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds mixtures of up to 3 elements, 2 of them in formulas with counts 1 to 3, mass fractions in [0, 1] (or composition given and scaled by [0.01, 100]); atomic masses in [1, 250]; tables of 3 energies with coefficients in [1e-4, 100]; lists of 1 to 3 query energies in [1, 50] keV; materials nested twice
#include "lib_util.h"
#include "fisx_layer.h"
#include "fisx_xrf.h"
using namespace fisx;
using namespace lu;
static const char *EL[] = {"Si", "Fe", "O"};
static Elements *library()
{
    static Elements *L = 0;
    if (L) return L;
    L = fake::library();
    Vec e; e.push_back(0.5); e.push_back(12.5); e.push_back(60.0);
    for (int i = 0; i < 3; i++)
    {
        fisx::Element x = element(EL[i], 8 + i, e, true, sym::real("mass" + std::to_string(i), 1.0, 250.0));
        Vec rest; for (int k = 0; k < 3; k++) rest.push_back(sym::real(std::string(EL[i]) + ".rest" + std::to_string(k), 1e-4, 100.0));
        Map b; for (int s = 0; s < 9; s++) b[names("K L1 L2 L3 M1 M2 M3 M4 M5")[s]] = 0.0;
        x.setBindingEnergies(b);
        x.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, rest);
        L->addElement(x);
    }
    return L;
}
static Vec energies()
{
    Vec r;
    int n = sym::choose("energies", 1, 3);
    for (int i = 0; i < n; i++)
    {
        double x = sym::real("x" + std::to_string(i), 1.0, 50.0);
        if (i == 2) x = r[0];           // the same energy again
        r.push_back(x);
    }
    return r;
}
typedef std::map<std::string, Vec> Lists;
// the answer `got` for `x` is the sum of the elements' own coefficients weighted with w
static void expect(const Elements &L, const Map &w, const Vec &x, Lists got)
{
    sym::check("processes listed", got.find("total") != got.end() && got.find("energy") != got.end());
    for (size_t i = 0; i < x.size(); i++)
    {
        double total = 0.0;
        for (int p = 0; p < 4; p++)
        {
            double sum = 0.0;
            for (Map::const_iterator c = w.begin(); c != w.end(); ++c)
                sum += c->second * get(L.getElement(c->first).getMassAttenuationCoefficients(x[i]), PROC[p]);
            sym::check("one value per energy", got[PROC[p]].size() == x.size());
            if (got[PROC[p]].size() != x.size()) return;
            sym::check_eq(std::string("weighted sum of ") + PROC[p], got[PROC[p]][i], sum);
            total += got[PROC[p]][i];
        }
        sym::check("one total per energy", got["total"].size() == x.size() && got["energy"].size() == x.size());
        if (got["total"].size() != x.size()) return;
        sym::check_eq("total", got["total"][i], total);
        sym::check_eq("energy", got["energy"][i], x[i]);
    }
}
static Lists lists(const Map &one)
{
    Lists r;
    for (Map::const_iterator i = one.begin(); i != one.end(); ++i) r[i->first] = Vec(1, i->second);
    return r;
}
static Map scaled(const Map &w, const double &f) { Map r; for (Map::const_iterator i = w.begin(); i != w.end(); ++i) r[i->first] = i->second / f; return r; }
static void both(const Elements &L, const Map &given, const Map &w, const Vec &x, int isComposition)
{
    expect(L, w, x, L.getMassAttenuationCoefficients(given, x, isComposition));
    expect(L, w, Vec(1, x[0]), lists(L.getMassAttenuationCoefficients(given, x[0], isComposition)));
}
HARNESS(composition)
{
    Elements &L = *library();
    int n = sym::choose("elements", 1, 3);
    int flag = sym::choose("already elemental", 0, 1);
    int zero = sym::choose("zero", -1, n - 1);
    Map given; double total = 0.0;
    for (int i = 0; i < n; i++)
    {
        double f = sym::real("f" + std::to_string(i), 0.001, 1.0);
        if (i == zero) f = 0.0;
        given[EL[i]] = f; total += f;
    }
    if (n == 1 && zero == 0)
    {
        if (!flag) sym::check("no amount at all refused", sym::outcome([&] { L.getMassAttenuationCoefficients(given, double(10.0), 0); }) == 1);
        return;
    }
    both(L, given, flag ? given : scaled(given, total), energies(), flag);
}
HARNESS(of_formulas)
{
    Elements &L = *library();
    int a = sym::choose("a", 1, 3), b = sym::choose("b", 1, 3);
    std::string formula = "Fe" + (a > 1 ? std::to_string(a) : std::string()) + "O" + (b > 1 ? std::to_string(b) : std::string());
    double mf = L.getAtomicMass("Fe") * a, mo = L.getAtomicMass("O") * b;
    Map w; w["Fe"] = mf / (mf + mo); w["O"] = mo / (mf + mo);
    Vec x = energies();
    expect(L, w, x, L.getMassAttenuationCoefficients(formula, x));
    expect(L, w, Vec(1, x[0]), lists(L.getMassAttenuationCoefficients(formula, x[0])));
    // in a mixture with an element it contains
    double f0 = sym::real("f0", 0.001, 1.0), f1 = sym::real("f1", 0.001, 1.0);
    Map given; given[formula] = f0; given["O"] = f1;
    Map m; m["Fe"] = f0 * w["Fe"] / (f0 + f1); m["O"] = (f0 * w["O"] + f1) / (f0 + f1);
    both(L, given, m, Vec(1, x[0]), 0);
}
HARNESS(of_materials)
{
    Elements &L = *library();
    double p = sym::real("p", 0.001, 1.0), q = sym::real("q", 0.001, 1.0), f = sym::real("f", 0.001, 1.0), g = sym::real("g", 0.001, 1.0);
    Material inner("inner alloy", 1.0, 1.0), outer("outer alloy", 1.0, 1.0);
    Map c; c["Fe"] = p; c["Si"] = q;
    inner.setComposition(c);
    Map d; d["inner alloy"] = f; d["O"] = g;
    outer.setComposition(d);
    L.addMaterial(inner, 1); L.addMaterial(outer, 1);
    Map wi; wi["Fe"] = p / (p + q); wi["Si"] = q / (p + q);
    Map wo; wo["Fe"] = wi["Fe"] * f / (f + g); wo["Si"] = wi["Si"] * f / (f + g); wo["O"] = g / (f + g);
    Vec x = energies();
    int which = sym::choose("asked", 0, 3);
    if (which == 0) { expect(L, wi, x, L.getMassAttenuationCoefficients("inner alloy", x)); expect(L, wi, Vec(1, x[0]), lists(L.getMassAttenuationCoefficients("inner alloy", x[0]))); }
    if (which == 1) { expect(L, wo, x, L.getMassAttenuationCoefficients("outer alloy", x)); expect(L, wo, Vec(1, x[0]), lists(L.getMassAttenuationCoefficients("outer alloy", x[0]))); }
    Layer y("layer", 1.0, 1.0, 1.0);
    XRF xrf;
    if (which == 2) y.setMaterial("outer alloy");
    if (which == 3) y.setMaterial(outer);
    if (which >= 2)
    {
        expect(L, wo, x, y.getMassAttenuationCoefficients(x, L));
        expect(L, wo, Vec(1, x[0]), lists(y.getMassAttenuationCoefficients(x[0], L)));
        expect(L, wo, x, xrf.getLayerMassAttenuationCoefficients(y, x, L));
        expect(L, wo, Vec(1, x[0]), lists(xrf.getLayerMassAttenuationCoefficients(y, x[0], L)));
        expect(L, wo, x, xrf.getLayerMassAttenuationCoefficients(y, x, L, wo));
    }
}
HARNESS(single_element)
{
    Elements &L = *library();
    Vec x = energies();
    int k = sym::choose("element", 0, 2);
    Map w; w[EL[k]] = 1.0;
    expect(L, w, x, L.getMassAttenuationCoefficients(EL[k], x));
    expect(L, w, Vec(1, x[0]), lists(L.getMassAttenuationCoefficients(EL[k], x[0])));
    both(L, w, w, x, 1);
}
HARNESS(refused)
{
    Elements &L = *library();
    double f = sym::real("f", -1.0, 1.0), g = sym::real("g", 0.001, 1.0);
    Map given; given["Fe"] = f; given["O"] = g;
    bool bad = sym::holds(sym::lt(f, 0.0));
    Vec x(1, sym::real("x", 1.0, 50.0));
    sym::check("negative amounts refused", sym::outcome([&] { L.getMassAttenuationCoefficients(given, x, 0); }) == (bad ? 1 : 0));
    sym::check("unknown name refused", sym::outcome([&] { L.getMassAttenuationCoefficients("nothing", x); }) == 1);
    sym::check("unknown name refused, single", sym::outcome([&] { L.getMassAttenuationCoefficients("nothing", x[0]); }) == 1);
    Map un; un["Fe"] = 0.5; un["nothing"] = 0.5;
    sym::check("unknown part refused", sym::outcome([&] { L.getMassAttenuationCoefficients(un, x, 0); }) == 1);
    if (!bad) { Map w; w["Fe"] = f / (f + g); w["O"] = g / (f + g); expect(L, w, x, L.getMassAttenuationCoefficients(given, x, 0)); }
}
