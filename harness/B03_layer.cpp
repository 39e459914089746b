// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds two elements with any coefficients in [1e-4, 100] per process at 2 energies; pure, compound and mixed materials given by name or as a Material; density in [1e-3, 30], thickness in [1e-6, 10], covered fraction in [0, 1], angle 90 or +-[0.1, 179.9] degrees; histories of up to 3 setter calls
#include "lib_util.h"
#include "fisx_layer.h"
#include "fisx_xrf.h"
using namespace fisx;
using namespace lu;
static const double PI = 3.14159265358979323846;
static Vec energies() { Vec e; e.push_back(5.0); e.push_back(10.0); return e; }
static Elements *library(bool free)
{
    Elements *L = fake::library();
    L->addElement(element("Si", 14, energies(), free, 28.0));
    L->addElement(element("O", 8, energies(), free, 16.0));
    return L;
}
static Material mixture(const std::string &name)
{
    Material m(name, 2.5, 0.125);
    Map c; c["Si"] = sym::real("amount Si", 1e-3, 1e3); c["SiO2"] = sym::real("amount SiO2", 1e-3, 1e3);
    m.setComposition(c);
    return m;
}
static double angle(int kind)
{
    if (kind == 0) return 90.0;
    double a = sym::real("angle", 0.1, 179.9);
    return kind == 1 ? a : -a;
}
static double path(int kind, const double &rho, const double &t, const double &a)
{
    if (kind == 0) return rho * t;
    return rho * t / sin((kind == 1 ? a : -a) * PI / 180.0);
}
HARNESS(law)
{
    Elements &L = *library(true);
    double rho = sym::real("density", 1e-3, 30.0), t = sym::real("thickness", 1e-6, 10.0), f = sym::real("covered", 0.0, 1.0);
    int what = sym::choose("material", 0, 3), kind = sym::choose("angle kind", 0, 2), which = sym::choose("energy", 0, 1);
    double e = energies()[which];
    Material m = mixture("stuff");
    Layer y(what == 0 ? "Si" : what == 1 ? "SiO2" : "some layer", rho, t, f);
    Map comp;
    if (what == 2) { L.addMaterial(m, 1); y.setMaterial("stuff"); comp = L.getComposition("stuff"); }
    else if (what == 3) { y.setMaterial(m); comp = L.getComposition(m.getComposition()); }
    else comp = L.getComposition(what == 0 ? "Si" : "SiO2");
    double mu = 0.0;
    for (Map::iterator i = comp.begin(); i != comp.end(); ++i) mu += i->second * get(L.getMassAttenuationCoefficients(i->first, e), "total");
    double a = angle(kind), p = path(kind, rho, t, a);
    double T = y.getTransmission(e, L, a);
    sym::check_eq("law", T, (1.0 - f) + f * exp(-(p * mu)));
    sym::check_le("not negative", 0.0, T);
    sym::check_le("at most one", T, 1.0);
    if (kind != 0) sym::check_eq("sign of the angle", y.getTransmission(e, L, -a), T);
    if (kind == 0) sym::check_eq("normal by default", y.getTransmission(e, L), T);
    Vec q = energies();
    if (sym::choose("queries", 0, 1)) { q.push_back(q[0]); q.erase(q.begin()); }
    Vec l = y.getTransmission(q, L, a);
    sym::check("list length", l.size() == q.size());
    for (size_t i = 0; i < q.size() && i < l.size(); i++) { if (q[i] == e) sym::check_eq("list", l[i], T); else sym::check_eq("list, other energy", l[i], y.getTransmission(q[i], L, a)); }
    sym::check("empty list", y.getTransmission(Vec(), L, a).size() == 0);
    // the experiment's own view of the layer
    XRF x;
    sym::check_eq("experiment", x.getLayerTransmission(y, e, L, a), T);
    sym::check_eq("experiment with composition", x.getLayerTransmission(y, e, L, a, comp), T);
    Vec xl = x.getLayerTransmission(y, q, L, a);
    sym::check("experiment list length", xl.size() == q.size());
    for (size_t i = 0; i < q.size() && i < xl.size(); i++) sym::check_eq("experiment list", xl[i], l[i]);
    // coefficients of the layer
    sym::check_eq("coefficient", get(y.getMassAttenuationCoefficients(e, L), "total"), mu);
    sym::check_eq("coefficient, experiment", get(x.getLayerMassAttenuationCoefficients(y, e, L), "total"), mu);
}
HARNESS(refusal)
{
    // no number for a path of no matter
    Elements &L = *library(false);
    double rho = sym::real("density", -30.0, 30.0), t = sym::real("thickness", -10.0, 10.0), f = sym::real("covered", 0.0, 1.0);
    int kind = sym::choose("angle kind", 0, 2);
    double a = angle(kind);
    Layer y("SiO2", rho, t, f);
    double p = path(kind, rho, t, a);
    bool bad = sym::holds(sym::le(p, 0.0));
    XRF x;
    double r = 0.0; Vec l, q = energies();
    
    sym::check("single", (sym::outcome([&] { r = y.getTransmission(5.0, L, a); }) != 0) == bad);
    sym::check("list", (sym::outcome([&] { l = y.getTransmission(q, L, a); }) != 0) == bad);
    sym::check("experiment, single", (sym::outcome([&] { r = x.getLayerTransmission(y, 5.0, L, a); }) != 0) == bad);
    sym::check("experiment, list", (sym::outcome([&] { l = x.getLayerTransmission(y, q, L, a); }) != 0) == bad);
}
HARNESS(turned)
{
    // light from behind (sine of the angle negative) is refused whatever the angle's sign
    Elements &L = *library(false);
    Layer y("SiO2", sym::real("density", 1e-3, 30.0), sym::real("thickness", 1e-6, 10.0), 1.0);
    double s = sym::real("sine", -1.0, 1.0);
    sym::assume(sym::lt(s, -1e-6));
    double a = 360.0 - 180.0 / PI * acos(s);
    sym::assume(sym::lt(sin(a * PI / 180.0), 0.0));
    XRF x;
    double r = 0.0;
    sym::check("single", sym::outcome([&] { r = y.getTransmission(5.0, L, a); }) != 0);
    sym::check("experiment", sym::outcome([&] { r = x.getLayerTransmission(y, 5.0, L, a); }) != 0);
}
HARNESS(setters)
{
    Elements &L = *library(false);
    double rho = sym::real("density", 1e-3, 30.0), t = sym::real("thickness", 1e-6, 10.0), f = sym::real("covered", 0.0, 1.0);
    Layer y("Si", rho, t, f);
    int n = sym::choose("calls", 1, 3);
    for (int k = 0; k < n; k++)
    {
        double v = sym::real("value" + std::to_string(k), -10.0, 10.0);
        bool ok = sym::holds(sym::lt(0.0, v)), density = sym::choose("setter", 0, 1) == 0;
        sym::check("outcome", sym::outcome([&] { if (density) y.setDensity(v); else y.setThickness(v); }) == (ok ? 0 : 1));
        if (ok && density) rho = v;
        if (ok && !density) t = v;
        sym::check_eq("density", y.getDensity(), rho);
        sym::check_eq("thickness", y.getThickness(), t);
        sym::check_eq("covered fraction", y.getFunnyFactor(), f);
    }
    sym::check_eq("used", y.getTransmission(5.0, L), (1.0 - f) + f * exp(-(rho * t * get(L.getMassAttenuationCoefficients("Si", 5.0), "total"))));
    sym::check("name", y.getName() == "Si" && y.getMaterialName() == "Si" && !y.hasMaterialComposition());
}
HARNESS(material_defaults)
{
    // what a layer does not say about itself it takes from its material
    Elements &L = *library(false);
    double rho = sym::real("material density", 1e-3, 30.0), t = sym::real("material thickness", 1e-6, 10.0);
    Material m("stuff", rho, t);
    Map c; c["Si"] = 1.0; m.setComposition(c);
    int has = sym::choose("layer has", 0, 3);
    double r0 = sym::real("density", 1e-3, 30.0), t0 = sym::real("thickness", 1e-6, 10.0);
    Layer y("some layer", has & 1 ? r0 : double(0.0), has & 2 ? t0 : double(0.0), 1.0);
    y.setMaterial(m);
    sym::check("own composition", y.hasMaterialComposition());
    sym::check_eq("density", y.getDensity(), has & 1 ? r0 : rho);
    sym::check_eq("thickness", y.getThickness(), has & 2 ? t0 : t);
    sym::check("transmits", sym::outcome([&] { y.getTransmission(5.0, L); }) == 0);
    // back to a name
    y.setMaterial("O");
    sym::check("by name again", !y.hasMaterialComposition() && y.getMaterialName() == "O");
    sym::check_eq("coefficient of the new material", get(y.getMassAttenuationCoefficients(5.0, L), "total"), get(L.getMassAttenuationCoefficients("O", 5.0), "total"));
}
