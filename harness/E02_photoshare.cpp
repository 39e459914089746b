// @sources fisx_element.cpp fisx_shell.cpp fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @bounds binding energies of K, L1 and M1 symbolic or zero, each shell with a table of 4 energies in [0.5, 150] keV (at least two at or above its edge; values before the edge 0 or positive, above positive); or missing, zero and one-point tables; query in [0.5, 150] keV or exactly at an edge
#include "elem_util.h"
using namespace fisx;
using namespace eu;
// b: binding energy (0 = shell absent); the table has `below` points under the edge
static void shell(Element &el, const std::string &s, const double &b, int below, bool at, bool zero)
{
    Vec e, y;
    double last = 0.4;
    for (int i = 0; i < 4; i++)
    {
        double x;
        if (i == below && at) x = b;
        else x = sym::real(s + "e" + std::to_string(i), 0.5, 150.0);
        if (i < below) sym::assume(sym::le(x + 0.001, b));
        if (i >= below && !(i == below && at)) sym::assume(sym::le(b + 0.001, x));
        if (i) sym::assume(sym::le(last + 0.001, x));
        e.push_back(x); last = x;
        if (i < below && zero) y.push_back(0.0);
        else y.push_back(sym::real(s + "y" + std::to_string(i), 0.001, 1000.0));
    }
    el.setPartialPhotoelectricMassAttenuationCoefficients(s, e, y);
}
static void rest(Element &el)
{
    Vec e = two(0.5, 150.0), y = values("rest", 2, 0.001, 1000.0);
    el.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, y);
}
static void attenuation(Element &el)
{
    Vec e = two(0.5, 150.0), o = two(1.0, 1.0);
    el.setMassAttenuationCoefficients(e, o, o, o);
}
static void examine(Element &el, const Map &b, const double &x)
{
    Map part = el.getPartialPhotoelectricMassAttenuationCoefficients(x), mu = el.getMassAttenuationCoefficients(x);
    Map share = el.getInitialPhotoelectricVacancyDistribution(x);
    double sum = 0.0, shares = 0.0;
    std::vector<std::string> exc = el.getExcitedShells(x);
    size_t nexc = 0;
    for (int i = 0; i < 10; i++)
    {
        std::string s = i < 9 ? SH[i] : "all other";
        double p = get(part, s), f = get(share, s);
        if (i < 9)
        {
            double e = b.find(s)->second;
            bool active = sym::holds(sym::lt(0.0, e) && sym::le(e, x));
            if (!active) { sym::check_eq("shell below its edge takes no part", p, 0.0); sym::check_eq("no vacancies below the edge", f, 0.0); }
            else sym::check("an excited shell takes part", sym::lt(0.0, p));
            bool strictly = sym::holds(sym::lt(0.0, e) && sym::lt(e, x));
            bool listed = std::find(exc.begin(), exc.end(), s) != exc.end();
            sym::check("excited shells listed", listed == strictly);
            nexc += strictly ? 1 : 0;
        }
        sym::check("share not negative", sym::le(0.0, f));
        sym::check_eq("attenuation reports the shell", get(mu, s), p);
        sum += p; shares += f;
        sym::check_eq("share of the absorption", f * get(mu, "photoelectric"), p);
    }
    sym::check("nothing else listed", exc.size() == nexc);
    sym::check_eq("shells add up", sum, get(mu, "photoelectric"));
    if (sym::holds(sym::lt(0.0, sum))) sym::check_eq("shares add up to one", shares, 1.0);
}
HARNESS(one_shell)
{
    Element el("X", 20);
    int below = sym::choose("points below", 0, 2);
    bool at = sym::choose("point at edge", 0, 1) != 0, zero = sym::choose("zero below", 0, 1) != 0;
    double bK = sym::real("K", 0.6, 120.0);
    Map b = bindings(bK, 0.0, 0.0);
    el.setBindingEnergies(b);
    attenuation(el);
    shell(el, "K", bK, below, at, zero);
    rest(el);
    int w = sym::choose("where", 0, 1);
    double x;
    if (w == 0) x = bK; else x = sym::real("x", 0.5, 150.0);
    examine(el, b, x);
}
HARNESS(three_shells)
{
    Element el("X", 20);
    int have = sym::choose("shells", 0, 7);
    double bK = 0.0, bL = 0.0, bM = 0.0;
    if (have & 1) bK = sym::real("K", 0.6, 120.0);
    if (have & 2) bL = sym::real("L1", 0.6, 120.0);
    if (have & 4) bM = sym::real("M1", 0.6, 120.0);
    Map b = bindings(bK, bL, bM);
    el.setBindingEnergies(b);
    attenuation(el);
    // two points each, at the edge and at the upper end
    const char *n[] = {"K", "L1", "M1"};
    for (int i = 0; i < 3; i++)
        if (have & (1 << i)) el.setPartialPhotoelectricMassAttenuationCoefficients(n[i], two(b[n[i]], 150.0), values(std::string(n[i]) + "y", 2, 0.001, 1000.0));
    rest(el);
    double x = sym::real("x", 0.5, 150.0);
    examine(el, b, x);
    // list form
    Vec q(1, x);
    std::map<std::string, Vec> l = el.getInitialPhotoelectricVacancyDistribution(q);
    Map one = el.getInitialPhotoelectricVacancyDistribution(x);
    for (Map::iterator i = one.begin(); i != one.end(); ++i)
    {
        sym::check("list length", l[i->first].size() == 1);
        if (l[i->first].size() == 1) sym::check_eq("list equals single", l[i->first][0], i->second);
    }
}
HARNESS(no_absorption)
{
    Element el("X", 20);
    double bK = sym::real("K", 10.0, 120.0);
    Map b = bindings(bK, 0.0, 0.0);
    el.setBindingEnergies(b);
    attenuation(el);
    double x = sym::real("x", 0.5, 9.0);
    Map share = el.getInitialPhotoelectricVacancyDistribution(x);
    for (int i = 0; i < 9; i++) sym::check_eq("no vacancy without absorption", get(share, SH[i]), 0.0);
}
HARNESS(refused)
{
    Element el("X", 20);
    double bK = sym::real("K", 1.0, 2.0);
    el.setBindingEnergies(bindings(bK, 0.0, 0.0));
    attenuation(el); rest(el);
    Vec e = two(bK, 150.0), y = values("y", 2, 0.001, 1000.0);
    el.setPartialPhotoelectricMassAttenuationCoefficients("K", e, y);
    double x = sym::real("x", 3.0, 100.0);
    double before = get(el.getPartialPhotoelectricMassAttenuationCoefficients(x), "K");
    Vec f = two(sym::real("f0", 1.0, 100.0), sym::real("f1", 1.0, 100.0)), g = values("g", 2, 0.001, 10.0);
    int bad = sym::choose("bad", 0, 2);
    std::string s = "K";
    if (bad == 0) g.push_back(1.0);
    if (bad == 1) s = "N1";
    if (bad == 2) sym::assume(sym::lt(f[1], f[0]));
    if (bad < 2) sym::assume(sym::lt(f[0], f[1]));
    sym::check("refused", sym::outcome([&] { el.setPartialPhotoelectricMassAttenuationCoefficients(s, f, g); }) == 1);
    sym::check_eq("kept", get(el.getPartialPhotoelectricMassAttenuationCoefficients(x), "K"), before);
}
// shells bound below the query whose tables are missing, zero, or too short to extrapolate from
HARNESS(incomplete)
{
    Element el("X", 20);
    double bK = 4.0, bL = 1.0;
    Map b = bindings(bK, bL, 0.0);
    el.setBindingEnergies(b);
    attenuation(el);
    int what = sym::choose("K table", 0, 5), others = sym::choose("others", 0, 2);
    Vec e, y;
    double v = sym::real("v", 0.001, 1000.0), f = sym::real("f", 4.0, 150.0);
    switch (what)
    {
    case 0: break;
    case 1: e.push_back(f); y.push_back(v); break;
    case 2: e.push_back(f); y.push_back(0.0); break;
    case 3: e.push_back(0.5); e.push_back(f); y.push_back(0.0); y.push_back(v); break;
    case 4: e.push_back(0.5); e.push_back(2.0); e.push_back(f); y.push_back(0.0); y.push_back(0.0); y.push_back(0.0); break;
    case 5: e.push_back(0.5); e.push_back(f); e.push_back(f); y.push_back(0.0); y.push_back(0.0); y.push_back(v); break;
    }
    double sumL = 0.0;
    if (what) el.setPartialPhotoelectricMassAttenuationCoefficients("K", e, y);
    if (others & 1) el.setPartialPhotoelectricMassAttenuationCoefficients("L1", two(bL, 150.0), values("l", 2, 0.001, 1000.0));
    if (others & 2) rest(el);
    if (!what && !others) el.setPartialPhotoelectricMassAttenuationCoefficients("K", two(bK, 150.0), two(0.0, 0.0));
    double x = sym::choose("at", 0, 1) ? f : sym::real("x", 4.0, 150.0);
    Map part = el.getPartialPhotoelectricMassAttenuationCoefficients(x), mu = el.getMassAttenuationCoefficients(x), share = el.getInitialPhotoelectricVacancyDistribution(x);
    double sum = 0.0;
    for (int i = 0; i < 10; i++)
    {
        std::string s = i < 9 ? SH[i] : "all other";
        sym::check_le("not negative", 0.0, get(part, s));
        sym::check_eq("attenuation reports the shell", get(mu, s), get(part, s));
        sym::check_eq("share of the absorption", get(share, s) * get(mu, "photoelectric"), get(part, s));
        sum += get(part, s);
    }
    sym::check_eq("shells add up", sum, get(mu, "photoelectric"));
    if (what == 0 || what == 2 || what == 4) sym::check_eq("no coefficients, no part", get(part, "K"), 0.0);
    if (what == 1 || what == 3) sym::check_eq("single value", get(part, "K"), v, 1e-6);
    if (!(others & 1)) sym::check_eq("shell without table", get(part, "L1"), 0.0);
    if (!(others & 2)) sym::check_eq("rest without table", get(part, "all other"), 0.0);
}
