// @sources fisx_element.cpp fisx_shell.cpp fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @bounds tables of 1 or 3 to 5 energies in [0.5, 150] keV at least 1 eV apart, optionally one energy tabulated twice; coefficients in [1e-3, 1e3] or zero; query anywhere inside the table
#include "elem_util.h"
using namespace fisx;
using namespace eu;
struct Tab { Vec e, coh, com, pho, pai; };
static Tab table(Element &el, bool pair, int twice, int n)
{
    Tab t;
    t.e = grid("e", n, twice, 0.5, 150.0, 0.001);
    t.coh = values("coh", n, 0.001, 1000.0); t.com = values("com", n, 0.001, 1000.0);
    t.pho = values("pho", n, 0.001, 1000.0);
    if (pair) t.pai = values("pair", n, 0.001, 1000.0);
    if (twice >= 0) { t.coh[twice + 1] = t.coh[twice]; t.com[twice + 1] = t.com[twice]; if (pair) t.pai[twice + 1] = t.pai[twice]; }
    if (pair) el.setMassAttenuationCoefficients(t.e, t.pho, t.coh, t.com, t.pai);
    else el.setMassAttenuationCoefficients(t.e, t.pho, t.coh, t.com);
    return t;
}
HARNESS(tabulated)
{
    int n = sym::choose("size", 3, 5), twice = sym::choose("repeated", -1, 2);
    sym::assume(twice + 1 < n);
    bool pair = sym::choose("pair", 0, 1) != 0;
    Element el("X", 20);
    Tab t = table(el, pair, twice, n);
    int k = sym::choose("at", 0, n - 1);
    Map r = el.getMassAttenuationCoefficients(t.e[k]);
    sym::check_eq("coherent as tabulated", get(r, "coherent"), t.coh[k], 1e-6);
    sym::check_eq("compton as tabulated", get(r, "compton"), t.com[k], 1e-6);
    sym::check_eq("pair as tabulated", get(r, "pair"), pair ? t.pai[k] : double(0.0), 1e-6);
    sym::check_eq("energy", get(r, "energy"), t.e[k]);
    sym::check_eq("total", get(r, "total"), get(r, "coherent") + get(r, "compton") + get(r, "pair") + get(r, "photoelectric"));
    const std::map<std::string, Vec> &all = el.getMassAttenuationCoefficients();
    sym::check_eq("stored photoelectric", all.find("photoelectric")->second[k], t.pho[k]);
    sym::check_eq("stored total", all.find("total")->second[k], t.pho[k] + t.coh[k] + t.com[k] + (pair ? t.pai[k] : double(0.0)));
    sym::check_eq("stored energy", all.find("energy")->second[k], t.e[k]);
}
HARNESS(between)
{
    int n = sym::choose("size", 3, 5), twice = sym::choose("repeated", -1, 2);
    sym::assume(twice + 1 < n);
    bool pair = sym::choose("pair", 0, 1) != 0;
    Element el("X", 20);
    Tab t = table(el, pair, twice, n);
    int k = sym::choose("interval", 0, n - 2);
    sym::assume(k != twice);
    double x = sym::real("x", 0.5, 150.0);
    sym::assume(sym::lt(t.e[k], x) && sym::lt(x, t.e[k + 1]));
    Map r = el.getMassAttenuationCoefficients(x);
    loglog("coherent", get(r, "coherent"), x, t.e[k], t.coh[k], t.e[k + 1], t.coh[k + 1]);
    loglog("compton", get(r, "compton"), x, t.e[k], t.com[k], t.e[k + 1], t.com[k + 1]);
    if (pair) loglog("pair", get(r, "pair"), x, t.e[k], t.pai[k], t.e[k + 1], t.pai[k + 1]);
    else sym::check_eq("no pair production", get(r, "pair"), 0.0);
    sym::check_eq("total", get(r, "total"), get(r, "coherent") + get(r, "compton") + get(r, "pair") + get(r, "photoelectric"));
}
// the photoelectric part: each shell and the rest interpolate their own tables
HARNESS(photoelectric)
{
    Element el("X", 20);
    double b = sym::real("binding", 2.0, 50.0);
    el.setBindingEnergies(bindings(b, 0.0, 0.0));
    Tab t = table(el, false, -1, 3);
    bool edge = sym::choose("edge repeated", 0, 1) != 0;
    int n = edge ? 5 : 4;
    // K table: one point below the edge, the others at and above it
    Vec e, y = values("k", n, 0.001, 1000.0), rest = values("rest", n, 0.001, 1000.0);
    e.push_back(sym::real("below", 0.5, 49.0));
    sym::assume(sym::le(e[0] + 0.001, b));
    e.push_back(b);
    if (edge) e.push_back(b);
    double last = b;
    while ((int)e.size() < n) { double x = sym::real(num("above", (int)e.size()), 2.0, 150.0); sym::assume(sym::le(last + 0.001, x)); e.push_back(x); last = x; }
    el.setPartialPhotoelectricMassAttenuationCoefficients("K", e, y);
    el.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, rest);
    int where = sym::choose("where", 0, 3);
    double x;
    int k = n - 2;
    if (where == 0) x = b; else if (where == 1) x = e[n - 1]; else x = sym::real("x", 0.5, 150.0);
    if (where == 2) sym::assume(sym::lt(e[n - 2], x) && sym::lt(x, e[n - 1]));
    if (where == 3) sym::assume(sym::lt(e[0], x) && sym::lt(x, b));
    Map r = el.getMassAttenuationCoefficients(x);
    if (where == 0) { sym::check_eq("K at its edge", get(r, "K"), y[edge ? 2 : 1], 1e-6); sym::check_eq("rest at the edge", get(r, "all other"), rest[edge ? 2 : 1], 1e-6); }
    if (where == 1) { sym::check_eq("K at a point", get(r, "K"), y[n - 1], 1e-6); sym::check_eq("rest at a point", get(r, "all other"), rest[n - 1], 1e-6); }
    if (where == 2) { loglog("K between", get(r, "K"), x, e[k], y[k], e[k + 1], y[k + 1]); loglog("rest between", get(r, "all other"), x, e[k], rest[k], e[k + 1], rest[k + 1]); }
    if (where == 3) { sym::check_eq("K below its edge", get(r, "K"), 0.0); loglog("rest below the edge", get(r, "all other"), x, e[0], rest[0], e[1], rest[1]); }
    double sum = 0.0;
    for (int i = 0; i < 9; i++) sum += get(r, SH[i]);
    sym::check_eq("photoelectric is the sum", get(r, "photoelectric"), sum + get(r, "all other"));
    sym::check_eq("total is the sum", get(r, "total"), get(r, "coherent") + get(r, "compton") + get(r, "pair") + get(r, "photoelectric"));
}
HARNESS(list_agrees)
{
    Element el("X", 20);
    Tab t = table(el, true, -1, 3);
    Vec q = values("q", sym::choose("queries", 1, 2), 0.5, 150.0);
    for (size_t i = 0; i < q.size(); i++) sym::assume(sym::le(t.e[0], q[i]) && sym::le(q[i], t.e[2]));
    std::map<std::string, Vec> all = el.getMassAttenuationCoefficients(q);
    for (size_t i = 0; i < q.size(); i++)
    {
        Map one = el.getMassAttenuationCoefficients(q[i]);
        sym::check("same keys", one.size() == all.size());
        for (Map::iterator j = one.begin(); j != one.end(); ++j)
        {
            sym::check("list length", all[j->first].size() == q.size());
            if (all[j->first].size() == q.size()) sym::check_eq("list equals single", all[j->first][i], j->second);
        }
    }
}
HARNESS(refused_keeps_table)
{
    Element el("X", 20);
    Tab t = table(el, true, -1, 3);
    int bad = sym::choose("bad", 0, 4);
    Vec e = grid("f", 3, -1, 0.5, 150.0, 0.001), a = values("a", 3, 0.001, 10.0), b = a, c = a, d = a;
    if (bad == 0) a.push_back(1.0);
    if (bad == 1) b.push_back(1.0);
    if (bad == 2) c.push_back(1.0);
    if (bad == 3) d.push_back(1.0);
    if (bad == 4) std::swap(e[1], e[2]);
    sym::check("refused", sym::outcome([&] { el.setMassAttenuationCoefficients(e, a, b, c, d); }) == 1);
    Map r = el.getMassAttenuationCoefficients(t.e[1]);
    sym::check_eq("coherent kept", get(r, "coherent"), t.coh[1], 1e-6);
    sym::check_eq("compton kept", get(r, "compton"), t.com[1], 1e-6);
    sym::check_eq("pair kept", get(r, "pair"), t.pai[1], 1e-6);
}
HARNESS(never_set)
{
    Element el("X", 20);
    sym::check("unset refused", sym::outcome([&] { el.getMassAttenuationCoefficients(double(sym::real("x", 0.5, 100.0))); }) == 2);
}
// coefficients that set in between two tabulated energies (pair production, outer shells) stay between their neighbours
HARNESS(threshold)
{
    Element el("X", 20);
    Vec e = grid("e", 3, -1, 0.5, 150.0, 0.001), one = values("one", 3, 0.001, 1000.0), y = values("y", 3, 0.001, 1000.0);
    int zeros = sym::choose("zeros", 1, 3), last = sym::choose("zero at the end", 0, 1);
    for (int i = 0; i < 3; i++) if (i < zeros || (last && i == 2)) y[i] = 0.0;
    int which = sym::choose("which", 0, 3);
    if (which == 0) el.setMassAttenuationCoefficients(e, one, one, one, y);
    if (which == 1) el.setMassAttenuationCoefficients(e, one, y, one, one);
    if (which == 2) el.setMassAttenuationCoefficients(e, one, one, y, one);
    if (which == 3) { el.setMassAttenuationCoefficients(e, one, one, one, one); el.setBindingEnergies(bindings(0.0, 0.0, 0.0)); el.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, y); }
    const char *key[] = {"pair", "coherent", "compton", "all other"};
    int k = sym::choose("interval", 0, 1), at = sym::choose("at", 0, 2);
    double x = at == 0 ? e[k] : at == 1 ? e[k + 1] : sym::real("x", 0.5, 150.0);
    sym::assume(sym::le(e[k], x) && sym::le(x, e[k + 1]));
    double r = get(el.getMassAttenuationCoefficients(x), key[which]);
    if (at < 2) sym::check_eq("as tabulated", r, y[k + at], 1e-6);
    sym::check_le("not negative", 0.0, r);
    if (k < zeros || (last && k == 1)) { if (sym::holds(sym::lt(y[k], y[k + 1]))) sym::check_le("not above the upper neighbour", r, y[k + 1]); else sym::check_le("not above the lower neighbour", r, y[k]); }
}
// a table of a single energy
HARNESS(single)
{
    Element el("X", 20);
    Vec e(1, sym::real("e", 0.5, 150.0)), a = values("a", 1, 0.001, 1000.0), b = values("b", 1, 0.001, 1000.0), c = values("c", 1, 0.001, 1000.0), p = values("p", 1, 0.001, 1000.0);
    el.setMassAttenuationCoefficients(e, c, a, b, p);
    el.setBindingEnergies(bindings(0.0, 0.0, 0.0));
    bool rest = sym::choose("partial", 0, 1) != 0;
    if (rest) el.setPartialPhotoelectricMassAttenuationCoefficients("all other", e, c);
    Map r = el.getMassAttenuationCoefficients(e[0]);
    sym::check_eq("coherent as tabulated", get(r, "coherent"), a[0], 1e-6);
    sym::check_eq("compton as tabulated", get(r, "compton"), b[0], 1e-6);
    sym::check_eq("pair as tabulated", get(r, "pair"), p[0], 1e-6);
    if (rest) sym::check_eq("rest as tabulated", get(r, "all other"), c[0], 1e-6);
}
