// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds tables of 4 or 5 energies in [0.5, 150] keV at least 1 eV apart with an absorption edge (tabulated once or twice) of one shell; coefficients in [1e-3, 1e3]; two column orders; elements below and above Z = 18; query anywhere inside the table, or outside by up to a factor 4; files with too few scans, missing or deviating columns
#include "epdl_util.h"
using namespace fisx;
using namespace du;
static const int HEAVY = 50, LIGHT = 8;
// the element's table: `edge` is the first row at the edge energy of `shell`; `twice`: that energy is tabulated twice, the first time without the shell
struct Table { int z, n, edge; bool twice; std::string shell; std::vector<Row> rows; };
// fixed: concrete energies 1, 2, 4 .. ; coefficients in [lo, hi]
static Table table(int order, bool fixed = false, const double &lo = 0.001, const double &hi = 1000.0)
{
    Table t;
    t.z = sym::choose("heavy", 0, 1) ? HEAVY : LIGHT;
    t.twice = sym::choose("edge twice", 0, 1) != 0;
    t.n = t.twice ? 5 : 4; t.edge = t.twice ? 1 : 1;
    t.shell = t.z == LIGHT ? "K" : sym::choose("shell", 0, 1) ? "L2" : "M5";
    Vec e;
    for (int i = 0; i < t.n; i++)
    {
        if (t.twice && i == t.edge + 1) { e.push_back(e[t.edge]); continue; }
        if (fixed) { e.push_back(i ? e[i - 1] * 2.0 : double(1.0)); continue; }
        e.push_back(sym::real(num("e", i), 0.5, 150.0));
        if (i) sym::assume(sym::le(e[i - 1] + 0.001, e[i]));
    }
    for (int i = 0; i < t.n; i++)
    {
        Row r = zero(e[i]);
        r.v["coherent"] = sym::real(num("coherent", i), lo, hi);
        r.v["compton"] = sym::real(num("compton", i), lo, hi);
        if (t.twice && i == t.edge + 1) { r.v["coherent"] = t.rows[t.edge].v["coherent"]; r.v["compton"] = t.rows[t.edge].v["compton"]; }
        if (i >= t.edge + (t.twice ? 1 : 0)) r.v[t.shell] = sym::real(num("shell", i), lo, hi);
        if (t.z == HEAVY)
        {
            r.v["all other"] = sym::real(num("other", i), lo, hi);
            if (t.twice && i == t.edge + 1) r.v["all other"] = t.rows[t.edge].v["all other"];
        }
        t.rows.push_back(r);
    }
    put(t.z, t.rows, order);
    binding(t.z, t.shell, e[t.edge]);
    return t;
}
static void sums(const Map &r)
{
    double p = get(r, "all other");
    for (int i = 0; i < 9; i++) p += get(r, SH[i]);
    sym::check_eq("photoelectric is the sum of its shells", get(r, "photoelectric"), p);
    sym::check_eq("total is the sum of the processes", get(r, "total"), get(r, "photoelectric") + get(r, "coherent") + get(r, "compton") + get(r, "pair"));
    sym::check_eq("pair", get(r, "pair"), 0.0);
}
HARNESS(tabulated)
{
    int order = sym::choose("columns", 0, 1);
    background(order);
    Table t = table(order);
    EPDL97 lib("fake");
    int k = sym::choose("at", 0, t.n - 1);
    Map r = lib.getMassAttenuationCoefficients(t.z, t.rows[k].v["energy"]);
    sums(r);
    sym::check_eq("energy", get(r, "energy"), t.rows[k].v["energy"]);
    int src = t.twice && k == t.edge ? k + 1 : k;     // at the edge itself the shell is excited
    sym::check_eq("coherent as tabulated", get(r, "coherent"), t.rows[k].v["coherent"], 1e-6);
    sym::check_eq("compton as tabulated", get(r, "compton"), t.rows[k].v["compton"], 1e-6);
    sym::check_eq("rest as tabulated", get(r, "all other"), t.rows[k].v["all other"], 1e-6);
    for (int i = 0; i < 9; i++) sym::check_eq("shell as tabulated", get(r, SH[i]), t.rows[src].v[SH[i]], 1e-6);
}
HARNESS(between)
{
    background(0);
    Table t = table(0);
    EPDL97 lib("fake");
    int k = sym::choose("interval", 0, t.n - 2);
    sym::assume(!(t.twice && k == t.edge));
    int out = k == 0 ? sym::choose("below", 0, 1) : k == t.n - 2 ? 2 * sym::choose("above", 0, 1) : 0;
    double x = sym::real("x", 0.1, 600.0), x0 = t.rows[k].v["energy"], x1 = t.rows[k + 1].v["energy"];
    if (out == 1) sym::assume(sym::lt(x, x0)); else if (out == 2) sym::assume(sym::lt(x1, x)); else sym::assume(sym::lt(x0, x) && sym::lt(x, x1));
    Map r = lib.getMassAttenuationCoefficients(t.z, x);
    sums(r);
    Map &a = t.rows[k].v, &b = t.rows[k + 1].v;
    loglog("coherent", get(r, "coherent"), x, x0, a["coherent"], x1, b["coherent"]);
    loglog("compton", get(r, "compton"), x, x0, a["compton"], x1, b["compton"]);
    if (t.z == HEAVY) loglog("rest", get(r, "all other"), x, x0, a["all other"], x1, b["all other"]);
    else sym::check_eq("no rest", get(r, "all other"), 0.0);
    for (int i = 0; i < 9; i++)
    {
        if (SH[i] == t.shell && k >= t.edge) loglog("shell", get(r, SH[i]), x, x0, a[SH[i]], x1, b[SH[i]]);
        else sym::check_eq("shell not excited", get(r, SH[i]), 0.0);
    }
}
// given binding energies win over the tabulated edge: below them a shell takes nothing, from them on it is extrapolated
HARNESS(binding)
{
    background(0);
    Table t = table(0);
    EPDL97 lib("fake");
    double b = sym::real("new binding", 0.5, 150.0), x = sym::real("x", 0.5, 150.0);
    Map m = lib.getBindingEnergies(t.z);
    sym::check_eq("binding energy as in the file", get(m, t.shell), t.rows[t.edge].v["energy"]);
    for (int i = 0; i < 9; i++) if (SH[i] != t.shell) sym::check_eq("other binding energies as in the file", get(m, SH[i]), 0.0);
    m[t.shell] = b;
    lib.setBindingEnergies(t.z, m);
    sym::check_eq("binding energy as given", get(lib.getBindingEnergies(t.z), t.shell), b);
    sym::assume(sym::le(t.rows[0].v["energy"], x) && sym::le(x, t.rows[t.n - 1].v["energy"]));
    Map r = lib.getMassAttenuationCoefficients(t.z, x);
    sums(r);
    if (sym::holds(sym::lt(x, b))) sym::check_eq("nothing below the binding energy", get(r, t.shell), 0.0);
    else
    {
        sym::check("something from the binding energy on", sym::lt(0.0, get(r, t.shell)));
        if (sym::holds(sym::lt(x, t.rows[t.edge].v["energy"])))
        {
            int k = t.edge + (t.twice ? 1 : 0);
            loglog("extrapolated", get(r, t.shell), x, t.rows[k].v["energy"], t.rows[k].v[t.shell], t.rows[k + 1].v["energy"], t.rows[k + 1].v[t.shell]);
        }
    }
}
HARNESS(weights)
{
    background(0);
    int tiny = sym::choose("tiny", 0, 1);
    Table t = tiny ? table(0, true, 1e-12, 1e-9) : table(0, true, 1.0 / 1024.0, 1024.0);
    EPDL97 lib("fake");
    int k = sym::choose("interval", 0, t.n - 1);
    double x = t.rows[k].v["energy"];
    if (k < t.n - 1 && !tiny)
    {
        double hi = t.rows[k + 1].v["energy"];
        if (sym::holds(sym::lt(x, hi))) x = sym::real("x", x, hi);
    }
    Map w = lib.getPhotoelectricWeights(t.z, x), r = lib.getMassAttenuationCoefficients(t.z, x);
    bool any = sym::holds(sym::lt(1e-10, get(r, "photoelectric")));
    double s = get(w, "all other");
    sym::check_le("rest not negative", 0.0, get(w, "all other"));
    for (int i = 0; i < 9; i++)
    {
        s += get(w, SH[i]);
        sym::check_le("weight not negative", 0.0, get(w, SH[i]));
        if (SH[i] != t.shell || sym::holds(sym::lt(x, t.rows[t.edge].v["energy"]))) sym::check_eq("no weight above the energy", get(w, SH[i]), 0.0);
        sym::check_eq("weight is the share", get(w, SH[i]) * get(r, "photoelectric"), any ? get(r, SH[i]) : double(0.0));
    }
    sym::check_eq("rest is the share", get(w, "all other") * get(r, "photoelectric"), any ? get(r, "all other") : double(0.0));
    sym::check_eq("weights sum to 1", s, any ? double(1.0) : double(0.0));
    for (Map::const_iterator i = r.begin(); i != r.end(); ++i) sym::check_eq("coefficients handed along", get(w, "mu " + i->first), i->second);
}
// a total that is not the sum of the columns: the photoelectric part is what remains, the rest what its shells leave, never negative
HARNESS(rest)
{
    int order = sym::choose("columns", 0, 1), z = sym::choose("heavy", 0, 1) ? 19 : 18;
    background(order);
    std::vector<Row> rows;
    bool given = sym::choose("rest given", 0, 1) != 0;
    for (int i = 0; i < 2; i++)
    {
        Row r = zero(double(1 + i));
        r.v["coherent"] = sym::real(num("coherent", i), 0.001, 1000.0);
        r.v["compton"] = sym::real(num("compton", i), 0.001, 1000.0);
        r.v["K"] = sym::real(num("K", i), 0.0, 1000.0); r.v["M3"] = sym::real(num("M3", i), 0.0, 1000.0);
        if (given) r.v["all other"] = sym::real(num("other", i), 0.001, 1000.0);
        r.v["total"] = sym::real(num("total", i), 0.0, 5000.0);
        rows.push_back(r);
    }
    put(z, rows, order);
    EPDL97 lib("fake");
    VMap a = lib.getMassAttenuationCoefficients(z);
    for (int i = 0; i < 2; i++)
    {
        Map &v = rows[i].v;
        double photo = v["total"] - v["coherent"] - v["compton"], left = photo - v["K"] - v["M3"];
        sym::check_eq("stored energy", get(a, "energy", i), v["energy"]);
        sym::check_eq("stored coherent", get(a, "coherent", i), v["coherent"]);
        sym::check_eq("stored compton", get(a, "compton", i), v["compton"]);
        for (int k = 0; k < 9; k++) sym::check_eq("stored shell", get(a, SH[k], i), v[SH[k]]);
        bool positive = sym::holds(sym::lt(0.0, photo));
        double o = get(a, "all other", i);
        if (z == 19 && given && positive)
        {
            if (sym::holds(sym::lt(left, 0.0))) sym::check_eq("rest not negative", o, 0.0);
            else sym::check_eq("rest is what the shells leave", o, left);
        }
        else if (positive) sym::check_eq("no rest", o, 0.0);
        sym::check_eq("stored photoelectric is the sum", get(a, "photoelectric", i), o + v["K"] + v["M3"]);
        sym::check_eq("stored total is the sum", get(a, "total", i), o + v["K"] + v["M3"] + v["coherent"] + v["compton"]);
        sym::check_eq("stored pair", get(a, "pair", i), 0.0);
    }
}
// several elements at once: each gets its own table, those beyond the last one repeat it, atomic numbers below 1 are refused
HARNESS(elements)
{
    int order = sym::choose("columns", 0, 1);
    background(order);
    Vec c;
    int zs[] = {1, 2, 99, 100};
    for (int k = 0; k < 4; k++)
    {
        std::vector<Row> rows;
        for (int i = 0; i < 2; i++)
        {
            Row r = zero(double(2 + 2 * i));
            r.v["coherent"] = sym::real(num(num("z", zs[k]) + ".", i), 0.001, 1000.0);
            r.v["compton"] = 1.0; r.v["K"] = 0.5;
            rows.push_back(r);
            c.push_back(r.v["coherent"]);
        }
        put(zs[k], rows, order);
        binding(zs[k], "K", 0.25 * (k + 1));
    }
    EPDL97 lib;
    int used = sym::choose("set later", 0, 1);
    if (used) lib.setDataDirectory("fake"); else { sym::check("nothing before the data are there", sym::outcome([&]{ lib.getMassAttenuationCoefficients(1, 2.0); }) == 2 && sym::outcome([&]{ lib.getMassAttenuationCoefficients(1); }) == 2); lib = EPDL97("fake//"); }
    int z = sym::choose("z", -1, 5);
    int at = z == 1 ? 0 : z == 2 ? 1 : z == 3 ? 2 : z == 4 ? 3 : z == 5 ? 3 : -1;
    int real_z = z == 3 ? 99 : z == 4 ? 100 : z == 5 ? 104 : z;
    if (at < 0)
    {
        sym::check("atomic number refused", sym::outcome([&]{ lib.getMassAttenuationCoefficients(real_z, 2.0); }) == 2 && sym::outcome([&]{ lib.getMassAttenuationCoefficients(real_z); }) == 2
            && sym::outcome([&]{ lib.getBindingEnergies(real_z); }) == 2 && sym::outcome([&]{ lib.setBindingEnergies(real_z, Map()); }) == 2 && sym::outcome([&]{ lib.getPhotoelectricWeights(real_z, 2.0); }) == 2);
        return;
    }
    VMap a = lib.getMassAttenuationCoefficients(real_z);
    Vec e; e.push_back(4.0); e.push_back(2.0);
    for (int i = 0; i < 2; i++)
    {
        sym::check_eq("element's own table", get(a, "coherent", i), c[2 * at + i]);
        sym::check_eq("element's own value", get(lib.getMassAttenuationCoefficients(real_z, double(2 + 2 * i)), "coherent"), c[2 * at + i], 1e-6);
    }
    if (z != 5) sym::check_eq("element's own binding energy", get(lib.getBindingEnergies(real_z), "K"), 0.25 * (at + 1));
}
HARNESS(files)
{
    background(sym::choose("columns", 0, 1));
    fake::File &f = fake::files()["EPDL97_CrossSections.dat"];
    fake::Scan &b = fake::files()["EADL97_BindingEnergies.dat"][0];
    int what = sym::choose("what", 0, 8), n = sym::choose("column", 0, 14), s = sym::choose("scan", 1, 3);
    s = s == 1 ? 1 : s == 2 ? 50 : 99;
    bool fine = false;
    switch (what)
    {
    case 0: f.resize(98); break;
    case 1: f.resize(99); fine = true; break;
    case 2: for (size_t i = 0; i < f.size(); i++) f[i].labels[n] = "unknown"; fine = meaning(header(0)[n]) == "photoelectric" ; break;
    case 3: f[s].labels[n] += "x"; break;
    case 4: f[s].labels.push_back("extra"); break;
    case 5: fake::files().erase("EPDL97_CrossSections.dat"); break;
    case 6: fake::files().erase("EADL97_BindingEnergies.dat"); break;
    case 7: fake::files()["EADL97_BindingEnergies.dat"].push_back(b); break;
    case 8: b.labels.pop_back(); break;
    }
    if (what == 2) { std::string m = meaning(f[0].labels.size() == 15 ? header(1)[n] : header(0)[n]); if (m == "sum") fine = true; else fine = false; }
    int o = sym::outcome([&]{ EPDL97 lib("fake"); });
    sym::check("only complete files are taken", (o == 0) == fine);
}
// processes and shells that set in between tabulated energies, or have no usable table although they are bound
HARNESS(threshold)
{
    background(0);
    int which = sym::choose("which", 0, 3), zeros = sym::choose("zeros", 1, 3), tail = which == 3 ? 0 : sym::choose("zero at the end", 0, 1);   // a shell does not vanish again above its edge
    const char *key[] = {"coherent", "compton", "all other", "M5"};
    std::vector<Row> rows;
    Vec y;
    double e = 1.0;
    for (int i = 0; i < 3; i++)
    {
        Row r = zero(e);
        e = e * 4.0;
        r.v["coherent"] = r.v["compton"] = r.v["all other"] = 0.5;
        y.push_back(i < zeros || (tail && i == 2) ? double(0.0) : sym::real(num("y", i), 0.001, 1000.0));
        r.v[key[which]] = y[i];
        rows.push_back(r);
    }
    put(50, rows, 0);
    binding(50, "M5", 0.5);
    EPDL97 lib("fake");
    int k = sym::choose("interval", 0, 1), at = sym::choose("at", 0, 2);
    double x0 = rows[k].v["energy"], x1 = rows[k + 1].v["energy"];
    double x = at == 0 ? x0 : at == 1 ? x1 : sym::real("x", x0, x1);
    Map r = lib.getMassAttenuationCoefficients(50, x);
    double v = get(r, key[which]);
    sums(r);
    sym::check_le("not negative", 0.0, v);
    if (which == 3)     // a bound shell: from its binding energy on it is excited, extrapolated from its first tabulated values
    {
        if (zeros == 3 || (zeros == 2 && tail)) sym::check_eq("no coefficients, no part", v, 0.0);
        else if (zeros == 2) sym::check_eq("single value", v, y[2], 1e-6);
        return;
    }
    if (at < 2) sym::check_eq("as tabulated", v, y[k + at], 1e-6);
    if (k < zeros || (tail && k == 1)) { if (sym::holds(sym::lt(y[k], y[k + 1]))) sym::check_le("not above the upper neighbour", v, y[k + 1]); else sym::check_le("not above the lower neighbour", v, y[k]); }
}
