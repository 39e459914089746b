// @sources fisx_element.cpp fisx_shell.cpp fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @bounds elements with 1 to 5 shells (K to M1), up to 3 lines per shell with rates in [0.01, 10], yields in [0.01, 0.3]; binding energies in [1, 100] keV, the emitting shell's possibly 0 or undefined; vacancies in [0.001, 1] or none on one shell; any query energy in [0.5, 150] keV
#include "cascade_util.h"
using namespace fisx;
using namespace eu;
typedef std::map<std::string, Map> Lines;
// symbolic binding energies; shells are not assumed to be ordered
static Map energies(int n, bool outer)
{
    Map b;
    const char *more[] = {"M1", "M2", "M3", "M4", "M5", "N2"};
    for (int i = 0; i < n; i++) b[SH[i]] = sym::real("b" + std::string(SH[i]), 1.0, 100.0);
    for (int i = 0; i < 6; i++) if (b.find(more[i]) == b.end() && more[i][0] == 'N') { if (outer) b[more[i]] = sym::real("b" + std::string(more[i]), 0.01, 1.0); }
    return b;
}
static std::string from(const std::string &l) { return l.substr(l.size() - 2); }
static double origin(const Map &b, const std::string &l)
{
    Map::const_iterator i = b.find(from(l));
    if (i == b.end()) return 0.003;        // outer shells without data: 3 eV
    if (sym::holds(sym::le(i->second, 0.0))) return 0.003;
    return i->second;
}
static void common(int n, bool cascade, bool yield)
{
    Element el("X", 20);
    Map b = energies(n, n == 5 && sym::choose("outer known", 0, 1) != 0);
    Atom a = atom(el, n, b);
    Map d;
    int zero = sym::choose("no vacancy in", -1, n - 1);
    for (int i = 0; i < n; i++) if (i == zero) d[SH[i]] = 0.0; else d[SH[i]] = sym::real("d" + std::string(SH[i]), 0.001, 1.0);
    Map fin = cascade ? el.getCascadeModifiedVacancyDistribution(d) : d;
    Lines got = el.getXRayLinesFromVacancyDistribution(d, cascade ? 1 : 0, yield ? 1 : 0);
    size_t expected = 0;
    for (int i = 0; i < n; i++)
    {
        std::string s = SH[i];
        Map r = a.lines[s];
        double total = 0.0, sum = 0.0, w = yield ? el.getShellConstants(s)["omega"] : double(1.0);
        for (Map::iterator l = r.begin(); l != r.end(); ++l) total += l->second;
        bool any = sym::holds(sym::lt(0.0, get(fin, s)));
        for (Map::iterator l = r.begin(); l != r.end(); ++l)
        {
            bool have = got.find(l->first) != got.end();
            sym::check("a line is listed exactly if its shell has vacancies", have == any);
            if (!have) continue;
            expected++;
            sym::check_eq("rate", get(got[l->first], "rate") * total, get(fin, s) * w * l->second);
            sym::check("rate not negative", sym::le(0.0, get(got[l->first], "rate")));
            sym::check_eq("energy", get(got[l->first], "energy"), b[s] - origin(b, l->first));
            sym::check_eq("transition energy", el.getTransitionEnergy(l->first), b[s] - origin(b, l->first));
            sum += get(got[l->first], "rate");
        }
        if (any) sym::check_eq("lines of a shell share its vacancies", sum, get(fin, s) * w);
    }
    sym::check("no other line", got.size() == expected);
}
HARNESS(with_cascade) { common(sym::choose("shells", 1, 4), true, true); }
HARNESS(without_cascade) { common(sym::choose("shells", 1, 5), false, true); }
HARNESS(without_yield) { common(sym::choose("shells", 1, 3), sym::choose("cascade", 0, 1) != 0, false); }
HARNESS(excited_lines)
{
    int n = sym::choose("shells", 1, 4);
    Element el("X", 20);
    Map b = energies(n, false);
    Atom a = atom(el, n, b);
    double x = sym::real("x", 0.5, 150.0);
    if (sym::choose("exactly at an edge", 0, 1)) x = b[SH[n - 1]];
    Map got = el.getEmittedXRayLines(x);
    size_t expected = 0;
    for (int i = 0; i < n; i++)
    {
        bool on = sym::holds(sym::lt(b[SH[i]], x));
        Map r = a.lines[SH[i]];
        for (Map::iterator l = r.begin(); l != r.end(); ++l)
        {
            sym::check("listed exactly above the edge", (got.find(l->first) != got.end()) == on);
            if (got.find(l->first) == got.end()) continue;
            sym::check_eq("emitted energy", got[l->first], b[SH[i]] - origin(b, l->first));
            expected++;
        }
    }
    sym::check("nothing else", got.size() == expected);
}
HARNESS(no_yield_no_lines)
{
    Element el("X", 20);
    Map b = energies(2, false);
    Atom a = atom(el, 2, b);
    Map c; c["omega"] = 0.0;
    el.setShellConstants("L1", c);
    double x = sym::real("x", 101.0, 150.0);
    Map got = el.getEmittedXRayLines(x), k = a.lines["K"];
    for (Map::iterator l = k.begin(); l != k.end(); ++l) sym::check("K lines only", got.find(l->first) != got.end());
    sym::check("count", got.size() == k.size());
}
HARNESS(impossible_transitions)
{
    Element el("X", 20);
    Map b; b["K"] = 0.0; b["L1"] = sym::real("L1", 1.0, 10.0);
    el.setBindingEnergies(b);
    sym::check("no destination binding energy", sym::outcome([&] { el.getTransitionEnergy("KL1"); }) == 4);
    sym::check("unknown destination", sym::outcome([&] { el.getTransitionEnergy("M1N1"); }) == 4);
    sym::check("not a transition", sym::outcome([&] { el.getTransitionEnergy("KL"); }) == 4);
    sym::check("undefined shell", sym::outcome([&] { el.getXRayLines("L2"); }) == 1);
    Vec r(1, 1.0); Names l = names("KL1");
    sym::check("no rates for an absent shell", sym::outcome([&] { el.setRadiativeTransitions("K", l, r); }) == 1);
}
HARNESS(atomic_data_validated)
{
    double m = sym::real("mass", -10.0, 300.0);
    int z = sym::choose("z", -1, 2);
    sym::check("atomic number", sym::outcome([&] { Element e("X", z); sym::check("z kept", e.getAtomicNumber() == z); }) == (z < 1 ? 1 : 0));
    Element el("X", 3);
    el.setAtomicMass(1.0);
    bool bad = sym::holds(sym::lt(m, 0.0));
    sym::check("atomic mass", sym::outcome([&] { el.setAtomicMass(m); }) == (bad ? 1 : 0));
    sym::check_eq("mass kept", el.getAtomicMass(), bad ? double(1.0) : m);
}
