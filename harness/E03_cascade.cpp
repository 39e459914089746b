// @sources fisx_element.cpp fisx_shell.cpp fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @bounds elements with 1 to 5 shells (K to M1), up to 3 radiative and 3 non-radiative transitions per shell with rates in [0.01, 10], yields and Coster-Kronig factors in [0.01, 0.3]; initial distributions in [0.001, 1], or zero or missing on one shell, with shells missing or "all other" present
#include "cascade_util.h"
using namespace fisx;
using namespace eu;
static double transfer(const Element &el, int i, int j)
{
    Map t = el.getShell(SH[i]).getDirectVacancyTransferRatios(SH[j]);
    double s = 0.0;
    for (Map::iterator k = t.begin(); k != t.end(); ++k) s += k->second;
    return s;
}
static Map initial(const std::string &n, int shells, int missing)
{
    Map d;
    for (int i = 0; i < shells; i++) if (i != missing) d[SH[i]] = sym::real(n + SH[i], i && i == missing + 2 ? 0.0 : 0.001, 1.0);
    d["all other"] = sym::real(n + "other", 0.0, 1.0);
    return d;
}
HARNESS(decay)
{
    int n = sym::choose("shells", 1, 5);
    Element el("X", 20);
    atom(el, n, shells(n));
    Map d = initial("d", n, sym::choose("missing", -1, 1));
    Map got = el.getCascadeModifiedVacancyDistribution(d);
    sym::check("exactly the element's shells", (int)got.size() == n);
    std::vector<double> want;
    for (int j = 0; j < n; j++)
    {
        double v = d.find(SH[j]) == d.end() ? double(0.0) : d[SH[j]];
        for (int i = 0; i < j; i++) v = v + want[i] * transfer(el, i, j);
        want.push_back(v);
        sym::check_eq("accumulated vacancies", get(got, SH[j]), v);
        if (d.find(SH[j]) != d.end()) sym::check_le("no vacancy removed", d[SH[j]], get(got, SH[j]));
        sym::check_le("never negative", 0.0, get(got, SH[j]));
    }
}
HARNESS(linear)
{
    int n = sym::choose("shells", 1, sym::tier() ? 5 : 4);
    Element el("X", 20);
    atom(el, n, shells(n));
    double a = sym::real("alpha", 0.0, 5.0), b = sym::real("beta", 0.0, 5.0);
    Map d, e, m;
    // the second distribution is on one shell: linearity in general follows by induction over shells
    int k = sym::choose("second on", 0, n - 1);
    for (int i = 0; i < n; i++)
    {
        d[SH[i]] = sym::real("d" + std::string(SH[i]), 0.001, 1.0);
        e[SH[i]] = i == k ? double(sym::real("e", 0.001, 1.0)) : double(0.0);
        m[SH[i]] = a * d[SH[i]] + b * e[SH[i]];
    }
    Map fd = el.getCascadeModifiedVacancyDistribution(d), fe = el.getCascadeModifiedVacancyDistribution(e), fm = el.getCascadeModifiedVacancyDistribution(m);
    for (int i = 0; i < n; i++) sym::check_eq("linear", get(fm, SH[i]), a * get(fd, SH[i]) + b * get(fe, SH[i]));
}
HARNESS(reused_cascades)
{
    int n = sym::choose("shells", 1, 4);
    Element el("X", 20);
    atom(el, n, shells(n));
    Map d = initial("d", n, sym::choose("missing", -1, 1));
    std::map<std::string, Map> plain = el.getXRayLinesFromVacancyDistribution(d, 1, 1);
    int how = sym::choose("how", 0, 3);
    if (how == 0) el.setCascadeCacheEnabled(1);
    if (how == 1) { el.fillCascadeCache(); el.setCascadeCacheEnabled(1); el.fillCascadeCache(); }
    if (how == 2) { el.setCascadeCacheEnabled(1); el.setCascadeCacheEnabled(0); el.setCascadeCacheEnabled(1); }
    if (how == 3) { el.setCascadeCacheEnabled(1); el.emptyCascadeCache(); }
    std::map<std::string, Map> cached = el.getXRayLinesFromVacancyDistribution(d, 1, 1);
    sym::check("same lines", plain.size() == cached.size());
    for (std::map<std::string, Map>::iterator i = plain.begin(); i != plain.end(); ++i)
    {
        sym::check("line present", cached.find(i->first) != cached.end());
        if (cached.find(i->first) == cached.end()) continue;
        sym::check_eq("rate", get(cached[i->first], "rate"), get(i->second, "rate"));
        sym::check_eq("energy", get(cached[i->first], "energy"), get(i->second, "energy"));
    }
}
// changing a shell's yields must not leave emission computed with the old ones
HARNESS(new_constants_are_used)
{
    int n = sym::choose("shells", 1, 3);
    Element el("X", 20);
    atom(el, n, shells(n));
    el.setCascadeCacheEnabled(1);
    Map d = initial("d", n, -1), c;
    c["omega"] = sym::real("newomega", 0.3, 0.39);
    int k = sym::choose("changed", 0, n - 1);
    el.setShellConstants(SH[k], c);
    std::map<std::string, Map> a = el.getXRayLinesFromVacancyDistribution(d, 1, 1);
    el.setCascadeCacheEnabled(0);
    std::map<std::string, Map> b = el.getXRayLinesFromVacancyDistribution(d, 1, 1);
    sym::check("same lines", a.size() == b.size());
    for (std::map<std::string, Map>::iterator i = b.begin(); i != b.end(); ++i) sym::check_eq("rate", get(a[i->first], "rate"), get(i->second, "rate"));
}
