// @sources fisx_element.cpp fisx_shell.cpp fisx_math.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @bounds one element with K and L1 shells and all its data symbolic; after filling the cache at two energies, every sequence of 2 (thorough: 3) operations out of enable, disable, fill, update, clear and each of the eight data setters; queries at a cached energy, at another one and in a list
#include "elem_util.h"
using namespace fisx;
using namespace eu;
typedef std::map<std::string, Map> Lines;
struct World
{
    int uses;
    double e1, e2;
    World() { uses = 0; e1 = sym::real("e1", 20.0, 40.0); e2 = sym::real("e2", 50.0, 60.0); }
};
struct Op { int kind; std::vector<double> v; };
static Op op(int kind)
{
    Op o; o.kind = kind;
    int n[] = {0, 0, 0, 0, 0, 4, 2, 2, 2, 2, 2, 2, 1};
    for (int i = 0; i < n[kind]; i++) o.v.push_back(kind == 7 ? sym::real("binding", 1.0, 19.0) : kind == 12 ? sym::real("omega", 0.1, 0.4) : sym::real("value", 0.1, 10.0));
    return o;
}
static const char *OPS = "disable enable fill update clear attenuation partial binding radiative radiative-map nonradiative nonradiative-map constants";
static void data(Element &el, const Op &o)
{
    switch (o.kind)
    {
    case 5: el.setMassAttenuationCoefficients(two(1.0, 100.0), two(1.0, 1.0), two(o.v[0], o.v[1]), two(o.v[2], o.v[3])); break;
    case 6: el.setPartialPhotoelectricMassAttenuationCoefficients("K", two(1.0, 100.0), two(o.v[0], o.v[1])); break;
    case 7: el.setBindingEnergies(bindings(o.v[0], o.v[1], 0.0)); break;
    case 8: el.setRadiativeTransitions("K", names("KL2 KL3"), o.v); break;
    case 9: { Map m; m["KL2"] = o.v[0]; m["KM3"] = o.v[1]; el.setRadiativeTransitions("K", m); break; }
    case 10: el.setNonradiativeTransitions("K", names("K-L1L2 K-M1M1"), o.v); break;
    case 11: { Map m; m["K-L1L1"] = o.v[0]; m["K-M1M2"] = o.v[1]; el.setNonradiativeTransitions("K", m); break; }
    case 12: { Map m; m["omega"] = o.v[0]; el.setShellConstants("K", m); break; }
    }
}
static void cache(Element &el, const World &w, int kind)
{
    Vec both = two(w.e1, w.e2);
    switch (kind)
    {
    case 0: el.setCacheEnabled(0); break;
    case 1: el.setCacheEnabled(1); break;
    case 2: el.fillCache(both); break;
    case 3: el.updateCache(both); break;
    case 4: el.clearCache(); break;
    }
}
static void start(Element &el, const std::vector<Op> &first)
{
    for (size_t i = 0; i < first.size(); i++) data(el, first[i]);
    el.setPartialPhotoelectricMassAttenuationCoefficients("L1", two(1.0, 100.0), two(2.0, 1.0));
    el.setPartialPhotoelectricMassAttenuationCoefficients("all other", two(1.0, 100.0), two(3.0, 1.0));
    Map m; m["omega"] = 0.1; el.setShellConstants("L1", m);
    el.setRadiativeTransitions("L1", names("L1M2 L1M3"), two(1.0, 2.0));
}
static void same(const std::string &what, const Map &a, const Map &b)
{
    sym::check(what + ": same keys", a.size() == b.size());
    for (Map::const_iterator i = b.begin(); i != b.end(); ++i) sym::check_eq(what + ": value", get(a, i->first), i->second);
}
static void same(const std::string &what, const Lines &a, const Lines &b)
{
    sym::check(what + ": same lines", a.size() == b.size());
    for (Lines::const_iterator i = b.begin(); i != b.end(); ++i)
    {
        Lines::const_iterator j = a.find(i->first);
        sym::check(what + ": line present", j != a.end());
        if (j != a.end()) same(what, j->second, i->second);
    }
}
static void history(int from, int to, int steps)
{
    World w;
    std::vector<Op> first, later;
    int kinds[] = {7, 5, 6, 8, 10, 12};
    for (int i = 0; i < 6; i++) first.push_back(op(kinds[i]));
    Element el("X", 20);
    start(el, first);
    el.setCacheEnabled(1);
    cache(el, w, sym::choose("filled by", 2, 3));
    for (int i = 0; i < steps; i++)
    {
        int k = i == 0 ? sym::choose("first", from, to) : sym::choose("operation", 0, 12);
        if (k < 5) cache(el, w, k);
        else { later.push_back(op(k)); data(el, later.back()); }
    }
    Element fresh("X", 20);
    start(fresh, first);
    for (size_t i = 0; i < later.size(); i++) data(fresh, later[i]);
    int q = sym::choose("query", 0, 2);
    double x;
    if (q == 0) x = w.e1; else x = sym::real("x", 20.0, 60.0);
    if (q < 2)
    {
        same("attenuation", el.getMassAttenuationCoefficients(x), fresh.getMassAttenuationCoefficients(x));
        double weight = sym::real("weight", 0.1, 2.0);
        same("excitation factors", el.getPhotoelectricExcitationFactors(x, weight), fresh.getPhotoelectricExcitationFactors(x, weight));
        same("initial vacancies", el.getInitialPhotoelectricVacancyDistribution(x), fresh.getInitialPhotoelectricVacancyDistribution(x));
    }
    else
    {
        Vec l; l.push_back(w.e2); l.push_back(70.0); l.push_back(w.e1);
        std::map<std::string, Vec> a = el.getMassAttenuationCoefficients(l), b = fresh.getMassAttenuationCoefficients(l);
        sym::check("list keys", a.size() == b.size());
        for (std::map<std::string, Vec>::iterator i = b.begin(); i != b.end(); ++i)
            for (size_t j = 0; j < l.size(); j++) { sym::check("list length", a[i->first].size() == l.size()); if (a[i->first].size() == l.size()) sym::check_eq("list value", a[i->first][j], i->second[j]); }
        std::vector<Lines> c = el.getPhotoelectricExcitationFactors(l, Vec()), d = fresh.getPhotoelectricExcitationFactors(l, Vec());
        sym::check("list of factors", c.size() == d.size());
        for (size_t j = 0; j < d.size() && j < c.size(); j++) same("factors in a list", c[j], d[j]);
    }
}
HARNESS(cache_operation_first) { history(0, 4, sym::tier() ? 3 : 2); }
HARNESS(data_change_first) { history(5, 12, sym::tier() ? 3 : 2); }
// a refused change leaves data and answers alone
HARNESS(refused_change)
{
    World w;
    std::vector<Op> first;
    int kinds[] = {7, 5, 6, 8, 10, 12};
    for (int i = 0; i < 6; i++) first.push_back(op(kinds[i]));
    Element el("X", 20);
    start(el, first);
    el.setCacheEnabled(1);
    cache(el, w, 2);
    Map before = el.getMassAttenuationCoefficients(w.e1);
    int bad = sym::choose("bad", 0, 2);
    double v = sym::real("v", 0.1, 10.0);
    sym::check("refused", sym::outcome([&] {
        if (bad == 0) el.setMassAttenuationCoefficients(two(2.0, 1.0), two(v, v), two(v, v), two(v, v));
        if (bad == 1) el.setPartialPhotoelectricMassAttenuationCoefficients("K", two(2.0, 1.0), two(v, v));
        if (bad == 2) el.setBindingEnergies(names("K L1 L2"), two(v, v));
    }) == 1);
    same("unchanged", el.getMassAttenuationCoefficients(w.e1), before);
    el.clearCache();
    same("unchanged data", el.getMassAttenuationCoefficients(w.e1), before);
}
// the number of cached energies is what was asked for
HARNESS(cache_size)
{
    World w;
    std::vector<Op> first;
    int kinds[] = {7, 5, 6, 8, 10, 12};
    for (int i = 0; i < 6; i++) first.push_back(op(kinds[i]));
    Element el("X", 20);
    start(el, first);
    sym::check("empty at first", el.getCacheSize() == 0);
    cache(el, w, 2);
    sym::check("filled", el.getCacheSize() == 2);
    Vec more(1, sym::real("third", 61.0, 70.0));
    el.updateCache(more);
    sym::check("updated", el.getCacheSize() == 3);
    el.updateCache(more);
    sym::check("not twice", el.getCacheSize() == 3);
    el.fillCache(more);
    sym::check("refilled", el.getCacheSize() == 1);
    sym::check("disabled still", el.isCacheEnabled() == 0);
    el.clearCache();
    sym::check("cleared", el.getCacheSize() == 0);
}
