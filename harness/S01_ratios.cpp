// @sources fisx_shell.cpp
// @bounds every shell; up to 5 transitions (7 thorough) per list with rates in [0, 100] (zero included), with and without a supplied total, upper and lower case labels, one earlier list
#include "fisx_shell.h"
using namespace fisx;
typedef std::map<std::string, double> Map;
static const char *SHELLS[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};

static std::string lower(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = (char) tolower(s[i]); return s; }
static std::string upper(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = (char) toupper(s[i]); return s; }

static void same(const std::string &tag, const Map &got, const Map &want)
{
    sym::check(tag + "-keys", got.size() == want.size());
    for (Map::const_iterator i = want.begin(); i != want.end(); ++i)
    {
        Map::const_iterator j = got.find(i->first);
        sym::check(tag + "-present", j != got.end());
        if (j != got.end()) sym::check_eq(tag + "-value", j->second, i->second);
    }
}

static void earlier(Shell &s, const std::string &name)
{
    std::vector<std::string> l(1, name + "N1"); std::vector<double> v(1, 3.0);
    s.setRadiativeTransitions(l, v);
    l[0] = name + "-N1N1";
    s.setNonradiativeTransitions(l, v);
}

HARNESS(radiative)
{
    std::string name = SHELLS[sym::choose("shell", 0, 8)];
    int n = sym::choose("n", 0, sym::tier() ? 6 : 4), total = sym::choose("total", 0, 1), how = sym::choose("how", 0, 3), before = sym::choose("before", 0, 1);
    // KO and KP like labels mean the second subshell, L3O45 like labels the first of the two
    std::vector<std::string> given, canon;
    const char *plain[] = {"M2", "N3", "O1", "N5", "M4", "N6"};
    for (int i = 0; i < n; i++) { given.push_back(name + plain[i]); canon.push_back(name + plain[i]); }
    if (n > 1 && name == "K") { given[1] = "KP"; canon[1] = "KP2"; }
    if (n > 1 && name != "K") { given[1] = name + "P23"; canon[1] = name + "P2"; }
    if (how == 1) for (int i = 0; i < n; i++) given[i] = lower(given[i]);
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(sym::real("r" + std::to_string(i), 0.0, 100.0));
    double t = 0.0;
    if (total) { t = sym::real("total_rate", 0.0, 1000.0); given.insert(given.begin() + n / 2, how == 1 ? "total" : "TOTAL"); v.insert(v.begin() + n / 2, t); }
    Shell s(name);
    if (before) earlier(s, name);
    if (how == 2)
    {
        Map m; for (size_t i = 0; i < given.size(); i++) m[given[i]] = v[i];
        s.setRadiativeTransitions(m);
    }
    else if (how == 3)
    {
        std::vector<const char *> c; for (size_t i = 0; i < given.size(); i++) c.push_back(given[i].c_str());
        c.push_back(0); v.push_back(0.0);
        s.setRadiativeTransitions(&c[0], &v[0], (int) given.size());
        v.pop_back();
    }
    else s.setRadiativeTransitions(given, v);
    if (total) v.erase(v.begin() + n / 2);
    double sum = 0.0, out = 0.0;
    for (int i = 0; i < n; i++) sum += v[i];
    Map want, rates;
    for (int i = 0; i < n; i++) { rates[canon[i]] = v[i]; if (v[i] > 0.0) want[canon[i]] = v[i] / sum; }
    if (total) rates["TOTAL"] = t;
    const Map &got = s.getFluorescenceRatios();
    same("ratios", got, want);
    for (Map::const_iterator i = got.begin(); i != got.end(); ++i) out += i->second;
    if (want.size()) sym::check_eq("unit-sum", out, 1.0);
    same("rates", s.getRadiativeTransitions(), rates);
}
HARNESS(foreign_labels)
{
    int k = sym::choose("shell", 0, 8), j = sym::choose("other", 0, 8);
    sym::assume(k != j);
    double r = sym::real("r", 0.0, 100.0);
    Shell s(SHELLS[k]);
    std::vector<std::string> l(1, std::string(SHELLS[j]) + "N4"); std::vector<double> v(1, r);
    sym::check("refused", sym::outcome([&] { s.setRadiativeTransitions(l, v); }) == 1);
    l[0] = std::string(SHELLS[k]) + "N4Z";
    if (l[0].size() == 5) sym::check("five-characters", sym::outcome([&] { s.setRadiativeTransitions(l, v); }) == 1);
    Map m; m["KQ9"] = r; m[std::string(SHELLS[j]) + "N2"] = r;
    sym::check("refused-map", sym::outcome([&] { s.setRadiativeTransitions(m); }) == 1);
}
HARNESS(nonradiative)
{
    std::string name = SHELLS[sym::choose("shell", 0, 8)];
    int total = sym::choose("total", 0, 1), how = sym::choose("how", 0, 2), before = sym::choose("before", 0, 1);
    std::vector<std::string> l;
    std::vector<int> group;      // destination subshell of a Coster-Kronig transition, 0 for Auger
    char fam = name[0];
    int idx = fam == 'K' ? 0 : name[1] - '0', top = fam == 'L' ? 3 : fam == 'M' ? 5 : 0;
    int groups = 0, wide = sym::choose("wide", 0, 1);
    int zero = sym::choose("zero", -1, 3);      // at most one transition that does not happen
    for (int d = idx + 1; d <= top && fam != 'K'; d++, groups++)
    {
        int dest = d;
        l.push_back(name + "-" + std::string(1, fam) + std::to_string(dest) + "N1"); group.push_back(dest);
        if (wide && groups < 2) { l.push_back(name + "-" + std::string(1, fam) + std::to_string(dest) + (groups ? std::string(1, fam) + std::to_string(dest) : std::string("O2"))); group.push_back(dest); }
    }
    // "L1-..." of a K shell Auger transition must not be mistaken for a Coster-Kronig one
    l.push_back(name + "-" + (fam == 'K' ? "L1L2" : "N1N2")); group.push_back(0);
    l.push_back(name + "-" + (fam == 'K' ? "L2M3" : "O1O1")); group.push_back(0);
    size_t n = l.size();
    std::vector<double> v;
    double sum = 0.0;
    for (int i = 0; i < (int) n; i++) { v.push_back(i == zero || i == zero + 3 ? double(0.0) : sym::real("r" + std::to_string(i), 1e-9, 100.0)); sum += v[i]; }
    double T = sum;
    if (total) { T = sym::real("total_rate", 0.0, 1000.0); sym::assume(sym::lt(sum, T)); }
    std::vector<std::string> given = l;
    std::vector<double> gv = v;
    if (total) { given.push_back("TOTAL"); gv.push_back(T); }
    if (how == 1) for (size_t i = 0; i < given.size(); i++) given[i] = lower(given[i]);
    Shell s(name);
    if (before) earlier(s, name);
    if (how == 2) { Map m; for (size_t i = 0; i < given.size(); i++) m[given[i]] = gv[i]; s.setNonradiativeTransitions(m); }
    else s.setNonradiativeTransitions(given, gv);
    std::map<int, double> ck;
    double allck = 0.0;
    for (size_t i = 0; i < n; i++) if (group[i]) { if (!ck.count(group[i])) ck[group[i]] = 0.0; ck[group[i]] += v[i]; allck += v[i]; }
    Map auger;
    for (size_t i = 0; i < n; i++) if (!group[i] && v[i] > 0.0) auger[l[i]] = v[i] / (T - allck);
    auger["TOTAL"] = T - allck;
    same("auger", s.getAugerRatios(), auger);
    const std::map<std::string, Map> &got = s.getCosterKronigRatios();
    int expected = fam == 'K' ? 0 : top - idx;
    sym::check("groups", (int) got.size() == expected);
    for (int d = idx + 1; d <= top && fam != 'K'; d++)
    {
        std::string f = "f" + std::to_string(idx) + std::to_string(d);
        std::map<std::string, Map>::const_iterator g = got.find(f);
        sym::check("group-present", g != got.end());
        if (g == got.end()) continue;
        Map want;
        double t = ck.count(d) ? ck[d] : double(0.0), out = 0.0;
        for (size_t i = 0; i < n; i++) if (group[i] == d && v[i] > 0.0) want[l[i]] = v[i] / t;
        want["TOTAL"] = t;
        same("coster-kronig", g->second, want);
        for (Map::const_iterator i = g->second.begin(); i != g->second.end(); ++i) if (i->first != "TOTAL") out += i->second;
        if (want.size() > 1) sym::check_eq("group-unit-sum", out, 1.0);
    }
    Map rates;
    for (size_t i = 0; i < n; i++) rates[l[i]] = v[i];
    rates["TOTAL"] = T;
    same("rates", s.getNonradiativeTransitions(), rates);
}
HARNESS(names)
{
    const char *bad[] = {"", "K1", "L", "L0", "L4", "L9", "M", "M0", "M6", "N1", "k", "l1", "KK", "L12", "LX", "M-", "1L"};
    int i = sym::choose("bad", 0, 16);
    sym::check("refused", sym::outcome([&] { Shell s(bad[i]); }) == 1);
    int k = sym::choose("good", 0, 8);
    Shell s(SHELLS[k]);
    int top = SHELLS[k][0] == 'L' ? 3 : SHELLS[k][0] == 'M' ? 5 : 0, idx = SHELLS[k][0] == 'K' ? 0 : SHELLS[k][1] - '0';
    const Map &c = s.getShellConstants();
    sym::check("constants", (int) c.size() == 1 + (top - idx > 0 ? top - idx : 0));
    for (int d = idx + 1; d <= top; d++) sym::check("constant-name", c.count("f" + std::to_string(idx) + std::to_string(d)) == 1);
    sym::check_eq("default-yield", s.getFluorescenceYield(), 0.0);
    sym::check("no-ratios", s.getFluorescenceRatios().size() == 0 && s.getAugerRatios().size() == 0 && s.getCosterKronigRatios().size() == 0);
}
