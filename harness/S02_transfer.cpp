// @sources fisx_shell.cpp
// @bounds every shell; up to 2 X-ray lines, 3 Auger and 3 Coster-Kronig transitions with rates in [0, 100], yields in [0, 1] (sum allowed above 1), destinations L1 to N2
#include "fisx_shell.h"
using namespace fisx;
typedef std::map<std::string, double> Map;
static const char *SHELLS[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};

static const char *DEST[] = {"L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2"};

struct Case { std::vector<std::string> xl, nl; std::vector<double> xr, nr; std::vector<int> group; Map c; double sum; std::string name; int idx, top; };
static Case make(Shell &s, const std::string &name, bool full)
{
    Case k; k.name = name;
    char fam = name[0];
    k.idx = fam == 'K' ? 0 : name[1] - '0'; k.top = fam == 'L' ? 3 : fam == 'M' ? 5 : 0;
    const char *xk[] = {"L2", "M3"}, *xo[] = {"M4", "M5"}, *ak[] = {"L1L1", "L1M2", "M2L3"}, *al[] = {"M4M4", "M5M4", "N1N2"}, *am[] = {"N1N1", "N2N1", "N1O2"};
    for (int i = 0; i < 2; i++) { k.xl.push_back(name + (fam == 'K' ? xk[i] : xo[i])); k.xr.push_back(sym::real("x" + std::to_string(i), 0.0, 100.0)); }
    for (int i = 0; i < (full ? 3 : 2); i++) { k.nl.push_back(name + "-" + (fam == 'K' ? ak[i] : fam == 'L' ? al[i] : am[i])); k.group.push_back(0); }
    if (fam != 'K' && k.idx < k.top)
    {
        std::string f(1, fam);
        // a Coster-Kronig transition leaves one vacancy in the higher subshell and one elsewhere
        k.nl.push_back(name + "-" + f + std::to_string(k.idx + 1) + (fam == 'L' ? "M4" : "N1")); k.group.push_back(k.idx + 1);
        k.nl.push_back(name + "-" + f + std::to_string(k.idx + 1) + f + std::to_string(k.top)); k.group.push_back(k.idx + 1);
        if (k.top > k.idx + 1 && full) { k.nl.push_back(name + "-" + f + std::to_string(k.top) + "M5"); k.group.push_back(k.top); }
    }
    for (size_t i = 0; i < k.nl.size(); i++) k.nr.push_back(sym::real("n" + std::to_string(i), 0.0, 100.0));
    s.setRadiativeTransitions(k.xl, k.xr);
    s.setNonradiativeTransitions(k.nl, k.nr);
    k.sum = 0.0;
    k.c["omega"] = sym::real("omega", 0.0, 1.0);
    k.sum += k.c["omega"];
    for (int d = k.idx + 1; d <= k.top; d++)
    {
        std::string f = "f" + std::to_string(k.idx) + std::to_string(d);
        k.c[f] = sym::real(f, 0.0, 1.0);
        k.sum += k.c[f];
    }
    s.setShellConstants(k.c);
    return k;
}
static double transfer(const Case &k, const std::string &dest, const std::string &channel, double &weight)
{
    double s = 0.0, tot = 0.0;
    if (channel == "fluorescence")
    {
        weight = k.c.find("omega")->second;
        for (size_t i = 0; i < k.xl.size(); i++) { tot += k.xr[i]; if (k.xl[i] == k.name + dest) s += k.xr[i]; }
    }
    else
    {
        int g = channel == "auger" ? 0 : channel[2] - '0';
        weight = g ? k.c.find(channel)->second : 1.0 - k.sum;
        for (size_t i = 0; i < k.nl.size(); i++)
        {
            if (k.group[i] != g) continue;
            tot += k.nr[i];
            std::string a = k.nl[i].substr(k.name.size() + 1, 2), b = k.nl[i].substr(k.name.size() + 3);
            if (a == dest) s += k.nr[i];
            if (b == dest) s += k.nr[i];
        }
    }
    if (tot > 0.0) return weight * s / tot;
    return 0.0;
}
static void transfers(bool full)
{
    std::string name = SHELLS[sym::choose("shell", 0, 8)], dest = DEST[sym::choose("destination", 0, 9)];
    Shell s(name);
    Case k = make(s, name, full);
    sym::assume(sym::le(k.sum, 1.0));
    Map got = s.getDirectVacancyTransferRatios(dest);
    std::vector<std::string> ch;
    ch.push_back("fluorescence"); ch.push_back("auger");
    for (int d = k.idx + 1; d <= k.top; d++) ch.push_back("f" + std::to_string(k.idx) + std::to_string(d));
    sym::check("channels", got.size() == ch.size());
    for (size_t i = 0; i < ch.size(); i++)
    {
        double w;
        double want = transfer(k, dest, ch[i], w);
        sym::check("channel-present", got.count(ch[i]) == 1);
        if (!got.count(ch[i])) continue;
        sym::check_eq(i == 0 ? "fluorescence" : i == 1 ? "auger" : "coster-kronig", got[ch[i]], want);
        sym::check_le("not-negative", 0.0, got[ch[i]]);
    }
}
HARNESS(transfer) { transfers(sym::tier() > 0); }
HARNESS(conservation)
{
    // everything a shell does is found again in some destination: one vacancy per X-ray, two per Auger or Coster-Kronig transition
    std::string name = SHELLS[sym::choose("shell", 0, 8)];
    Shell s(name);
    Case k = make(s, name, false);
    sym::assume(sym::le(k.sum, 1.0));
    for (size_t i = 0; i < k.nr.size(); i++) sym::assume(sym::lt(0.001, k.nr[i]));
    sym::assume(sym::lt(0.001, k.xr[0]) && sym::lt(0.001, k.xr[1]));
    double x = 0.0, a = 0.0, c = 0.0, cw = 0.0;
    for (int i = 0; i < 10; i++)
    {
        Map got = s.getDirectVacancyTransferRatios(DEST[i]);
        x += got["fluorescence"]; a += got["auger"];
        for (Map::iterator j = got.begin(); j != got.end(); ++j) if (j->first[0] == 'f' && j->first[1] != 'l') c += j->second;
    }
    for (size_t i = 0; i < k.group.size(); i++) if (k.group[i]) cw = k.c["f" + std::to_string(k.idx) + std::to_string(k.idx + 1)];
    sym::check_eq("x-rays", x, k.c["omega"]);
    sym::check_eq("auger", a, 2.0 * (1.0 - k.sum));
    sym::check_eq("coster-kronig", c, 2.0 * cw);
}
HARNESS(refusals)
{
    int i = sym::choose("shell", 0, 8);
    std::string name = SHELLS[i];
    Shell s(name);
    double w = sym::real("omega", 0.0, 1.0), f = sym::real("f", 0.0, 1.0);
    Map c;
    c["omega"] = w;
    s.setShellConstants(c);
    sym::check_eq("yield", s.getFluorescenceYield(), w);
    const char *bad[] = {"f11", "Omega", "f10", "f25x", "", "f61"};
    for (int j = 0; j < 6; j++)
    {
        Map b; b[bad[j]] = f;
        sym::check("unknown-constant", sym::outcome([&] { s.setShellConstants(b); }) == 1);
    }
    sym::check("unchanged", s.getShellConstants().count("f11") == 0 && s.getShellConstants().count("Omega") == 0);
    sym::check_eq("yield-kept", s.getFluorescenceYield(), w);
    const char *dest[] = {"", "L", "L12", "K", "L2M3"};
    for (int j = 0; j < 5; j++) sym::check("destination", sym::outcome([&] { s.getDirectVacancyTransferRatios(dest[j]); }) == 1);
    if (name == "L1" || name == "M2")
    {
        std::string fn = name == "L1" ? "f13" : "f24";
        Map d; d[fn] = f;
        s.setShellConstants(d);
        sym::check_eq("other-kept", s.getFluorescenceYield(), w);
        sym::check_eq("stored", s.getShellConstants().find(fn)->second, f);
        int r = sym::outcome([&] { s.getDirectVacancyTransferRatios("M5"); });
        if (r == 0) sym::check("sum-accepted", sym::le(w + f, 1.0001));
        else { sym::check("sum-refused", r == 4); sym::check("sum-above-one", sym::lt(1.0, w + f)); }
    }
}
