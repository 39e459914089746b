// EPDL97 over an in-memory cross-section file in which one element's table is symbolic.
#ifndef EPDL_UTIL_H
#define EPDL_UTIL_H
#include "fakedata_impl.h"
#include "fisx_math.h"
#include "fisx_epdl97.h"
#ifdef SYMX
namespace fisx { bool Math::isFiniteNumber(const double & x) { return sym::finite(x); } }
#endif
namespace du {
typedef std::map<std::string, double> Map;
typedef std::map<std::string, std::vector<double> > VMap;
typedef std::vector<double> Vec;
typedef std::vector<std::string> Names;
static const char *SH[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
static inline Names names(const std::string &t) { std::istringstream i(t); Names r; std::string w; while (i >> w) r.push_back(w); return r; }
static inline std::string num(const std::string &a, int i) { return a + std::to_string(i); }
static inline double get(const Map &m, const std::string &k)
{
    Map::const_iterator i = m.find(k);
    sym::check("answer has its keys", i != m.end());
    if (i == m.end()) return 0.0;
    return i->second;
}
static inline double get(const VMap &m, const std::string &k, size_t n)
{
    VMap::const_iterator i = m.find(k);
    sym::check("answer has its keys", i != m.end() && n < i->second.size());
    if (i == m.end() || n >= i->second.size()) return 0.0;
    return i->second[n];
}
// ln r * ln(x1/x0) == ln y0 * ln(x1/x) + ln y1 * ln(x/x0)
static inline void loglog(const std::string &label, const double &r, const double &x, const double &x0, const double &y0, const double &x1, const double &y1)
{
    sym::check(label + " positive", sym::lt(0.0, r));
    if (!sym::holds(sym::lt(0.0, r))) return;
    sym::check_eq(label, log(r) * (log(x1) - log(x0)), log(y0) * (log(x1) - log(x)) + log(y1) * (log(x) - log(x0)), 1e-6);
}
static Names header(int order)
{
    if (order == 0) return names("PhotonEnergy[keV] Rayleigh(coherent)[barn/atom] Compton(incoherent)[barn/atom] CoherentPlusIncoherent[barn/atom] Photoelectric[barn/atom] TotalCrossSection[barn/atom] K[barn/atom] L1[barn/atom] L2[barn/atom] L3[barn/atom] M1[barn/atom] M2[barn/atom] M3[barn/atom] M4[barn/atom] M5[barn/atom] AllOtherShells[barn/atom]");
    return names("M5 M4 M3 M2 M1 L3 L2 L1 K ALLOTHER total Incoherent(compton) COHERENT photoelectric Energy");
}
// which of the columns a label of that header stands for
static std::string meaning(const std::string &label)
{
    static const char *pairs[][2] = {{"PhotonEnergy", "energy"}, {"Energy", "energy"}, {"Rayleigh", "coherent"}, {"COHERENT", "coherent"}, {"Compton", "compton"}, {"Incoherent", "compton"},
        {"CoherentPlus", "sum"}, {"Photo", "photoelectric"}, {"photo", "photoelectric"}, {"Total", "total"}, {"total", "total"}, {"All", "all other"}, {"ALL", "all other"}};
    for (int i = 0; i < 13; i++) if (label.compare(0, std::string(pairs[i][0]).size(), pairs[i][0]) == 0) return pairs[i][1];
    return label[0] == 'K' ? "K" : label.substr(0, 2);
}
struct Row { Map v; };   // by meaning: energy, coherent, compton, K .. M5, all other (as the file gives them)
static double total(const Row &r)
{
    double t = 0.0;
    for (Map::const_iterator i = r.v.begin(); i != r.v.end(); ++i) if (i->first != "energy" && i->first != "total" && i->first != "photoelectric" && i->first != "sum") t += i->second;
    return t;
}
static Row zero(const double &e)
{
    Row r;
    for (int i = 0; i < 9; i++) r.v[SH[i]] = 0.0;
    r.v["all other"] = r.v["coherent"] = r.v["compton"] = 0.0;
    r.v["energy"] = e;
    return r;
}
static fake::Scan scan(const std::vector<Row> &rows, int order)
{
    fake::Scan s;
    s.labels = header(order);
    for (size_t i = 0; i < rows.size(); i++)
    {
        Vec v;
        for (size_t j = 0; j < s.labels.size(); j++)
        {
            std::string m = meaning(s.labels[j]);
            Map::const_iterator it = rows[i].v.find(m);
            if (it != rows[i].v.end()) v.push_back(it->second);
            else if (m == "total") v.push_back(total(rows[i]));
            else if (m == "photoelectric") v.push_back(total(rows[i]) - rows[i].v.find("coherent")->second - rows[i].v.find("compton")->second);
            else v.push_back(rows[i].v.find("coherent")->second + rows[i].v.find("compton")->second);
        }
        s.data.push_back(v);
    }
    return s;
}
// a cross-section file of 100 identical concrete elements
static void background(int order, int rows = 3, int scans = 100)
{
    Vec g; g.push_back(1.0); g.push_back(10.0); g.push_back(100.0);
    fake::defaults(g);
    std::vector<Row> t;
    for (int i = 0; i < rows; i++)
    {
        Row r = zero(double(1 + 4 * i));
        r.v["coherent"] = 0.5 + i; r.v["compton"] = 0.25 + i; r.v["K"] = 0.125 * (i + 1);
        t.push_back(r);
    }
    fake::files()["EPDL97_CrossSections.dat"] = fake::File(scans, scan(t, order));
}
static void put(int z, const std::vector<Row> &rows, int order) { fake::files()["EPDL97_CrossSections.dat"][z - 1] = scan(rows, order); }
static void binding(int z, const std::string &shell, const double &e)
{
    fake::Scan &s = fake::files()["EADL97_BindingEnergies.dat"][0];
    for (size_t j = 0; j < s.labels.size(); j++)
        if (s.labels[j].compare(0, shell.size() + 1, shell + "(") == 0) s.data[z - 1][j] = e;
}
}
#endif
