// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds one element with up to 4 of the 9 K, L and M shells (and N1) present, two elements with 2 each, or a formula or material of two elements; binding energies of any order in [0.001, 150] keV or exactly 0, also equal ones; fluorescence yields in [0, 1] or not given; any energy in [0.001, 200] keV, also exactly at an edge
#include "lib_util.h"
using namespace fisx;
using namespace lu;
struct Shells { std::vector<std::string> s; std::vector<double> b, w; };
// the shells named, with energies and yields of any value; the others of the nine have no binding energy
static Shells put(Elements &L, const std::string &name, int z, const std::string &which, bool given)
{
    Shells r; r.s = names(which);
    fisx::Element e(name, z);
    e.setAtomicMass(10.0 + z);
    Map b; Names all = names("K L1 L2 L3 M1 M2 M3 M4 M5");
    for (size_t i = 0; i < all.size(); i++) b[all[i]] = 0.0;
    b["N1"] = 0.0007;
    for (size_t i = 0; i < r.s.size(); i++)
    {
        double v = sym::real(name + "." + r.s[i], 0.0, 150.0);
        if (sym::holds(sym::lt(0.0, v))) sym::assume(sym::le(0.001, v));
        b[r.s[i]] = v; r.b.push_back(v);
    }
    e.setBindingEnergies(b);
    for (size_t i = 0; i < r.s.size(); i++)
    {
        double v = 0.0;
        if (r.s[i][0] == 'N') { r.w.push_back(v); continue; }
        if (given || i) { v = sym::real(name + ".omega" + r.s[i], 0.0, 1.0); Map c; c["omega"] = v; e.setShellConstants(r.s[i], c); }
        r.w.push_back(v);
    }
    L.addElement(e);
    return r;
}
static void examine(const std::vector<std::pair<std::string, double> > &got, const std::vector<std::string> &el, const std::vector<Shells> &sh, const double &x)
{
    size_t expected = 0;
    for (size_t k = 0; k < el.size(); k++)
        for (size_t i = 0; i < sh[k].s.size(); i++)
        {
            std::string key = el[k] + " " + sh[k].s[i];
            bool want = sym::holds(sym::lt(0.0, sh[k].b[i])) && sym::holds(sym::lt(sh[k].b[i], x)) && sym::holds(sym::lt(0.0, sh[k].w[i]));
            int times = 0;
            for (size_t j = 0; j < got.size(); j++)
                if (got[j].first == key) { times++; sym::check_eq("energy of the family is its binding energy", got[j].second, sh[k].b[i]); }
            sym::check("a family is listed exactly once if it is excited and fluoresces", times == (want ? 1 : 0));
            expected += want ? 1 : 0;
        }
    sym::check("no other family", got.size() == expected);
    for (size_t j = 1; j < got.size(); j++) sym::check("ordered by binding energy", sym::le(got[j - 1].second, got[j].second));
}
static double query(const Shells &s)
{
    if (sym::choose("exactly at an edge", 0, 1)) return s.b[0];
    return sym::real("x", 0.001, 200.0);
}
HARNESS(one_element)
{
    Elements *L = fake::library();
    const char *sets[] = {"K", "K L1 L2", "L1 L2 L3", "M1 M3 M5", "K L3 M4 N1", "M1 M2 M4", "L2 M3 M5"};
    std::vector<Shells> s;
    s.push_back(put(*L, "Fe", 26, sets[sym::choose("shells", 0, 6)], sym::choose("first yield given", 0, 1) != 0));
    double x = query(s[0]);
    int how = sym::choose("asked as", 0, 1);
    std::vector<std::string> el(1, "Fe");
    if (how) examine(L->getPeakFamilies(std::string("Fe"), x), el, s, x);
    else examine(L->getPeakFamilies(el, x), el, s, x);
}
HARNESS(two_elements)
{
    Elements *L = fake::library();
    int set = sym::choose("shells", 0, 2);
    std::vector<Shells> s;
    s.push_back(put(*L, "Fe", 26, set == 0 ? "K" : set == 1 ? "K L1" : "L1 L3", true));
    s.push_back(put(*L, "Ti", 22, set == 0 ? "L2 L3" : set == 1 ? "K" : "M5", true));
    double x = query(s[0]);
    std::vector<std::string> el; el.push_back("Fe"); el.push_back("Ti");
    int how = sym::choose("asked as", 0, 3);
    if (how == 0) examine(L->getPeakFamilies(el, x), el, s, x);
    if (how == 1) { std::vector<std::string> r; r.push_back("Ti"); r.push_back("Fe"); examine(L->getPeakFamilies(r, x), el, s, x); }
    if (how == 2) examine(L->getPeakFamilies(std::string("Fe2Ti3"), x), el, s, x);
    if (how == 3)
    {
        Material m("Alloy", 5.0, 1.0);
        Names n = names("Ti Fe"); Vec f; f.push_back(0.25); f.push_back(0.75);
        m.setComposition(n, f);
        L->addMaterial(m, 0);
        examine(L->getPeakFamilies(std::string("Alloy"), x), el, s, x);
    }
}
HARNESS(unknown)
{
    Elements *L = fake::library();
    double x = sym::real("x", 0.001, 200.0);
    const char *bad[] = {"Xx", "", "Fe K"};
    std::string n = bad[sym::choose("name", 0, 2)];
    sym::check("unknown name refused", sym::outcome([&] { L->getPeakFamilies(n, x); }) == 1);
    std::vector<std::string> l(1, n);
    sym::check("unknown element refused", sym::outcome([&] { L->getPeakFamilies(l, x); }) == 1);
    std::vector<std::string> none;
    sym::check("nothing asked, nothing listed", L->getPeakFamilies(none, x).empty());
}
