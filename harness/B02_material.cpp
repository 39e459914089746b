// @sources fisx_material.cpp
// @bounds up to 4 components (6 thorough), amounts in [-5, 1000], densities and thicknesses in [-10, 1000]; one earlier composition of 0, 2 or 4 components, also with names of the new one
#include "fisx_material.h"
using namespace fisx;

static const char *NAMES[] = {"Si", "Ag", "H2O", "Water", "Fe", "O"};
typedef std::map<std::string, double> Comp;

static void same(const std::string &tag, const Comp &a, const Comp &b)
{
    sym::check(tag + "-size", a.size() == b.size());
    if (a.size() != b.size()) return;
    Comp::const_iterator i = a.begin(), j = b.begin();
    for (; i != a.end(); ++i, ++j)
    {
        sym::check(tag + "-name", i->first == j->first);
        sym::check_eq(tag + "-amount", i->second, j->second);
    }
}

static void expected(const std::string &tag, const Comp &got, const std::vector<std::string> &n, const std::vector<double> &a)
{
    double total = 0.0, sum = 0.0;
    Comp by;
    for (size_t i = 0; i < n.size(); i++)
    {
        total += a[i];
        if (by.find(n[i]) == by.end()) by[n[i]] = a[i]; else by[n[i]] += a[i];
    }
    sym::check(tag + "components", got.size() == by.size());
    for (Comp::const_iterator i = got.begin(); i != got.end(); ++i)
    {
        sum += i->second;
        sym::check(tag + "known-name", by.count(i->first) == 1);
        if (by.count(i->first)) sym::check_eq(tag + "proportion", i->second * total, by[i->first]);
        sym::check_le(tag + "positive", 0.0, i->second);
        sym::check_le(tag + "at-most-one", i->second, 1.0);
    }
    if (n.size()) sym::check_eq(tag + "unit-sum", sum, 1.0);
}

static void previous(Material &m, int k)
{
    if (!k) return;
    std::vector<std::string> n; std::vector<double> a;
    for (int i = 0; i < k; i++) { n.push_back(k > 2 ? NAMES[i] : i ? "Pb" : "Ag"); a.push_back(sym::real("before" + std::to_string(i), 0.1, 10.0)); }
    m.setComposition(n, a);
}

// amounts of every sign, in every order of names
HARNESS(vectors)
{
    int n = sym::choose("n", 1, sym::tier() ? 6 : 4), rev = sym::choose("reverse", 0, 1);
    Material m("Sample");
    previous(m, sym::choose("previous", 0, 2) * 2);
    Comp old = m.getComposition();
    std::vector<std::string> names; std::vector<double> a;
    bool bad = false;
    for (int i = 0; i < n; i++)
    {
        names.push_back(NAMES[rev ? n - 1 - i : i]);
        a.push_back(sym::real("a" + std::to_string(i), -5.0, 1000.0));
        sym::assume(sym::lt(1e-6, a[i]) || sym::le(a[i], 0.0));
        if (a[i] <= 0.0) bad = true;
    }
    int r = sym::outcome([&] { m.setComposition(names, a); });
    sym::check("refusal-iff-non-positive", r == (bad ? 1 : 0));
    if (bad) same("kept-after-refusal", m.getComposition(), old);
    else expected("", m.getComposition(), names, a);
}

HARNESS(map_interface)
{
    int n = sym::choose("n", 1, 4);
    Material m("Sample");
    previous(m, sym::choose("previous", 0, 2) * 2);
    Comp old = m.getComposition(), c;
    std::vector<std::string> names; std::vector<double> a;
    bool bad = false;
    for (int i = 0; i < n; i++)
    {
        names.push_back(NAMES[i]);
        a.push_back(sym::real("a" + std::to_string(i), -5.0, 1000.0));
        sym::assume(sym::lt(1e-6, a[i]) || sym::le(a[i], 0.0));
        c[NAMES[i]] = a[i];
        if (a[i] <= 0.0) bad = true;
    }
    int r = sym::outcome([&] { m.setComposition(c); });
    sym::check("refusal-iff-non-positive", r == (bad ? 1 : 0));
    if (bad) same("kept-after-refusal", m.getComposition(), old);
    else expected("", m.getComposition(), names, a);
}

HARNESS(repeated_name)
{
    // a substance listed twice counts with the sum of its amounts
    int n = sym::choose("n", 2, 4), where = sym::choose("where", 0, 2);
    Material m("Sample");
    std::vector<std::string> names; std::vector<double> a;
    for (int i = 0; i < n; i++)
    {
        names.push_back(NAMES[i]);
        a.push_back(sym::real("a" + std::to_string(i), 0.001, 1000.0));
    }
    names[n - 1] = names[where % (n - 1)];
    m.setComposition(names, a);
    expected("", m.getComposition(), names, a);
}

HARNESS(mismatch)
{
    int n = sym::choose("names", 0, 3), k = sym::choose("amounts", 0, 3);
    Material m("Sample");
    previous(m, sym::choose("previous", 0, 2) * 2);
    Comp old = m.getComposition();
    std::vector<std::string> names; std::vector<double> a;
    for (int i = 0; i < n; i++) names.push_back(NAMES[i]);
    for (int i = 0; i < k; i++) a.push_back(sym::real("a" + std::to_string(i), 0.001, 1000.0));
    sym::assume(n != k);
    sym::check("refused", sym::outcome([&] { m.setComposition(names, a); }) == 1);
    same("kept-after-refusal", m.getComposition(), old);
}

HARNESS(initialise)
{
    double d = sym::real("density", -10.0, 1000.0), t = sym::real("thickness", -10.0, 1000.0);
    int nm = sym::choose("name", 0, 1), how = sym::choose("how", 0, 2);
    std::string name = nm ? "Kapton" : "";
    bool bad = !nm || sym::holds(sym::le(d, 0.0)) || sym::holds(sym::le(t, 0.0));
    if (how == 0)
    {
        int r = sym::outcome([&] { Material m(name, d, t, "note");
            sym::check("name", m.getName() == name); sym::check("comment", m.getComment() == "note");
            sym::check_eq("density", m.getDefaultDensity(), d); sym::check_eq("thickness", m.getDefaultThickness(), t);
            sym::check("renaming-refused", sym::outcome([&] { m.setName("Other"); }) == 1); sym::check("name-kept", m.getName() == name);
            sym::check("no-composition", m.getComposition().size() == 0); });
        sym::check("refusal", r == (bad ? 1 : 0));
        return;
    }
    Material m;
    double d0 = 1.0, t0 = 1.0;
    std::string n0 = m.getName(), c0;
    if (how == 2) { d0 = sym::real("density0", 0.1, 10.0); t0 = sym::real("thickness0", 0.1, 10.0); m.initialize("First", d0, t0, "old"); n0 = "First"; c0 = "old"; }
    std::vector<std::string> cn(1, "Si"); std::vector<double> ca(1, 2.0);
    m.setComposition(cn, ca);
    int r = sym::outcome([&] { m.initialize(name, d, t, "note"); });
    sym::check("refusal", r == (bad ? 1 : 0));
    sym::check("name", m.getName() == (bad ? n0 : name));
    sym::check("comment", m.getComment() == (bad ? c0 : std::string("note")));
    sym::check_eq("density", m.getDefaultDensity(), bad ? d0 : d);
    sym::check_eq("thickness", m.getDefaultThickness(), bad ? t0 : t);
    expected("composition-", m.getComposition(), cn, ca);
    if (how == 1 && bad)
    {
        m.setName("Named");
        sym::check("setName", m.getName() == "Named");
        sym::check_eq("setName-density", m.getDefaultDensity(), 1.0);
        sym::check_eq("setName-thickness", m.getDefaultThickness(), 1.0);
    }
    else
    {
        sym::check("renaming-refused", sym::outcome([&] { m.setName("Other"); }) == 1);
    }
}
