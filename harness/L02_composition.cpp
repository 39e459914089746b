// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @assume materials do not contain themselves, directly or through others
// @bounds up to 3 elements with any atomic mass in [1, 250] in formulas with counts 1 to 3; up to 3 library materials nested 3 deep with 2 or 3 components and amounts in [1e-3, 1e3]; up to 2 additional materials that replace or extend them
#include "lib_util.h"
#include "fisx_layer.h"
#include "fisx_xrf.h"
using namespace fisx;
using namespace lu;
static const char *EL[] = {"Si", "Fe", "O"};
static Elements *library()
{
    Elements *L = fake::library();
    for (int i = 0; i < 3; i++)
    {
        fisx::Element x(EL[i], 8 + i);
        x.setAtomicMass(sym::real("mass" + std::string(EL[i]), 1.0, 250.0));
        L->addElement(x);
    }
    return L;
}
struct Part { std::string name; double amount; };
typedef std::vector<Part> Parts;
typedef std::map<std::string, Parts> World;
static Part part(const std::string &n, const std::string &id) { Part p; p.name = n; p.amount = sym::real("amount " + id, 1e-3, 1e3); return p; }
// reference: what `name` is made of, by mass
static Map fractions(const Elements &L, const World &w, const std::string &name)
{
    Map r;
    World::const_iterator m = w.find(name);
    if (m == w.end())
    {
        // element or one of the formulas used here
        std::map<std::string, int> n;
        if (name == "Fe2O3") { n["Fe"] = 2; n["O"] = 3; } else if (name == "SiO2") { n["Si"] = 1; n["O"] = 2; } else n[name] = 1;
        double total = 0.0;
        for (std::map<std::string, int>::iterator i = n.begin(); i != n.end(); ++i) { r[i->first] = L.getAtomicMass(i->first) * i->second; total += r[i->first]; }
        for (Map::iterator i = r.begin(); i != r.end(); ++i) i->second = i->second / total;
        return r;
    }
    double total = 0.0;
    for (size_t k = 0; k < m->second.size(); k++) total += m->second[k].amount;
    for (size_t k = 0; k < m->second.size(); k++)
    {
        Map c = fractions(L, w, m->second[k].name);
        for (Map::iterator i = c.begin(); i != c.end(); ++i)
        {
            if (r.find(i->first) == r.end()) r[i->first] = 0.0;
            r[i->first] += i->second * m->second[k].amount / total;
        }
    }
    return r;
}
static void same(const std::string &what, const Map &got, const Map &want)
{
    sym::check(what + ": elements", got.size() == want.size());
    double sum = 0.0;
    for (Map::const_iterator i = want.begin(); i != want.end(); ++i)
    {
        sym::check(what + ": element present", got.find(i->first) != got.end());
        if (got.find(i->first) == got.end()) return;
        sym::check_eq(what + ": mass fraction", got.find(i->first)->second, i->second);
        sum += got.find(i->first)->second;
    }
    if (want.size()) sym::check_eq(what + ": sums to one", sum, 1.0);
}
static Material material(const std::string &name, const Parts &p)
{
    Material m(name, 1.0, 1.0);
    Map c;
    for (size_t i = 0; i < p.size(); i++) c[p[i].name] = p[i].amount;
    m.setComposition(c);
    return m;
}
HARNESS(formulas)
{
    Elements &L = *library();
    const char *T[] = {"Fe2O3", "SiO2", "Fe", "O"};
    std::string f = T[sym::choose("formula", 0, 3)];
    World w;
    Map want = fractions(L, w, f);
    same("from formula", L.getCompositionFromFormula(f), want);
    same("by name", L.getComposition(f), want);
    std::vector<Material> none;
    same("by name, no materials", L.getComposition(f, none), want);
    Layer y(f, 1.0, 1.0, 1.0);
    same("layer", y.getComposition(L), want);
    XRF x;
    same("experiment layer", x.getLayerComposition(y, L), want);
    // the counts of a formula and of the one with repeated symbols are the same
    if (f == "SiO2") same("repeated symbol", L.getComposition("OSiO"), want);
    if (f == "Fe2O3") same("group", L.getComposition("(FeO)2O"), want);
}
static World build(Elements &L, bool library)
{
    World w;
    int first = sym::choose("inner", 0, 2), second = sym::choose("middle", 0, 2);
    const char *B[] = {"Fe", "SiO2", "Fe2O3"};
    Parts p; p.push_back(part(B[first], "a")); p.push_back(part("O", "b"));
    if (sym::choose("three parts", 0, 1)) p.push_back(part("Si", "c"));
    w["inner stuff"] = p;
    Parts q; q.push_back(part("inner stuff", "d")); q.push_back(part(B[second], "e"));
    w["middle stuff"] = q;
    Parts r; r.push_back(part("middle stuff", "f")); r.push_back(part("inner stuff", "g"));
    w["outer stuff"] = r;
    if (library)
    {
        bool reverse = sym::choose("order added", 0, 1) != 0;
        for (World::iterator i = w.begin(); i != w.end(); ++i) if (!reverse) L.addMaterial(material(i->first, i->second), 1);
        for (World::reverse_iterator i = w.rbegin(); i != w.rend(); ++i) if (reverse) L.addMaterial(material(i->first, i->second), 1);
    }
    return w;
}
static const char *NM[] = {"inner stuff", "middle stuff", "outer stuff"};
HARNESS(materials)
{
    Elements &L = *library();
    World w = build(L, true);
    int k = sym::choose("asked", 0, 2);
    Map want = fractions(L, w, NM[k]);
    same("by name", L.getComposition(NM[k]), want);
    Layer y("some layer", 1.0, 1.0, 1.0);
    y.setMaterial(NM[k]);
    same("layer by name", y.getComposition(L), want);
    Layer z("some layer", 1.0, 1.0, 1.0);
    z.setMaterial(L.getMaterialCopy(NM[k]));
    same("layer by material", z.getComposition(L), want);
    XRF x;
    same("experiment", x.getLayerComposition(z, L), want);
}
HARNESS(mixtures)
{
    Elements &L = *library();
    World w = build(L, true);
    // an amount-weighted mixture; amounts need not add up to one
    Parts p; p.push_back(part(NM[sym::choose("asked", 0, 2)], "m0")); p.push_back(part("SiO2", "m1"));
    Map given; given[p[0].name] = p[0].amount; given[p[1].name] = p[1].amount;
    World v = w; v["mixture"] = p;
    same("mixture", L.getComposition(given), fractions(L, v, "mixture"));
    std::vector<Material> none;
    same("mixture, no materials", L.getComposition(given, none), fractions(L, v, "mixture"));
}
// v knows the additional materials too
static Map mixed(const Elements &L, const World &w, const World &v, const std::vector<Material> &extra, const std::string &name)
{
    bool added = false;
    for (size_t k = 0; k < extra.size(); k++) added = added || extra[k].getName() == name;
    if (!added) return fractions(L, w, name);
    const Parts &p = v.find(name)->second;
    double total = 0.0; Map r;
    for (size_t k = 0; k < p.size(); k++) total += p[k].amount;
    for (size_t k = 0; k < p.size(); k++)
    {
        Map c = mixed(L, w, v, extra, p[k].name);
        for (Map::iterator i = c.begin(); i != c.end(); ++i) { if (r.find(i->first) == r.end()) r[i->first] = 0.0; r[i->first] += i->second * p[k].amount / total; }
    }
    return r;
}
HARNESS(additional_materials)
{
    Elements &L = *library();
    World w = build(L, true);
    std::vector<Material> extra;
    // replaces one of the library, or adds a new one
    int what = sym::choose("additional", 0, 3);
    World v = w;
    Parts p; p.push_back(part("O", "x0")); p.push_back(part(what == 0 ? "Si" : what == 1 ? "inner stuff" : "Fe", "x1"));
    std::string n = what == 0 ? "inner stuff" : what == 1 ? "middle stuff" : what == 2 ? "outer stuff" : "new stuff";
    v[n] = p;
    extra.push_back(material(n, p));
    if (sym::choose("another", 0, 1))
    {
        Parts q; q.push_back(part(n, "y0")); q.push_back(part("Fe2O3", "y1"));
        v["newer stuff"] = q;
        extra.insert(extra.begin(), material("newer stuff", q));
    }
    // additional materials may be made of others of any kind; a library material is made of what the library knows
    for (World::iterator i = v.begin(); i != v.end(); ++i)
    {
        bool added = false;
        for (size_t k = 0; k < extra.size(); k++) added = added || extra[k].getName() == i->first;
        same(added ? "additional material" : "library material", L.getComposition(i->first, extra), added ? mixed(L, w, v, extra, i->first) : fractions(L, w, i->first));
    }
    // the library itself is as before
    for (World::iterator i = w.begin(); i != w.end(); ++i) same("library unchanged", L.getComposition(i->first), fractions(L, w, i->first));
}
HARNESS(redefinition)
{
    Elements &L = *library();
    World w = build(L, true);
    Parts p; p.push_back(part("Fe", "r0")); p.push_back(part("O", "r1"));
    int how = sym::choose("how", 0, 4);
    if (how == 0) L.addMaterial(material("inner stuff", p), 0);
    if (how == 1) { Map c; c["Fe"] = p[0].amount; c["O"] = p[1].amount; L.setMaterialComposition("inner stuff", c); }
    if (how == 2) { Vec a; a.push_back(p[0].amount); a.push_back(p[1].amount); L.setMaterialComposition("inner stuff", names("Fe O"), a); }
    if (how == 3) { L.removeMaterial("inner stuff"); L.addMaterial(material("inner stuff", p), 1); }
    if (how == 4)
    {
        sym::check("existing name refused", sym::outcome([&] { L.addMaterial(material("inner stuff", p), 1); }) == 1);
        sym::check("existing name refused too", sym::outcome([&] { L.addMaterial("inner stuff", 1.0, 1.0, "", 1); }) == 1);
        sym::check("unknown material refused", sym::outcome([&] { L.setMaterialComposition("unknown stuff", names("Fe"), Vec(1, 1.0)); }) == 1);
        sym::check("unknown material not removed", sym::outcome([&] { L.removeMaterial("unknown stuff"); }) == 1);
    }
    else w["inner stuff"] = p;
    for (World::iterator i = w.begin(); i != w.end(); ++i) same("redefined", L.getComposition(i->first), fractions(L, w, i->first));
    sym::check("number of materials", L.getMaterialNames().size() == 3);
}
HARNESS(formula_materials)
{
    // a material named by its formula has that formula's composition
    Elements &L = *library();
    L.addMaterial("Fe2O3", 1.0, 1.0, "rust", 1);
    World w;
    Map want = fractions(L, w, "Fe2O3");
    same("added by formula", L.getMaterialCopy("Fe2O3").getComposition(), want);
    same("created by formula", L.createMaterial("SiO2", 1.0, 1.0, "").getComposition(), fractions(L, w, "SiO2"));
    same("resolved", L.getComposition("Fe2O3"), want);
    sym::check("other names have no composition yet", L.createMaterial("stuff", 1.0, 1.0, "").getComposition().size() == 0);
}
HARNESS(unknown_names)
{
    Elements &L = *library();
    World w = build(L, true);
    std::vector<Material> extra(1, material("inner stuff", w["inner stuff"]));
    const char *T[] = {"unknown stuff", "Xx", "Fe2Xx", "", "fe", "Outer stuff"};
    std::string n = T[sym::choose("name", 0, 5)];
    Map r;
    sym::check("unknown name", sym::outcome([&] { r = L.getComposition(n); }) == 0 && r.size() == 0);
    sym::check("unknown formula", sym::outcome([&] { r = L.getCompositionFromFormula(n); }) == 0 && r.size() == 0);
    int o = sym::outcome([&] { r = L.getComposition(n, extra); });
    sym::check("unknown name, additional materials", o == 1 || (o == 0 && r.size() == 0));
    // inside a material, wherever it stands, the whole is unknown
    Parts p; p.push_back(part("Fe", "u0")); p.push_back(part(n.size() ? n : std::string("zzz"), "u1")); p.push_back(part("inner stuff", "u2"));
    L.addMaterial(material("bad stuff", p), 1);
    Parts q; q.push_back(part("Si", "u3")); q.push_back(part("bad stuff", "u4"));
    L.addMaterial(material("worse stuff", q), 1);
    o = sym::outcome([&] { r = L.getComposition("bad stuff"); });
    sym::check("unknown part", o == 1 || (o == 0 && r.size() == 0));
    o = sym::outcome([&] { r = L.getComposition("worse stuff"); });
    sym::check("unknown part of a part", o == 1 || (o == 0 && r.size() == 0));
    o = sym::outcome([&] { r = L.getComposition("worse stuff", extra); });
    sym::check("unknown part of a part, additional materials", o == 1 || (o == 0 && r.size() == 0));
    Map given; given["Fe"] = 0.5; given["bad stuff"] = 0.5;
    o = sym::outcome([&] { r = L.getComposition(given); });
    sym::check("unknown part of a mixture", o == 1 || (o == 0 && r.size() == 0));
    same("the others are untouched", L.getComposition("outer stuff"), fractions(L, w, "outer stuff"));
}
