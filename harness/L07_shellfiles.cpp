// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds shell constant and rate files for K, L and M with 1 to 4 rows per scan (any order of atomic numbers, or none given), 2 to 4 columns in several orders, values symbolic in [0, 1] (constants) or [0.001, 10] or 0 (rates); files with a wrong number of scans, rows of a wrong length, unknown elements or labels
#include "lib_util.h"
using namespace fisx;
using namespace lu;
static const int SYMBOL_Z[] = {1, 2, 3, 4, 26, 92};
static const char *SYMBOL[] = {"H", "He", "Li", "Be", "Fe", "U"};
static std::string symbol(int z) { for (int i = 0; i < 6; i++) if (SYMBOL_Z[i] == z) return SYMBOL[i]; return ""; }
static Names shells(const std::string &main) { return names(main == "K" ? "K" : main == "L" ? "L1 L2 L3" : "M1 M2 M3 M4 M5"); }
static std::string label(std::string l, const std::string &s) { std::string::size_type p = l.find('#'); if (p != std::string::npos) l.replace(p, 1, s); return l; }
struct Rows { std::vector<int> z; bool column; };
static Rows rows()
{
    Rows r; r.column = true;
    switch (sym::choose("rows", 0, 4))
    {
    case 0: r.z.push_back(1); break;
    case 1: r.z.push_back(1); r.z.push_back(2); r.z.push_back(3); r.z.push_back(4); break;
    case 2: r.z.push_back(26); break;
    case 3: r.z.push_back(92); r.z.push_back(2); break;
    case 4: r.z.push_back(1); r.z.push_back(2); r.column = false; break;
    }
    return r;
}
static fake::Scan scan(const Rows &r, const Names &labels, const std::string &tag, const double &lo, const double &hi, bool zlast)
{
    fake::Scan s;
    for (size_t i = 0; i < labels.size(); i++) s.labels.push_back(labels[i]);
    if (r.column) s.labels.insert(zlast ? s.labels.end() : s.labels.begin(), "Z");
    for (size_t n = 0; n < r.z.size(); n++)
    {
        Vec v;
        for (size_t i = 0; i < s.labels.size(); i++)
            v.push_back(s.labels[i] == "Z" ? double(r.z[n]) : sym::real(tag + "." + s.labels[i] + "." + std::to_string(r.z[n]), lo, hi));
        s.data.push_back(v);
    }
    return s;
}
static double cell(const fake::Scan &s, size_t row, const std::string &l)
{
    for (size_t i = 0; i < s.labels.size(); i++) if (s.labels[i] == l) return s.data[row][i];
    return -1.0;
}
// a library in which every shell of every element exists
static Elements *library()
{
    fake::files().clear();
    Vec g; g.push_back(1.0); g.push_back(10.0); g.push_back(100.0);
    fake::defaults(g);
    fake::Scan &b = fake::files()["EADL97_BindingEnergies.dat"][0];
    for (size_t i = 0; i < b.data.size(); i++) for (size_t j = 1; j < b.data[i].size(); j++) b.data[i][j] = 9.0 / j;
    return new Elements("fake");
}
static void same(const std::string &w, const Map &a, const Map &b)
{
    sym::check(w + ": same size", a.size() == b.size());
    for (Map::const_iterator i = b.begin(); i != b.end(); ++i)
    {
        sym::check(w + ": listed", a.find(i->first) != a.end());
        if (a.find(i->first) != a.end()) sym::check_eq(w + ": value", get(a, i->first), i->second);
    }
}
static const char *MAIN[] = {"K", "L", "M"};
struct State { Map c, r, n; };
static void snapshot(Elements &L, std::map<std::string, State> &s)
{
    for (int e = 0; e < 6; e++)
        for (int m = 0; m < 3; m++)
        {
            Names sh = shells(MAIN[m]);
            for (size_t i = 0; i < sh.size(); i++)
            {
                State &t = s[std::string(SYMBOL[e]) + " " + sh[i]];
                t.c = L.getShellConstants(SYMBOL[e], sh[i]);
                t.r = L.getRadiativeTransitions(SYMBOL[e], sh[i]);
                t.n = L.getNonradiativeTransitions(SYMBOL[e], sh[i]);
            }
        }
}
// what: 0 constants, 1 radiative, 2 non-radiative
static void others(Elements &L, std::map<std::string, State> &before, const std::string &main, const Rows &r, int what)
{
    std::map<std::string, State> after;
    snapshot(L, after);
    for (std::map<std::string, State>::iterator i = before.begin(); i != before.end(); ++i)
    {
        State &a = after[i->first], &b = i->second;
        bool touched = i->first.substr(i->first.find(' ') + 1, 1) == main;
        bool listed = false;
        for (size_t k = 0; k < r.z.size(); k++) if (symbol(r.z[k]) == i->first.substr(0, i->first.find(' '))) listed = true;
        touched = touched && listed;
        if (!(touched && what == 0)) same("other constants left alone", a.c, b.c);
        if (!(touched && what == 1)) same("other radiative rates left alone", a.r, b.r);
        if (!(touched && what == 2)) same("other non-radiative rates left alone", a.n, b.n);
    }
}
HARNESS(constants)
{
    Elements *L = library();
    std::string main = MAIN[sym::choose("main shell", 0, 2)];
    Names sh = shells(main);
    Rows r = rows();
    int layout = sym::choose("columns", 0, 2);
    fake::File f;
    for (size_t i = 0; i < sh.size(); i++)
    {
        std::string l = "omega#";
        if (i == 0 && main != "K" && layout) l = "f12 omega# f13";
        if (i == 1 && main != "K" && layout) l = "gammaA# omega# f23";
        if (i == 0 && main == "K" && layout) l = "gamma# omega#";
        Names n = names(l);
        for (size_t k = 0; k < n.size(); k++) n[k] = label(n[k], sh[i]);
        f.push_back(scan(r, n, sh[i], 0.0, 1.0, layout == 2));
    }
    fake::files()["new.dat"] = f;
    std::map<std::string, State> before;
    snapshot(*L, before);
    L->setShellConstantsFile(main, "dir/new.dat");
    sym::check("file remembered", L->getShellConstantsFile(main) == "dir/new.dat");
    for (size_t i = 0; i < sh.size(); i++)
        for (size_t n = 0; n < r.z.size(); n++)
        {
            std::string el = symbol(r.z[n]);
            Map c = L->getShellConstants(el, sh[i]), want = before[el + " " + sh[i]].c;
            for (size_t k = 0; k < f[i].labels.size(); k++)
            {
                std::string l = f[i].labels[k];
                if (l.substr(0, 5) == "omega") want["omega"] = f[i].data[n][k];
                else if (l != "Z" && l.size() <= 4) want[l] = f[i].data[n][k];
            }
            same("constants of the row", c, want);
        }
    others(*L, before, main, r, 0);
}
static void rates(bool radiative)
{
    Elements *L = library();
    std::string main = MAIN[sym::choose("main shell", 0, 2)];
    Names sh = shells(main);
    Rows r = rows();
    int layout = sym::choose("columns", 0, 2);
    std::string in = main == "K" ? "L" : main == "L" ? "M" : "N";
    fake::File f;
    for (size_t i = 0; i < sh.size(); i++)
    {
        std::string l = radiative ? (layout ? "TOTAL " + sh[i] + in + "3 " + sh[i] + in + "2" : sh[i] + in + "3")
                                  : (layout ? sh[i] + "-" + in + "1" + in + "2 " + sh[i] + "-" + in + "3" + in + "3 TOTAL" : "TOTAL " + sh[i] + "-" + in + "1" + in + "1");
        f.push_back(scan(r, names(l), sh[i], 0.001, 10.0, layout == 2));
    }
    if (sym::choose("a zero", 0, 1)) f.back().data.back().back() = f.back().labels.back() == "Z" ? f.back().data.back().back() : double(0.0);
    fake::files()["new.dat"] = f;
    std::map<std::string, State> before;
    snapshot(*L, before);
    if (radiative) L->setShellRadiativeTransitionsFile(main, "new.dat"); else L->setShellNonradiativeTransitionsFile(main, "new.dat");
    sym::check("file remembered", (radiative ? L->getShellRadiativeTransitionsFile(main) : L->getShellNonradiativeTransitionsFile(main)) == "new.dat");
    for (size_t i = 0; i < sh.size(); i++)
        for (size_t n = 0; n < r.z.size(); n++)
        {
            std::string el = symbol(r.z[n]);
            Map got = radiative ? L->getRadiativeTransitions(el, sh[i]) : L->getNonradiativeTransitions(el, sh[i]), want;
            for (size_t k = 0; k < f[i].labels.size(); k++) if (f[i].labels[k] != "Z") want[f[i].labels[k]] = f[i].data[n][k];
            same("rates of the row", got, want);
        }
    others(*L, before, main, r, radiative ? 1 : 2);
}
HARNESS(radiative) { rates(true); }
HARNESS(nonradiative) { rates(false); }
// files that cannot be meant
HARNESS(refused)
{
    Elements *L = library();
    int what = sym::choose("what", 0, 2);
    std::string main = MAIN[sym::choose("main shell", 0, 2)];
    Names sh = shells(main);
    Rows r; r.column = true; r.z.push_back(1); r.z.push_back(2);
    fake::File f;
    for (size_t i = 0; i < sh.size(); i++)
    {
        std::string in = main == "K" ? "L" : main == "L" ? "M" : "N", s = sh[i];
        f.push_back(scan(r, names(what == 0 ? "omega" + s : what == 1 ? s + in + "3" : s + "-" + in + "1" + in + "1"), s, 0.001, 1.0, false));
    }
    switch (sym::choose("defect", 0, 6))
    {
    case 0: f.pop_back(); break;                                   // a shell is missing
    case 1: f.push_back(f[0]); break;                              // one too many
    case 2: f[0].data[sym::choose("row", 0, 1)].pop_back(); break;  // a short row
    case 3: f.back().data[sym::choose("row", 0, 1)].push_back(sym::real("extra", 0.0, 1.0)); break;
    case 4: f[0].data[1][0] = 250.0; break;                        // no such element
    case 5: main = sym::choose("bad shell", 0, 1) ? "L1" : ""; break;
    case 6: fake::files().erase("new.dat"); f.clear(); break;      // no file
    }
    if (f.size()) fake::files()["new.dat"] = f;
    std::string old = main.size() == 1 ? what == 0 ? L->getShellConstantsFile(main) : what == 1 ? L->getShellRadiativeTransitionsFile(main) : L->getShellNonradiativeTransitionsFile(main) : "";
    int o = sym::outcome([&] { if (what == 0) L->setShellConstantsFile(main, "new.dat"); else if (what == 1) L->setShellRadiativeTransitionsFile(main, "new.dat"); else L->setShellNonradiativeTransitionsFile(main, "new.dat"); });
    sym::check("refused", o != 0);
    if (main.size() == 1)
    {
        std::string now = what == 0 ? L->getShellConstantsFile(main) : what == 1 ? L->getShellRadiativeTransitionsFile(main) : L->getShellNonradiativeTransitionsFile(main);
        sym::check("a refused file is not the one in use", now == old);
    }
}
