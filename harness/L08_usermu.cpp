// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds one element with K, L1 and outer shells in a library grid of 5 to 7 energies; 1 to 5 supplied energies starting below, inside or above that grid, with or without the K edge tabulated twice (edge energy at, or up to 0.06 keV from, the binding energy); supplied coefficients symbolic in [1e-3, 1e3]; queries at the supplied energies that do not lie between the two edge energies, and in between; data files of 1 to 3 scans
#include "lib_util.h"
using namespace fisx;
using namespace lu;
static const int Z = 26;
static const int KEDGE = 8000, LEDGE = 1000;
static double en(int ev) { return ev / 1000.0; }
static const char *ALL[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
// the library's own table: K edge at 8 keV (twice), L1 from 1 keV on
static Elements *library(bool free)
{
    Vec g; g.push_back(1.0); g.push_back(10.0); g.push_back(100.0);
    fake::defaults(g);
    fake::Scan s;
    s.labels = names("energy coherent compton photoelectric pair total K L1 L2 L3 M1 M2 M3 M4 M5 allother");
    int e[] = {1000, 2000, 4000, 8000, 8000, 16000, 64000};
    for (int i = 0; i < 7; i++)
    {
        Vec r(s.labels.size(), 0.0);
        r[0] = en(e[i]);
        r[1] = 2.0 / (1 + i); r[2] = 0.25 + i;
        if (i >= 4) r[6] = free ? sym::real("libK" + std::to_string(i), 0.25, 64.0) : double(32.0 / i);
        r[7] = free && (i == 2 || i == 5) ? sym::real("libL" + std::to_string(i), 0.25, 64.0) : double(i == 4 ? 2.0 : 8.0 / (1 + i));
        r[15] = i == 4 ? 0.5 : 2.0 / (1 + i);
        r[5] = r[1] + r[2] + r[6] + r[7] + r[15];
        s.data.push_back(r);
    }
    fake::files()["EPDL97_CrossSections.dat"][Z - 1] = s;
    fake::Scan &b = fake::files()["EADL97_BindingEnergies.dat"][0];
    b.data[Z - 1][1] = en(KEDGE); b.data[Z - 1][2] = en(LEDGE);
    return new Elements("fake");
}
struct User { Vec e, v[4]; };   // v: coherent, compton, pair, photoelectric
static User supplied(const Vec &e, const std::string &tag)
{
    User u; u.e = e;
    for (size_t i = 0; i < e.size(); i++)
        for (int p = 0; p < 4; p++)
        {
            if (p < 3 && i && e[i] == e[i - 1]) { u.v[p].push_back(u.v[p][i - 1]); continue; }
            u.v[p].push_back(sym::real(tag + PROC[p] + std::to_string(i), 0.001, 1000.0));
        }
    return u;
}
static void set(Elements &lib, const std::string &name, const User &u, bool pair = true)
{
    lib.setMassAttenuationCoefficients(name, u.e, u.v[3], u.v[0], u.v[1], pair ? u.v[2] : Vec());
}
static void consistent(const Map &r)
{
    double p = 0.0;
    for (int i = 0; i < 10; i++) { p += get(r, ALL[i]); sym::check_le("no negative part", 0.0, get(r, ALL[i])); }
    sym::check_eq("shells add up", p, get(r, "photoelectric"));
    sym::check_eq("total is the sum", get(r, "total"), get(r, "coherent") + get(r, "compton") + get(r, "pair") + get(r, "photoelectric"));
}
// what the library says at supplied energy k; photo: whether the photoelectric coefficient is comparable there
static void at(const Map &r, const User &u, size_t k, bool pair, bool photo)
{
    sym::check_eq("coherent as supplied", get(r, "coherent"), u.v[0][k], 1e-6);
    sym::check_eq("compton as supplied", get(r, "compton"), u.v[1][k], 1e-6);
    sym::check_eq("pair as supplied", get(r, "pair"), pair ? u.v[2][k] : double(0.0), 1e-6);
    if (photo) sym::check_eq("photoelectric as supplied", get(r, "photoelectric"), u.v[3][k], 1e-6);
    consistent(r);
}
static void stored(const Elements &lib, const std::string &name, const User &u, bool pair)
{
    std::map<std::string, Vec> all = lib.getMassAttenuationCoefficients(name);
    size_t n = all["energy"].size(), m = u.e.size();
    sym::check("stored table has the supplied points", n >= m && all["coherent"].size() == n && all["compton"].size() == n && all["pair"].size() == n && all["photoelectric"].size() == n && all["total"].size() == n);
    if (n < m) return;
    for (size_t k = 0; k < m; k++)
    {
        size_t i = n - m + k;
        sym::check_eq("stored coherent", all["coherent"][i], u.v[0][k]);
        sym::check_eq("stored compton", all["compton"][i], u.v[1][k]);
        sym::check_eq("stored pair", all["pair"][i], pair ? u.v[2][k] : double(0.0));
        sym::check_eq("stored photoelectric", all["photoelectric"][i], u.v[3][k]);
        sym::check_eq("stored total", all["total"][i], u.v[0][k] + u.v[1][k] + (pair ? u.v[2][k] : double(0.0)) + u.v[3][k]);
    }
    for (size_t i = 1; i < n; i++) sym::check_le("stored energies ascend", all["energy"][i - 1], all["energy"][i]);
    for (size_t i = 0; i + m < n; i++) sym::check_lt("library points below the supplied ones", all["energy"][i], u.e[0]);
}
static Vec list(int a, int b = 0, int c = 0, int d = 0, int e = 0)
{
    int x[] = {a, b, c, d, e};
    Vec v;
    for (int i = 0; i < 5; i++) if (x[i]) v.push_back(en(x[i]));
    return v;
}
// tables without an edge: on the library's points, between, starting below or above its grid
HARNESS(smooth)
{
    Elements *lib = library(sym::choose("library symbolic", 0, 1) != 0);
    Vec e;
    switch (sym::choose("grid", 0, 6))
    {
    case 0: e = list(2000, 4000, 16000); break;
    case 1: e = list(3000, 5000, 12000, 32000); break;
    case 2: e = list(500, 750, 3000, 20000); break;
    case 3: e = list(80000, 90000); break;
    case 4: e = list(12000); break;
    case 5: e = list(1000, 64000); break;
    case 6: e = list(1500, 9000, 64000, 100000); break;
    }
    bool pair = sym::choose("pair", 0, 1) != 0;
    User u = supplied(e, "u.");
    set(*lib, "Fe", u, pair);
    stored(*lib, "Fe", u, pair);
    for (size_t k = 0; k < e.size(); k++)
    {
        // below the first shell there is nothing the photoelectric coefficient could be given to but the outer shells
        at(lib->getMassAttenuationCoefficients("Fe", e[k]), u, k, pair, true);
    }
    // other elements keep their data
    sym::check_eq("other elements untouched", get(lib->getMassAttenuationCoefficients("Co", 10.0), "coherent"), 1.0, 1e-6);
    delete lib;
}
// tables with the K edge: at the binding energy, below, above
HARNESS(edge)
{
    Elements *lib = library(sym::choose("library symbolic", 0, 1) != 0);
    int where = sym::choose("edge", 0, 2), low = sym::choose("low", 0, 2);
    int b = where == 0 ? KEDGE : where == 1 ? KEDGE - 60 : KEDGE + 60;
    Vec e;
    if (low == 0) e = list(2000, b, b, 16000); else if (low == 1) e = list(500, 4000, b, b, 20000); else e = list(b, b, 16000, 32000);
    User u = supplied(e, "u.");
    int k = low == 0 ? 1 : low == 1 ? 2 : 0;
    sym::assume(sym::lt(u.v[3][k], u.v[3][k + 1]));
    set(*lib, "Fe", u);
    stored(*lib, "Fe", u, true);
    for (size_t i = 0; i < e.size(); i++)
    {
        if (int(i) == k || int(i) == k + 1) continue;
        Map r = lib->getMassAttenuationCoefficients("Fe", e[i]);
        at(r, u, i, true, true);
        sym::check("K only above its edge", (int(i) > k) == sym::holds(sym::lt(0.0, get(r, "K"))));
    }
    Map r = lib->getMassAttenuationCoefficients("Fe", en(b));
    if (where == 0) at(r, u, k + 1, true, true); else consistent(r);
    // just around the edge
    double y = low == 2 ? double(6.0) : double(7.0);
    r = lib->getMassAttenuationCoefficients("Fe", y);
    consistent(r);
    sym::check_eq("no K below the edge", get(r, "K"), 0.0);
    r = lib->getMassAttenuationCoefficients("Fe", 9.0);
    consistent(r);
    sym::check("K above the edge", sym::lt(0.0, get(r, "K")));
    delete lib;
}
// the shells share what is supplied in the library's proportions
HARNESS(shares)
{
    Elements *lib = library(true);
    Map before = lib->getMassAttenuationCoefficients("Fe", en(16000));
    bool edge = sym::choose("edge", 0, 1) != 0;
    User u = supplied(edge ? list(4000, 8000, 8000, 16000) : list(2000, 16000, 32000), "u.");
    if (edge) sym::assume(sym::lt(u.v[3][1], u.v[3][2]));
    set(*lib, "Fe", u);
    Map after = lib->getMassAttenuationCoefficients("Fe", en(16000));
    for (int i = 0; i < 10; i++)
        sym::check_eq("same proportions", get(after, ALL[i]) * get(before, "photoelectric"), get(before, ALL[i]) * get(after, "photoelectric"), 1e-6);
    // replacing the data a second time does not depend on the first
    User w = supplied(list(4000, 16000), "w.");
    set(*lib, "Fe", w);
    stored(*lib, "Fe", w, true);
    after = lib->getMassAttenuationCoefficients("Fe", en(16000));
    at(after, w, 1, true, true);
    for (int i = 0; i < 10; i++)
        sym::check_eq("same proportions again", get(after, ALL[i]) * get(before, "photoelectric"), get(before, ALL[i]) * get(after, "photoelectric"), 1e-6);
    delete lib;
}
HARNESS(between)
{
    Elements *lib = library(false);
    User u = supplied(list(4000, 8000, 8000, 16000), "u.");
    sym::assume(sym::lt(u.v[3][1], u.v[3][2]));
    set(*lib, "Fe", u);
    double x = sym::real("x", 0.5, 80.0);
    consistent(lib->getMassAttenuationCoefficients("Fe", x));
    delete lib;
}
// refused input leaves the element as it was
HARNESS(refused)
{
    Elements *lib = library(true);
    User good = supplied(list(4000, 16000), "g.");
    bool earlier = sym::choose("earlier", 0, 1) != 0;
    if (earlier) set(*lib, "Fe", good);
    Map before = lib->getMassAttenuationCoefficients("Fe", en(16000));
    User u = supplied(list(2000, 4000, 32000), "u.");
    int bad = sym::choose("bad", 0, 6);
    std::string name = "Fe";
    switch (bad)
    {
    case 0: u.v[0].pop_back(); break;
    case 1: u.v[1].pop_back(); break;
    case 2: u.v[2].pop_back(); break;
    case 3: u.v[3].push_back(1.0); break;
    case 4: u.e = Vec(); for (int p = 0; p < 4; p++) u.v[p] = Vec(); break;
    case 5: std::swap(u.e[0], u.e[1]); break;
    case 6: name = "Iron"; break;
    }
    sym::check("refused", sym::outcome([&] { set(*lib, name, u); }) == 1);
    Map after = lib->getMassAttenuationCoefficients("Fe", en(16000));
    for (Map::const_iterator i = before.begin(); i != before.end(); ++i) sym::check_eq("kept", get(after, i->first), i->second);
    delete lib;
}
// the file form: scan n is for element n
HARNESS(file)
{
    Elements *lib = library(false);
    fake::File f;
    int n = sym::choose("scans", 1, 3), order = sym::choose("columns", 0, 2);
    std::vector<User> us;
    for (int k = 0; k < n; k++)
    {
        User u = supplied(list(2000, 16000, 20000), std::string("f") + std::to_string(k) + ".");
        fake::Scan s;
        s.labels = order == 0 ? names("PhotonEnergy[keV] Rayleigh(coherent)[cm2/g] Compton(incoherent)[cm2/g] CoherentPlusIncoherent[cm2/g] Photoelectric[cm2/g] PairProduction[cm2/g] TotalCrossSection[cm2/g]")
                   : order == 1 ? names("PHOTO PAIR COMPTON RAYLEIGH ENERGY") : names("energy coherent compton photo");
        for (int i = 0; i < 3; i++)
        {
            Vec r;
            for (size_t j = 0; j < s.labels.size(); j++)
            {
                std::string l = s.labels[j];
                if (l.compare(0, 8, "Coherent") == 0 || l.compare(0, 5, "Total") == 0) { r.push_back(999.0); continue; }
                int c = l[0] == 'P' || l[0] == 'p' ? (l.compare(1, 3, "hot") == 0 && l.find("Energy") == std::string::npos ? 3 : l.find("Energy") != std::string::npos ? 4 : l.compare(1, 3, "HOT") == 0 ? 3 : 2)
                      : l[0] == 'E' || l[0] == 'e' ? 4 : l[0] == 'R' || l.compare(0, 3, "coh") == 0 ? 0 : 1;
                r.push_back(c == 4 ? u.e[i] : u.v[c][i]);
            }
            s.data.push_back(r);
        }
        f.push_back(s);
        us.push_back(u);
    }
    fake::files()["user.dat"] = f;
    // CoherentPlusIncoherent contains INCOHERENT, so it does not stand for the coherent column
    lib->setMassAttenuationCoefficientsFile("dir/user.dat");
    const char *nm[] = {"H", "He", "Li", "Be"};
    for (int k = 0; k < n; k++) { stored(*lib, nm[k], us[k], order != 2); at(lib->getMassAttenuationCoefficients(nm[k], en(16000)), us[k], 1, order != 2, false); }
    sym::check_eq("further elements untouched", get(lib->getMassAttenuationCoefficients(nm[n], 10.0), "coherent"), 1.0, 1e-6);
    fake::files()["user.dat"].clear();
    sym::check("file without scans refused", sym::outcome([&] { lib->setMassAttenuationCoefficientsFile("dir/user.dat"); }) != 0);
    sym::check("missing file refused", sym::outcome([&] { lib->setMassAttenuationCoefficientsFile("dir/none.dat"); }) != 0);
    delete lib;
}
