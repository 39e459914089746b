// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds tables of 2 to 40 energies, one energy tabulated twice or not; a query, up to two others (same or another element with a shorter or longer table, any energy within a factor 4 of the table's range), then the query again; lists of two energies
#include "epdl_util.h"
using namespace fisx;
using namespace du;
// element z with n rows at 1, 2, 3, ... keV (in quarter steps from `first`), `twice` >= 0: that row is the foot of an edge of the K shell
static Vec fill(int z, int n, int twice, bool free)
{
    std::vector<Row> rows;
    Vec e;
    for (int i = 0; i < n; i++)
    {
        double x = double(twice >= 0 && i > twice ? i : i + 1);
        Row r = zero(x);
        if (twice >= 0 && i == twice + 1) r = rows[twice];
        else
        {
            bool symbolic = free && (i < 2 || i >= n - 2 || (twice >= 0 && (i == twice || i == twice + 2)));
            r.v["coherent"] = symbolic ? sym::real(num(num("coherent", z) + ".", i), 0.001, 1000.0) : double(0.5 + i * 0.25);
            r.v["compton"] = double(3.0 / (1 + i));
            r.v["L1"] = double(1.0 / (1 + i * i));
        }
        if (twice >= 0 && i > twice) r.v["K"] = double(8.0 / (1 + i));
        rows.push_back(r);
        e.push_back(x);
    }
    put(z, rows, 0);
    binding(z, "K", twice >= 0 ? e[twice] : double(0.0));
    binding(z, "L1", 0.25);
    return e;
}
static void same(const std::string &what, const Map &a, const Map &b)
{
    sym::check(what + ": same keys", a.size() == b.size());
    for (Map::const_iterator i = a.begin(); i != a.end(); ++i) sym::check_eq(what + ": same value", get(b, i->first), i->second, 1e-6);
}
static int size(const std::string &n) { int s = sym::choose(n, 0, 3); return s == 0 ? 2 : s == 1 ? 4 : s == 2 ? 25 : 40; }
// an energy: one of the table's own (near the ends or the edge), or any between or beyond
static double energy(const std::string &n, const Vec &e, int twice)
{
    int w = sym::choose(n + " where", 0, 5), last = (int)e.size() - 1;
    switch (w)
    {
    case 0: return e[0];
    case 1: return e[last];
    case 2: return e[twice >= 0 ? twice : last / 2];
    }
    double x = sym::real(n, 0.25, 160.0);
    if (w == 3) sym::assume(sym::lt(x, e[0]));
    else if (w == 4) sym::assume(sym::lt(e[last], x));
    else
    {
        int k = sym::choose(n + " interval", 0, 2);
        int i = k == 0 ? 0 : k == 1 ? last - 1 : twice >= 0 ? twice + 1 : last / 2;
        if (i >= last || (k > 0 && i == 0)) sym::assume(false);
        sym::assume(sym::lt(e[i], x) && sym::lt(x, e[i + 1]));
    }
    return x;
}
// the answer to the first query ever, and to the same query after others
HARNESS(again)
{
    background(0);
    int n = size("rows"), twice = sym::choose("edge twice", 0, 1) ? n / 2 - 1 : -1;
    sym::assume(n > 2 || twice < 0);
    Vec e = fill(26, n, twice, true), f = fill(50, size("rows of the other"), -1, false);
    EPDL97 lib("fake");
    double x = energy("x", e, twice);
    Map first = lib.getMassAttenuationCoefficients(26, x);
    double y = sym::real("other energy", 0.25, 160.0);
    int other = sym::choose("other", 0, 1);
    int kind = sym::choose("kind", 0, 1);
    if (kind == 0) lib.getMassAttenuationCoefficients(other ? 50 : 26, y);
    else lib.getPhotoelectricWeights(other ? 50 : 26, y);
    same("asked again", first, lib.getMassAttenuationCoefficients(26, x));
}
// the same after two other queries at chosen places; a second library does not matter either
HARNESS(twice)
{
    background(0);
    int n = size("rows"), edge = n > 2 ? n / 2 - 1 : -1;
    Vec e = fill(26, n, edge, false), f = fill(50, size("rows of the other"), -1, false);
    EPDL97 lib("fake");
    double x = energy("x", e, edge);
    int swap = sym::choose("order", 0, 1);
    if (swap == 0) lib.getMassAttenuationCoefficients(26, energy("y", e, edge));
    lib.getMassAttenuationCoefficients(50, energy("z", f, -1));
    if (swap == 1) lib.getMassAttenuationCoefficients(26, energy("y", e, edge));
    Map first = lib.getMassAttenuationCoefficients(26, x);
    Map w = lib.getPhotoelectricWeights(26, x);
    EPDL97 second("fake");
    second.getMassAttenuationCoefficients(50, f[f.size() - 1] + 0.5);
    same("asked again", first, lib.getMassAttenuationCoefficients(26, x));
    same("asked of another library", first, second.getMassAttenuationCoefficients(26, x));
    same("weights asked again", w, lib.getPhotoelectricWeights(26, x));
}
// lists of energies give what the single energies give
HARNESS(lists)
{
    background(0);
    int n = size("rows"), edge = n > 2 ? n / 2 - 1 : -1;
    Vec e = fill(26, n, edge, true), q;
    EPDL97 lib("fake");
    q.push_back(energy("x", e, edge)); q.push_back(energy("y", e, edge));
    int later = sym::choose("list first", 0, 1);
    VMap all, weights;
    if (later) { all = lib.getMassAttenuationCoefficients(26, q); weights = lib.getPhotoelectricWeights(26, q); }
    Map a[2], w[2];
    for (int i = 0; i < 2; i++) { a[i] = lib.getMassAttenuationCoefficients(26, q[i]); w[i] = lib.getPhotoelectricWeights(26, q[i]); }
    if (!later) { all = lib.getMassAttenuationCoefficients(26, q); weights = lib.getPhotoelectricWeights(26, q); }
    sym::check("same keys", all.size() == a[0].size() && weights.size() == w[0].size());
    for (int i = 0; i < 2; i++)
    {
        for (Map::const_iterator k = a[i].begin(); k != a[i].end(); ++k) sym::check_eq("in a list as alone", get(all, k->first, i), k->second, 1e-6);
        for (Map::const_iterator k = w[i].begin(); k != w[i].end(); ++k) sym::check_eq("weights in a list as alone", get(weights, k->first, i), k->second, 1e-6);
    }
    sym::check("empty list", lib.getMassAttenuationCoefficients(26, Vec()).empty() && lib.getPhotoelectricWeights(26, Vec()).empty());
}
