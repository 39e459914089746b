// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @replace fisx_math.cpp fisx::Math::deBoerL0\(
// @replace fisx_math.cpp fisx::Math::deBoerX\(
// @stub SimpleSpecfile (data files) is served from memory
// @stub Math::deBoerL0 and deBoerX are arbitrary non-negative functions of their arguments (M02 decides how they are built); natively the real ones run
// @bounds 1 to 3 sample layers of 3 elements (pure or mixed), 1 or 2 beam energies, orders 0, 1 and 2, with and without an escape detector, plain and mass-fraction mode; all coefficients in [1e-4, 1000], densities, thicknesses, fractions, weights and angles in [5, 85]/[5, 175] degrees symbolic; edges and line energies fixed; contributions from layers that get less than 1e-2 of the receiving layer's beam, or through layers that let out less than 0.01, may be left out
#include "xrf_util.h"
#include "deboer_util.h"
using namespace fisx;
using namespace xu;
struct Setup { XRF x; std::vector<Layer> sample; double in, out, e0, w; };
static Setup setup(const Elements &L, const char *const *what, int n, int rays, const double &maxIn, bool avoid = true)
{
    Setup s;
    for (int i = 0; i < n; i++) s.sample.push_back(layer(what[i], "s" + std::to_string(i), false, true));
    s.in = sym::real("alphaIn", 5.0, maxIn); s.out = sym::real("alphaOut", 5.0, 175.0);
    s.e0 = 10.0; s.w = 1.0;
    Vec e, w; e.push_back(10.0); w.push_back(1.0);
    if (rays > 1) { e.push_back(20.0); w[0] = sym::real("weight0", 0.01, 1.0); w.push_back(sym::real("weight1", 0.01, 1.0)); }
    // the integrals are singular where the beam and a line are absorbed alike; the code steps aside there
    if (avoid) for (int i = 0; i < n; i++)
    {
        static const double lines[] = {6.25, 6.5, 6.9375};
        for (int k = 0; k < 3; k++) for (int j = 0; j < rays; j++) sym::assume(!sym::eq(mu(L, s.sample[i], e[j]) / sin(s.in * PI / 180.0), mu(L, s.sample[i], lines[k])));
    }
    s.x.setBeam(e, w);
    s.x.setSample(s.sample, 0);
    s.x.setGeometry(s.in, s.out);
    return s;
}
static bool own(const std::string &k)
{
    static const char *K[] = {"efficiency", "energy", "energy_threshold", "mu_1_i", "rate", "primary", "secondary", "tertiary", "massFraction", "ratio"};
    for (int i = 0; i < 10; i++) if (k == K[i]) return true;
    return false;
}
static bool escape(const std::string &l) { return l.find("esc") != std::string::npos; }
static double deboer(const Elements &L, Setup &s, int i, int j, const double &e, const double &el)
{
    // integral for the line of energy el in layer i excited by photons of energy e made in layer j
    double sinIn = sin(s.in * PI / 180.0), sinOut = sin(s.out * PI / 180.0);
    Layer &a = s.sample[i], &b = s.sample[j];
    if (i == j)
    {
        double p = mu(L, a, s.e0) / sinIn, q = mu(L, a, el) / sinOut, m = mu(L, a, e);
        return Math::deBoerL0(p, q, m, a.getDensity(), a.getThickness()) + Math::deBoerL0(q, p, m, a.getDensity(), a.getThickness());
    }
    double between = 0.0;
    for (int k = std::min(i, j) + 1; k < std::max(i, j); k++) between += mu(L, s.sample[k], e) * rhot(s.sample[k]);
    double p = mu(L, b, s.e0) / sinIn, q = mu(L, a, el) / sinOut, f;
    if (i < j) f = exp(-mu(L, a, el) * rhot(a) / sinOut);
    else { f = exp(-mu(L, b, s.e0) * rhot(b) / sinIn); p = -p; q = -q; }
    return f * Math::deBoerX(p, q, rhot(a), rhot(b), mu(L, a, e), mu(L, b, e), between);
}
static bool weak(const Elements &L, Setup &s, int i, int j, const double &el)
{
    // may this source be neglected?
    if (i == j) return false;
    double sinIn = sin(s.in * PI / 180.0), sinOut = sin(s.out * PI / 180.0), d = 0.0, ai = 0.0;
    for (int k = 0; k < i; k++) ai += mu(L, s.sample[k], s.e0) * rhot(s.sample[k]) / sinIn;
    for (int k = i; k < j; k++) d += mu(L, s.sample[k], s.e0) * rhot(s.sample[k]) / sinIn;
    if (i < j)
    {
        if (!sym::holds(sym::lt(d, 4.6))) return true;
        sym::lemma(sym::lt(0.01 * exp(-ai), exp(-(ai + d))), "exp(-(a+d)) > 0.01 exp(-a) for d < 4.6");
        double o = mu(L, s.sample[i], el) * rhot(s.sample[i]) / sinOut;
        if (!sym::holds(sym::lt(o, 4.6))) return true;
        sym::lemma(sym::lt(0.01, exp(-o)), "exp(-o) > 0.01 for o < 4.6");
    }
    return false;
}
// the books of one line
static void balance(const std::string &what, Lines &l, const std::string &name, const double &threshold, int layers, bool tertiary)
{
    Map &g = l[name];
    double sum = 0.0, esc = 0.0;
    for (Map::iterator c = g.begin(); c != g.end(); ++c) if (!own(c->first))
    {
        sym::check_le(what + ": contribution not negative", 0.0, c->second);
        sum += c->second;
    }
    for (Lines::iterator o = l.begin(); o != l.end(); ++o)
        if (escape(o->first) && o->first.compare(0, name.size() + 1, name + " ") == 0) esc += get(o->second, "ratio");
    double total = get(g, "primary") + get(g, "secondary");
    if (tertiary)
    {
        sym::check_le(what + ": tertiary not negative", 0.0, get(g, "tertiary"));
        total += get(g, "tertiary");
    }
    sym::check_eq(what + ": secondary is the sum of its contributions", get(g, "secondary"), sum);
    sym::check_eq(what + ": rate", get(g, "rate"), get(g, "efficiency") * total * (1.0 - esc));
}
// which sources reach the line and with how much (one ray)
static void sources(const std::string &what, const Elements &L, Setup &s, Map &g, const std::string &ele, const std::string &line, int i, bool fractions)
{
    double sinIn = sin(s.in * PI / 180.0), threshold = spec(ele).K, el = get(g, "energy");
    double n = fractions ? fraction(L, s.sample[i], ele) : double(1.0);
    size_t seen = 0;
    for (int j = 0; j < (int) s.sample.size(); j++)
    {
        double above = 0.0;
        for (int k = 0; k < j; k++) above += mu(L, s.sample[k], s.e0) * rhot(s.sample[k]) / sinIn;
        std::map<std::string, std::pair<double, double> > src;   // name -> energy, photons made per beam photon and mass
        Map comp = s.sample[j].getComposition(L);
        for (Map::iterator c = comp.begin(); c != comp.end(); ++c)
        {
            Lines f = L.getExcitationFactors(c->first, s.e0, 1.0);
            for (Lines::iterator l = f.begin(); l != f.end(); ++l)
                src[c->first + " " + l->first] = std::make_pair(get(l->second, "energy"), get(l->second, "rate") * c->second);
        }
        src["coherent scattering"] = std::make_pair(s.e0, get(L.getMassAttenuationCoefficients(comp, s.e0), "coherent"));
        for (std::map<std::string, std::pair<double, double> >::iterator q = src.begin(); q != src.end(); ++q)
        {
            std::string key = q->first + " " + (j < 10 ? "0" : "") + std::to_string(j);
            if (q->second.first < threshold) { sym::check(what + ": too soft a line", g.find(key) == g.end()); continue; }
            if (g.find(key) == g.end()) { sym::check(what + ": source listed", weak(L, s, i, j, el)); continue; }
            seen++;
            double rate = get(L.getExcitationFactors(ele, q->second.first, 1.0)[line], "rate");
            double want = deboer(L, s, i, j, q->second.first, el) * 0.5 / sinIn * n * rate * (q->second.second * s.w * exp(-above));
            sym::check_eq(what + ": contribution", get(g, key), want);
        }
    }
    size_t listed = 0;
    for (Map::iterator c = g.begin(); c != g.end(); ++c) if (!own(c->first)) listed++;
    sym::check(what + ": nothing else listed", listed == seen);
}
static void same(const std::string &what, Lines &a, Lines &b, bool higher)
{
    // b has everything a has; higher: b may add a tertiary part and a rate that includes it
    sym::check(what + ": lines", a.size() == b.size());
    for (Lines::iterator l = a.begin(); l != a.end(); ++l)
        for (Map::iterator c = l->second.begin(); c != l->second.end(); ++c)
            if (!(higher && c->first == "rate"))
            {
                sym::check(what + ": kept", b[l->first].count(c->first) == 1);
                sym::check_eq(what + ": " + (own(c->first) ? c->first : "contribution"), get(b[l->first], c->first), c->second);
            }
}
HARNESS(within_layer)
{
    Elements &L = *library(3, "Fe Ti Si");
    const char *M[] = {"Ti Fe"};
    Setup s = setup(L, M, 1, 1, 85.0);
    bool fr = sym::choose("mass fractions", 0, 1) != 0;
    std::string ele = sym::choose("element", 0, 1) ? "Fe" : "Ti", line = sym::choose("line", 0, 1) ? "KM3" : "KL3";
    Lines r = s.x.getMultilayerFluorescence(ele, L, 0, line, 1, 0, fr)[ele + " " + line][0];
    sym::check("line", r.size() == 1 && r.count(line) == 1);
    sources("within", L, s, r[line], ele, line, 0, fr);
    balance("within", r, line, spec(ele).K, 1, false);
}
HARNESS(between_layers)
{
    Elements &L = *library(3, "Fe Ti Si");
    const char *M[][3] = {{"Ti", "Fe", ""}, {"Fe", "Ti", ""}, {"Ti", "Si", "Fe"}, {"Fe", "Si", "Ti"}, {"Fe", "Ti", "Fe"}};
    int n[] = {2, 2, 3, 3, 3}, at[] = {0, 1, 0, 2, 1};
    int k = sym::choose("sample", 0, 4);
    Setup s = setup(L, M[k], n[k], 1, 85.0);
    int i = at[k];
    Lines r = s.x.getMultilayerFluorescence("Ti", L, i, std::string("KL3"), 1, 0, 0)["Ti KL3"][i];
    sym::check("line", r.size() == 1 && r.count("KL3") == 1);
    sources("between", L, s, r["KL3"], "Ti", "KL3", i, false);
    balance("between", r, "KL3", 5.0, n[k], false);
}
HARNESS(orders)
{
    // 0 <= 1 <= 2: lower orders are unchanged; the books balance in each
    Elements &L = *library(3, "Fe Ti Si");
    const char *M[][2] = {{"Ti Fe", ""}, {"Ti", "Fe"}, {"Fe", "Ti"}};
    int k = sym::choose("sample", 0, 2), n = k ? 2 : 1;
    Setup s = setup(L, M[k], n, 1, 90.0);
    int i = k == 2 ? 1 : 0;
    Names req = names("Ti Fe");
    std::vector<std::string> e, f; std::vector<int> at;
    e.push_back("Ti"); f.push_back("KL3"); at.push_back(i);
    e.push_back("Fe"); f.push_back("KL3"); at.push_back(n - 1 - i);
    Result r[3];
    for (int o = 0; o < 3; o++) r[o] = s.x.getMultilayerFluorescence(e, L, at, f, o, 0, 0);
    for (int q = 0; q < 2; q++)
    {
        std::string key = e[q] + " KL3";
        for (int o = 0; o < 3; o++)
        {
            sym::check("the layer asked for", r[o][key].size() == 1 && r[o][key].count(at[q]) == 1);
            balance("order", r[o][key][at[q]], "KL3", spec(e[q]).K, n, o == 2);
        }
        Lines a = r[0][key][at[q]], b = r[1][key][at[q]], c = r[2][key][at[q]];
        sym::check_eq("order 0: no secondary", get(a["KL3"], "secondary"), 0.0);
        sym::check_eq("primary unchanged", get(b["KL3"], "primary"), get(a["KL3"], "primary"));
        sym::check_eq("efficiency unchanged", get(b["KL3"], "efficiency"), get(a["KL3"], "efficiency"));
        same("order 2", b, c, true);
    }
}
HARNESS(with_escape)
{
    // escape peaks take their part of the total of a line
    Elements &L = *library(3, "Fe Si");
    L.addElement(element("Ti", 0));
    const char *M[] = {"Fe"};
    Setup s = setup(L, M, 1, 1, 85.0);
    Layer d = layer("Ti", "d", false);
    s.x.setDetector(Detector("Ti", d.getDensity(), d.getThickness(), 1.0));
    int order = sym::choose("order", 1, 2);
    Lines r = s.x.getMultilayerFluorescence("Fe", L, 0, std::string("KL3"), order, 0, 0)["Fe KL3"][0];
    balance("escape", r, "KL3", 7.0, 1, order == 2);
    for (Lines::iterator l = r.begin(); l != r.end(); ++l) if (escape(l->first))
    {
        double q = get(l->second, "ratio"), total = get(r["KL3"], "primary") + get(r["KL3"], "secondary");
        if (order == 2) total += get(r["KL3"], "tertiary");
        sym::check_eq("escape rate", get(l->second, "rate"), q * get(r["KL3"], "efficiency") * total);
        sym::check_eq("escape secondary", get(l->second, "secondary"), q * get(r["KL3"], "secondary"));
    }
}
HARNESS(rays)
{
    // the secondary intensity and each contribution add over the rays
    Elements &L = *library(3, "Fe Ti Si");
    const char *M[][2] = {{"Ti Fe", ""}, {"Ti", "Fe"}, {"Fe", "Ti"}};
    int k = sym::choose("sample", 0, 2), n = k ? 2 : 1, i = k == 2 ? 1 : 0;
    Setup s = setup(L, M[k], n, 2, 85.0);
    std::vector<std::vector<double> > beam = s.x.getConfiguration().getBeam().getBeamAsDoubleVectors();
    Lines all = s.x.getMultilayerFluorescence("Ti", L, i, std::string("KL3"), 1, 0, 0)["Ti KL3"][i];
    balance("rays", all, "KL3", 5.0, n, false);
    Map want;
    for (int q = 0; q < 2; q++)
    {
        Beam b; b.setSingleEnergyBeam(beam[0][q]);
        Lines one = s.x.getMultilayerFluorescence("Ti", L, i, std::string("KL3"), 1, 0, 0, 0.0, b)["Ti KL3"][i];
        for (Map::iterator c = one["KL3"].begin(); c != one["KL3"].end(); ++c)
            if (!own(c->first) || c->first == "secondary" || c->first == "primary") want[c->first] += c->second * beam[1][q];
    }
    for (Map::iterator c = want.begin(); c != want.end(); ++c) sym::check_eq("sum of rays: " + (own(c->first) ? c->first : "contribution"), get(all["KL3"], c->first), c->second);
}
