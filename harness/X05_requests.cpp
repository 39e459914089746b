// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @replace fisx_math.cpp fisx::Math::deBoerL0\(
// @replace fisx_math.cpp fisx::Math::deBoerX\(
// @stub SimpleSpecfile (data files) is served from memory
// @stub Math::deBoerL0 and deBoerX are arbitrary non-negative functions of their arguments (M02 decides how they are built); natively the real ones run
// @bounds lists of 1 to 3 requests over 2 elements, families K, Ka, Kb and one line, all layers or one of 2, repeated and overlapping requests; 1 or 2 beam energies, orders 0 and 1 (order 2 is documented to depend on the peaks asked for); histories of up to 3 calculations; coefficients in [1e-4, 1000], densities in [0.5, 5], thicknesses in [1e-5, 5e-4], weights and angles in [5, 85]/[5, 175] but not 90 degrees symbolic
#include "xrf_util.h"
#include "deboer_util.h"
using namespace fisx;
using namespace xu;
struct Req { std::string e, f; int layer; };
static Req req(const char *e, const char *f, int l) { Req r; r.e = e; r.f = f; r.layer = l; return r; }
struct Setup { XRF x; Elements *L; Vec e, w; };
static Setup setup(int rays, int order)
{
    Setup s;
    s.L = library(3, "Fe Ti Si");
    std::vector<Layer> y;
    for (int i = 0; i < 2; i++)
    {
        // thin enough for nothing to be neglected (X04 decides what thick layers do)
        std::string id = "s" + std::to_string(i);
        double rho = sym::real(id + ".density", 0.5, 5.0), t = sym::real(id + ".thickness", 1e-5, 5e-4);
        y.push_back(Layer(i ? "Fe" : id, rho, t, 1.0));
        if (i == 0) y[0].setMaterial(mixture(id, "Ti Fe", id, true));
    }
    double in = sym::real("alphaIn", 5.0, 85.0), out = sym::real("alphaOut", 5.0, 175.0);
    sym::assume(!sym::eq(out, 90.0)); sym::assume(!sym::eq(in, 90.0));
    s.e.push_back(rays > 1 ? 6.5 : 10.0); s.w.push_back(1.0);
    if (rays > 1) { s.e.push_back(20.0); s.w[0] = sym::real("weight0", 0.01, 1.0); s.w.push_back(sym::real("weight1", 0.01, 1.0)); }
    // the integrals are singular where the beam and a line are absorbed alike; the code steps aside there
    if (order) for (size_t i = 0; i < y.size(); i++)
    {
        static const double lines[] = {4.5, 4.875, 6.25, 6.5, 6.9375};
        for (int k = 0; k < 5; k++) for (size_t j = 0; j < s.e.size(); j++) if (s.e[j] != lines[k])
            sym::assume(!sym::eq(mu(*s.L, y[i], s.e[j]) / sin(in * PI / 180.0), mu(*s.L, y[i], lines[k])));
    }
    s.x.setBeam(s.e, s.w);
    s.x.setSample(y, 0);
    s.x.setGeometry(in, out);
    return s;
}
static Result ask(Setup &s, const std::vector<Req> &q, int order, bool fractions = false)
{
    std::vector<std::string> e, f; std::vector<int> l;
    for (size_t i = 0; i < q.size(); i++) { e.push_back(q[i].e); f.push_back(q[i].f); l.push_back(q[i].layer); }
    return s.x.getMultilayerFluorescence(e, *s.L, l, f, order, 0, fractions);
}
static void same(const std::string &what, Lines a, Lines b)
{
    sym::check(what + ": lines", a.size() == b.size());
    for (Lines::iterator l = a.begin(); l != a.end(); ++l)
    {
        sym::check(what + ": line", b.count(l->first) == 1 && b[l->first].size() == l->second.size());
        for (Map::iterator c = l->second.begin(); c != l->second.end(); ++c) sym::check_eq(what + ": value", get(b[l->first], c->first), c->second);
    }
}
static void same(const std::string &what, Result a, Result b)
{
    sym::check(what + ": keys", a.size() == b.size());
    for (Result::iterator k = a.begin(); k != a.end(); ++k)
    {
        sym::check(what + ": key", b.count(k->first) == 1);
        sym::check(what + ": layers", b[k->first].size() == k->second.size());
        for (std::map<int, Lines>::iterator y = k->second.begin(); y != k->second.end(); ++y)
        {
            sym::check(what + ": layer", b[k->first].count(y->first) == 1);
            same(what, y->second, b[k->first][y->first]);
        }
    }
}
// what the requests give, each asked alone, put together
static Result alone(Setup &s, const std::vector<Req> &q, int order)
{
    Result r;
    for (size_t i = 0; i < q.size(); i++)
    {
        Result one = ask(s, std::vector<Req>(1, q[i]), order);
        for (Result::iterator k = one.begin(); k != one.end(); ++k)
            for (std::map<int, Lines>::iterator y = k->second.begin(); y != k->second.end(); ++y) r[k->first][y->first] = y->second;
    }
    return r;
}
static std::vector<Req> list(int k)
{
    std::vector<Req> q;
    switch (k)
    {
    case 0: q.push_back(req("Ti", "K", 0)); q.push_back(req("Fe", "K", 1)); break;
    case 1: q.push_back(req("Fe", "K", -1)); q.push_back(req("Ti", "Ka", -1)); break;
    case 2: q.push_back(req("Fe", "Ka", 0)); q.push_back(req("Fe", "Kb", 0)); q.push_back(req("Fe", "K", 0)); break;
    case 3: q.push_back(req("Fe", "K", 0)); q.push_back(req("Fe", "K", 1)); break;
    case 4: q.push_back(req("Fe", "KL3", 0)); q.push_back(req("Fe", "KL3", 0)); break;
    case 5: q.push_back(req("Fe", "Ka", -1)); q.push_back(req("Fe", "Ka", 1)); break;
    case 6: q.push_back(req("Fe", "Ka", 1)); q.push_back(req("Ti", "KL3", 0)); q.push_back(req("Fe", "Ka", -1)); break;
    case 7: q.push_back(req("Fe", "L", 0)); q.push_back(req("Ti", "KM3", -1)); q.push_back(req("Fe", "M", 1)); break;
    }
    return q;
}
HARNESS(together)
{
    int order = sym::choose("order", 0, 1), rays = sym::choose("rays", 1, 2);
    std::vector<Req> q = list(sym::choose("requests", 0, 7));
    if (sym::choose("reversed", 0, 1)) std::reverse(q.begin(), q.end());
    Setup s = setup(rays, order);
    same("together", alone(s, q, order), ask(s, q, order));
}
HARNESS(layers)
{
    // all layers at once are the layers one by one; one layer given for several requests
    int order = sym::choose("order", 0, 1);
    Setup s = setup(1, order);
    std::vector<Req> q;
    q.push_back(req("Fe", "KL3", -1));
    Result all = ask(s, q, order), one;
    for (int i = 0; i < 2; i++) { q[0].layer = i; one["Fe KL3"][i] = ask(s, q, order)["Fe KL3"][i]; }
    same("layers", one, all);
    std::vector<std::string> e = names("Fe Ti"), f = names("Ka KL3");
    int at = sym::choose("layer", -1, 1);
    Result b = s.x.getMultilayerFluorescence(e, *s.L, std::vector<int>(1, at), f, order, 0, 0);
    q.clear(); q.push_back(req("Fe", "Ka", at)); q.push_back(req("Ti", "KL3", at));
    same("one layer for all", ask(s, q, order), b);
}
HARNESS(forms)
{
    // the other ways to ask give the same
    Setup s = setup(1, 0);
    int k = sym::choose("form", 0, 3);
    std::vector<Req> q;
    if (k == 0)
    {
        q.push_back(req("Fe", "Ka", 1)); q.push_back(req("Ti", "K", -1));
        std::vector<std::string> t; t.push_back("Fe Ka 1"); t.push_back("Ti K");
        same("text", ask(s, q, 0), s.x.getMultilayerFluorescence(t, *s.L));
    }
    else if (k == 1)
    {
        q.push_back(req("Fe", "K", 1));
        same("one", ask(s, q, 0), s.x.getMultilayerFluorescence("Fe", *s.L, 1, std::string("K"), 0, 0, 0));
    }
    else if (k == 2)
    {
        sym::check("no layer", sym::outcome([&] { s.x.getMultilayerFluorescence("Fe", *s.L, -1, std::string("K"), 0, 0, 0); }) == 1);
        sym::check("no family", sym::outcome([&] { s.x.getMultilayerFluorescence("Fe", *s.L, 0, std::string(""), 0, 0, 0); }) == 1);
    }
    else
    {
        std::vector<std::string> t; t.push_back("Fe Ka x");
        sym::check("not a layer", sym::outcome([&] { s.x.getMultilayerFluorescence(t, *s.L); }) == 1);
    }
}
HARNESS(history)
{
    // other calculations in between change nothing
    int order = sym::choose("order", 0, 1);
    Setup s = setup(1, order);
    Layer d = layer("Si", "d", false);
    s.x.setDetector(Detector("Si", d.getDensity(), d.getThickness(), 1.0));
    std::vector<Req> q;
    q.push_back(req("Ti", "KL3", 0)); q.push_back(req("Fe", "Ka", 1));
    Result first = ask(s, q, order);
    Beam b; b.setSingleEnergyBeam(20.0);
    double in = s.x.getConfiguration().getAlphaIn(), out = s.x.getConfiguration().getAlphaOut();
    for (int k = 0; k < 2; k++)
        switch (sym::choose("meanwhile" + std::to_string(k), 0, 4))
        {
        case 0: ask(s, list(0), 0, true); break;
        case 1: s.x.getMultilayerFluorescence("Fe", *s.L, 1, std::string("Kb"), 0, 1, 0, 0.0, b); break;
        case 2: { XRF o; o.setBeam(s.e, s.w); o.setSample("Ti", 1.0, 0.5); o.getMultilayerFluorescence("Ti", *s.L, 0, std::string("KL3"), 1, 0, 0); break; }
        case 3: { Vec e = s.e, w = s.w; e[0] = 20.0; s.x.setBeam(e, w); s.x.setGeometry(out, in); ask(s, list(4), 0);
                  s.x.setBeam(s.e, s.w); s.x.setGeometry(in, out); break; }
        default: break;
        }
    Result again = ask(s, q, order);
    same("again", first, again);
}
HARNESS(mass_fractions)
{
    int order = sym::choose("order", 0, 1), at = sym::choose("layer", 0, 1);
    Setup s = setup(1, order);
    std::string e = sym::choose("element", 0, 1) ? "Ti" : "Fe";
    Result a = s.x.getMultilayerFluorescence(e, *s.L, at, std::string("KL3"), order, 0, 0), b = s.x.getMultilayerFluorescence(e, *s.L, at, std::string("KL3"), order, 0, 1);
    double f = at == 1 ? (e == "Fe" ? 1.0 : 0.0) : e == "Ti" ? 0.25 : 0.75;
    Lines p = a[e + " KL3"][at], m = b[e + " KL3"][at];
    sym::check("plain line", p.size() == 1);
    if (f == 0.0) { sym::check("none in the layer", m.size() == 0); return; }
    sym::check("lines", m.size() == 1);
    static const char *K[] = {"efficiency", "energy", "energy_threshold", "mu_1_i", "massFraction"};
    for (Map::iterator c = p["KL3"].begin(); c != p["KL3"].end(); ++c)
    {
        bool fixed = false;
        for (int i = 0; i < 5; i++) if (c->first == K[i]) fixed = true;
        sym::check_eq(fixed ? "not scaled: " + c->first : "scaled", get(m["KL3"], c->first), fixed ? c->second : c->second * f);
    }
    sym::check_eq("mass fraction", get(m["KL3"], "massFraction"), f);
}
