// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @replace fisx_math.cpp fisx::Math::deBoerL0\(
// @replace fisx_math.cpp fisx::Math::deBoerX\(
// @stub SimpleSpecfile (data files) is served from memory
// @stub Math::deBoerL0 and deBoerX are arbitrary non-negative functions of their arguments (M02 decides how they are built); natively the real ones run
// @bounds histories of up to 4 settings of beam, filters, user tables, sample (0 to 3 layers, reference layer -2 to 4), attenuators, detector and geometry; every number symbolic (angles in [1, 90]/[1, 179], scattering angle in [-90, 180]); user tables of 9 points on one path at a time, orders 0 and 1, coefficients in [1e-4, 1000]
#include "xrf_util.h"
#include "deboer_util.h"
using namespace fisx;
using namespace xu;
struct Want
{
    Vec e, w; std::vector<Layer> filters, sample, attenuators; std::vector<TransmissionTable> uf, ua; Detector det; double in, out, scatter; int ref;
};
static TransmissionTable table(const std::string &id)
{
    Vec e = grid(), t;
    for (size_t i = 0; i < e.size(); i++) t.push_back(sym::real(id + std::to_string(i), 1e-3, 1.0));
    TransmissionTable r; r.setTransmissionTable(e, t, id, "");
    return r;
}
static Layer some(const std::string &id)
{
    double rho = sym::real(id + ".density", 0.05, 20.0), t = sym::real(id + ".thickness", 1e-4, 1.0), f = sym::real(id + ".covered", 0.0, 1.0);
    return Layer("Si", rho, t, f);
}
static void same(const std::string &what, const Layer &a, const Layer &b)
{
    sym::check(what + " name", a.getName() == b.getName() && a.getMaterialName() == b.getMaterialName() && a.hasMaterialComposition() == b.hasMaterialComposition());
    sym::check_eq(what + " density", a.getDensity(), b.getDensity());
    sym::check_eq(what + " thickness", a.getThickness(), b.getThickness());
    sym::check_eq(what + " covered fraction", a.getFunnyFactor(), b.getFunnyFactor());
    if (a.hasMaterialComposition())
    {
        Map x = a.getMaterial().getComposition(), y = b.getMaterial().getComposition();
        sym::check(what + " composition", x.size() == y.size());
        for (Map::iterator i = x.begin(); i != x.end(); ++i) sym::check_eq(what + " share", get(y, i->first), i->second);
    }
}
static void same(const std::string &what, const std::vector<Layer> &a, const std::vector<Layer> &b)
{
    sym::check(what + " count", a.size() == b.size());
    for (size_t i = 0; i < a.size() && i < b.size(); i++) same(what, a[i], b[i]);
}
static void same(const std::string &what, const std::vector<TransmissionTable> &a, const std::vector<TransmissionTable> &b)
{
    sym::check(what + " count", a.size() == b.size());
    Vec g = grid();
    for (size_t i = 0; i < a.size() && i < b.size(); i++) for (size_t k = 0; k < g.size(); k++) sym::check_eq(what + " value", a[i].getTransmission(g[k]), b[i].getTransmission(g[k]));
}
static void compare(const XRF &x, const Want &w)
{
    const XRFConfig &c = x.getConfiguration();
    std::vector<std::vector<double> > b = c.getBeam().getBeamAsDoubleVectors();
    double sum = 0.0;
    for (size_t i = 0; i < w.w.size(); i++) sum += w.w[i];
    sym::check("rays", b[0].size() == w.e.size());
    for (size_t i = 0; i < w.e.size() && i < b[0].size(); i++)
    {
        sym::check_eq("ray energy", b[0][i], w.e[i]);
        sym::check_eq("ray weight", b[1][i] * sum, w.w[i]);
    }
    same("filter", c.getBeamFilters(), w.filters);
    same("sample", c.getSample(), w.sample);
    same("attenuator", c.getAttenuators(), w.attenuators);
    same("user filter", c.getUserBeamFilters(), w.uf);
    same("user attenuator", c.getUserAttenuators(), w.ua);
    same("detector", c.getDetector(), w.det);
    sym::check_eq("detector diameter", c.getDetector().getDiameter(), w.det.getDiameter());
    sym::check_eq("detector distance", c.getDetector().getDistance(), w.det.getDistance());
    sym::check_eq("alpha in", c.getAlphaIn(), w.in);
    sym::check_eq("alpha out", c.getAlphaOut(), w.out);
    sym::check_eq("scattering angle", c.getScatteringAngle(), w.scatter);
    if (w.sample.size()) sym::check("reference layer", c.getReferenceLayer() == w.ref);
}
static void set(XRF &x, Want &w, int what, const std::string &id)
{
    int n = 1;
    switch (what)
    {
    case 0: // beam
        w.e.clear(); w.w.clear();
        w.e.push_back(sym::real(id + ".e0", 1.0, 10.0)); w.w.push_back(sym::real(id + ".w0", 0.01, 1.0));
        if (sym::choose(id + ".rays", 1, 2) == 2) { w.e.push_back(sym::real(id + ".e1", 11.0, 20.0)); w.w.push_back(sym::real(id + ".w1", 0.01, 1.0)); x.setBeam(w.e, w.w); }
        else { w.w[0] = 1.0; x.setSingleEnergyBeam(w.e[0], 0.0); }
        break;
    case 1:
        w.filters.clear();
        n = sym::choose(id + ".count", 0, 2);
        for (int i = 0; i < n; i++) w.filters.push_back(some(id + "." + std::to_string(i)));
        x.setBeamFilters(w.filters);
        break;
    case 2:
        w.attenuators.clear();
        n = sym::choose(id + ".count", 0, 2);
        for (int i = 0; i < n; i++) w.attenuators.push_back(some(id + "." + std::to_string(i)));
        x.setAttenuators(w.attenuators);
        break;
    case 3: w.uf.assign(1, table(id)); x.setUserBeamFilters(w.uf); break;
    case 4: w.ua.assign(1, table(id)); x.setUserAttenuators(w.ua); break;
    case 5:
    {
        Layer d = some(id);
        w.det = Detector("Si", d.getDensity(), d.getThickness(), d.getFunnyFactor());
        w.det.setDiameter(sym::real(id + ".diameter", 0.1, 10.0)); w.det.setDistance(sym::real(id + ".distance", 0.1, 10.0));
        x.setDetector(w.det);
        break;
    }
    case 6:
        w.in = sym::real(id + ".in", 1.0, 90.0); w.out = sym::real(id + ".out", 1.0, 179.0);
        switch (sym::choose(id + ".scatter", 0, 2))
        {
        case 0: x.setGeometry(w.in, w.out); w.scatter = w.in + w.out; break;
        case 1: { double s = sym::real(id + ".angle", 0.0, 180.0); x.setGeometry(w.in, w.out, s); w.scatter = s; break; }
        default: { double s = sym::real(id + ".below", -90.0, -0.5); x.setGeometry(w.in, w.out, s); w.scatter = w.in + w.out; }
        }
        break;
    case 7:
    {
        n = sym::choose(id + ".layers", 0, 3);
        std::vector<Layer> y;
        for (int i = 0; i < n; i++)
        {
            y.push_back(some(id + "." + std::to_string(i)));
            if (i == 1) y[1].setMaterial(mixture("mix", "Fe Si", id + ".mix"));
        }
        int ref = sym::choose(id + ".reference", -2, 4);
        int r = sym::outcome([&] { x.setSample(y, ref); });
        bool good = ref >= 0 && ref < n;
        sym::check("sample accepted or refused", good ? r == 0 : r == 1);
        if (good) { w.sample = y; w.ref = ref; }
        break;
    }
    case 8:
    {
        Layer y = some(id);
        if (sym::choose(id + ".by name", 0, 1)) { x.setSample("Si", y.getDensity(), y.getThickness()); w.sample.assign(1, Layer("Si", y.getDensity(), y.getThickness(), 1.0)); }
        else { x.setSample(y); w.sample.assign(1, y); }
        w.ref = 0;
        break;
    }
    }
}
static Want initial(XRF &x)
{
    Want w; w.in = w.out = 45.0; w.scatter = 90.0; w.ref = 0;
    return w;
}
HARNESS(stored)
{
    // two settings of any kind, the whole configuration compared
    XRF x; Want w = initial(x);
    compare(x, w);
    for (int k = 0; k < 2; k++) set(x, w, sym::choose("what" + std::to_string(k), 0, 8), "s" + std::to_string(k));
    compare(x, w);
}
HARNESS(samples)
{
    // a refused sample leaves the one before, and the rest, alone
    XRF x; Want w = initial(x);
    set(x, w, 6, "g"); set(x, w, 5, "d");
    for (int k = 0; k < 2; k++) set(x, w, 7, "s" + std::to_string(k));
    compare(x, w);
}
HARNESS(everything)
{
    XRF x; Want w = initial(x);
    for (int k = 0; k < 9; k++) if (k != 1 && k != 7) set(x, w, k, "a" + std::to_string(k));
    int again = sym::choose("again", 0, 6);
    if (again != 1) set(x, w, again, "b");
    compare(x, w);
}
// ---- user tables act on their path only
static Result calc(XRF &x, const Elements &L, int order, int layer) { return x.getMultilayerFluorescence("Ti", L, layer, std::string("Ka"), order, 0, 0); }
HARNESS(user_tables)
{
    Elements &L = *library(3, "Fe Ti Si");
    XRF x;
    std::vector<Layer> y;
    y.push_back(layer("Ti Fe", "s0", false, true));
    Vec e(1, 10.0), w(1, 1.0);
    x.setBeam(e, w);
    x.setSample(y, 0);
    double in = sym::real("alphaIn", 5.0, 85.0), out = sym::real("alphaOut", 5.0, 175.0);
    sym::assume(!sym::eq(out, 90.0));
    static const double lines[] = {6.25, 6.5, 6.9375};
    for (int k = 0; k < 3; k++) sym::assume(!sym::eq(mu(L, y[0], 10.0) / sin(in * PI / 180.0), mu(L, y[0], lines[k])));
    x.setGeometry(in, out);
    int order = sym::choose("order", 0, 1), what = sym::choose("path", 0, 2);
    Lines before = calc(x, L, order, 0)["Ti Ka"][0];
    TransmissionTable t = table("t"), u = table("u");
    std::vector<TransmissionTable> f, a;
    if (what != 1) { f.push_back(t); if (sym::choose("two", 0, 1)) f.push_back(u); x.setUserBeamFilters(f); }
    if (what != 0) { a.push_back(what == 2 ? u : t); x.setUserAttenuators(a); }
    Lines after = calc(x, L, order, 0)["Ti Ka"][0];
    sym::check("lines", before.size() == after.size() && before.size() == 1);
    for (Lines::iterator l = before.begin(); l != before.end(); ++l)
    {
        double on = 1.0, off = 1.0;
        for (size_t i = 0; i < f.size(); i++) on *= f[i].getTransmission(10.0);
        for (size_t i = 0; i < a.size(); i++) off *= a[i].getTransmission(get(l->second, "energy"));
        for (Map::iterator c = l->second.begin(); c != l->second.end(); ++c)
        {
            double k = 1.0;
            std::string n = c->first;
            if (n == "primary" || n == "secondary" || n.find(' ') != std::string::npos) k = on;
            if (n == "rate") k = on * off;
            if (n == "efficiency") k = off;
            sym::check_eq("value", get(after[l->first], n), c->second * k);
        }
    }
    // taken away again, all is as before
    x.setUserBeamFilters(std::vector<TransmissionTable>()); x.setUserAttenuators(std::vector<TransmissionTable>());
    Lines last = calc(x, L, order, 0)["Ti Ka"][0];
    for (Lines::iterator l = before.begin(); l != before.end(); ++l) sym::check_eq("taken away", get(last[l->first], "rate"), get(l->second, "rate"));
}
