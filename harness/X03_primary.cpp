// @sources *
// @without fisx_simplespecfile.cpp
// @replace fisx_math.cpp fisx::Math::isFiniteNumber\(
// @stub SimpleSpecfile (data files) is served from memory
// @bounds 1 to 3 sample layers (pure or mixed) of 3 elements, 1 or 2 beam energies, up to 2 filters, attenuators, user tables, detector with or without composition and escape, geometric efficiency on and off; all coefficients in [1e-4, 1000], densities, thicknesses, fractions, weights and incidence/exit angles in [5, 90]/[5, 175] degrees symbolic; edges and line energies fixed
#include "xrf_util.h"
using namespace fisx;
using namespace xu;
struct Setup { XRF x; Vec energies, weights; std::vector<Layer> filters, sample, attenuators; std::vector<TransmissionTable> userFilters, userAttenuators; double in, out; bool detector; Detector det; };
static TransmissionTable table(const std::string &id)
{
    Vec e = grid(), t;
    for (size_t i = 0; i < e.size(); i++) t.push_back(sym::real(id + std::to_string(i), 1e-3, 1.0));
    TransmissionTable r; r.setTransmissionTable(e, t, id, "");
    return r;
}
static void apply(Setup &s)
{
    s.x.setBeam(s.energies, s.weights);
    s.x.setBeamFilters(s.filters);
    s.x.setUserBeamFilters(s.userFilters);
    s.x.setSample(s.sample, 0);
    s.x.setAttenuators(s.attenuators);
    s.x.setUserAttenuators(s.userAttenuators);
    if (s.detector) s.x.setDetector(s.det);
    s.x.setGeometry(s.in, s.out);
}
static Setup plain(int rays)
{
    Setup s;
    s.energies.push_back(10.0);
    if (rays > 1) s.energies.push_back(20.0);
    for (int i = 0; i < rays; i++) s.weights.push_back(sym::real("weight" + std::to_string(i), 0.01, 1.0));
    s.in = sym::real("alphaIn", 5.0, 90.0); s.out = sym::real("alphaOut", 5.0, 175.0);
    s.detector = false;
    return s;
}
static double pathTransmission(const Elements &L, const Layer &y, const double &e, const double &sine)
{
    double f = y.getFunnyFactor();
    return (1.0 - f) + f * exp(-(mu(L, y, e) * rhot(y) / sine));
}
// the whole formula for one requested element, family and layer
static void expect(const std::string &what, const Elements &L, Setup &s, const std::string &ele, const std::string &family, int i, Lines got, bool geometry, bool fractions)
{
    double sinIn = sin(s.in * PI / 180.0), sinOut = sin(s.out * PI / 180.0), sumw = 0.0;
    for (size_t r = 0; r < s.weights.size(); r++) sumw += s.weights[r];
    Lines want;
    double n = fractions ? fraction(L, s.sample[i], ele) : double(1.0);
    bool none = fractions && s.sample[i].getComposition(L).count(ele) == 0;   // nothing to list
    for (size_t r = 0; r < s.energies.size() && !none; r++)
    {
        double e0 = s.energies[r], w = s.weights[r] / sumw;
        for (size_t k = 0; k < s.filters.size(); k++) w *= pathTransmission(L, s.filters[k], e0, 1.0);
        for (size_t k = 0; k < s.userFilters.size(); k++) w *= s.userFilters[k].getTransmission(e0);
        double above = 0.0;
        for (int k = 0; k < i; k++) above += mu(L, s.sample[k], e0) * rhot(s.sample[k]) / sinIn;
        Lines f = L.getExcitationFactors(ele, e0, 1.0);
        for (Lines::iterator l = f.begin(); l != f.end(); ++l)
        {
            bool mine = l->first.compare(0, family.size(), family) == 0;
            if (family == "Ka") mine = l->first.compare(0, 2, "KL") == 0;
            if (family == "Kb") mine = l->first[0] == 'K' && l->first[1] != 'L';
            if (!mine) continue;
            double e = get(l->second, "energy"), m = mu(L, s.sample[i], e0) / sinIn + mu(L, s.sample[i], e) / sinOut;
            double p = n / sinIn * (1.0 - exp(-(m * rhot(s.sample[i])))) / m * (get(l->second, "rate") * w) * exp(-above);
            Map &o = want[l->first];
            if (o.find("primary") == o.end())
            {
                o["primary"] = 0.0; o["energy"] = e;
                double eff = 1.0;
                for (int k = 0; k < i; k++) eff *= pathTransmission(L, s.sample[k], e, sinOut);
                for (size_t k = 0; k < s.attenuators.size(); k++) eff *= pathTransmission(L, s.attenuators[k], e, 1.0);
                for (size_t k = 0; k < s.userAttenuators.size(); k++) eff *= s.userAttenuators[k].getTransmission(e);
                if (geometry) eff *= s.x.getGeometricEfficiency(i);
                if (s.detector) eff *= 1.0 - pathTransmission(L, s.det, e, 1.0);
                o["efficiency"] = eff;
            }
            o["primary"] += p;
        }
    }
    size_t lines = 0;
    for (Lines::iterator l = got.begin(); l != got.end(); ++l) if (l->first.find("esc") == std::string::npos) lines++;
    sym::check(what + ": lines", lines == want.size());
    for (Lines::iterator l = want.begin(); l != want.end(); ++l)
    {
        sym::check(what + ": line present", got.find(l->first) != got.end());
        if (got.find(l->first) == got.end()) continue;
        Map g = got[l->first];
        sym::check_eq(what + ": energy", get(g, "energy"), l->second["energy"]);
        sym::check_eq(what + ": primary", get(g, "primary"), l->second["primary"]);
        sym::check_eq(what + ": efficiency", get(g, "efficiency"), l->second["efficiency"]);
        sym::check_eq(what + ": secondary", get(g, "secondary"), 0.0);
        double esc = 0.0;
        if (s.detector)
        {
            Detector d = s.det;
            Lines peaks = d.getEscape(l->second["energy"], L);
            for (Lines::iterator p = peaks.begin(); p != peaks.end(); ++p)
            {
                esc += get(p->second, "rate");
                std::string k = l->first + " " + p->first;
                sym::check(what + ": escape present", got.find(k) != got.end());
                if (got.find(k) == got.end()) continue;
                sym::check_eq(what + ": escape energy", get(got[k], "energy"), get(p->second, "energy"));
                sym::check_eq(what + ": escape ratio", get(got[k], "ratio"), get(p->second, "rate"));
                sym::check_eq(what + ": escape rate", get(got[k], "rate"), get(p->second, "rate") * l->second["primary"] * l->second["efficiency"]);
            }
        }
        sym::check_eq(what + ": rate", get(g, "rate"), l->second["primary"] * l->second["efficiency"] * (1.0 - esc));
    }
}
static const char *KIND[] = {"Fe", "Fe Si", "Si", "Ti Fe"};
static Result ask(Setup &s, const Elements &L, const std::string &ele, const std::string &family, int i, bool geometry, bool fractions)
{
    return s.x.getMultilayerFluorescence(ele, L, i, family, 0, geometry ? 1 : 0, fractions ? 1 : 0);
}
HARNESS(one_layer)
{
    Elements &L = *library(2, "Fe Ti Si");
    Setup s = plain(1);
    s.energies[0] = sym::choose("energy", 0, 1) ? 20.0 : 10.0;
    s.sample.push_back(layer(KIND[sym::choose("material", 0, 3)], "s0", false));
    apply(s);
    const char *F[] = {"K", "Ka", "Kb", "KL3", "KM3", "L"};
    std::string ele = sym::choose("element", 0, 1) ? "Ti" : "Fe", family = F[sym::choose("family", 0, 5)];
    bool fr = sym::choose("mass fractions", 0, 1) != 0;
    Result r = ask(s, L, ele, family, 0, false, fr);
    expect("one layer", L, s, ele, family, 0, r[ele + " " + family][0], false, fr);
}
HARNESS(layers)
{
    Elements &L = *library(1, "Fe Ti Si");
    Setup s = plain(1);
    int n = sym::choose("layers", 2, 3);
    for (int k = 0; k < n; k++) s.sample.push_back(layer(KIND[sym::choose("material" + std::to_string(k), k == n - 1 ? 0 : 1, k == n - 1 ? 1 : 2)], "s" + std::to_string(k), false));
    int i = sym::choose("layer", 0, n - 1);
    apply(s);
    Result r = ask(s, L, "Fe", "Ka", i, false, false);
    expect("layers", L, s, "Fe", "Ka", i, r["Fe Ka"][i], false, false);
    // only the layer asked for
    sym::check("one layer answered", r.size() == 1 && r["Fe Ka"].size() == 1);
}
HARNESS(paths)
{
    // one kind of element of the beam paths at a time
    Elements &L = *library(1, "Fe Ti Si");
    int what = sym::choose("element of the path", 0, 5);
    Setup s = plain(1);
    s.sample.push_back(layer("Si", "s0", false));
    s.sample.push_back(layer("Fe Si", "s1", false));
    int n = sym::choose("how many", 1, 2);
    bool geometry = false;
    for (int k = 0; k < n; k++)
    {
        std::string id = std::to_string(k);
        if (what == 0) s.filters.push_back(layer(k ? "Ti" : "Si", "f" + id, true));
        if (what == 1) s.userFilters.push_back(table("u" + id));
        if (what == 2) s.attenuators.push_back(layer(k ? "Ti" : "Si", "a" + id, true));
        if (what == 3) s.userAttenuators.push_back(table("v" + id));
    }
    if (what == 4) { s.detector = true; Layer d = layer("Si", "d", n == 2); s.det = Detector("Si", d.getDensity(), d.getThickness(), d.getFunnyFactor()); }
    if (what == 5)
    {
        s.detector = true; geometry = true;
        s.det = Detector("Si", 2.0, 0.5, 1.0);
        if (n == 2) s.det.setDiameter(sym::real("diameter", 0.1, 10.0));
        s.det.setDistance(sym::real("distance", 2.0, 100.0));
        sym::assume(sym::le(60.0, s.out)); sym::assume(sym::le(s.out, 120.0));
    }
    apply(s);
    int i = sym::choose("layer", 0, 1);
    Result r = ask(s, L, "Fe", "Ka", i, geometry, false);
    expect("paths", L, s, "Fe", "Ka", i, r["Fe Ka"][i], geometry, false);
}
HARNESS(escape)
{
    // a detector that loses part of the photons to its own lines
    Elements &L = *library(1, "Fe Ti Si");
    Setup s = plain(1);
    s.sample.push_back(layer("Fe Si", "s0", false));
    s.detector = true;
    Layer d = layer("Ti", "d", false);
    s.det = Detector("Ti", d.getDensity(), d.getThickness(), 1.0);
    apply(s);
    Result r = ask(s, L, "Fe", "KL3", 0, false, true);
    expect("escape", L, s, "Fe", "KL3", 0, r["Fe KL3"][0], false, true);
}
HARNESS(rays)
{
    // the rays' contributions add with their normalised weights; a beam given with the request replaces the configured one
    // for that request only
    Elements &L = *library(1, "Fe Ti Si");
    int n = sym::choose("rays", 2, 3);
    Setup s = plain(2);
    if (n == 3) { s.energies.push_back(6.5); s.weights.push_back(sym::real("weight2", 0.01, 1.0)); }
    s.sample.push_back(layer("Si", "s0", false));
    s.sample.push_back(layer("Ti Fe", "s1", false));
    s.filters.push_back(layer("Si", "f", true));
    s.detector = true; s.det = Detector("Si", 2.0, 0.5, 1.0);
    apply(s);
    std::string ele = sym::choose("element", 0, 1) ? "Ti" : "Fe";
    int k = sym::choose("layer", 0, 1);
    Lines all = ask(s, L, ele, "K", k, false, false)[ele + " K"][k];
    double sum = 0.0;
    for (int i = 0; i < n; i++) sum += s.weights[i];
    Lines want;
    for (int i = 0; i < n; i++)
    {
        Beam b; b.setSingleEnergyBeam(s.energies[i]);
        Lines one = s.x.getMultilayerFluorescence(ele, L, k, std::string("K"), 0, 0, 0, 0.0, b)[ele + " K"][k];
        for (Lines::iterator l = one.begin(); l != one.end(); ++l)
        {
            Map &o = want[l->first];
            o["primary"] += get(l->second, "primary") * s.weights[i] / sum;
            o["rate"] += get(l->second, "rate") * s.weights[i] / sum;
            o["efficiency"] = get(l->second, "efficiency");
        }
    }
    sym::check("lines", want.size() == all.size());
    for (Lines::iterator l = want.begin(); l != want.end(); ++l)
        for (Map::iterator o = l->second.begin(); o != l->second.end(); ++o) sym::check_eq("sum of rays: " + o->first, get(all[l->first], o->first), o->second);
    Lines again = ask(s, L, ele, "K", k, false, false)[ele + " K"][k];
    for (Lines::iterator l = all.begin(); l != all.end(); ++l) sym::check_eq("configured beam still in force", get(again[l->first], "rate"), get(l->second, "rate"));
}
HARNESS(edge)
{
    // below an edge nothing
    Elements &L = *library(1, "Fe Ti Si");
    Setup s = plain(1);
    s.energies[0] = 6.5;
    s.sample.push_back(layer("Ti Fe", "s0", false));
    apply(s);
    Result r = ask(s, L, "Fe", "K", 0, false, true);
    sym::check("not excited", r["Fe K"][0].size() == 0);
    r = ask(s, L, "Ti", "K", 0, false, true);
    expect("excited", L, s, "Ti", "K", 0, r["Ti K"][0], false, true);
}
