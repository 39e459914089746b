// @sources *
// @bounds samples of 1 to 4 layers with thickness in [1e-6, 1] cm, every reference and queried layer; outgoing angle in [1, 179] degrees, incoming in [1, 90]; detector distance in [1e-3, 1e3] cm large enough to stay outside the sample, diameter 0 or in [1e-4, 100] cm
#include "fisx_xrf.h"
using namespace fisx;
static const double PI = 3.14159265358979323846;
static std::vector<Layer> sample(int n)
{
    std::vector<Layer> s;
    for (int i = 0; i < n; i++)
    {
        double t = sym::real("t" + std::to_string(i), 1e-6, 1.0);
        s.push_back(Layer("Si", 1.0, t, 1.0));
    }
    return s;
}
static double depth(const std::vector<Layer> &s, int ref, int i, const double &sinOut)
{
    double d = 0.0;
    for (int k = ref; k < i; k++) d += s[k].getThickness();
    for (int k = i; k < ref; k++) d -= s[k].getThickness();
    return d / sinOut;
}
HARNESS(solid_angle)
{
    int n = sym::choose("layers", 1, 4), ref = sym::choose("reference", 0, n - 1);
    std::vector<Layer> s = sample(n);
    double out = sym::real("alphaOut", 1.0, 179.0), in = sym::real("alphaIn", 1.0, 90.0);
    double dist = sym::real("distance", 1e-3, 1e3), diam = sym::real("diameter", 1e-4, 100.0);
    if (sym::choose("given as area", 0, 1))
    {
        Detector a; a.setDiameter(diam); double area = a.getActiveArea();
        Detector b; b.setActiveArea(area); diam = b.getDiameter();
    }
    Detector det("Si", 2.33, 0.5, 1.0);
    det.setDiameter(diam); det.setDistance(dist);
    XRF x;
    x.setSample(s, ref);
    x.setDetector(det);
    x.setGeometry(in, out);
    int i = sym::choose("layer", 0, n - 1);
    double d = dist + depth(s, ref, i, sin(out * PI / 180.0));
    sym::assume(sym::lt(1e-3, d));
    double e = x.getGeometricEfficiency(i);
    // e = (1 - cos theta) / 2 with tan theta = (diameter / 2) / d
    double c = 1.0 - 2.0 * e;
    sym::check("less than half", sym::lt(e, 0.5));
    sym::check("positive", sym::lt(0.0, e));
    sym::check_eq("cosine", c * c * (d * d + 0.25 * diam * diam), d * d);
}
HARNESS(no_diameter)
{
    int n = sym::choose("layers", 1, 3), ref = sym::choose("reference", 0, n - 1);
    XRF x;
    x.setSample(sample(n), ref);
    Detector det("Si", 2.33, 0.5, 1.0);
    if (sym::choose("distance given", 0, 1)) { double dist = sym::real("distance", 1e-3, 1e3); det.setDistance(dist); }
    x.setDetector(det);
    x.setGeometry(45.0, sym::real("alphaOut", 1.0, 179.0));
    for (int i = 0; i < n; i++) sym::check_eq("no diameter, no loss", x.getGeometricEfficiency(i), 1.0);
}
HARNESS(monotonic)
{
    // for one detector and layer: more diameter collects more, more distance less
    double d0 = sym::real("d0", 1e-4, 100.0), d1 = sym::real("d1", 1e-4, 100.0), z0 = sym::real("z0", 1e-3, 1e3), z1 = sym::real("z1", 1e-3, 1e3);
    sym::assume(sym::le(d0, d1)); sym::assume(sym::le(z0, z1));
    XRF x; x.setSample(sample(1), 0);
    Detector a, b, c;
    a.setDiameter(d0); a.setDistance(z0);
    b.setDiameter(d1); b.setDistance(z0);
    c.setDiameter(d0); c.setDistance(z1);
    x.setDetector(a); double ea = x.getGeometricEfficiency(0);
    x.setDetector(b); double eb = x.getGeometricEfficiency(0);
    x.setDetector(c); double ec = x.getGeometricEfficiency(0);
    // squared cosines compare without radicals
    double ca = 1.0 - 2.0 * ea, cb = 1.0 - 2.0 * eb, cc = 1.0 - 2.0 * ec;
    sym::check_eq("a", ca * ca * (z0 * z0 + 0.25 * d0 * d0), z0 * z0);
    sym::check_le("diameter", z0 * z0 * (z0 * z0 + 0.25 * d0 * d0), z0 * z0 * (z0 * z0 + 0.25 * d1 * d1));
    sym::check_eq("b", cb * cb * (z0 * z0 + 0.25 * d1 * d1), z0 * z0);
    sym::check_eq("c", cc * cc * (z1 * z1 + 0.25 * d0 * d0), z1 * z1);
    sym::check("cosines positive", sym::lt(0.0, ca) && sym::lt(0.0, cb) && sym::lt(0.0, cc));
}
HARNESS(history)
{
    // the answer follows the last sample, detector and geometry given
    XRF x;
    x.setSample(sample(2), 1);
    Detector old; old.setDiameter(1.0); old.setDistance(3.0);
    x.setDetector(old); x.setGeometry(10.0, 20.0);
    x.getGeometricEfficiency(0);
    double t = sym::real("new thickness", 1e-6, 1.0), dist = sym::real("distance", 2.0, 1e3), out = sym::real("alphaOut", 60.0, 120.0);
    std::vector<Layer> s(3, Layer("Fe", 7.8, t, 1.0));
    Detector det; det.setDiameter(2.0); det.setDistance(dist);
    int order = sym::choose("order", 0, 2), ref = sym::choose("reference", 0, 2);
    for (int k = 0; k < 3; k++)
    {
        int w = (k + order) % 3;
        if (w == 0) x.setSample(s, ref); else if (w == 1) x.setDetector(det); else x.setGeometry(45.0, out);
    }
    for (int i = 0; i < 3; i++)
    {
        double d = dist + depth(s, ref, i, sin(out * PI / 180.0));
        if (!sym::holds(sym::lt(1e-3, d))) continue;
        double c = 1.0 - 2.0 * x.getGeometricEfficiency(i);
        sym::check("direction", sym::lt(0.0, c));
        sym::check_eq("current setup", c * c * (d * d + 1.0), d * d);
    }
    sym::check("negative layer refused", sym::outcome([&] { x.getGeometricEfficiency(-1); }) == 1);
}
