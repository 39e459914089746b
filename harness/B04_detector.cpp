// @sources *
// @bounds areas and diameters in [-1e4, 1e4], distances in [-1e4, 1e4]; histories of up to 3 setter calls in any order
#include "fisx_detector.h"
using namespace fisx;
static const double PI = 3.14159265358979323846;
HARNESS(area_round_trip)
{
    Detector d("Si", 2.33, 0.5, 1.0);
    double a = sym::real("area", -1e4, 1e4);
    bool bad = sym::holds(sym::lt(a, 0.0));
    sym::check_eq("no diameter at first", d.getDiameter(), 0.0);
    sym::check_eq("no area at first", d.getActiveArea(), 0.0);
    int r = sym::outcome([&] { d.setActiveArea(a); });
    sym::check("negative area refused", r == (bad ? 1 : 0));
    sym::check_eq("area read back", d.getActiveArea(), bad ? double(0.0) : a);
    sym::check("diameter not negative", sym::le(0.0, d.getDiameter()));
    sym::check_eq("disc", d.getDiameter() * d.getDiameter() * PI, bad ? double(0.0) : 4.0 * a);
    if (!bad)
    {
        double b = d.getActiveArea();
        d.setActiveArea(b);
        sym::check_eq("again", d.getActiveArea(), a);
    }
}
HARNESS(history)
{
    Detector d("Si", 2.33, 0.5, 1.0);
    double diameter2 = 0.0, distance = 10.0;       // diameter squared
    int steps = sym::choose("steps", 1, 3);
    for (int i = 0; i < steps; i++)
    {
        std::string n = std::to_string(i);
        int what = sym::choose("call" + n, 0, 2);
        double v = sym::real("v" + n, -1e4, 1e4);
        bool bad = what == 2 ? sym::holds(sym::le(v, 0.0)) : sym::holds(sym::lt(v, 0.0));
        int r = sym::outcome([&] { if (what == 0) d.setActiveArea(v); else if (what == 1) d.setDiameter(v); else d.setDistance(v); });
        sym::check("invalid geometry refused", r == (bad ? 1 : 0));
        if (!bad && what == 0) diameter2 = 4.0 * v / PI;
        if (!bad && what == 1) { diameter2 = v * v; sym::check_eq("diameter as set", d.getDiameter(), v); }
        if (!bad && what == 2) distance = v;
        sym::check_eq("distance", d.getDistance(), distance);
        sym::check_eq("diameter", d.getDiameter() * d.getDiameter(), diameter2);
        sym::check("diameter sign", sym::le(0.0, d.getDiameter()));
        sym::check_eq("area", d.getActiveArea() * 4.0, PI * diameter2);
    }
    // a copy has the same geometry, and further changes do not reach the original
    Detector e(d);
    sym::check_eq("copy", e.getDiameter(), d.getDiameter());
    e.setDiameter(1.0); e.setDistance(2.0);
    sym::check_eq("original distance", d.getDistance(), distance);
    sym::check_eq("original area", d.getActiveArea() * 4.0, PI * diameter2);
    // what the detector is made of does not change its geometry
    d.setMaterial("Ge"); d.setThickness(0.1); d.setDensity(5.0);
    d.setMinimumEscapePeakEnergy(0.1); d.setMaximumNumberOfEscapePeaks(2);
    sym::check_eq("distance kept", d.getDistance(), distance);
    sym::check_eq("area kept", d.getActiveArea() * 4.0, PI * diameter2);
}
