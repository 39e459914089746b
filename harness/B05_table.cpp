// @sources fisx_transmissiontable.cpp
// @bounds 0 to 4 table points (6 thorough), energies in [0, 200] at least 1e-3 apart or equal, transmissions in [0, 1], any query energy in [-10, 300] outside the 1e-6 wide step at a repeated energy
#include "fisx_transmissiontable.h"
using namespace fisx;
typedef std::map<double, double> Table;

struct Pts { std::vector<double> e, t; };

static Pts points(const std::string &p, int n, int dup)
{
    // bit i of dup: point i+1 repeats the energy of point i
    Pts r;
    for (int i = 0; i < n; i++)
    {
        if (i && ((dup >> (i - 1)) & 1)) r.e.push_back(r.e[i - 1]);
        else
        {
            r.e.push_back(sym::real(p + "e" + std::to_string(i), 0.0, 200.0));
            if (i) sym::assume(sym::le(r.e[i - 1] + 1e-3, r.e[i]));
        }
        r.t.push_back(sym::real(p + "t" + std::to_string(i), 0.0, 1.0));
    }
    return r;
}

// the documented meaning, written independently
static double reference(const Pts &p, const double &q)
{
    size_t n = p.e.size();
    if (!n) return 1.0;
    if (q <= p.e[0]) return p.t[0];
    for (size_t i = 0; i + 1 < n; i++)
    {
        if (q <= p.e[i + 1])
        {
            // first value of a repeated energy holds at that energy
            size_t lo = i, hi = i + 1;
            double a = p.e[lo];
            if (lo > 0 && p.e[lo - 1] == p.e[lo]) a += 0.000001;      // just above the step
            return p.t[lo] + (p.t[hi] - p.t[lo]) * ((q - a) / (p.e[hi] - a));
        }
    }
    return p.t[n - 1];
}
static void outside_steps(const Pts &p, const double &q)
{
    for (size_t i = 1; i < p.e.size(); i++)
        if (p.e[i - 1] == p.e[i]) sym::assume(sym::le(q, p.e[i]) || sym::le(p.e[i] + 0.000001, q));
}

HARNESS(lists)
{
    int n = sym::choose("n", 0, sym::tier() ? 6 : 4);
    // no two consecutive repetitions: an energy appears at most twice
    int dup = n > 1 ? sym::choose("dup", 0, (1 << (n - 1)) - 1) : 0;
    sym::assume((dup & (dup >> 1)) == 0);
    Pts p = points("", n, dup);
    double q = sym::real("q", -10.0, 300.0);
    outside_steps(p, q);
    TransmissionTable t;
    int before = sym::choose("before", 0, 1);
    if (before)
    {
        std::vector<double> e, v;
        e.push_back(1.0); e.push_back(5.0); e.push_back(50.0);
        v.push_back(0.9); v.push_back(0.1); v.push_back(0.5);
        t.setTransmissionTable(e, v);
    }
    t.setTransmissionTable(p.e, p.t);
    double r = reference(p, q), got = t.getTransmission(q);
    sym::check_eq("value", got, r);
    sym::check_le("not-negative", 0.0, got);
    sym::check_le("at-most-one", got, 1.0);
    std::vector<double> qs(2, q);
    qs[1] = n ? p.e[0] : double(3.0);
    std::vector<double> l = t.getTransmission(qs);
    sym::check("list-size", l.size() == 2);
    if (l.size() == 2) { sym::check_eq("list-value", l[0], r); sym::check_eq("list-value", l[1], n ? p.t[0] : double(1.0)); }
    sym::check("stored-points", (int) t.getTransmissionTable().size() == n);
}

HARNESS(at_the_points)
{
    int n = sym::choose("n", 1, sym::tier() ? 6 : 4);
    int dup = n > 1 ? sym::choose("dup", 0, (1 << (n - 1)) - 1) : 0;
    sym::assume((dup & (dup >> 1)) == 0);
    Pts p = points("", n, dup);
    TransmissionTable t("table", "comment");
    t.setTransmissionTable(p.e, p.t);
    for (int i = 0; i < n; i++)
    {
        if (i && ((dup >> (i - 1)) & 1)) sym::check_eq("just-above-step", t.getTransmission(p.e[i] + 0.000001), p.t[i]);
        else sym::check_eq("at-point", t.getTransmission(p.e[i]), p.t[i]);
    }
    sym::check("name-kept", t.getName() == "table" && t.getComment() == "comment");
}

HARNESS(map_interface)
{
    int n = sym::choose("n", 0, 4);
    Pts p = points("", n, 0);
    Table m;
    for (int i = 0; i < n; i++) m[p.e[i]] = p.t[i];
    double q = sym::real("q", -10.0, 300.0);
    TransmissionTable a, b;
    a.setTransmissionTable(m, "one", "first");
    b.setTransmissionTable(p.e, p.t, "two", "second");
    sym::check_eq("value", a.getTransmission(q), reference(p, q));
    sym::check("names", a.getName() == "one" && a.getComment() == "first" && b.getName() == "two" && b.getComment() == "second");
    Table x = a.getTransmissionTable(), y = b.getTransmissionTable();
    sym::check("sizes", (int) x.size() == n && (int) y.size() == n);
    int i = 0;
    for (Table::const_iterator k = x.begin(); k != x.end() && i < n; ++k, ++i) { sym::check_eq("stored-energy", k->first, p.e[i]); sym::check_eq("stored-value", k->second, p.t[i]); }
    i = 0;
    for (Table::const_iterator k = y.begin(); k != y.end() && i < n; ++k, ++i) { sym::check_eq("list-stored-energy", k->first, p.e[i]); sym::check_eq("list-stored-value", k->second, p.t[i]); }
}

HARNESS(never_set)
{
    double q = sym::real("q", -10.0, 300.0);
    TransmissionTable a, b("named", "with comment");
    sym::check_eq("default", a.getTransmission(q), 1.0);
    sym::check_eq("default-named", b.getTransmission(q), 1.0);
    sym::check("names", a.getName() == "" && a.getComment() == "" && b.getName() == "named" && b.getComment() == "with comment");
    a.setName("later"); a.setComment("remark");
    sym::check("setters", a.getName() == "later" && a.getComment() == "remark");
    // a copy is independent
    TransmissionTable c = a;
    std::vector<double> e(1, sym::real("e", 0.0, 100.0)), v(1, sym::real("t", 0.0, 1.0));
    a.setTransmissionTable(e, v);
    sym::check_eq("copy-unchanged", c.getTransmission(q), 1.0);
    sym::check_eq("single-point", a.getTransmission(q), v[0]);
}
