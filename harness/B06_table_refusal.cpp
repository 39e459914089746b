// @sources fisx_transmissiontable.cpp
// @bounds up to 4 new points after up to 3 earlier ones, energies in [-5, 200], transmissions in [-1, 2], every combination of names and comments
#include "fisx_transmissiontable.h"
using namespace fisx;
typedef std::map<double, double> Table;

static void check_same(const Table &a, const Table &b)
{
    sym::check("table-size", a.size() == b.size());
    if (a.size() != b.size()) return;
    Table::const_iterator i = a.begin(), j = b.begin();
    for (; i != a.end(); ++i, ++j) { sym::check_eq("table-energy", i->first, j->first); sym::check_eq("table-value", i->second, j->second); }
}

static void scenario(bool map_interface)
{
    int named = sym::choose("named", 0, 3), renames = sym::choose("renames", 0, 3), k = sym::choose("earlier", 0, 2);
    TransmissionTable t(named & 1 ? "first" : "", named & 2 ? "old note" : "");
    if (k)
    {
        std::vector<double> e, v;
        for (int i = 0; i <= k; i++)
        {
            e.push_back(sym::real("before_e" + std::to_string(i), 0.0, 200.0));
            if (i) sym::assume(sym::le(e[i - 1] + 1e-3, e[i]));
            v.push_back(sym::real("before_t" + std::to_string(i), 0.0, 1.0));
        }
        t.setTransmissionTable(e, v);
    }
    std::string n0 = t.getName(), c0 = t.getComment();
    Table old = t.getTransmissionTable();
    std::string nn = renames & 1 ? "second" : "", nc = renames & 2 ? "new note" : "";
    int n = sym::choose("n", 0, sym::tier() ? 4 : 3), nv = map_interface ? n : sym::choose("values", 0, 3);
    std::vector<double> e, v;
    bool bad = n != nv;
    for (int i = 0; i < n; i++)
    {
        e.push_back(sym::real("e" + std::to_string(i), -5.0, 200.0));
        if (i && map_interface) sym::assume(sym::le(e[i - 1] + 1e-3, e[i]));
        else if (i) sym::assume(sym::le(e[i - 1] + 1e-3, e[i]) || sym::lt(e[i], e[i - 1]));
        if (e[i] < 0.0 || (i && e[i] < e[i - 1])) bad = true;
    }
    for (int i = 0; i < nv; i++)
    {
        v.push_back(sym::real("t" + std::to_string(i), -1.0, 2.0));
        if (v[i] < 0.0) bad = true;
    }
    if ((renames & named) != 0) bad = true;
    int r;
    if (map_interface)
    {
        Table m;
        for (int i = 0; i < n; i++) m[e[i]] = v[i];
        r = sym::outcome([&] { t.setTransmissionTable(m, nn, nc); });
    }
    else r = sym::outcome([&] { t.setTransmissionTable(e, v, nn, nc); });
    sym::check("refused-iff-invalid", r == (bad ? 1 : 0));
    if (bad)
    {
        check_same(t.getTransmissionTable(), old);
        sym::check("name-kept", t.getName() == n0);
        sym::check("comment-kept", t.getComment() == c0);
        double q = sym::real("q", -10.0, 300.0);
        TransmissionTable u;
        u.setTransmissionTable(old);
        sym::check_eq("still-in-force", t.getTransmission(q), u.getTransmission(q));
    }
    else
    {
        sym::check("name", t.getName() == (nn.size() ? nn : n0));
        sym::check("comment", t.getComment() == (nc.size() ? nc : c0));
        sym::check("new-size", (int) t.getTransmissionTable().size() == n);
        for (int i = 0; i < n; i++) sym::check_eq("new-value", t.getTransmission(e[i]), v[i]);
    }
}
HARNESS(lists) { scenario(false); }
HARNESS(maps) { scenario(true); }
