// @sources fisx_beam.cpp
// @bounds 0 to 4 rays (5 thorough), energies in [0.01, 200], weights in [0, 100], divergencies in [-5, 5], flags 0..2; up to two successive descriptions
#include "fisx_beam.h"
using namespace fisx;

struct In { std::vector<double> e, w, d; std::vector<int> c; };

static In describe(const char *p, int n, int nw, int nc, int nd, int flag0 = 10)
{
    In in;
    std::string s(p);
    for (int i = 0; i < n; i++) in.e.push_back(sym::real(s + "e" + std::to_string(i), 0.01, 200.0));
    for (int i = 0; i < nw; i++) in.w.push_back(sym::real(s + "w" + std::to_string(i), 0.0, 100.0));
    for (int i = 0; i < nc; i++) in.c.push_back(flag0 + i);
    for (int i = 0; i < nd; i++) in.d.push_back(sym::real(s + "d" + std::to_string(i), -5.0, 5.0));
    return in;
}

// rays must be a permutation of the input tuples; distinct energies identify the tuple
static void verify(const std::string &tag, Beam &b, const In &in, bool single = false)
{
    size_t n = in.e.size();
    std::vector<std::vector<double> > v = b.getBeamAsDoubleVectors();
    const std::vector<Ray> &r = b.getBeam();
    sym::check(tag + "count", r.size() == n && v.size() == 4);
    if (r.size() != n) return;
    double total = 0.0, out = 0.0;
    for (size_t i = 0; i < n; i++) total += in.w.size() == 0 ? double(1.0) : in.w[in.w.size() > 1 ? i : 0];
    for (size_t i = 0; i < n; i++)
    {
        out += r[i].weight;
        if (i) sym::check_le(tag + "sorted", r[i - 1].energy, r[i].energy);
        sym::check_eq(tag + "vectors-energy", v[0][i], r[i].energy);
        sym::check_eq(tag + "vectors-weight", v[1][i], r[i].weight);
        sym::check_eq(tag + "vectors-flag", v[2][i], double(r[i].characteristic));
        sym::check_eq(tag + "vectors-divergency", v[3][i], r[i].divergency);
    }
    if (n) sym::check_eq(tag + "normalised", out, 1.0);
    std::vector<char> used(n, 0);
    for (size_t i = 0; i < n; i++)
    {
        size_t k = n;
        for (size_t j = 0; j < n; j++) if (!used[j] && r[i].energy == in.e[j]) { k = j; break; }
        sym::check(tag + "energy-kept", k < n);
        if (k >= n) return;
        used[k] = 1;
        double w = in.w.size() == 0 ? double(1.0) : in.w[in.w.size() > 1 ? k : 0];
        double d = in.d.size() == 0 ? double(0.0) : in.d[in.d.size() > 1 ? k : 0];
        int c = in.c.size() == 0 ? 1 : in.c[in.c.size() > 1 ? k : 0];
        sym::check_eq(tag + "weight-of-its-energy", r[i].weight * total, w);
        sym::check_eq(tag + "divergency-of-its-energy", r[i].divergency, d);
        sym::check(tag + "flag-of-its-energy", r[i].characteristic == c);
    }
}

static void distinct(const In &in)
{
    for (size_t i = 0; i < in.e.size(); i++)
        for (size_t j = 0; j < i; j++)
            sym::assume(!sym::eq(in.e[i], in.e[j]));
    if (in.w.size())
    {
        double t = 0.0;
        for (size_t i = 0; i < in.w.size(); i++) t += in.w[i];
        sym::assume(sym::le(1e-3, t));
    }
}

HARNESS(vectors)
{
    int n = sym::choose("n", 1, sym::tier() ? 5 : 4);
    int mode = sym::choose("lists", 0, 4);
    In in = mode == 0 ? describe("", n, n, n, n) : mode == 1 ? describe("", n, 0, 0, 0) : mode == 2 ? describe("", n, 1, 1, 1)
          : mode == 3 ? describe("", n, n, 0, 1) : describe("", n, 1, n, 0);
    distinct(in);
    Beam b;
    b.setBeam(in.e, in.w, in.c, in.d);
    verify("", b, in);
}

HARNESS(equal_energies)
{
    // rays with the same energy: nothing is lost or duplicated
    int n = sym::choose("n", 2, 3);
    In in = describe("", n, n, n, n);
    sym::assume(sym::eq(in.e[0], in.e[n - 1]));
    double t = 0.0;
    for (int i = 0; i < n; i++) t += in.w[i];
    sym::assume(sym::le(1e-3, t));
    Beam b;
    b.setBeam(in.e, in.w, in.c, in.d);
    const std::vector<Ray> &r = b.getBeam();
    sym::check("count", (int) r.size() == n);
    int mask = 0;
    for (size_t i = 0; i < r.size(); i++)
    {
        int k = r[i].characteristic - 10;
        sym::check("known-flag", k >= 0 && k < n && !(mask & (1 << k)));
        if (k < 0 || k >= n) return;
        mask |= 1 << k;
        sym::check_eq("energy", r[i].energy, in.e[k]);
        sym::check_eq("weight", r[i].weight * t, in.w[k]);
        sym::check_eq("divergency", r[i].divergency, in.d[k]);
        if (i) sym::check_le("sorted", r[i - 1].energy, r[i].energy);
    }
}

HARNESS(arrays)
{
    int n = sym::choose("n", 1, 3);
    int mode = sym::choose("lists", 0, 3);
    In in = mode == 0 ? describe("", n, n, n, n) : mode == 1 ? describe("", n, 0, 0, 0) : mode == 2 ? describe("", n, n, 0, 0) : describe("", n, 0, n, n);
    distinct(in);
    // one-element lists mean the same as arrays
    Beam a;
    a.setBeam(n, &in.e[0], in.w.size() ? &in.w[0] : NULL, in.c.size() ? &in.c[0] : (const int *) NULL, in.d.size() ? &in.d[0] : NULL);
    verify("int-flags:", a, in);
    if (in.c.size())
    {
        std::vector<double> f;
        for (int i = 0; i < n; i++) f.push_back(double(in.c[i]));
        Beam b;
        b.setBeam(n, &in.e[0], in.w.size() ? &in.w[0] : NULL, (const double *) &f[0], in.d.size() ? &in.d[0] : NULL);
        verify("double-flags:", b, in);
    }
}

HARNESS(history)
{
    // a second description replaces the first one completely
    int n1 = sym::choose("n1", 0, 3), n2 = sym::choose("n2", 0, sym::tier() ? 3 : 2), how = sym::choose("how", 0, 6);
    Beam b;
    if (n1)
    {
        In a = describe("a", n1, n1, n1, n1);
        distinct(a);
        b.setBeam(a.e, a.w, a.c, a.d);
    }
    if (n2 == 0)
    {
        if (how & 1)
        {
            In in = describe("b", 1, 0, 0, 1);
            b.setSingleEnergyBeam(in.e[0], in.d[0]);
            verify("single:", b, in);
        }
        else
        {
            b.setBeam(std::vector<double>());
            sym::check("empty", b.getBeam().size() == 0);
            sym::check("empty-vectors", b.getBeamAsDoubleVectors().size() == 4);
        }
        return;
    }
    int n = n2;
    In in = how == 0 ? describe("b", n, n, n, n, 0) : how == 1 ? describe("b", n, 0, 0, 0) : how == 2 ? describe("b", n, 1, 1, 1, 0)
          : how == 3 ? describe("b", n, 1, n, n, 0) : how == 4 ? describe("b", n, 0, n, 1, 1 - n) : how == 5 ? describe("b", n, n, 1, 0) : describe("b", n, n, 0, n);
    distinct(in);
    if (how == 5 && n > 1)
    {
        // the arrays have no one-element form
        for (int i = 1; i < n; i++) in.c.push_back(in.c[0] - i);
        b.setBeam(n, &in.e[0], &in.w[0], &in.c[0], NULL);
    }
    else if (how == 6) b.setBeam(n, &in.e[0], &in.w[0], (const int *) NULL, &in.d[0]);
    else b.setBeam(in.e, in.w, in.c, in.d);
    verify("", b, in);
}
