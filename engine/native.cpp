// Native side of the harness API: replays an assignment against the real code compiled with real doubles.
#include "sym.h"
#include <csignal>
#include <unistd.h>
namespace sym {
static std::map<std::string, std::string> in;
static std::map<std::string, int> seen;
static int fails = 0, checks = 0;
static std::map<std::string, HarnessFn> &regs() { static std::map<std::string, HarnessFn> r; return r; }
Reg::Reg(const char *n, HarnessFn f) { regs()[n] = f; }
static std::string uniq(const std::string &n) { int k = seen[n]++; return k ? n + "#" + std::to_string(k) : n; }
static double eps(double a, double b) { double s = std::fabs(a) + std::fabs(b); return std::isfinite(s) ? 1e-12 * s : 0; }
Cond lt(const double &a, const double &b) { double e = eps(a, b); return {a < b, a < b, a < b - e}; }
Cond le(const double &a, const double &b) { double e = eps(a, b); return {a <= b, a <= b + e, a <= b}; }
Cond eq(const double &a, const double &b) { return {a == b, std::fabs(a - b) <= eps(a, b), a == b}; }
Cond near(const double &a, const double &b, const double &t) { return le(std::fabs(a - b), t); }
Cond operator!(const Cond &a) { return {!a.v, !a.lo, !a.hi}; }
Cond operator&&(const Cond &a, const Cond &b) { return {a.v && b.v, a.hi && b.hi, a.lo && b.lo}; }
Cond operator||(const Cond &a, const Cond &b) { return {a.v || b.v, a.hi || b.hi, a.lo || b.lo}; }
Cond truth(bool b) { return {b, b, b}; }
bool holds(const Cond &c) { return c.v; }
static double get(const std::string &name, double dflt) {
  std::string n = uniq(name);
  auto it = in.find(n);
  if (it == in.end()) return dflt;
  return strtod(it->second.c_str(), 0);
}
double real(const std::string &name, const double &lo, const double &hi) {
  double v = get(name, 0.5 * (lo + hi));
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
double character(const std::string &name, const std::string &alphabet) { return get(name, (unsigned char)alphabet[0]); }
double fp(const std::string &name) { return get(name, 0.0); }
void use_fp() {}
void use_univariate() {}
int choose(const std::string &name, int lo, int) { return (int)get(name, lo); }
void assume(const Cond &c) { assume(c.hi); }
void assume(bool b) { if (!b) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(77); } }
static void fail(const std::string &l, const std::string &d) { ++fails; printf("CK-FAIL %s %s\n", l.c_str(), d.c_str()); fflush(stdout); }
void check(const std::string &l, bool ok) { ++checks; if (!ok) fail(l, "condition false"); }
void check(const std::string &l, const Cond &c) { check(l, c.v); }
static std::string two(double a, double b) { char s[128]; snprintf(s, sizeof s, "got %.17g expected %.17g", a, b); return s; }
void check_eq(const std::string &l, const double &a, const double &b, const double &tol) {
  ++checks;
  if (a == b || (std::isnan(a) && std::isnan(b))) return;
  double d = std::fabs(a - b);
  if (!std::isfinite(a) || !std::isfinite(b)) fail(l, two(a, b));
  else if (!(d <= tol * std::max(std::fabs(a), std::fabs(b)) || d <= 1e-13)) fail(l, two(a, b));
}
void check_le(const std::string &l, const double &a, const double &b) {
  ++checks;
  bool f = std::isfinite(a) && std::isfinite(b);
  if (!(a <= b + (f ? 1e-9 * std::max(std::fabs(a), std::fabs(b)) : 0.0))) fail(l, two(a, b));
}
void check_lt(const std::string &l, const double &a, const double &b) { ++checks; if (!(a < b)) fail(l, two(a, b)); }
void lemma(const Cond &, const std::string &) {}
double function(const std::string &, double (*f)(const double &), const double &x) { return f(x); }
bool is_symbolic() { return false; }
bool finite(const double &a) { return std::isfinite(a); }
int tier() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
}
using namespace sym;
int main(int argc, char **argv) {
  // native HARNESS FILE   (FILE: lines "name value")
  if (argc < 2) return 2;
  if (argc > 2) {
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
      size_t p = line.find('\t');
      if (p != std::string::npos) in[line.substr(0, p)] = line.substr(p + 1);
    }
  }
  auto it = regs().find(argv[1]);
  if (it == regs().end()) { printf("no such harness\n"); return 2; }
  std::ostringstream sink;
  std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
  try { it->second(); }
  catch (const std::exception &e) { fail("uncaught-exception", e.what()); }
  catch (...) { fail("uncaught-exception", "?"); }
  std::cout.rdbuf(old);
  printf("CHECKS %d FAILS %d\n", checks, fails);
  fflush(stdout);
  _exit(fails ? 1 : 0);
}
