// Symbolic execution engine: terms, path oracle (fork per feasible branch side), proof obligations, counterexamples.
#include "sym.h"
#include <z3.h>
#include <gmpxx.h>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>

#define NOINS __attribute__((no_instrument_function))

// ------------------------------------------------------------------ shared counters
struct LabelStat { char name[120]; long reached, normal, proved, proved_tol, concrete, unknown, violated, cands, asked, confirmed; double last; };
enum { MAXL = 2000, MAXF = 8192 };
struct Shared {
  volatile int lock;
  volatile int running;
  volatile int stop;
  long paths, killed, forks, decisions, queries, q_unsat, q_sat, q_unknown, rescued, infeasible, bound, cpu, crash, concretised, witnesses, deadline, killedUnknown, ranged;
  double solver_s, maxq_s;
  int nl; LabelStat L[MAXL];
  int nf; void *F[MAXF];
  int nlem; char lem[64][200];
};
static Shared *S;
static void lock() { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(10); }
static void unlock() { __sync_lock_release(&S->lock); }
#define INC(f) __sync_fetch_and_add(&S->f, 1)

static int g_jobs = 8, g_out = -1;
static double g_deadline = 1e18;
static const char *g_harness = "?";
static void on_term(int) { S->stop = 1; }
static bool g_fp = false;
static unsigned g_seed = 1;
static long g_rlimit = 4000000;
static int g_qms = 4000;       // per query wall limit
static int g_qms2 = 15000;     // proof obligation, second engine
static int g_maxdec = 4000;
static int g_cpu = 120;
static int g_maxwit = 40;
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
// a few counterexamples per assertion at once, then about one a second: only what the real code confirms is reported
static bool enough(LabelStat *s) { return s->cands >= 6 && (s->cands >= 200 || now() < s->last + 1.0); }
static bool late() { return S->stop || now() > g_deadline; }

// ------------------------------------------------------------------ function coverage
static void *ftab[1 << 14];
extern "C" NOINS void __cyg_profile_func_enter(void *fn, void *) {
  if (!S) return;
  unsigned h = (unsigned)(((uintptr_t)fn >> 2) * 2654435761u) & ((1 << 14) - 1);
  while (ftab[h]) { if (ftab[h] == fn) return; h = (h + 1) & ((1 << 14) - 1); }
  ftab[h] = fn;
  lock();
  bool have = false;
  for (int i = 0; i < S->nf; i++) if (S->F[i] == fn) have = true;
  if (!have && S->nf < MAXF) S->F[S->nf++] = fn;
  unlock();
}
extern "C" NOINS void __cyg_profile_func_exit(void *, void *) {}

// ------------------------------------------------------------------ terms
namespace symx {
struct Node { Op op; SymD a, b; mpq_class *q; Z3_ast z; double lo, hi; std::string name; std::vector<double> *alpha; SymD (*fn)(const SymD &); };
static std::vector<Node> &N() { static std::vector<Node> n(1); return n; }
static std::vector<unsigned> vars;
struct Key { int op; unsigned ai, bi; uint64_t ac, bc; bool operator==(const Key &o) const { return op == o.op && ai == o.ai && bi == o.bi && ac == o.ac && bc == o.bc; } };
struct KeyH { size_t operator()(const Key &k) const { size_t h = k.op; h = h * 1000003 + k.ai; h = h * 1000003 + k.bi; h = h * 1000003 + k.ac; h = h * 1000003 + k.bc; return h ^ (h >> 29); } };
static std::unordered_map<Key, unsigned, KeyH> &cons() { static std::unordered_map<Key, unsigned, KeyH> c; return c; }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static SymD mk(unsigned id) { SymD r; r.c = 0; r.id = id; r.pad = 0; return r; }
static SymD cst(double d) { SymD r; r.c = d; r.id = 0; r.pad = 0; return r; }
static Z3_context C;
static Z3_solver Z;
static Z3_sort RS, FS;
static std::vector<Z3_ast> asserted;   // everything asserted on this path

static void die_err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(90); }

struct Garbage {};
static SymD fresh_garbage();
static inline SymD fix(const SymD &a) {       // uninitialised value read: an arbitrary real
  if (a.id == 0 && a.pad == 0) return a;
  if (a.id < N().size() && a.pad == 0) return a;
  return fresh_garbage();
}

static SymD node(Op op, const SymD &a, const SymD &b) {
  Key k{op, a.id, b.id, a.id ? 0 : bits(a.c), b.id ? 0 : bits(b.c)};
  auto it = cons().find(k);
  if (it != cons().end()) return mk(it->second);
  Node n; n.op = op; n.a = a; n.b = b; n.q = 0; n.z = 0; n.alpha = 0; n.fn = 0; n.lo = n.hi = 0;
  N().push_back(n);
  cons()[k] = N().size() - 1;
  return mk(N().size() - 1);
}
static bool is_const(const SymD &a) { return a.id == 0 || N()[a.id].op == O_Q; }
static bool nonfinite(const SymD &a) { return a.id == 0 && !std::isfinite(a.c); }
static mpq_class val(const SymD &a) { if (a.id == 0) { mpq_class q(a.c); return q; } return *N()[a.id].q; }
static SymD from_q(const mpq_class &q) {
  double d = q.get_d();
  if (std::isfinite(d) && mpq_class(d) == q) return cst(d == 0 ? 0.0 : d);
  std::string s = q.get_str();
  static std::unordered_map<std::string, unsigned> &m = *new std::unordered_map<std::string, unsigned>();
  auto it = m.find(s);
  if (it != m.end()) return mk(it->second);
  Node n; n.op = O_Q; n.a = n.b = cst(0); n.q = new mpq_class(q); n.z = 0; n.alpha = 0; n.fn = 0; n.lo = n.hi = 0; n.name = s;
  N().push_back(n);
  m[s] = N().size() - 1;
  return mk(N().size() - 1);
}
static double dval(const SymD &a) { return a.id == 0 ? a.c : val(a).get_d(); }
static bool zero(const SymD &a) { return a.id == 0 && a.c == 0; }
static bool one(const SymD &a) { return a.id == 0 && a.c == 1; }

static SymD fold_double(Op op, double x, double y) {
  switch (op) {
  case O_ADD: return cst(x + y); case O_SUB: return cst(x - y); case O_MUL: return cst(x * y); case O_DIV: return cst(x / y);
  default: return cst(0);
  }
}
// representative sign of a symbolic operand meeting an infinity
static double sgn(const SymD &a) {
  if (a.id == 0) return a.c;
  if (is_const(a)) return dval(a);
  if (decide(R_LT, SymD(0), a)) return 1;
  if (decide(R_LT, a, SymD(0))) return -1;
  return 0;
}
SymD bin(Op op, const SymD &a0, const SymD &b0) {
  SymD a = fix(a0), b = fix(b0);
  if (g_fp) {
    if (a.id == 0 && b.id == 0) return fold_double(op, a.c, b.c);
    return node(op, a, b);
  }
  if (nonfinite(a) || nonfinite(b)) return fold_double(op, sgn(a), sgn(b));
  if (is_const(a) && is_const(b)) {
    if (op == O_DIV && val(b) == 0) return fold_double(op, dval(a), dval(b));
    switch (op) {
    case O_ADD: return from_q(val(a) + val(b)); case O_SUB: return from_q(val(a) - val(b));
    case O_MUL: return from_q(val(a) * val(b)); case O_DIV: return from_q(val(a) / val(b));
    default: break;
    }
  }
  switch (op) {
  case O_ADD:
    if (zero(a)) return b;
    if (zero(b)) return a;
    if (a.id > b.id) std::swap(a, b);
    if (b.id && N()[b.id].op == O_NEG) return bin(O_SUB, a, N()[b.id].a);
    return node(O_ADD, a, b);
  case O_SUB:
    if (zero(b)) return a;
    if (a.id == b.id && a.id) return cst(0);
    if (zero(a)) return un(O_NEG, b);
    if (b.id && N()[b.id].op == O_NEG) return bin(O_ADD, a, N()[b.id].a);
    return node(O_SUB, a, b);
  case O_MUL:
    if (zero(a) || zero(b)) return cst(0);
    if (one(a)) return b;
    if (one(b)) return a;
    if (a.id > b.id) std::swap(a, b);           // constants (id 0) and older terms first
    if (is_const(b) && !is_const(a)) std::swap(a, b);
    if (a.id && !is_const(a) && N()[a.id].op == O_NEG) return un(O_NEG, bin(O_MUL, N()[a.id].a, b));
    if (b.id && N()[b.id].op == O_NEG) return un(O_NEG, bin(O_MUL, a, N()[b.id].a));
    if (is_const(a)) {
      if (val(a) < 0) return un(O_NEG, bin(O_MUL, from_q(-val(a)), b));
      if (N()[b.id].op == O_MUL && is_const(N()[b.id].a)) { Node nb = N()[b.id]; return bin(O_MUL, from_q(val(a) * val(nb.a)), nb.b); }
    } else {
      if (N()[a.id].op == O_MUL && is_const(N()[a.id].a)) { Node na = N()[a.id]; return bin(O_MUL, na.a, bin(O_MUL, na.b, b)); }
      if (N()[b.id].op == O_MUL && is_const(N()[b.id].a)) { Node nb = N()[b.id]; return bin(O_MUL, nb.a, bin(O_MUL, a, nb.b)); }
    }
    return node(O_MUL, a, b);
  case O_DIV:
    if (one(b)) return a;
    if (!is_const(b)) {
      if (decide(R_EQ, b, SymD(0))) return fold_double(O_DIV, sgn(a), 0.0);   // inf / nan, as in IEEE
    } else if (zero(b)) return fold_double(O_DIV, sgn(a), 0.0);
    if (zero(a)) return a;
    if (a.id == b.id && a.id) return cst(1);
    if (is_const(b)) return bin(O_MUL, a, from_q(1 / val(b)));
    if (a.id && !is_const(a) && N()[a.id].op == O_NEG) return un(O_NEG, bin(O_DIV, N()[a.id].a, b));
    if (N()[b.id].op == O_NEG) return un(O_NEG, bin(O_DIV, a, N()[b.id].a));
    return node(O_DIV, a, b);
  default: return node(op, a, b);
  }
}
static double fun(Op op, double x) {
  switch (op) {
  case O_NEG: return -x; case O_EXP: return std::exp(x); case O_LOG: return std::log(x); case O_SQRT: return std::sqrt(x);
  case O_SIN: return std::sin(x); case O_COS: return std::cos(x); case O_TAN: return std::tan(x); case O_ACOS: return std::acos(x);
  case O_ASIN: return std::asin(x); case O_ATAN: return std::atan(x); case O_ERF: return std::erf(x); case O_ERFC: return std::erfc(x);
  case O_FLOOR: return std::floor(x);
  default: return x;
  }
}
static void axioms(const SymD &r);
using sym::Cond;
static Cond mkrel(Rel r, const SymD &a0, const SymD &b0);
static Z3_ast zc(const sym::CondRep *c);
static void add(Z3_ast a);
// ---- polynomial normal form (only used to recognise equal arguments of elementary functions)
typedef std::vector<std::pair<unsigned, int>> Mono;
typedef std::map<Mono, mpq_class> Poly;
static std::string pstr(const Poly &p) {
  std::string s;
  for (auto &m : p) { s += m.second.get_str(); for (auto &f : m.first) s += "*" + std::to_string(f.first) + "^" + std::to_string(f.second); s += "+"; }
  return s;
}
static bool pmul(const Poly &a, const Poly &b, Poly &r) {
  if (a.size() * b.size() > 400) return false;
  r.clear();
  for (auto &x : a) for (auto &y : b) {
    std::map<unsigned, int> m;
    for (auto &f : x.first) m[f.first] += f.second;
    for (auto &f : y.first) m[f.first] += f.second;
    Mono k; for (auto &f : m) if (f.second) k.push_back(f);
    mpq_class &c = r[k]; c += x.second * y.second;
    if (c == 0) r.erase(k);
  }
  return true;
}
static std::unordered_map<unsigned, std::pair<bool, Poly>> &pcache() { static std::unordered_map<unsigned, std::pair<bool, Poly>> m; return m; }
static std::unordered_map<std::string, unsigned> invatom;
static std::vector<Poly> invpoly;                                  // 1/invpoly[k] is atom 0x80000000+k
static std::unordered_map<std::string, unsigned> expatom;          // exp(c*monomial), atom 0x40000000+k
static bool poly(const SymD &a, Poly &r, int depth = 0);
static bool surely_positive(unsigned id);
static bool positive_term(const SymD &a);
static std::unordered_map<unsigned, SymD> eqvar;                   // inputs known to be equal to another one (or a constant) on this path
static std::unordered_map<std::string, unsigned> fnatom;
static void equal_inputs(SymD a, SymD b) {
  auto root = [&](SymD t) { for (;;) { auto i = eqvar.find(t.id); if (t.id == 0 || i == eqvar.end()) return t; t = i->second; } };
  auto input = [&](const SymD &t) { return t.id && N()[t.id].op == O_VAR; };
  if (!(input(a) || is_const(a)) || !(input(b) || is_const(b))) return;
  a = root(a); b = root(b);
  if (is_const(a) && is_const(b)) return;
  if (is_const(a) || (input(b) && b.id > a.id)) std::swap(a, b);
  if (a.id == b.id) return;
  eqvar[a.id] = b; pcache().clear();
}
// Y * (1/Y) = 1 where the terms carrying an inverse atom are a multiple of its denominator
static void reduce(Poly &r) {
  std::set<unsigned> ids;
  for (auto &m : r) for (auto &f : m.first) if (f.first >= 0x80000000u && f.second > 0) ids.insert(f.first);
  for (unsigned id : ids) {
    const Poly &Y = invpoly[id - 0x80000000u];
    Poly Q, rest, out;
    for (auto &m : r) {
      bool has = false; Mono k;
      for (auto &f : m.first) if (f.first == id && f.second > 0) { has = true; if (f.second > 1) k.push_back({f.first, f.second - 1}); } else k.push_back(f);
      if (has) Q[k] = m.second; else rest[m.first] = m.second;
    }
    if (Q.size() < Y.size()) continue;
    const Mono &lead = Y.begin()->first; const mpq_class lc = Y.begin()->second;
    bool ok = true;
    for (size_t steps = Q.size(); !Q.empty() && ok; steps--) {
      if (!steps) { ok = false; break; }
      bool found = false;
      for (auto &t : Q) {
        std::map<unsigned, int> e(t.first.begin(), t.first.end());
        bool div = true;
        for (auto &f : lead) { auto i = e.find(f.first); if (i == e.end() || i->second < f.second) { div = false; break; } i->second -= f.second; }
        if (!div) continue;
        Poly one, prod; Mono q; for (auto &f : e) if (f.second) q.push_back(f);
        one[q] = t.second / lc;
        if (!pmul(one, Y, prod)) { ok = false; break; }
        found = true;
        for (auto &x : prod) { mpq_class &c = Q[x.first]; c -= x.second; if (c == 0) Q.erase(x.first); }
        mpq_class &c = out[q]; c += one.begin()->second; if (c == 0) out.erase(q);
        break;
      }
      if (!found) ok = false;
    }
    if (!ok) continue;
    for (auto &x : out) { mpq_class &c = rest[x.first]; c += x.second; if (c == 0) rest.erase(x.first); }
    r.swap(rest);
  }
}
// exp(sum of c*m) as a product of powers of exp(m/q): exp(a)*exp(b) and exp(a+b) get the same normal form
static bool expmono(const Poly &p, Mono &out) {
  std::map<unsigned, int> m;
  if (p.size() > 40) return false;
  for (auto &t : p) {
    mpz_class num = t.second.get_num(), den = t.second.get_den();
    mpq_class c; int e;
    if (abs(num) < 1000 && den < 1000) { c = mpq_class(1, den); c.canonicalize(); e = (int)num.get_si(); } else { c = abs(t.second); e = sgn(t.second); }
    Poly one; one[t.first] = c;
    std::string k = pstr(one);
    auto it = expatom.find(k); unsigned id;
    if (it == expatom.end()) { id = 0x40000000u + expatom.size(); expatom[k] = id; } else id = it->second;
    m[id] += e;
  }
  for (auto &f : m) if (f.second) out.push_back(f);
  return true;
}
// 1/y as a monomial or an inverse atom
static Poly inverse(Poly y) {
  Poly inv;
  if (y.size() == 1) { Mono m = y.begin()->first; for (auto &f : m) f.second = -f.second; inv[m] = 1 / y.begin()->second; return inv; }
  mpq_class lead = y.begin()->second; for (auto &m : y) m.second /= lead;      // scale so that the leading coefficient is one
  std::string s = pstr(y); auto f = invatom.find(s); unsigned id;
  if (f == invatom.end()) { id = 0x80000000u + invatom.size(); invatom[s] = id; invpoly.push_back(y); } else id = f->second;
  Mono m; m.push_back({id, 1}); inv[m] = 1 / lead;
  return inv;
}
static bool poly(const SymD &a, Poly &r, int depth) {
  r.clear();
  if (is_const(a)) { if (nonfinite(a)) return false; if (val(a) != 0) r[Mono()] = val(a); return true; }
  auto it = pcache().find(a.id);
  if (it != pcache().end()) { r = it->second.second; return it->second.first; }
  if (depth > 400) return false;
  auto same = eqvar.find(a.id);
  if (same != eqvar.end()) { bool k = poly(same->second, r, depth + 1); pcache()[a.id] = {k, r}; return k; }
  Node n = N()[a.id];
  bool ok = true; Poly x, y;
  switch (n.op) {
  case O_ADD: case O_SUB:
    ok = poly(n.a, x, depth + 1) && poly(n.b, y, depth + 1);
    if (ok) { r = x; for (auto &m : y) { mpq_class &c = r[m.first]; if (n.op == O_ADD) c += m.second; else c -= m.second; if (c == 0) r.erase(m.first); } ok = r.size() < 400; if (ok) reduce(r); }
    break;
  case O_NEG: ok = poly(n.a, x, depth + 1); if (ok) { r = x; for (auto &m : r) m.second = -m.second; } break;
  case O_MUL: ok = poly(n.a, x, depth + 1) && poly(n.b, y, depth + 1) && pmul(x, y, r); if (ok) reduce(r); break;
  case O_DIV:
    ok = poly(n.a, x, depth + 1) && poly(n.b, y, depth + 1) && y.size() > 0;
    if (ok) {
      Poly inv = inverse(y);
      ok = pmul(x, inv, r);
      if (ok) reduce(r);
    }
    break;
  case O_EXP: {
    Mono m;
    if (!poly(n.a, x, depth + 1)) { m.push_back({a.id, 1}); r[m] = 1; break; }
    // exp(k log y + rest) = y^k exp(rest) for whole k (y > 0: the logarithm decided that on this path)
    Poly rest, fac; fac[Mono()] = 1;
    bool logs = true;
    for (auto &t : x) {
      Poly y1, z;
      if (t.first.size() == 1 && t.first[0].second == 1 && t.first[0].first < 0x40000000u && N()[t.first[0].first].op == O_LOG &&
          t.second.get_den() == 1 && abs(t.second.get_num()) <= 4 && poly(N()[t.first[0].first].a, y1, depth + 1) && y1.size() && y1.size() < 60) {
        int k = (int)t.second.get_num().get_si();
        if (k < 0) { z = inverse(y1); y1 = z; k = -k; }
        for (int i = 0; i < k && logs; i++) { logs = pmul(fac, y1, z); fac.swap(z); }
        if (!logs) break;
      } else rest[t.first] = t.second;
    }
    if (logs && rest.size() < x.size()) {
      if (rest.empty()) { r = fac; reduce(r); break; }
      Poly one;
      if (expmono(rest, m)) { one[m] = 1; if (pmul(fac, one, r)) { reduce(r); break; } }
      r.clear(); m.clear();
    }
    if (expmono(x, m)) r[m] = 1; else { m.push_back({a.id, 1}); r[m] = 1; }
    break;
  }
  default: {
    unsigned id = a.id;
    if (n.op == O_LOG && eqvar.size() && poly(n.a, x, depth + 1) && x.size() == 1 && x.begin()->second > 0 && (x.begin()->second != 1 || x.begin()->first.size() > 1)) {
      Mono m = x.begin()->first; bool split = m.size() > 0;
      for (auto &f : m) split = split && f.first < 0x40000000u && surely_positive(f.first);
      if (split) {
        double c = std::log(x.begin()->second.get_d());
        if (c != 0) r[Mono()] = mpq_class(c);
        for (auto &f : m) { if (!poly(un(O_LOG, mk(f.first)), y, depth + 1)) ok = false; for (auto &t : y) { mpq_class &q = r[t.first]; q += f.second * t.second; if (q == 0) r.erase(t.first); } }
        break;
      }
    }
    if (n.op > O_NEG && n.op != O_VAR && eqvar.size() && poly(n.a, x, depth + 1)) {       // the same function of equal arguments
      if (x.empty() || (x.size() == 1 && x.begin()->first.empty())) {
        double v = x.empty() ? 0.0 : x.begin()->second.get_d(), w = n.op == O_UF ? n.fn(cst(v)).c : fun(n.op, v);
        if (std::isfinite(w)) { if (w != 0) r[Mono()] = mpq_class(w); break; }
      }
      std::string k = std::to_string((int)n.op) + n.name + ":" + pstr(x);
      auto f = fnatom.find(k);
      if (f == fnatom.end()) fnatom[k] = id; else id = f->second;
    }
    Mono m; m.push_back({id, 1}); r[m] = 1; }
  }
  if (!ok) r.clear();
  pcache()[a.id] = {ok, r};
  return ok;
}
// is p zero once every inverse atom is multiplied out?  (denominators are non-zero: each division decided that on this path)
static bool vanishes(Poly p) {
  for (int round = 0; round < 12; round++) {
    if (p.empty()) return true;
    unsigned id = 0;
    for (auto &m : p) for (auto &f : m.first) if (f.first >= 0x80000000u && f.first > id) id = f.first;
    if (!id) return false;
    int K = 0, lowest = 0;
    for (auto &m : p) for (auto &f : m.first) if (f.first == id) { K = std::max(K, f.second); lowest = std::min(lowest, f.second); }
    if (K - lowest > 8) return false;
    const Poly Y = invpoly[id - 0x80000000u];
    std::vector<Poly> pw(K - lowest + 1);
    pw[0][Mono()] = 1;
    for (int k = 1; k <= K - lowest; k++) if (!pmul(pw[k - 1], Y, pw[k])) return false;
    Poly r;
    for (auto &m : p) {
      int k = 0; Mono rest;
      for (auto &f : m.first) if (f.first == id) k = f.second; else rest.push_back(f);
      Poly one, t; one[rest] = m.second;
      if (!pmul(one, pw[K - k], t)) return false;
      for (auto &x : t) { mpq_class &c = r[x.first]; c += x.second; if (c == 0) r.erase(x.first); }
      if (r.size() > 4000) return false;
    }
    p.swap(r);
  }
  return p.empty();
}
static std::unordered_map<std::string, unsigned> ufs;
static std::unordered_map<unsigned, bool> positive_;
typedef std::unordered_map<unsigned, double> Env;
static Z3_lbool feasible(const Cond &extra, Env *m);
static bool surely_positive(unsigned id) {
  if (id >= 0x40000000u) return id < 0x80000000u;
  const Node &n = N()[id];
  if (n.op == O_EXP) return true;
  if (n.op == O_VAR && n.lo > 0) return true;
  auto it = positive_.find(id);
  if (it != positive_.end()) return it->second;
  bool r = feasible(mkrel(R_LE, mk(id), cst(0)), 0) == Z3_L_FALSE;
  if (r) positive_[id] = r;
  return r;
}
SymD un(Op op, const SymD &a0) {
  SymD a = fix(a0);
  if (op == O_NEG) {
    if (a.id == 0) return cst(g_fp ? -a.c : (a.c == 0 ? 0.0 : -a.c));
    if (!g_fp) {
      if (is_const(a)) return from_q(-val(a));
      if (N()[a.id].op == O_NEG) return N()[a.id].a;
      if (N()[a.id].op == O_SUB) return bin(O_SUB, N()[a.id].b, N()[a.id].a);
    }
    return node(op, a, cst(0));
  }
  if (is_const(a)) return cst(fun(op, dval(a)));
  if (g_fp) return node(op, a, cst(0));
  if (op == O_EXP && N()[a.id].op == O_LOG) return N()[a.id].a;
  if (op == O_LOG) {
    if (N()[a.id].op == O_EXP) return N()[a.id].a;
    if (decide(R_LE, a, SymD(0))) return decide(R_EQ, a, SymD(0)) ? cst(-INFINITY) : cst(NAN);
    Node na = N()[a.id];                       // log of a product or quotient of positive terms
    if ((na.op == O_MUL || na.op == O_DIV) && !is_const(na.a) && !is_const(na.b) && positive_term(na.a) && positive_term(na.b))
      return bin(na.op == O_MUL ? O_ADD : O_SUB, un(O_LOG, na.a), un(O_LOG, na.b));
  }
  if (op == O_SQRT && decide(R_LT, a, SymD(0))) return cst(NAN);
  if ((op == O_ACOS || op == O_ASIN) && (decide(R_LT, a, SymD(-1)) || decide(R_LT, SymD(1), a))) return cst(NAN);
  if (N()[a.id].op == O_NEG) {
    if (op == O_SIN || op == O_TAN || op == O_ASIN || op == O_ATAN || op == O_ERF) return un(O_NEG, un(op, N()[a.id].a));
    if (op == O_COS) return un(op, N()[a.id].a);
  }
  Poly p;
  if (op != O_NEG && poly(a, p)) {
    if (p.size() == 0) return cst(fun(op, 0));
    if (p.size() == 1 && p.begin()->first.empty()) return cst(fun(op, p.begin()->second.get_d()));
    if (op == O_EXP && p.size() == 1 && p.begin()->second == 1 && p.begin()->first.size() == 1) {    // exp(log y)
      auto f = p.begin()->first[0];
      if (f.second == 1 && f.first < 0x40000000u && N()[f.first].op == O_LOG) return N()[f.first].a;
    }
    std::string k = std::to_string((int)op) + ":" + pstr(p);
    auto it = ufs.find(k);
    if (it != ufs.end()) return mk(it->second);
    SymD r = node(op, a, cst(0));
    ufs[k] = r.id;
    return r;
  }
  return node(op, a, cst(0));
}
// a function the check treats as arbitrary (congruence only); f gives its concrete values
static SymD uf(const std::string &name, SymD (*f)(const SymD &), const SymD &a0) {
  SymD a = fix(a0);
  if (a.id == 0) return f(a);
  if (is_const(a)) return f(cst(dval(a)));
  Poly p;
  std::string k = "uf " + name + ":" + (poly(a, p) ? pstr(p) : "#" + std::to_string(a.id));
  auto it = ufs.find(k);
  if (it != ufs.end()) return mk(it->second);
  Node n; n.op = O_UF; n.a = a; n.b = cst(0); n.q = 0; n.z = 0; n.alpha = 0; n.fn = f; n.lo = n.hi = 0; n.name = name;
  N().push_back(n);
  SymD r = mk(N().size() - 1);
  ufs[k] = r.id;
  return r;
}
static std::string argkey(const std::string &name, const std::vector<SymD> &v) {
  std::string k = "uf " + name;
  for (auto &t : v) { SymD a = fix(t); Poly p; k += ":"; if (is_const(a)) k += std::to_string(bits(dval(a))); else if (poly(a, p)) k += pstr(p); else k += "#" + std::to_string(a.id); }
  return k;
}
bool is_nan(const SymD &a0) { SymD a = fix(a0); if (a.id == 0) return std::isnan(a.c); if (g_fp) return !decide(R_EQ, a, a); return false; }
bool is_inf(const SymD &a0) { SymD a = fix(a0); if (a.id == 0) return std::isinf(a.c); if (g_fp) { return decide(R_EQ, a, SymD(INFINITY)) || decide(R_EQ, a, SymD(-INFINITY)); } return false; }
SymD f_pow(const SymD &a0, const SymD &b0) {
  SymD a = fix(a0), b = fix(b0);
  if (is_const(a) && is_const(b)) {
    double e = dval(b);
    if (e == std::floor(e) && std::fabs(e) <= 64 && !nonfinite(a)) {
      SymD r = cst(1); for (int i = 0; i < (int)std::fabs(e); i++) r = bin(O_MUL, r, a);
      return e < 0 ? bin(O_DIV, cst(1), r) : r;
    }
    return cst(std::pow(dval(a), e));
  }
  if (is_const(b)) {
    double e = dval(b);
    if (e == 0.5) return un(O_SQRT, a);
    if (e == std::floor(e) && std::fabs(e) <= 64) {
      SymD r = cst(1); for (int i = 0; i < (int)std::fabs(e); i++) r = bin(O_MUL, r, a);
      return e < 0 ? bin(O_DIV, cst(1), r) : r;
    }
  }
  if (decide(R_LE, a, SymD(0))) { if (decide(R_EQ, a, SymD(0))) return decide(R_LT, SymD(0), b) ? cst(0) : cst(INFINITY); return cst(NAN); }
  return un(O_EXP, bin(O_MUL, b, un(O_LOG, a)));
}
SymD f_floor(const SymD &a) { if (is_const(fix(a))) return cst(std::floor(dval(fix(a)))); if (decide(R_LE, SymD(0), a)) return SymD((double)concretise_int(a)); SymD t((double)concretise_int(a)); return decide(R_EQ, t, a) ? t : t - SymD(1); }
SymD f_fmod(const SymD &a, const SymD &b) { SymD q = bin(O_DIV, a, b); return a - SymD((double)concretise_int(q)) * b; }

// ---- reduced univariate rational functions: n(x)/d(x)
typedef std::vector<mpq_class> UP;
static void utrim(UP &p) { while (p.size() && p.back() == 0) p.pop_back(); }
static UP uadd(const UP &a, const UP &b, int s) { UP r(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) { if (s > 0) r[i] += b[i]; else r[i] -= b[i]; } utrim(r); return r; }
static UP umul(const UP &a, const UP &b) { if (a.empty() || b.empty()) return UP(); UP r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; utrim(r); return r; }
static void udivrem(UP a, const UP &b, UP &q, UP &r) { q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, mpq_class(0)); while (a.size() >= b.size() && a.size()) { mpq_class c = a.back() / b.back(); size_t k = a.size() - b.size(); q[k] = c; for (size_t i = 0; i < b.size(); i++) a[i + k] -= c * b[i]; a.pop_back(); utrim(a); } r = a; }
static UP umonic(UP p) { if (p.size()) { mpq_class l = p.back(); for (auto &c : p) c /= l; } return p; }
static UP ugcd(UP a, UP b) { while (b.size()) { UP q, r; udivrem(a, b, q, r); a = b; b = umonic(r); } return umonic(a); }
struct UR { bool ok; unsigned var; UP n, d; bool div; };
static std::unordered_map<unsigned, UR> &ucache() { static std::unordered_map<unsigned, UR> m; return m; }
static bool g_univariate = false;
static UR urat(const SymD &a) {
  UR r; r.ok = true; r.var = 0; r.div = false; r.d = UP(1, mpq_class(1));
  if (is_const(a)) { if (nonfinite(a)) r.ok = false; else if (val(a) != 0) r.n = UP(1, val(a)); return r; }
  auto it = ucache().find(a.id);
  if (it != ucache().end()) return it->second;
  Node n = N()[a.id];
  if (n.op == O_ADD || n.op == O_SUB || n.op == O_MUL || n.op == O_DIV || n.op == O_NEG) {
    UR x = urat(n.a), y = n.op == O_NEG ? urat(cst(0)) : urat(n.b);
    r.ok = x.ok && y.ok && (!x.var || !y.var || x.var == y.var);
    if (r.ok) {
      r.var = x.var ? x.var : y.var; r.div = x.div || y.div || n.op == O_DIV;
      switch (n.op) {
      case O_ADD: case O_SUB: r.n = uadd(umul(x.n, y.d), umul(y.n, x.d), n.op == O_ADD ? 1 : -1); r.d = umul(x.d, y.d); break;
      case O_NEG: r.n = uadd(UP(), x.n, -1); r.d = x.d; break;
      case O_MUL: r.n = umul(x.n, y.n); r.d = umul(x.d, y.d); break;
      default: r.n = umul(x.n, y.d); r.d = umul(x.d, y.n); if (r.d.empty()) r.ok = false;
      }
      if (r.ok && r.n.size() && r.d.size() > 1) { UP g = ugcd(r.n, r.d); if (g.size() > 1) { UP q, m; udivrem(r.n, g, q, m); r.n = q; udivrem(r.d, g, q, m); r.d = q; } }
      if (r.ok && r.n.empty()) r.d = UP(1, mpq_class(1));
      if (r.n.size() > 120 || r.d.size() > 120) r.ok = false;
    }
  } else { r.var = a.id; r.n = UP(2); r.n[1] = 1; }
  ucache()[a.id] = r;
  return r;
}
static Z3_ast z(const SymD &a);
static Z3_ast upoly(const UP &p, unsigned var) {
  mpz_class l = 1; for (auto &c : p) { mpz_class g = lcm(l, c.get_den()); l = g; }
  Z3_ast x = z(mk(var)), r = 0;
  for (size_t i = p.size(); i-- > 0;) {
    mpq_class c = p[i] * l; Z3_ast k = Z3_mk_numeral(C, c.get_str().c_str(), RS);
    if (!r) r = k; else { Z3_ast t[2] = {r, x}; Z3_ast m = Z3_mk_mul(C, 2, t); Z3_ast u[2] = {m, k}; r = Z3_mk_add(C, 2, u); }
  }
  return r ? r : Z3_mk_numeral(C, "0", RS);
}
// ------------------------------------------------------------------ translation to Z3
static Z3_ast num(const SymD &a) {
  std::string s = val(a).get_str();
  return Z3_mk_numeral(C, s.c_str(), RS);
}
static Z3_ast z(const SymD &a) {
  if (g_fp) {
    if (a.id == 0) return Z3_mk_fpa_numeral_double(C, a.c, FS);
  } else if (a.id == 0) {
    if (!std::isfinite(a.c)) { fprintf(stderr, "non-finite constant in a real term\n"); _exit(91); }
    return num(a);
  }
  Node n = N()[a.id];
  if (n.z) return n.z;
  Z3_ast r = 0, x[2]; bool fn = false;
  if (g_fp) {
    Z3_ast rm = Z3_mk_fpa_rne(C);
    if (n.op == O_VAR) { r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.name.c_str()), FS); }
    else {
      x[0] = z(n.a); x[1] = z(n.b);
      switch (n.op) {
      case O_ADD: r = Z3_mk_fpa_add(C, rm, x[0], x[1]); break; case O_SUB: r = Z3_mk_fpa_sub(C, rm, x[0], x[1]); break;
      case O_MUL: r = Z3_mk_fpa_mul(C, rm, x[0], x[1]); break; case O_DIV: r = Z3_mk_fpa_div(C, rm, x[0], x[1]); break;
      case O_NEG: r = Z3_mk_fpa_neg(C, x[0]); break; case O_SQRT: r = Z3_mk_fpa_sqrt(C, rm, x[0]); break;
      default: { Z3_sort d[1] = {FS}; r = Z3_mk_app(C, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("uf" + std::to_string((int)n.op)).c_str()), 1, d, FS), 1, x); }
      }
    }
  } else {
    switch (n.op) {
    case O_VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.name.c_str()), RS); break;
    case O_Q: r = num(a); break;
    case O_ADD: x[0] = z(n.a); x[1] = z(n.b); r = Z3_mk_add(C, 2, x); break;
    case O_SUB: x[0] = z(n.a); x[1] = z(n.b); r = Z3_mk_sub(C, 2, x); break;
    case O_MUL: x[0] = z(n.a); x[1] = z(n.b); r = Z3_mk_mul(C, 2, x); break;
    case O_DIV: { // q * b = a with b != 0 on this path
      char nm[32]; snprintf(nm, sizeof nm, "q!%u", a.id);
      Z3_ast A = z(n.a), B = z(n.b);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), RS);
      x[0] = r; x[1] = B;
      Z3_ast e = Z3_mk_eq(C, Z3_mk_mul(C, 2, x), A);
      Z3_inc_ref(C, e); Z3_solver_assert(C, Z, e); asserted.push_back(e);
      break; }
    case O_NEG: r = Z3_mk_unary_minus(C, z(n.a)); break;
    default: { char nm[32]; snprintf(nm, sizeof nm, "f%d!%u", (int)n.op, a.id); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), RS); fn = true; }
    }
  }
  Z3_inc_ref(C, r);
  N()[a.id].z = r;
  if (fn) axioms(a);     // only terms the solver sees carry their facts
  return r;
}
static Z3_ast zrel(Rel r, const SymD &a, const SymD &b) {
  if (g_univariate && !g_fp) {
    UR u = urat(node(O_SUB, a, b));
    if (u.ok && u.var && (u.div || u.n.size() > 2)) {
      Z3_ast zero = Z3_mk_numeral(C, "0", RS), n = upoly(u.n, u.var);
      if (r == R_EQ) return Z3_mk_eq(C, n, zero);
      auto rel = [&](Z3_ast p, bool pos) { return r == R_LT ? (pos ? Z3_mk_gt(C, p, zero) : Z3_mk_lt(C, p, zero)) : (pos ? Z3_mk_ge(C, p, zero) : Z3_mk_le(C, p, zero)); };
      bool allpos = true, allneg = true; for (auto &c : u.d) { if (c < 0) allpos = false; if (c > 0) allneg = false; }
      Node &v = N()[u.var];
      if (v.op == O_VAR && v.lo > 0 && (allpos || allneg)) return rel(n, allneg);
      Z3_ast d = upoly(u.d, u.var);
      Z3_ast x[2] = {rel(n, false), Z3_mk_gt(C, d, zero)}, y[2] = {rel(n, true), Z3_mk_lt(C, d, zero)};
      Z3_ast o[2] = {Z3_mk_and(C, 2, x), Z3_mk_and(C, 2, y)};
      return Z3_mk_or(C, 2, o);
    }
  }
  Z3_ast x = z(a), y = z(b);
  if (g_fp) return r == R_LT ? Z3_mk_fpa_lt(C, x, y) : r == R_LE ? Z3_mk_fpa_leq(C, x, y) : Z3_mk_fpa_eq(C, x, y);
  return r == R_LT ? Z3_mk_lt(C, x, y) : r == R_LE ? Z3_mk_le(C, x, y) : Z3_mk_eq(C, x, y);
}
} // namespace symx

// ------------------------------------------------------------------ conditions
namespace sym {
struct CondRep { int k; /*0 rel 1 not 2 and 3 or 4 const*/ symx::Rel r; SymD a, b; std::shared_ptr<CondRep> x, y; bool v; };
}
namespace symx {
using sym::Cond; using sym::CondRep;
static Cond mkrel(Rel r, const SymD &a0, const SymD &b0) {
  SymD a = fix(a0), b = fix(b0);
  auto p = std::make_shared<CondRep>();
  if (!g_fp) {
    if (nonfinite(a) || nonfinite(b)) {
      double x = nonfinite(a) ? a.c : (is_const(a) ? dval(a) : 0), y = nonfinite(b) ? b.c : (is_const(b) ? dval(b) : 0);
      p->k = 4; p->v = r == R_LT ? x < y : r == R_LE ? x <= y : x == y; return {p};
    }
    if (is_const(a) && is_const(b)) { p->k = 4; p->v = r == R_LT ? val(a) < val(b) : r == R_LE ? val(a) <= val(b) : val(a) == val(b); return {p}; }
    if (a.id == b.id) { p->k = 4; p->v = r != R_LT; return {p}; }
  } else if (a.id == 0 && b.id == 0) { p->k = 4; p->v = r == R_LT ? a.c < b.c : r == R_LE ? a.c <= b.c : a.c == b.c; return {p}; }
  p->k = 0; p->r = r; p->a = a; p->b = b;
  return {p};
}
static Z3_ast zc(const CondRep *c) {
  switch (c->k) {
  case 0: return zrel(c->r, c->a, c->b);
  case 1: return Z3_mk_not(C, zc(c->x.get()));
  case 2: { Z3_ast x[2] = {zc(c->x.get()), zc(c->y.get())}; return Z3_mk_and(C, 2, x); }
  case 3: { Z3_ast x[2] = {zc(c->x.get()), zc(c->y.get())}; return Z3_mk_or(C, 2, x); }
  default: return c->v ? Z3_mk_true(C) : Z3_mk_false(C);
  }
}
// ------------------------------------------------------------------ concrete evaluation of terms
static double ev(const SymD &a, Env &e) {
  if (a.id == 0) return a.c;
  auto it = e.find(a.id);
  if (it != e.end()) return it->second;
  Node n = N()[a.id];
  double r = 0;
  switch (n.op) {
  case O_VAR: r = n.alpha ? (*n.alpha)[0] : 0.5 * (n.lo + n.hi); break;
  case O_Q: r = val(a).get_d(); break;
  case O_ADD: r = ev(n.a, e) + ev(n.b, e); break; case O_SUB: r = ev(n.a, e) - ev(n.b, e); break;
  case O_MUL: r = ev(n.a, e) * ev(n.b, e); break; case O_DIV: r = ev(n.a, e) / ev(n.b, e); break;
  case O_UF: r = n.fn(cst(ev(n.a, e))).c; break;
  default: r = fun(n.op, ev(n.a, e));
  }
  e[a.id] = r;
  return r;
}
// robust truth under a concrete environment: 1 / 0, or -1 when rounding could matter
static int ev3(const CondRep *c, Env &e) {
  switch (c->k) {
  case 0: {
    double x = ev(c->a, e), y = ev(c->b, e), t = 1e-9 * std::max(std::fabs(x), std::fabs(y)) + 1e-300;
    if (g_fp) return c->r == R_LT ? x < y : c->r == R_LE ? x <= y : x == y;
    if (x < y - t) return c->r != R_EQ;
    if (x > y + t) return 0;
    return -1; }
  case 1: { int r = ev3(c->x.get(), e); return r < 0 ? r : !r; }
  case 2: { int a = ev3(c->x.get(), e), b = ev3(c->y.get(), e); return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
  case 3: { int a = ev3(c->x.get(), e), b = ev3(c->y.get(), e); return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0; }
  default: return c->v;
  }
}
// slack > 0: equalities and non-strict inequalities hold up to rounding
static bool evc(const CondRep *c, Env &e, double slack) {
  switch (c->k) {
  case 0: {
    double x = ev(c->a, e), y = ev(c->b, e), t = slack * std::max(std::fabs(x), std::fabs(y));
    if (g_fp) return c->r == R_LT ? x < y : c->r == R_LE ? x <= y : x == y;
    return c->r == R_LT ? x < y : c->r == R_LE ? x <= y + t : std::fabs(x - y) <= t + (slack > 0 ? 1e-14 : 0); }
  case 1: return !evc(c->x.get(), e, 0);
  case 2: return evc(c->x.get(), e, slack) && evc(c->y.get(), e, slack);
  case 3: return evc(c->x.get(), e, slack) || evc(c->y.get(), e, slack);
  default: return c->v;
  }
}
// ------------------------------------------------------------------ path state
static std::vector<Cond> pc;
static std::map<std::tuple<int, unsigned, uint64_t, unsigned, uint64_t>, bool> memo;
static std::vector<pid_t> kids;
static std::map<std::string, int> seen;
static std::map<std::string, std::string> chosen;
static int ndec = 0, nchecks = 0;
static bool maybe_infeasible = false, path_bad = false;
static Env *cur = 0;          // a concrete environment satisfying pc, when known
static std::mt19937_64 rng;

static void emit(const std::string &s) { if (g_out >= 0) { std::string t = s + "\n"; if (write(g_out, t.data(), t.size()) < 0) {} } }
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string dstr(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string inputs_json(Env &e) {
  std::string s = "{"; bool first = true;
  for (auto &k : chosen) { s += (first ? "" : ",") + js(k.first) + ":" + js(k.second); first = false; }
  for (unsigned v : vars) { s += (first ? "" : ",") + js(N()[v].name) + ":" + js(dstr(ev(mk(v), e))); first = false; }
  return s + "}";
}
static void wait_kids() { for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { __sync_fetch_and_sub(&S->running, 1); INC(crash); } else if (WEXITSTATUS(st) >= 90) { __sync_fetch_and_sub(&S->running, 1); INC(crash); } } kids.clear(); }
static void finish() { __sync_fetch_and_sub(&S->running, 1); wait_kids(); _exit(0); }
static void end_path() { INC(paths); finish(); }
static void kill_path() { INC(killed); finish(); }

static volatile int alarms = 0;
static void give_up();
static void on_alarm(int) {      // first: ask the solver to stop; when it does not listen, this path is abandoned (and counted)
  if (C) Z3_interrupt(C);
  if (++alarms > 3) give_up();
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 4; setitimer(ITIMER_REAL, &t, 0);
}
static void arm(int ms) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_REAL, &t, 0); }
static volatile bool in_solver = false;

static Z3_lbool run(Z3_solver s, int ms) {
  double t0 = now();
  in_solver = true; alarms = 0;
  arm(ms);
  Z3_lbool r = Z3_solver_check(C, s);
  arm(0);
  in_solver = false;
  double dt = now() - t0;
  if (dt > 2 && getenv("SYMX_DEBUG")) fprintf(stderr, "SLOW %g s: %s\n", dt, Z3_solver_to_string(C, s));
  INC(queries);
  if (r == Z3_L_TRUE) INC(q_sat); else if (r == Z3_L_FALSE) INC(q_unsat); else INC(q_unknown);
  lock(); S->solver_s += dt; if (dt > S->maxq_s) S->maxq_s = dt; unlock();
  return r;
}
static void add(Z3_ast a) { Z3_inc_ref(C, a); asserted.push_back(a); Z3_solver_assert(C, Z, a); }
static Z3_model last_model = 0;
static Env sop; static bool sop_valid = false;     // assignment found by the second engine
static void keep_model(Z3_solver s) { sop_valid = false; if (last_model) Z3_model_dec_ref(C, last_model); last_model = Z3_solver_get_model(C, s); if (last_model) Z3_model_inc_ref(C, last_model); }
static void model_env(Env &e) {
  if (sop_valid) { e = sop; return; }
  e.clear();
  for (unsigned v : vars) {
    Z3_ast out = 0;
    Node n = N()[v];
    double d = n.alpha ? (*n.alpha)[0] : 0.5 * (n.lo + n.hi);
    if (n.z && last_model && Z3_model_eval(C, last_model, n.z, true, &out) && out) {
      if (g_fp) {
        Z3_ast bv = Z3_mk_fpa_to_ieee_bv(C, out); Z3_ast o2 = 0;
        if (Z3_model_eval(C, last_model, bv, true, &o2) && o2 && Z3_get_ast_kind(C, o2) == Z3_NUMERAL_AST) { uint64_t u; if (Z3_get_numeral_uint64(C, o2, &u)) memcpy(&d, &u, 8); }
        else { // NaN has no unique bit pattern
          d = NAN; }
      } else if (Z3_get_ast_kind(C, out) == Z3_NUMERAL_AST && Z3_is_numeral_ast(C, out)) {
        mpq_class q(Z3_get_numeral_string(C, out)); d = q.get_d();
      } else if (Z3_is_algebraic_number(C, out)) {
        Z3_ast lo = Z3_get_algebraic_number_lower(C, out, 20); mpq_class q(Z3_get_numeral_string(C, lo)); d = q.get_d();
      }
    }
    if (!g_fp && !n.alpha) { if (d < n.lo) d = n.lo; if (d > n.hi) d = n.hi; }
    e[v] = d;
  }
}
static bool pc_ok(Env &e) { for (auto &c : pc) if (!evc(c.p.get(), e, 1e-12)) return false; return true; }
static void assume_raw(const Cond &c) { pc.push_back(c); add(zc(c.p.get())); }

static void path_bound(const char *why) { (void)why; INC(bound); finish(); }
static void fork_side(const std::function<void(bool)> &take) {
  // take(true) in the child, take(false) in the parent
  INC(forks);
  bool async = false;
  if (__sync_add_and_fetch(&S->running, 1) <= g_jobs) async = true; else __sync_fetch_and_sub(&S->running, 1);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); INC(bound); take(false); return; }
  if (p == 0) { kids.clear(); rng.seed(g_seed * 7919 + getpid()); take(true); return; }
  if (async) kids.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFSIGNALED(st) || WEXITSTATUS(st) >= 90)) __sync_add_and_fetch(&S->running, 1); else INC(crash); }
  take(false);
}
// three-valued feasibility of pc and c
static Z3_lbool second_opinion(const Cond &c);
static Z3_lbool feasible(const Cond &c, Env *out) {
  if (g_univariate && !g_fp) { Z3_lbool r = second_opinion(c); if (r == Z3_L_TRUE && out) model_env(*out); return r; }
  Z3_solver_push(C, Z);
  size_t na = asserted.size();
  Z3_ast f = zc(c.p.get());
  // definitional side conditions created while translating c must survive the pop
  Z3_solver_assert(C, Z, f);
  Z3_lbool r = run(Z, g_qms);
  if (r == Z3_L_TRUE) { keep_model(Z); if (out) model_env(*out); }
  Z3_solver_pop(C, Z, 1);
  for (size_t i = na; i < asserted.size(); i++) Z3_solver_assert(C, Z, asserted[i]);
  return r;
}
static void report_path(const std::string &label, const std::string &detail);
// Sound ranges from the declared bounds of the inputs (outward rounded): most sign questions need no solver.
struct Range { double lo, hi; int sg; };     // sg: 1 > 0, -1 < 0, 2 >= 0, -2 <= 0, 0 unknown
static std::vector<Range> &ranges() { static std::vector<Range> r; return r; }
static std::vector<char> rangeknown;
static double dn(double x) { return std::isfinite(x) ? x - std::fabs(x) * 1e-12 - 1e-290 : (x > 0 ? DBL_MAX : x); }
static double up(double x) { return std::isfinite(x) ? x + std::fabs(x) * 1e-12 + 1e-290 : (x < 0 ? -DBL_MAX : x); }
static int psign(const Poly &p, int depth);
static Range range(const SymD &a) {
  if (is_const(a)) { double v = dval(a); Range r = {a.id ? dn(v) : v, a.id ? up(v) : v, v > 0 ? 1 : v < 0 ? -1 : a.id ? 0 : 2}; if (std::isnan(v)) r = {-INFINITY, INFINITY, 0}; return r; }
  if (rangeknown.size() < N().size()) { rangeknown.resize(N().size() + 256, 0); ranges().resize(rangeknown.size()); }
  if (rangeknown[a.id]) return ranges()[a.id];
  Node n = N()[a.id];
  Range r = {-INFINITY, INFINITY, 0}, x, y;
  auto pos = [](int s) { return s == 1; }; auto nn = [](int s) { return s == 1 || s == 2; };
  auto ng = [](int s) { return s == -1; }; auto np = [](int s) { return s == -1 || s == -2; };
  auto neg = [](int s) { return -s; };
  auto hull = [&](double p, double q, double u, double v) { double m[] = {p, q, u, v}; for (double d : m) if (std::isnan(d)) return; r.lo = dn(*std::min_element(m, m + 4)); r.hi = up(*std::max_element(m, m + 4)); };
  auto mulsign = [&](int s, int t) { if (s == 0 || t == 0) return 0; int sign = ((s > 0) == (t > 0)) ? 1 : -1; return (std::abs(s) == 1 && std::abs(t) == 1) ? sign : 2 * sign; };
  switch (n.op) {
  case O_VAR: r.lo = n.lo; r.hi = n.hi; break;
  case O_NEG: x = range(n.a); r = {-x.hi, -x.lo, neg(x.sg)}; break;
  case O_ADD: case O_SUB:
    x = range(n.a); y = range(n.b);
    if (n.op == O_SUB) { double t = y.lo; y.lo = -y.hi; y.hi = -t; y.sg = neg(y.sg); }
    r.lo = dn(x.lo + y.lo); r.hi = up(x.hi + y.hi);
    if (std::isnan(r.lo)) r.lo = -INFINITY; if (std::isnan(r.hi)) r.hi = INFINITY;
    if ((pos(x.sg) && nn(y.sg)) || (nn(x.sg) && pos(y.sg))) r.sg = 1; else if (nn(x.sg) && nn(y.sg)) r.sg = 2;
    else if ((ng(x.sg) && np(y.sg)) || (np(x.sg) && ng(y.sg))) r.sg = -1; else if (np(x.sg) && np(y.sg)) r.sg = -2;
    break;
  case O_MUL:
    x = range(n.a); y = range(n.b);
    hull(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi); r.sg = mulsign(x.sg, y.sg);
    if (n.a.id == n.b.id && n.a.id) r.sg = std::abs(x.sg) == 1 ? 1 : 2;
    break;
  case O_DIV:
    x = range(n.a); y = range(n.b);
    if (y.lo > 0 || y.hi < 0) hull(x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi);
    if (std::abs(y.sg) == 1) r.sg = mulsign(x.sg, y.sg); else if (y.sg) r.sg = mulsign(x.sg, y.sg > 0 ? 1 : -1);   // the divisor is not zero on this path
    break;
  case O_EXP: x = range(n.a); r.lo = std::max(0.0, dn(std::exp(x.lo))); r.hi = up(std::exp(x.hi)); r.sg = 1; break;
  case O_LOG: x = range(n.a); if (x.lo > 0) r.lo = dn(std::log(x.lo)) - 1e-13; if (x.hi > 0) r.hi = up(std::log(x.hi)) + 1e-13; break;
  case O_SQRT: x = range(n.a); r.lo = x.lo > 0 ? std::max(0.0, dn(std::sqrt(x.lo))) : 0; if (x.hi >= 0) r.hi = up(std::sqrt(x.hi)); r.sg = x.sg == 1 ? 1 : 2; break;
  case O_SIN: case O_COS: {
    r.lo = -1; r.hi = 1; x = range(n.a);
    if (x.lo > -10 && x.hi < 10 && x.hi - x.lo < 6) {      // ends and turning points
      double sh = n.op == O_COS ? M_PI / 2 : 0, l = x.lo + sh, h = x.hi + sh, a = std::sin(l), b = std::sin(h);
      r.lo = std::max(-1.0, std::min(a, b) - 1e-12); r.hi = std::min(1.0, std::max(a, b) + 1e-12);
      for (int k = -8; k <= 8; k++) { double t = M_PI * (k + 0.5); if (t >= l - 1e-9 && t <= h + 1e-9) { if (k & 1) r.lo = -1; else r.hi = 1; } }
    }
    break; }
  case O_ACOS: r.lo = 0; r.hi = 3.1415926536; break;
  case O_ASIN: case O_ATAN: r.lo = -1.5707963268; r.hi = 1.5707963268; if (n.op == O_ATAN) r.sg = range(n.a).sg; break;
  case O_ERF: r.lo = -1; r.hi = 1; r.sg = range(n.a).sg; break;
  case O_ERFC: r.lo = 0; r.hi = 2; r.sg = 1; break;
  default: break;
  }
  if (r.sg == 0 && (n.op == O_ADD || n.op == O_SUB) && !(r.lo > 0) && !(r.hi < 0)) { Poly p; if (poly(a, p)) { if (p.empty()) r = {0, 0, 2}; else if (p.size() <= 40) r.sg = psign(p, 3); } }
  if (r.sg != 1 && r.lo > 0) r.sg = 1; else if (r.sg != -1 && r.hi < 0) r.sg = -1;
  else if (r.sg == 0 && r.lo >= 0) r.sg = 2; else if (r.sg == 0 && r.hi <= 0) r.sg = -2;
  if (rangeknown.size() <= a.id) { rangeknown.resize(N().size() + 256, 0); ranges().resize(rangeknown.size()); }
  rangeknown[a.id] = 1; ranges()[a.id] = r;
  return r;
}
static bool positive_term(const SymD &a) { return range(a).sg == 1; }
static int psign(const Poly &p, int depth) {      // sign of a polynomial from the signs of its atoms
  int s = 2;
  if (depth > 6 || p.size() > 80) return 0;
  bool first = true;
  for (auto &m : p) {
    int t = sgn(m.second);
    for (auto &f : m.first) {
      int q;
      if (f.first >= 0x80000000u) { q = psign(invpoly[f.first - 0x80000000u], depth + 1); if (q) q = q > 0 ? 1 : -1; }
      else if (f.first >= 0x40000000u) q = 1;
      else q = range(mk(f.first)).sg;
      if (q && f.second < 0) q = q > 0 ? 1 : -1;
      if (f.second % 2 == 0) q = std::abs(q) == 1 ? 1 : 2;
      if (!q) return 0;
      t = (std::abs(t) == 1 && std::abs(q) == 1 ? 1 : 2) * ((t > 0) == (q > 0) ? 1 : -1);
    }
    if (first) { s = t; first = false; }
    else if ((s > 0) != (t > 0)) return 0;
    else s = (std::abs(s) == 1 || std::abs(t) == 1) ? (s > 0 ? 1 : -1) : s;
  }
  return s;
}
static int by_range(Rel rel, const SymD &a, const SymD &b);
static int by_sign(Rel rel, const SymD &a, const SymD &b) {
  int q = by_range(rel, a, b);
  if (q >= 0) return q;
  { // cancel equal summands, then ask for the ranges of what is left
    std::map<unsigned, int> terms; double c = 0; bool ok = true; int count = 0;
    std::function<void(const SymD &, int)> flat = [&](const SymD &t, int sg_) {
      if (!ok || ++count > 200) { ok = false; return; }
      if (is_const(t)) { if (t.id || nonfinite(t)) ok = false; else c += sg_ * t.c; return; }
      const Node &n = N()[t.id];
      if (n.op == O_ADD || n.op == O_SUB) { SymD l = n.a, r = n.b; Op op = n.op; flat(l, sg_); flat(r, op == O_ADD ? sg_ : -sg_); }
      else if (n.op == O_NEG) { SymD l = n.a; flat(l, -sg_); }
      else { int &k = terms[t.id]; k += sg_; if (!k) terms.erase(t.id); }
    };
    flat(a, 1); flat(b, -1);
    if (ok && count > 2) {
      int s = c > 0 ? 1 : c < 0 ? -1 : 2; double lo = c, hi = c;
      bool first = c == 0;
      for (auto &t : terms) {
        Range r = range(mk(t.first)); int g = t.second > 0 ? r.sg : -r.sg;
        lo += t.second > 0 ? t.second * r.lo : t.second * r.hi; hi += t.second > 0 ? t.second * r.hi : t.second * r.lo;
        if (first) { s = g; first = false; }
        else if (!s || !g || (s > 0) != (g > 0)) s = 0;
        else if (std::abs(g) == 1) s = g;
      }
      double tol = 1e-10 * (std::fabs(lo) + std::fabs(hi));
      if (!s && lo > tol) s = 1; else if (!s && hi < -tol) s = -1;
      if (terms.empty() && c == 0) return rel == R_LT ? 0 : 1;
      int v = -1;
      if (s) v = rel == R_LT ? (s == -1 ? 1 : s > 0 ? 0 : -1) : rel == R_LE ? (s < 0 ? 1 : s == 1 ? 0 : -1) : (std::abs(s) == 1 ? 0 : -1);
      if (v >= 0) return v;
    }
  }
  Poly x, y;
  if (!poly(a, x) || !poly(b, y) || x.size() > 60 || y.size() > 60) return -1;
  for (auto &m : y) { mpq_class &c = x[m.first]; c -= m.second; if (c == 0) x.erase(m.first); }
  if (x.empty()) return rel == R_LT ? 0 : 1;
  int s = psign(x, 0);              // sign of a - b
  if (!s) return -1;
  if (rel == R_LT) return s == -1 ? 1 : s > 0 ? 0 : -1;
  if (rel == R_LE) return s < 0 ? 1 : s == 1 ? 0 : -1;
  return std::abs(s) == 1 ? 0 : -1;
}
static int by_range(Rel rel, const SymD &a, const SymD &b) {
  Range x = range(a), y = range(b);
  bool lt = x.hi < y.lo, gt = y.hi < x.lo, le = x.hi <= y.lo, ge = y.hi <= x.lo;
  if (zero(b)) { lt = lt || x.sg == -1; gt = gt || x.sg == 1; le = le || x.sg < 0; ge = ge || x.sg > 0; }
  if (zero(a)) { lt = lt || y.sg == 1; gt = gt || y.sg == -1; le = le || y.sg > 0; ge = ge || y.sg < 0; }
  if (rel == R_LT) return lt ? 1 : (gt || ge) ? 0 : -1;
  if (rel == R_LE) return (lt || le) ? 1 : gt ? 0 : -1;
  return (lt || gt) ? 0 : -1;
}
static std::string dbg(const SymD &a, int d = 0) {
  if (is_const(a)) return dstr(dval(a));
  const Node n = N()[a.id]; Range q = range(a);
  if (n.op == O_VAR) return n.name;
  std::string s = "{" + std::to_string((int)n.op) + " sg" + std::to_string(q.sg);
  if (d < 9) { s += " " + dbg(n.a, d + 1); if (n.b.id || n.op == O_MUL || n.op == O_DIV || n.op == O_ADD || n.op == O_SUB) s += " , " + dbg(n.b, d + 1); }
  return s + "}";
}
static bool refine(Env &e);
// log(u) compared with a constant c: exactly where u passes exp(c)
static void bridge(const SymD &x, const SymD &y) {
  SymD f; double c = 0; int n = 0;
  std::function<void(const SymD &, double)> walk = [&](const SymD &t, double sg_) {
    if (is_const(t)) { c += sg_ * dval(t); return; }
    Node k = N()[t.id];
    if (k.op == O_ADD) { walk(k.a, sg_); walk(k.b, sg_); } else if (k.op == O_SUB) { walk(k.a, sg_); walk(k.b, -sg_); } else if (k.op == O_NEG) walk(k.a, -sg_);
    else if ((k.op == O_LOG || k.op == O_EXP) && !n) { f = t; n = sg_ > 0 ? 1 : -1; } else n = 9;
    if (n == 9) return;
  };
  walk(x, 1); walk(y, -1);
  if (n != 1 && n != -1) return;
  c = -c * n;
  Op q = N()[f.id].op; SymD u = N()[f.id].a;
  if (q == O_EXP && c <= 0) return;
  double v = q == O_LOG ? std::exp(c) : std::log(c), w = std::fabs(v) * 1e-12 + 1e-14;
  if (!std::isfinite(v)) return;
  auto fact = [&](const Cond &k) { add(zc(k.p.get())); };
  fact(!mkrel(R_LE, u, cst(v - w)) || mkrel(R_LT, f, cst(c)));
  fact(!mkrel(R_LE, cst(v + w), u) || mkrel(R_LT, cst(c), f));
}
// equalities already decided or assumed on this path, by the normal form of their difference
static std::map<std::string, bool> eqfact;
static std::string eqkey(const SymD &x, const SymD &y) {
  Poly p, q;
  if (!poly(x, p) || !poly(y, q)) return "";
  for (auto &m : q) { mpq_class &c = p[m.first]; c -= m.second; if (c == 0) p.erase(m.first); }
  if (p.empty() || p.size() > 60) return "";
  mpq_class l = p.begin()->second;
  for (auto &m : p) m.second /= l;
  return pstr(p);
}
bool decide(Rel r, const SymD &a, const SymD &b) {
  Cond c = mkrel(r, a, b);
  if (c.p->k == 4) return c.p->v;
  SymD x = c.p->a, y = c.p->b;
  auto key = std::make_tuple((int)r, x.id, x.id ? 0 : bits(x.c), y.id, y.id ? 0 : bits(y.c));
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  if (!g_fp && !g_univariate) { // x/s ~ x for positive x and s is 1 ~ s
    for (int side = 0; side < 2; side++) {
      SymD q = side ? y : x, o = side ? x : y;
      if (q.id == 0 || N()[q.id].op != O_DIV) continue;
      SymD num = N()[q.id].a, s = N()[q.id].b;
      if (!(range(s).sg == 1 || range(s).lo > 0) || !(range(num).sg == 1 || range(num).lo > 0)) continue;
      Poly pn, po;
      if ((num.id != o.id || (!num.id && num.c != o.c)) && !(poly(num, pn) && poly(o, po) && pn == po)) continue;
      bool v = side ? decide(r, s, cst(1)) : decide(r, cst(1), s);
      memo[key] = v; return v;
    }
  }
  if (!g_fp) { // derived facts
    auto g = [&](Rel q, const SymD &u, const SymD &v) -> int { auto i2 = memo.find(std::make_tuple((int)q, u.id, u.id ? 0 : bits(u.c), v.id, v.id ? 0 : bits(v.c))); return i2 == memo.end() ? -1 : (int)i2->second; };
    int res = -1;
    if (r == R_LT) { int q = g(R_LE, y, x); if (q >= 0) res = !q; else if (g(R_EQ, x, y) == 1 || g(R_EQ, y, x) == 1 || g(R_LT, y, x) == 1) res = 0; }
    if (r == R_LE) { int q = g(R_LT, y, x); if (q >= 0) res = !q; else if (g(R_EQ, x, y) == 1 || g(R_EQ, y, x) == 1 || g(R_LT, x, y) == 1) res = 1; }
    if (r == R_EQ) { int q = g(R_EQ, y, x); if (q >= 0) res = q; else if (g(R_LT, x, y) == 1 || g(R_LT, y, x) == 1) res = 0; else if (g(R_LE, x, y) == 0 || g(R_LE, y, x) == 0) res = 0; }
    if (res < 0) { res = by_sign(r, x, y); if (res >= 0) INC(ranged); }
    if (res < 0 && r == R_EQ && !g_univariate) { std::string k = eqkey(x, y); auto i = k.empty() ? eqfact.end() : eqfact.find(k); if (i != eqfact.end()) res = i->second; }
    if (res >= 0) { memo[key] = res; return res; }
  }
  static bool dbgon = getenv("SYMX_DEBUG") != 0;
  if (dbgon) fprintf(stderr, "DECIDE %d: %s  ~  %s\n", (int)r, dbg(x).c_str(), dbg(y).c_str());
  INC(decisions);
  if (++ndec > g_maxdec) path_bound("decisions");
  if (late()) { INC(deadline); finish(); }
  Cond nc = !c;
  Env et, ef; bool ht = false, hf = false;
  int t = -1, f = -1;
  if (cur) { int v = ev3(c.p.get(), *cur); if (v >= 0) { (v ? t : f) = 1; (v ? ht : hf) = true; } }
  if (!g_fp && !g_univariate) bridge(x, y);
  auto ask = [&](const Cond &k, Env &e, int &v, bool &have) {
    for (int round = 0; round < 3; round++) {       // a model that is wrong about an elementary function earns the solver a fact about it
      Z3_lbool q = feasible(k, &e); v = q == Z3_L_TRUE ? 1 : q == Z3_L_FALSE ? 0 : 2;
      if (v != 1) return;
      have = pc_ok(e) && evc(k.p.get(), e, 0);
      if (have || g_fp || g_univariate || !refine(e)) return;
    }
  };
  if (t < 0) ask(c, et, t, ht);
  if (f < 0) { if (t == 0) f = 2; else ask(nc, ef, f, hf); }
  bool res;
  auto commit = [&](bool v) {
    res = v; memo[key] = v;
    if (r == R_EQ && !g_fp && !g_univariate) { std::string q = eqkey(x, y); if (!q.empty()) eqfact[q] = v; }
    Cond k = v ? c : nc;
    assume_raw(k);
    if (!g_fp) {
      auto kn = [&](Rel q, const SymD &u, const SymD &w) -> int { auto i2 = memo.find(std::make_tuple((int)q, u.id, u.id ? 0 : bits(u.c), w.id, w.id ? 0 : bits(w.c))); return i2 == memo.end() ? -1 : (int)i2->second; };
      auto nl = [&](const SymD &u, const SymD &w) { return kn(R_LT, u, w) == 0 || kn(R_LE, w, u) == 1; };
      if ((r == R_EQ && v) || (nl(x, y) && nl(y, x))) equal_inputs(x, y);
    }
    bool keepcur = cur && ev3(k.p.get(), *cur) == 1;
    if (!keepcur) { bool same = cur && evc(k.p.get(), *cur, 1e-12); Env *old = cur; cur = 0; Env &nw = v ? et : ef;
      if ((v ? ht : hf) && !nw.empty()) { cur = new Env(nw); delete old; } else if (same && vars.size()) cur = old; else delete old; }
    if ((v ? t : f) == 2) maybe_infeasible = true;
  };
  if (t != 0 && f != 0 && t >= 0 && !(t == 0)) {
    if (t == 0) commit(false); else if (f == 0) commit(true);
    else fork_side([&](bool child) { commit(!child); });
  } else if (t == 0) commit(false);
  else commit(true);
  return res;
}
long long concretise_int(const SymD &a0) {
  SymD a = fix(a0);
  if (is_const(a)) return (long long)dval(a);
  for (int k = 0; k < 300; k++) {
    Env e; double v;
    if (cur) v = ev(a, *cur);
    else { Z3_lbool q = feasible(mkrel(R_EQ, SymD(0), SymD(0)), &e); v = q == Z3_L_TRUE ? ev(a, e) : 0; }
    double tr = std::trunc(v);
    bool in;
    if (tr > 0) in = decide(R_LE, SymD(tr), a) && decide(R_LT, a, SymD(tr + 1));
    else if (tr < 0) in = decide(R_LT, SymD(tr - 1), a) && decide(R_LE, a, SymD(tr));
    else in = decide(R_LT, SymD(-1), a) && decide(R_LT, a, SymD(1));
    if (in) return (long long)tr;
  }
  path_bound("int"); return 0;
}
double concretise_double(const SymD &a0) {
  SymD a = fix(a0);
  if (is_const(a)) return dval(a);
  INC(concretised);
  Env e; double v;
  if (cur) v = ev(a, *cur); else { feasible(mkrel(R_EQ, SymD(0), SymD(0)), &e); v = ev(a, e); }
  assume_raw(mkrel(R_EQ, a, SymD(v)));
  return v;
}
std::string show(const SymD &a0) { SymD a = fix(a0); if (is_const(a)) { char b[40]; snprintf(b, 40, "%g", dval(a)); return b; } return "\x01S" + std::to_string(a.id) + "\x02"; }
static SymD fresh_garbage() {
  static int k = 0;
  return sym::real("uninitialised" + std::to_string(k++), SymD(-1e3), SymD(1e3));
}
// true facts about elementary functions, given once per term
static void axioms(const SymD &r) {
  Node n = N()[r.id];
  auto A = [&](const Cond &c) { add(zc(c.p.get())); };
  auto L = [&](const SymD &x, const SymD &y) { return mkrel(R_LT, x, y); };
  auto E = [&](const SymD &x, const SymD &y) { return mkrel(R_LE, x, y); };
  SymD x = n.a, y = r, o = cst(0), u = cst(1);
  switch (n.op) {
  case O_EXP:
    A(L(o, y)); A(E(x + u, y)); A(!L(x, o) || L(y, u)); A(!L(o, x) || L(u, y)); break;
  case O_LOG:
    A(E(y, x - u)); A(!L(x, u) || L(y, o)); A(!L(u, x) || L(o, y)); A(!mkrel(R_EQ, x, u) || mkrel(R_EQ, y, o)); break;
  case O_SQRT: A(E(o, y)); A(mkrel(R_EQ, y * y, x)); break;
  case O_SIN: case O_COS: A(E(cst(-1), y)); A(E(y, u)); 
    if (n.op == O_SIN) { A(!(L(o, x) && L(x, cst(3.14159265))) || L(o, y)); A(!mkrel(R_EQ, x, o) || mkrel(R_EQ, y, o)); A(!(L(cst(-3.14159265), x) && L(x, o)) || L(y, o)); A(!L(o, x) || L(y, x)); }
    else { A(!(L(cst(-1.57079632), x) && L(x, cst(1.57079632))) || L(o, y)); }
    for (size_t i = 1; i + 1 < N().size(); i++) { Op q = N()[i].op; if ((q == O_SIN || q == O_COS) && q != n.op && N()[i].z && N()[i].a.id == x.id && x.id) { SymD s = mk(i); A(mkrel(R_EQ, s * s + y * y, u)); } }
    break;
  case O_ATAN: A(L(cst(-1.5707964), y)); A(L(y, cst(1.5707964))); A(!L(o, x) || L(o, y)); A(!L(x, o) || L(y, o)); break;
  case O_ACOS: A(E(o, y)); A(E(y, cst(3.1415927))); break;
  case O_ASIN: A(E(cst(-1.5707964), y)); A(E(y, cst(1.5707964))); break;
  case O_ERF: A(L(cst(-1), y)); A(L(y, u)); A(!L(o, x) || L(o, y)); A(!L(x, o) || L(y, o)); break;
  case O_ERFC: A(L(o, y)); A(L(y, cst(2))); break;
  default: break;
  }
  Range g = range(r);
  if (std::isfinite(g.lo) && std::fabs(g.lo) < 1e9) A(E(cst(std::floor(g.lo * 1024) / 1024), y));
  if (std::isfinite(g.hi) && std::fabs(g.hi) < 1e9) A(E(y, cst(std::ceil(g.hi * 1024) / 1024)));
  if (n.op == O_UF) {
    for (size_t i = N().size() - 1; i > 0; i--)
      if (N()[i].op == O_UF && N()[i].z && i != r.id && N()[i].name == n.name) {
        Cond same = mkrel(R_EQ, N()[i].a, n.a);
        A(!same || mkrel(R_EQ, mk(i), r));
      }
    return;
  }
  // monotone functions: order of arguments is order of values (pairwise with the latest few terms)
  if (n.op == O_EXP || n.op == O_LOG || n.op == O_SQRT || n.op == O_ATAN || n.op == O_ERF) {
    int cnt = 0;
    for (size_t i = N().size(); i-- > 1 && cnt < 10;)
      if (N()[i].op == n.op && N()[i].z && i != r.id) { cnt++; SymD x2 = N()[i].a, y2 = mk(i);
        A(!L(x, x2) || L(y, y2)); A(!L(x2, x) || L(y2, y)); A(!mkrel(R_EQ, x, x2) || mkrel(R_EQ, y, y2)); }
  }
}
// point facts: value of f at v, used to refute spurious models
static bool refine(Env &e) {
  bool any = false;
  size_t n0 = N().size();
  for (size_t i = 1; i < n0; i++) {
    Op q = N()[i].op;
    if (q < O_EXP || q == O_FLOOR || q == O_SQRT || !N()[i].z) continue;
    double v = ev(N()[i].a, e); double y = q == O_UF ? N()[i].fn(cst(v)).c : fun(q, v);
    if (!std::isfinite(v) || !std::isfinite(y) || std::fabs(y) > 1e200) continue;
    any = true;
    SymD a = N()[i].a, r = mk(i), V = cst(v);
    double w = std::fabs(y) * 1e-12 + 1e-300;
    Cond f1 = mkrel(R_LE, cst(y - w), r), f2 = mkrel(R_LE, r, cst(y + w));
    Cond ge = mkrel(R_LE, V, a), lE = mkrel(R_LE, a, V);
    if (q == O_EXP || q == O_LOG || q == O_ATAN || q == O_ERF || q == O_ASIN) { add(zc((!ge || f1).p.get())); add(zc((!lE || f2).p.get())); }
    else if (q == O_ACOS || q == O_ERFC) { add(zc((!lE || f1).p.get())); add(zc((!ge || f2).p.get())); }
    else { add(zc((!(ge && lE) || (f1 && f2)).p.get())); }
  }
  return any;
}
static double rnd() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static void sample(Env &e) {
  e.clear();
  for (unsigned v : vars) {
    Node &n = N()[v];
    if (n.alpha) e[v] = (*n.alpha)[rng() % n.alpha->size()];
    else if (n.lo > 0 && n.hi / n.lo > 50 && rng() % 2) e[v] = n.lo * std::exp(rnd() * std::log(n.hi / n.lo));
    else e[v] = n.lo + rnd() * (n.hi - n.lo);
  }
}
// Turns "pc and extra" (extra may be null) into concrete inputs that satisfy it under double evaluation.
// returns 1 found, 0 refuted, -1 not found
static int find_inputs(const Cond *extra, Env &out, int effort) {
  auto good = [&](Env &e) { return pc_ok(e) && (!extra || evc(extra->p.get(), e, 0)); };
  if (cur && !extra) { out = *cur; return 1; }
  if (cur && good(*cur)) { out = *cur; return 1; }
  Z3_lbool last = Z3_L_UNDEF;
  for (int k = 0; k < (effort ? 6 : 2); k++) {
    Env e;
    Z3_lbool r = extra ? feasible(*extra, &e) : feasible(mkrel(R_EQ, SymD(0), SymD(0)), &e);
    last = r;
    if (r == Z3_L_FALSE) return 0;
    if (r != Z3_L_TRUE) break;
    if (good(e)) { out = e; return 1; }
    refine(e);
  }
  int tries = effort ? 4000 : 300;
  for (int k = 0; k < tries; k++) { Env e; sample(e); if (good(e)) { out = e; return 1; } }
  if (!effort || g_fp) return -1;
  for (int k = 0; k < 8; k++) { // pin variables one after the other
    if (late()) return -1;
    Z3_solver_push(C, Z);
    size_t na = asserted.size();
    if (extra) Z3_solver_assert(C, Z, zc(extra->p.get()));
    Env s; sample(s);
    std::vector<unsigned> order = vars;
    std::shuffle(order.begin(), order.end(), rng);
    bool sat = false; Env e;
    for (unsigned v : order) {
      Z3_solver_push(C, Z);
      double d = s[v]; if (std::fabs(d) > 1e-3) { double sc = std::pow(10, std::floor(std::log10(std::fabs(d))) - 2); d = std::round(d / sc) * sc; }
      Z3_solver_assert(C, Z, Z3_mk_eq(C, z(mk(v)), z(cst(d))));
      Z3_lbool r = run(Z, 1000);
      if (r == Z3_L_TRUE) { keep_model(Z); model_env(e); sat = true; if (good(e)) { out = e; Z3_solver_reset(C, Z); for (auto a : asserted) Z3_solver_assert(C, Z, a); return 1; } }
      else if (r == Z3_L_FALSE) Z3_solver_pop(C, Z, 1);
    }
    (void)na; (void)sat;
    Z3_solver_reset(C, Z); for (auto a : asserted) Z3_solver_assert(C, Z, a);
    if (sat) refine(e);
  }
  return -1;
}
static LabelStat *lstat_(const std::string &label) {
  std::string n = std::string(g_harness) + "/" + label;
  if (n.size() > 119) n.resize(119);
  lock();
  LabelStat *r = 0;
  for (int i = 0; i < S->nl; i++) if (n == S->L[i].name) { r = &S->L[i]; break; }
  if (!r && S->nl < MAXL) { r = &S->L[S->nl++]; memset(r, 0, sizeof *r); strcpy(r->name, n.c_str()); }
  unlock();
  if (!r) { fprintf(stderr, "too many labels\n"); _exit(92); }
  return r;
}
static void emit_cand(const std::string &label, const std::string &kind, Env &e, const std::string &detail) {
  emit("{\"t\":\"cand\",\"h\":" + js(g_harness) + ",\"label\":" + js(label) + ",\"kind\":" + js(kind) + ",\"in\":" + inputs_json(e) + ",\"detail\":" + js(detail) + "}");
}
// counterexamples away from the borders of their path: rounding in the real code moves the borders
static void emit_inner(const std::string &label, const Env &e0, const Cond *extra, const std::string &detail) {
  if (g_fp) return;
  int found = 0;
  for (int k = 0; k < 600 && found < 3; k++) {
    if (k % 50 == 0 && late()) return;
    Env e = e0; bool moved = false;
    double w = std::pow(10.0, -1.0 - (k / 60) % 6);
    for (unsigned v : vars) {
      Node &n = N()[v];
      if (n.alpha) continue;
      if (k % 3 == 2 && rng() % 2) continue;
      double d = e[v], x = d + w * (2 * rnd() - 1) * (std::fabs(d) + (rng() % 4 ? 0 : 1e-3));
      if (x < n.lo) x = n.lo + (n.lo - x);
      if (x > n.hi) x = n.hi - (x - n.hi);
      if (x != d) { e[v] = x; moved = true; }
    }
    if (moved && pc_ok(e) && (!extra || evc(extra->p.get(), e, 0))) { found++; emit_cand(label, "inner", e, detail); }
  }
}
// a path on which something is wrong regardless of values
static void report_path(const std::string &label, const std::string &detail) {
  LabelStat *s = lstat_(label);
  path_bad = true;
  if (enough(s)) { __sync_fetch_and_add(&s->violated, 1); return; }
  Env e;
  int r = find_inputs(0, e, s->cands == 0);
  if (r == 0) { INC(infeasible); return; }
  __sync_fetch_and_add(&s->violated, 1);
  if (r == 1) { __sync_fetch_and_add(&s->cands, 1); s->last = now(); emit_cand(label, "path", e, detail); emit_inner(label, e, 0, detail); }
}
// nlsat in a process of its own: it does not always notice an interrupt
static Z3_lbool second_opinion(const Cond &c) {
  if (g_fp) return Z3_L_UNDEF;
  double t0 = now();
  Z3_ast goal = zc(c.p.get());
  int fd[2];
  if (pipe(fd)) return Z3_L_UNDEF;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { close(fd[0]); close(fd[1]); return Z3_L_UNDEF; }
  if (p == 0) {
    close(fd[0]);
    signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_qms2 / 1000 + 1; setitimer(ITIMER_REAL, &it, 0);
    Z3_tactic t1 = Z3_mk_tactic(C, "simplify"); Z3_tactic_inc_ref(C, t1);
    Z3_tactic t2 = Z3_mk_tactic(C, "qfnra-nlsat"); Z3_tactic_inc_ref(C, t2);
    Z3_tactic t3 = Z3_mk_tactic(C, "solve-eqs"); Z3_tactic_inc_ref(C, t3);
    Z3_tactic t = Z3_tactic_and_then(C, t1, Z3_tactic_and_then(C, t3, t2)); Z3_tactic_inc_ref(C, t);
    Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s);
    { Z3_params pr = Z3_mk_params(C); Z3_params_inc_ref(C, pr); Z3_params_set_uint(C, pr, Z3_mk_string_symbol(C, "max_memory"), 1500); Z3_solver_set_params(C, s, pr); Z3_params_dec_ref(C, pr); }
    for (auto a : asserted) Z3_solver_assert(C, s, a);
    Z3_solver_assert(C, s, goal);
    Z3_lbool r = Z3_solver_check(C, s);
    std::vector<double> out(1, (double)(int)r);
    if (r == Z3_L_TRUE) { keep_model(s); sop_valid = false; Env e; model_env(e); for (unsigned v : vars) out.push_back(e[v]); }
    const char *q = (const char *)out.data(); size_t left = out.size() * sizeof(double);
    while (left) { ssize_t k = write(fd[1], q, left); if (k <= 0) break; q += k; left -= k; }
    _exit(0);
  }
  close(fd[1]);
  std::vector<double> got; double d; std::string buf; char tmp[4096];
  for (;;) { ssize_t k = read(fd[0], tmp, sizeof tmp); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; buf.append(tmp, k); }
  close(fd[0]);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  for (size_t i = 0; i + sizeof d <= buf.size(); i += sizeof d) { memcpy(&d, buf.data() + i, sizeof d); got.push_back(d); }
  Z3_lbool r = got.empty() ? Z3_L_UNDEF : (Z3_lbool)(int)got[0];
  if (r == Z3_L_TRUE && got.size() == vars.size() + 1) { sop.clear(); for (size_t i = 0; i < vars.size(); i++) sop[vars[i]] = got[i + 1]; sop_valid = true; }
  else if (r == Z3_L_TRUE) r = Z3_L_UNDEF;
  double dt = now() - t0;
  INC(queries);
  if (r == Z3_L_TRUE) INC(q_sat); else if (r == Z3_L_FALSE) INC(q_unsat); else INC(q_unknown);
  lock(); S->solver_s += dt; if (dt > S->maxq_s) S->maxq_s = dt; unlock();
  return r;
}
static Z3_lbool prove(const Cond &neg) {
  if (neg.p->k == 4) return neg.p->v ? Z3_L_TRUE : Z3_L_FALSE;
  Z3_lbool r = feasible(neg, 0);
  if (r == Z3_L_UNDEF) { r = second_opinion(neg); if (r != Z3_L_UNDEF) INC(rescued); }
  return r;
}
} // namespace symx

using namespace symx;
namespace sym {
Cond lt(const SymD &a, const SymD &b) { return mkrel(R_LT, a, b); }
Cond le(const SymD &a, const SymD &b) { return mkrel(R_LE, a, b); }
Cond eq(const SymD &a, const SymD &b) { return mkrel(R_EQ, a, b); }
Cond truth(bool v) { auto p = std::make_shared<CondRep>(); p->k = 4; p->v = v; return {p}; }
Cond operator!(const Cond &a) { if (a.p->k == 4) return truth(!a.p->v); if (a.p->k == 1) return {a.p->x}; auto p = std::make_shared<CondRep>(); p->k = 1; p->x = a.p; return {p}; }
Cond operator&&(const Cond &a, const Cond &b) { if (a.p->k == 4) return a.p->v ? b : a; if (b.p->k == 4) return b.p->v ? a : b; auto p = std::make_shared<CondRep>(); p->k = 2; p->x = a.p; p->y = b.p; return {p}; }
Cond operator||(const Cond &a, const Cond &b) { if (a.p->k == 4) return a.p->v ? a : b; if (b.p->k == 4) return b.p->v ? b : a; auto p = std::make_shared<CondRep>(); p->k = 3; p->x = a.p; p->y = b.p; return {p}; }
Cond near(const SymD &a, const SymD &b, const SymD &t) { return le(a - b, t) && le(b - a, t); }
bool holds(const Cond &c) {
  switch (c.p->k) {
  case 0: return decide(c.p->r, c.p->a, c.p->b);
  case 1: return !holds({c.p->x});
  case 2: return holds({c.p->x}) && holds({c.p->y});
  case 3: return holds({c.p->x}) || holds({c.p->y});
  default: return c.p->v;
  }
}
static std::string uniq(const std::string &n) { int k = seen[n]++; return k ? n + "#" + std::to_string(k) : n; }
static SymD newvar(const std::string &name, double lo, double hi) {
  Node n; n.op = O_VAR; n.a = n.b = cst(0); n.q = 0; n.z = 0; n.alpha = 0; n.fn = 0; n.lo = lo; n.hi = hi; n.name = uniq(name);
  N().push_back(n);
  unsigned id = N().size() - 1;
  vars.push_back(id);
  if (cur) (*cur)[id] = 0.5 * (lo + hi);
  return mk(id);
}
SymD real(const std::string &name, const SymD &lo, const SymD &hi) {
  double l = (double)lo, h = (double)hi;
  if (l == h) return cst(l);
  SymD v = newvar(name, l, h);
  assume_raw(mkrel(R_LE, cst(l), v)); assume_raw(mkrel(R_LE, v, cst(h)));
  return v;
}
SymD character(const std::string &name, const std::string &alphabet) {
  std::vector<double> *al = new std::vector<double>();
  for (unsigned char ch : alphabet) al->push_back(ch);
  SymD v = newvar(name, *std::min_element(al->begin(), al->end()), *std::max_element(al->begin(), al->end()));
  N()[v.id].alpha = al;
  if (cur) (*cur)[v.id] = (*al)[0];
  Cond c = truth(false);
  for (double d : *al) c = c || eq(v, cst(d));
  assume_raw(c);
  return v;
}
void use_univariate() { symx::g_univariate = true; }
void use_fp() { g_fp = true; delete cur; cur = 0; }
SymD fp(const std::string &name) { delete cur; cur = 0; return newvar(name, 0, 0); }
int choose(const std::string &name, int lo, int hi) {
  std::string n = uniq(name);
  int v = lo;
  for (; v < hi; v++) {
    bool mine = false;
    if (late()) { INC(deadline); finish(); }
    fork_side([&](bool child) { mine = child; });
    if (mine) break;
  }
  chosen[n] = std::to_string(v);
  return v;
}
void assume(bool b) { if (!b) kill_path(); }
void assume(const Cond &c) {
  if (c.p->k == 4) { assume(c.p->v); return; }
  assume_raw(c);
  if (!g_fp && !g_univariate && c.p->k == 1 && c.p->x->k == 0 && c.p->x->r == R_EQ) { std::string q = eqkey(c.p->x->a, c.p->x->b); if (!q.empty()) eqfact[q] = false; }
  if (cur && !evc(c.p.get(), *cur, 0)) { delete cur; cur = 0; }
  if (!cur) {
    Env e;
    Z3_lbool r = feasible(truth(true), &e);
    if (r == Z3_L_FALSE) kill_path();
    if (r == Z3_L_UNDEF) maybe_infeasible = true;
    else if (pc_ok(e)) cur = new Env(e);
  }
}
SymD function(const std::string &name, SymD (*f)(const SymD &), const SymD &x) { return symx::uf(name, f, x); }
SymD arbitrary(const std::string &name, const std::vector<SymD> &args, const SymD &lo, const SymD &hi) {
  std::string k = argkey(name, args);
  auto it = ufs.find(k);
  if (it != ufs.end()) return mk(it->second);
  SymD r = real(name, lo, hi);
  ufs[k] = r.id;
  return r;
}
void lemma(const Cond &c, const std::string &why) {
  lock();
  bool have = false;
  for (int i = 0; i < S->nlem; i++) if (why.substr(0, 199) == S->lem[i]) have = true;
  if (!have && S->nlem < 64) { strncpy(S->lem[S->nlem], why.c_str(), 199); S->nlem++; }
  unlock();
  add(zc(c.p.get()));
}
void check(const std::string &label, bool ok) {
  LabelStat *s = lstat_(label); nchecks++;
  __sync_fetch_and_add(&s->reached, 1);
  if (ok) { __sync_fetch_and_add(&s->concrete, 1); return; }
  report_path(label, "condition false on this path");
}
static void obligation(const std::string &label, const std::vector<Cond> &negs, bool approx_ok, const std::string &detail) {
  // negs: violations in order of preference for a counterexample (clear ones first); the last is the exact negation
  LabelStat *s = lstat_(label); nchecks++;
  __sync_fetch_and_add(&s->reached, 1);
  if (path_bad && s->cands >= 3) return;
  Z3_lbool ex = prove(negs.back());
  if (ex == Z3_L_FALSE) { __sync_fetch_and_add(&s->proved, 1); return; }
  bool allunsat = ex == Z3_L_TRUE || negs.size() > 1;
  int eff = s->cands < 3 && s->violated < 50 ? 1 : 0;
  for (size_t i = 0; i < negs.size(); i++) {
    if (i + 1 == negs.size() && approx_ok) break;
    Z3_lbool r = i + 1 == negs.size() ? ex : prove(negs[i]);
    if (r == Z3_L_FALSE) continue;
    allunsat = false;
    if (enough(s)) { __sync_fetch_and_add(&s->violated, 1); return; }
    Env e;
    int k = find_inputs(&negs[i], e, eff);
    if (k == 1) { __sync_fetch_and_add(&s->violated, 1); __sync_fetch_and_add(&s->cands, 1); s->last = now(); emit_cand(label, "value", e, detail); emit_inner(label, e, &negs[i], detail); path_bad = true; return; }
    if (r == Z3_L_UNDEF && i + 1 < negs.size()) break;
  }
  if (allunsat && approx_ok) { __sync_fetch_and_add(&s->proved_tol, 1); return; }
  __sync_fetch_and_add(&s->unknown, 1);
}
// the first discharges by normal form of every label are put to the solver as well (in a child, so that the path is not touched)
static void cross_check(const std::string &label, LabelStat *s, Rel rel, const SymD &a, const SymD &b) {
  if (s->asked >= 3 || late() || (is_const(a) && is_const(b))) return;
  auto q = std::make_shared<CondRep>(), n = std::make_shared<CondRep>();
  q->k = 0; q->r = rel; q->a = a; q->b = b;
  n->k = 1; n->x = q;
  Cond neg = {n};
  if (__sync_fetch_and_add(&s->asked, 1) >= 3) return;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    g_qms = 1000;
    Env e;
    Z3_lbool r = feasible(neg, &e);
    if (r == Z3_L_FALSE) __sync_fetch_and_add(&s->confirmed, 1);
    else if (r == Z3_L_TRUE && pc_ok(e) && evc(neg.p.get(), e, 1e-6)) emit_cand(label, "value", e, "discharged by normal form but refuted by the solver");
    fflush(stdout); _exit(0);
  }
  int st; if (p > 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
}
static bool by_form(const std::string &label, Rel r, const SymD &a, const SymD &b) {
  static bool dbgon = getenv("SYMX_DEBUG") != 0;
  if (dbgon && !g_fp && by_sign(r, a, b) != 1) fprintf(stderr, "NOFORM %s: %s  ~  %s\n", label.c_str(), dbg(a).c_str(), dbg(b).c_str());
  if (g_fp || nonfinite(a) || nonfinite(b) || by_sign(r, a, b) != 1) return false;
  LabelStat *s = lstat_(label); nchecks++; __sync_fetch_and_add(&s->reached, 1); __sync_fetch_and_add(&s->normal, 1);
  cross_check(label, s, r, a, b);
  return true;
}
void check(const std::string &label, const Cond &c) { if (c.p->k == 0 && by_form(label, c.p->r, c.p->a, c.p->b)) return; obligation(label, {!c}, false, "assertion"); }
void check_eq(const std::string &label, const SymD &a0, const SymD &b0, const SymD &tol0) {
  SymD a = fix(a0), b = fix(b0);
  if (!g_fp && (nonfinite(a) || nonfinite(b))) {
    LabelStat *s = lstat_(label); nchecks++; __sync_fetch_and_add(&s->reached, 1);
    bool same = nonfinite(a) && nonfinite(b) && (a.c == b.c || (std::isnan(a.c) && std::isnan(b.c)));
    if (same) __sync_fetch_and_add(&s->concrete, 1); else report_path(label, "not finite");
    return;
  }
  if (g_fp) { // bit equality up to NaN payload
    Cond c = mkrel(R_EQ, a, b) || (!mkrel(R_EQ, a, a) && !mkrel(R_EQ, b, b));
    obligation(label, {!c}, false, "equality"); return;
  }
  if (is_const(a) && is_const(b)) {
    double x = dval(a), y = dval(b), t = dval(tol0);
    check(label, val(a) == val(b) || std::fabs(x - y) <= t * std::max(std::fabs(x), std::fabs(y)) || std::fabs(x - y) <= 1e-13);
    return;
  }
  double t = dval(tol0);
  SymD d = a - b;
  { Poly p; if (poly(d, p) && vanishes(p)) { LabelStat *s = lstat_(label); nchecks++; __sync_fetch_and_add(&s->reached, 1); __sync_fetch_and_add(&s->normal, 1); cross_check(label, s, R_EQ, a, b); return; } }
  { static bool dbgon = getenv("SYMX_DEBUG") != 0; if (dbgon) { Poly p; bool k = poly(d, p); fprintf(stderr, "NOFORM %s: %s ~ %s\n     POLY %d %s\n", label.c_str(), dbg(a).c_str(), dbg(b).c_str(), k, pstr(p).c_str()); for (size_t i = 0; i < invpoly.size(); i++) fprintf(stderr, "     INV %zu %s\n", i, pstr(invpoly[i]).c_str()); for (auto &v : eqvar) fprintf(stderr, "    EQ %u %s\n", v.first, dbg(v.second).c_str()); for (auto &k : expatom) fprintf(stderr, "    EXP %u %s\n", k.second, k.first.c_str()); } }
  auto off = [&](double rel) { SymD m = cst(rel);
    // |a-b| > rel*(|a|+|b|)  <=>  for every choice of signs; here through both orders
    SymD s1 = a + b;
    Cond gap = (lt(m * s1, d) || lt(m * s1, -d)) && (lt(-(m * s1), d) || lt(-(m * s1), -d));
    return gap && (lt(cst(1e-12), d) || lt(cst(1e-12), -d)); };
  obligation(label, {off(1e-2), off(t), !mkrel(R_EQ, a, b)}, true, "equality");
}
void check_le(const std::string &label, const SymD &a, const SymD &b) {
  if (nonfinite(fix(a)) || nonfinite(fix(b))) { check(label, lt(a, b) || eq(a, b)); return; }
  if (by_form(label, R_LE, fix(a), fix(b))) return;
  SymD d = a - b;
  obligation(label, {lt(cst(1e-3), d), lt(cst(1e-8), d), lt(b, a)}, true, "a <= b"); }
void check_lt(const std::string &label, const SymD &a, const SymD &b) { if (by_form(label, R_LT, fix(a), fix(b))) return; obligation(label, {!lt(a, b)}, false, "a < b"); }
bool is_symbolic() { return true; }
bool finite(const SymD &a) { bool r = !is_nan(a) && !is_inf(a); if (!r && getenv("SYMX_DEBUG")) fprintf(stderr, "NONFINITE id %u c %g %s\n", a.id, a.c, show(a).c_str()); return r; }
int tier() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static std::vector<std::pair<std::string, HarnessFn>> &regs() { static std::vector<std::pair<std::string, HarnessFn>> r; return r; }
Reg::Reg(const char *n, HarnessFn f) { regs().push_back({n, f}); }
}

static void symx::give_up() {
  INC(cpu); __sync_fetch_and_sub(&S->running, 1); wait_kids(); _exit(0);
}
static void on_crash(int sig) {
  signal(sig, SIG_DFL);
  if (in_solver) { INC(crash); __sync_fetch_and_sub(&S->running, 1); _exit(0); }
  report_path(sig == SIGXCPU ? "termination" : "memory-safety", std::string("signal ") + strsignal(sig));
  INC(crash);
  __sync_fetch_and_sub(&S->running, 1);
  wait_kids();
  _exit(0);
}
static void on_xcpu(int) {
  if (in_solver) { INC(cpu); if (C) Z3_interrupt(C); struct rlimit l; getrlimit(RLIMIT_CPU, &l); l.rlim_cur += g_cpu; setrlimit(RLIMIT_CPU, &l); return; }
  on_crash(SIGXCPU);
}
int main(int argc, char **argv) {
  if (argc < 2) { for (auto &r : sym::regs()) printf("%s\n", r.first.c_str()); return 0; }
  // symx OUT [harness...]
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof *S);
  if (getenv("SYMX_JOBS")) g_jobs = atoi(getenv("SYMX_JOBS"));
  if (getenv("SYMX_BUDGET")) g_deadline = now() + atof(getenv("SYMX_BUDGET"));
  if (getenv("SYMX_QMS")) g_qms = atoi(getenv("SYMX_QMS"));
  if (getenv("SYMX_QMS2")) g_qms2 = atoi(getenv("SYMX_QMS2"));
  if (getenv("VERIF_SEED")) g_seed = atoi(getenv("VERIF_SEED"));
  g_out = open(argv[1], O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
  if (!getenv("SYMX_VERBOSE")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
  S->running = 1;
  signal(SIGTERM, on_term);
  for (auto &r : sym::regs()) {
    bool want = argc == 2;
    for (int i = 2; i < argc; i++) if (r.first == argv[i]) want = true;
    if (!want) continue;
    while (S->running > g_jobs) usleep(2000);
    __sync_add_and_fetch(&S->running, 1);
    pid_t p = fork();
    if (p) { setpgid(p, p); kids.push_back(p); continue; }
    setpgid(0, 0);
    kids.clear();
    g_harness = strdup(r.first.c_str());
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_crash); signal(SIGSEGV, on_crash); signal(SIGFPE, on_crash); signal(SIGBUS, on_crash);
    signal(SIGXCPU, on_xcpu);
    struct rlimit rl; getrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = g_cpu; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rng.seed(g_seed * 7919 + 13);
    { stack_t ss; ss.ss_size = 256u << 20; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, 0);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); }
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg); Z3_set_error_handler(C, die_err);
    RS = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, RS));
    FS = Z3_mk_fpa_sort_double(C); Z3_inc_ref(C, Z3_sort_to_ast(C, FS));
    Z = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, Z);
    Z3_params pr = Z3_mk_params(C); Z3_params_inc_ref(C, pr);
    Z3_params_set_uint(C, pr, Z3_mk_string_symbol(C, "random_seed"), g_seed);
    Z3_params_set_uint(C, pr, Z3_mk_string_symbol(C, "max_memory"), 1500);
    Z3_solver_set_params(C, Z, pr);
    cur = new Env();
    try { r.second(); }
    catch (const std::exception &e) { if (getenv("SYMX_DEBUG")) { fprintf(stderr, "EXC %s\n", e.what()); for (auto &q : pc) fprintf(stderr, "   PC %d %s ~ %s\n", q.p->k, q.p->k ? "" : dbg(q.p->a).c_str(), q.p->k ? "" : dbg(q.p->b).c_str()); } sym::check("uncaught-exception", false); }
    catch (...) { sym::check("uncaught-exception", false); }
    // reachability witness and sample for native validation
    if (!path_bad) {
      Env e; int w = 1;
      if (S->witnesses < g_maxwit * 4 || (rng() % 50) == 0) {
        w = find_inputs(0, e, 0);
        if (w == 1) { INC(witnesses); emit("{\"t\":\"wit\",\"h\":" + js(g_harness) + ",\"in\":" + inputs_json(e) + ",\"checks\":" + std::to_string(nchecks) + "}"); }
        else if (w == 0) INC(infeasible);
      }
    }
    if (maybe_infeasible) INC(killedUnknown);
    end_path();
  }
  __sync_fetch_and_sub(&S->running, 1);
  // what does not come to an end after the deadline (a solver call that does not listen) is ended, and counted as cut
  std::vector<pid_t> alive = kids;
  double late_since = 0;
  while (!alive.empty()) {
    for (size_t i = 0; i < alive.size();) {
      int st; pid_t r = waitpid(alive[i], &st, WNOHANG);
      if (r == 0) { i++; continue; }
      if (r > 0 && (WIFSIGNALED(st) || WEXITSTATUS(st) >= 90)) { if (late_since) INC(deadline); else INC(crash); }
      alive.erase(alive.begin() + i);
    }
    if (late() && !late_since) late_since = now();
    if (late_since && now() > late_since + 25) for (pid_t k : alive) kill(-k, SIGKILL);
    usleep(5000);
  }
  // summary
  std::string s = "{\"t\":\"sum\"";
#define F(n) s += ",\"" #n "\":" + std::to_string(S->n);
  F(paths) F(killed) F(forks) F(decisions) F(queries) F(q_unsat) F(q_sat) F(q_unknown) F(rescued) F(infeasible) F(bound) F(cpu) F(crash) F(concretised) F(witnesses) F(deadline) F(killedUnknown) F(ranged) F(solver_s) F(maxq_s)
  s += ",\"lemmas\":[";
  for (int i = 0; i < S->nlem; i++) s += (i ? "," : "") + js(S->lem[i]);
  s += "],\"labels\":{";
  for (int i = 0; i < S->nl; i++) {
    LabelStat &l = S->L[i];
    s += (i ? "," : "") + js(l.name) + ":{\"reached\":" + std::to_string(l.reached) + ",\"normal\":" + std::to_string(l.normal) + ",\"proved\":" + std::to_string(l.proved) + ",\"proved_tol\":" + std::to_string(l.proved_tol) +
      ",\"concrete\":" + std::to_string(l.concrete) + ",\"unknown\":" + std::to_string(l.unknown) + ",\"violated\":" + std::to_string(l.violated) + ",\"asked\":" + std::to_string(l.asked) + ",\"confirmed\":" + std::to_string(l.confirmed) + "}";
  }
  s += "},\"addrs\":[";
  for (int i = 0; i < S->nf; i++) {
    Dl_info di; char b[64]; uintptr_t base = 0;
    if (dladdr(S->F[i], &di)) base = (uintptr_t)di.dli_fbase;
    snprintf(b, sizeof b, "%s\"0x%lx\"", i ? "," : "", (unsigned long)((uintptr_t)S->F[i] - base)); s += b;
  }
  s += "]}";
  emit(s);
  return 0;
}
