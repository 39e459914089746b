// Harness API.  The same harness source is compiled twice:
//   symbolic build (-DSYMX): after engine/transform.py, `double` is SymD and the calls below create terms,
//     assumptions and proof obligations that are decided by Z3 on every path;
//   native build: plain double; inputs come from a replay file and the same checks are evaluated concretely.
#ifndef SYM_H
#define SYM_H
#ifdef SYMX
#include "symd.h"
typedef SymD symreal;
#else
#include <bits/stdc++.h>
typedef double symreal;
#endif

namespace sym {
#ifdef SYMX
struct CondRep;
struct Cond { std::shared_ptr<CondRep> p; };
#else
struct Cond { bool v, hi, lo; };   // value; true allowing for rounding in <= and == (assumptions) / its dual
#endif
Cond lt(const symreal &a, const symreal &b);
Cond le(const symreal &a, const symreal &b);
Cond eq(const symreal &a, const symreal &b);
Cond near(const symreal &a, const symreal &b, const symreal &tol);   // |a-b| <= tol
Cond operator!(const Cond &a);
Cond operator&&(const Cond &a, const Cond &b);
Cond operator||(const Cond &a, const Cond &b);
Cond truth(bool b);
bool holds(const Cond &c);                       // path oracle (forks)

symreal real(const std::string &name, const symreal &lo, const symreal &hi);   // arbitrary value in [lo, hi]
symreal character(const std::string &name, const std::string &alphabet);       // arbitrary code among those
symreal fp(const std::string &name);             // arbitrary double incl. NaN / infinities (FP mode only)
void use_fp();                                   // bit-precise mode for the current harness
void use_univariate();                           // one-variable harness: rational functions are reduced and decided by nlsat
int choose(const std::string &name, int lo, int hi);   // every value in lo..hi is explored
void assume(const Cond &c);
void assume(bool b);
void check(const std::string &label, bool ok);
void check(const std::string &label, const Cond &c);
void check_eq(const std::string &label, const symreal &a, const symreal &b, const symreal &tol = symreal(1e-7));
void check_le(const std::string &label, const symreal &a, const symreal &b);
void check_lt(const std::string &label, const symreal &a, const symreal &b);
void lemma(const Cond &c, const std::string &why);  // a true mathematical fact given to the solver (listed in the evidence)
// an arbitrary function of x (the solver knows only that equal arguments give equal values); f evaluates it
symreal function(const std::string &name, symreal (*f)(const symreal &), const symreal &x);
#ifdef SYMX
// an arbitrary value in [lo, hi] for each tuple of arguments: equal arguments (as normal forms) give the same value
symreal arbitrary(const std::string &name, const std::vector<symreal> &args, const symreal &lo, const symreal &hi);
#endif
bool is_symbolic();
bool finite(const symreal &a);
int tier();                                      // 0 quick, 1 thorough
// how a call ended: 0 normally, 1 invalid_argument, 2 runtime_error, 3 out_of_range, 4 other std::exception, 5 anything else
template <class F> int outcome(F f) {
  try { f(); }
  catch (const std::invalid_argument &) { return 1; }
  catch (const std::out_of_range &) { return 3; }
  catch (const std::runtime_error &) { return 2; }
  catch (const std::exception &) { return 4; }
  catch (...) { return 5; }
  return 0;
}
typedef void (*HarnessFn)();
struct Reg { Reg(const char *name, HarnessFn f); };
}
#define HARNESS(name) static void h_##name(); static sym::Reg reg_##name(#name, h_##name); static void h_##name()
#endif
