// Symbolic stand-in for `double` (symbolic build only).
// A SymD is either a concrete double (id == 0) or a reference to a term (id != 0).
#ifndef SYMX_SYMD_H
#define SYMX_SYMD_H
#include <bits/stdc++.h>
#include <math.h>
#include <stdlib.h>

#define SYMX_ARITH(T) template <class T, class = typename std::enable_if<symx::arith<T>::value>::type>
struct SymD;
namespace symx {
enum Op : unsigned char { O_NONE, O_VAR, O_Q, O_ADD, O_SUB, O_MUL, O_DIV, O_NEG,
  O_EXP, O_LOG, O_SQRT, O_SIN, O_COS, O_TAN, O_ACOS, O_ASIN, O_ATAN, O_POW, O_ERF, O_ERFC, O_FLOOR, O_UF };
enum Rel : unsigned char { R_LT, R_LE, R_EQ };
SymD bin(Op op, const SymD &a, const SymD &b);
SymD un(Op op, const SymD &a);
bool decide(Rel r, const SymD &a, const SymD &b);     // path oracle: forks when both outcomes are feasible
long long concretise_int(const SymD &a);              // truncation towards zero, forks over feasible values
double concretise_double(const SymD &a);
bool is_nan(const SymD &a);
bool is_inf(const SymD &a);
std::string show(const SymD &a);
template <class T> struct arith : std::integral_constant<bool, std::is_arithmetic<T>::value> {};
}

struct SymD {
  double c;
  unsigned id;
  unsigned pad;
  SymD() = default;
  template <class T, class = typename std::enable_if<symx::arith<T>::value>::type>
  constexpr SymD(T v) : c((double)v), id(0), pad(0) {}
  template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
  explicit operator T() const {
    if (id == 0) return (T)c;
    return (T)symx::concretise_int(*this);
  }
  explicit operator bool() const { return !symx::decide(symx::R_EQ, *this, SymD(0)); }
  explicit operator double() const { return id == 0 ? c : symx::concretise_double(*this); }
  explicit operator float() const { return (float)(double)*this; }
  SymD operator-() const { return symx::un(symx::O_NEG, *this); }
  SymD operator+() const { return *this; }
  SymD &operator+=(const SymD &o) { *this = symx::bin(symx::O_ADD, *this, o); return *this; }
  SymD &operator-=(const SymD &o) { *this = symx::bin(symx::O_SUB, *this, o); return *this; }
  SymD &operator*=(const SymD &o) { *this = symx::bin(symx::O_MUL, *this, o); return *this; }
  SymD &operator/=(const SymD &o) { *this = symx::bin(symx::O_DIV, *this, o); return *this; }
  SymD &operator++() { return *this += SymD(1); }
  SymD &operator--() { return *this -= SymD(1); }
  SymD operator++(int) { SymD t = *this; *this += SymD(1); return t; }
  SymD operator--(int) { SymD t = *this; *this -= SymD(1); return t; }
#define SYMX_BIN(op, OP) \
  friend SymD operator op(const SymD &a, const SymD &b) { return symx::bin(symx::OP, a, b); } \
  SYMX_ARITH(T) friend SymD operator op(const SymD &a, T b) { return symx::bin(symx::OP, a, SymD(b)); } \
  SYMX_ARITH(T) friend SymD operator op(T a, const SymD &b) { return symx::bin(symx::OP, SymD(a), b); }
SYMX_BIN(+, O_ADD) SYMX_BIN(-, O_SUB) SYMX_BIN(*, O_MUL) SYMX_BIN(/, O_DIV)
#define SYMX_REL(op, expr) \
  friend bool operator op(const SymD &a, const SymD &b) { return expr; } \
  SYMX_ARITH(T) friend bool operator op(const SymD &a, T bb) { SymD b(bb); return expr; } \
  SYMX_ARITH(T) friend bool operator op(T aa, const SymD &b) { SymD a(aa); return expr; }
// NaN operands (id == 0 constants) make every ordered comparison false, as for double
SYMX_REL(<, symx::decide(symx::R_LT, a, b))
SYMX_REL(<=, symx::decide(symx::R_LE, a, b))
SYMX_REL(>, symx::decide(symx::R_LT, b, a))
SYMX_REL(>=, symx::decide(symx::R_LE, b, a))
SYMX_REL(==, symx::decide(symx::R_EQ, a, b))
SYMX_REL(!=, !symx::decide(symx::R_EQ, a, b))
friend bool operator!(const SymD &a) { return symx::decide(symx::R_EQ, a, SymD(0)); }

};
static_assert(std::is_trivially_copyable<SymD>::value && std::is_trivial<SymD>::value, "SymD must be trivial like double");

namespace symx {
inline SymD f_abs(const SymD &a) { return (a < SymD(0)) ? -a : a; }
SymD f_pow(const SymD &a, const SymD &b);
SymD f_floor(const SymD &a);
SymD f_fmod(const SymD &a, const SymD &b);
inline SymD f_max(const SymD &a, const SymD &b) { return (a < b) ? b : a; }
inline SymD f_min(const SymD &a, const SymD &b) { return (b < a) ? b : a; }
}

#define SYMX_FUNCS \
  inline SymD exp(const SymD &a) { return symx::un(symx::O_EXP, a); } \
  inline SymD log(const SymD &a) { return symx::un(symx::O_LOG, a); } \
  inline SymD log10(const SymD &a) { return symx::un(symx::O_LOG, a) / symx::un(symx::O_LOG, SymD(10)); } \
  inline SymD log2(const SymD &a) { return symx::un(symx::O_LOG, a) / symx::un(symx::O_LOG, SymD(2)); } \
  inline SymD log1p(const SymD &a) { return symx::un(symx::O_LOG, SymD(1) + a); } \
  inline SymD expm1(const SymD &a) { return symx::un(symx::O_EXP, a) - SymD(1); } \
  inline SymD sqrt(const SymD &a) { return symx::un(symx::O_SQRT, a); } \
  inline SymD sin(const SymD &a) { return symx::un(symx::O_SIN, a); } \
  inline SymD cos(const SymD &a) { return symx::un(symx::O_COS, a); } \
  inline SymD tan(const SymD &a) { return symx::un(symx::O_TAN, a); } \
  inline SymD acos(const SymD &a) { return symx::un(symx::O_ACOS, a); } \
  inline SymD asin(const SymD &a) { return symx::un(symx::O_ASIN, a); } \
  inline SymD atan(const SymD &a) { return symx::un(symx::O_ATAN, a); } \
  inline SymD atan2(const SymD &y, const SymD &x) { return symx::un(symx::O_ATAN, y / x); } \
  inline SymD erf(const SymD &a) { return symx::un(symx::O_ERF, a); } \
  inline SymD erfc(const SymD &a) { return symx::un(symx::O_ERFC, a); } \
  inline SymD floor(const SymD &a) { return symx::f_floor(a); } \
  inline SymD ceil(const SymD &a) { return -symx::f_floor(-a); } \
  inline SymD trunc(const SymD &a) { return (a < SymD(0)) ? -symx::f_floor(-a) : symx::f_floor(a); } \
  inline SymD fabs(const SymD &a) { return symx::f_abs(a); } \
  inline SymD abs(const SymD &a) { return symx::f_abs(a); } \
  inline SymD hypot(const SymD &a, const SymD &b) { return symx::un(symx::O_SQRT, a*a + b*b); } \
  inline SymD pow(const SymD &a, const SymD &b) { return symx::f_pow(a, b); } \
  SYMX_ARITH(T) inline SymD pow(const SymD &a, T b) { return symx::f_pow(a, SymD(b)); } \
  SYMX_ARITH(T) inline SymD pow(T a, const SymD &b) { return symx::f_pow(SymD(a), b); } \
  inline SymD fmod(const SymD &a, const SymD &b) { return symx::f_fmod(a, b); } \
  inline SymD fmax(const SymD &a, const SymD &b) { return symx::f_max(a, b); } \
  inline SymD fmin(const SymD &a, const SymD &b) { return symx::f_min(a, b); } \
  inline bool isnan(const SymD &a) { return symx::is_nan(a); } \
  inline bool isinf(const SymD &a) { return symx::is_inf(a); } \
  inline bool isfinite(const SymD &a) { return !symx::is_nan(a) && !symx::is_inf(a); } \
  inline bool signbit(const SymD &a) { return a < SymD(0); }
SYMX_FUNCS
namespace std {
SYMX_FUNCS
template <> class numeric_limits<SymD> : public numeric_limits<double> {
public:
  static constexpr SymD min() noexcept { return SymD(numeric_limits<double>::min()); }
  static constexpr SymD max() noexcept { return SymD(numeric_limits<double>::max()); }
  static constexpr SymD lowest() noexcept { return SymD(numeric_limits<double>::lowest()); }
  static constexpr SymD epsilon() noexcept { return SymD(numeric_limits<double>::epsilon()); }
  static constexpr SymD infinity() noexcept { return SymD(numeric_limits<double>::infinity()); }
  static constexpr SymD quiet_NaN() noexcept { return SymD(numeric_limits<double>::quiet_NaN()); }
  static constexpr SymD denorm_min() noexcept { return SymD(numeric_limits<double>::denorm_min()); }
};
inline ostream &operator<<(ostream &o, const SymD &a) {
  if (a.id == 0) return o << a.c;
  return o << symx::show(a);
}
inline istream &operator>>(istream &i, SymD &a) { double d = 0; i >> d; a = SymD(d); return i; }
inline string to_string(const SymD &a) { return a.id == 0 ? std::to_string(a.c) : symx::show(a); }
}
#endif
