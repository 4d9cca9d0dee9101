// vf::Sym: a scalar that takes the place of `double` when the real sources are compiled for symbolic execution.
// Arithmetic builds an operation graph; values are turned into exact rational functions (vf.hpp) when an
// obligation is checked.  A comparison of symbolic values forks the execution when the solver finds both
// outcomes possible under the current path condition.
#pragma once
#include <cmath>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
namespace casadi { template <class T> class Matrix; class SXElem; class Function; }
namespace vf {
typedef double real;
struct Sym;
Sym symOp(int op, const Sym& a, const Sym& b);
Sym symOp1(int op, const Sym& a);
bool symCmp(int op, const Sym& a, const Sym& b);      // 0 <, 1 <=, 2 ==
real symConst(const Sym& a, const char* what);        // the value of a constant, else not supported
#ifdef VF_RECORD
void symRead(const Sym* p); void symWrite(const Sym* p);
#define VF_RD(p) ::vf::symRead(p)
#define VF_WR(p) ::vf::symWrite(p)
#else
#define VF_RD(p) ((void)0)
#define VF_WR(p) ((void)0)
#endif
struct Sym {
  real c; int id;                                     // id == 0: the constant c
  Sym() = default;                                    // as for double: nothing, or zero when value-initialised
#ifdef VF_RECORD
  Sym(const Sym& o) : c(o.c), id(o.id) { VF_RD(&o); VF_WR(this); }
  Sym& operator=(const Sym& o) { VF_RD(&o); c = o.c; id = o.id; VF_WR(this); return *this; }
#endif
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
  constexpr Sym(T v) : c((real)v), id(0) {}
  explicit Sym(const casadi::Matrix<casadi::SXElem>& m);
  explicit Sym(const casadi::SXElem& e);
  static Sym node(int i) { Sym s(0); s.id = i; return s; }
  bool isConst() const { return id == 0; }
  operator casadi::Matrix<casadi::SXElem>() const;
  explicit operator bool() const { return !symCmp(2, *this, Sym(0)); }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>::type>
  explicit operator T() const { return (T)symConst(*this, "conversion of a symbolic value to a machine number"); }
  Sym& operator+=(const Sym& o) { return *this = symOp(0, *this, o); }
  Sym& operator-=(const Sym& o) { return *this = symOp(1, *this, o); }
  Sym& operator*=(const Sym& o) { return *this = symOp(2, *this, o); }
  Sym& operator/=(const Sym& o) { return *this = symOp(3, *this, o); }
  Sym operator-() const { return symOp1(4, *this); }
  Sym operator+() const { return *this; }
  Sym& operator++() { return *this += Sym(1); } Sym& operator--() { return *this -= Sym(1); }
  Sym operator++(int) { Sym t = *this; *this += Sym(1); return t; } Sym operator--(int) { Sym t = *this; *this -= Sym(1); return t; }
  bool operator!() const { return !(bool)*this; }
};
#define VF_A template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
#define VF_BIN(o, k) inline Sym operator o(const Sym& a, const Sym& b) { return symOp(k, a, b); } \
  VF_A inline Sym operator o(const Sym& a, T b) { return symOp(k, a, Sym(b)); } VF_A inline Sym operator o(T a, const Sym& b) { return symOp(k, Sym(a), b); }
VF_BIN(+, 0) VF_BIN(-, 1) VF_BIN(*, 2) VF_BIN(/, 3)
#define VF_CMP(o, e) inline bool operator o(const Sym& a, const Sym& b) { return e; } \
  VF_A inline bool operator o(const Sym& a, T v) { Sym b(v); return e; } VF_A inline bool operator o(T v, const Sym& b) { Sym a(v); return e; }
VF_CMP(<, symCmp(0, a, b)) VF_CMP(>, symCmp(0, b, a)) VF_CMP(<=, symCmp(1, a, b)) VF_CMP(>=, symCmp(1, b, a)) VF_CMP(==, symCmp(2, a, b)) VF_CMP(!=, !symCmp(2, a, b))
#define VF_FUNS1(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(exp) X(log) X(sqrt) X(fabs) X(abs) X(floor) X(ceil) X(round) X(trunc) X(cbrt)
#define VF_FUNS2(X) X(atan2) X(pow) X(fmod) X(hypot) X(fmin) X(fmax) X(copysign)
#define X(f) Sym f(const Sym& a);
VF_FUNS1(X)
#undef X
#define X(f) Sym f(const Sym& a, const Sym& b); VF_A inline Sym f(const Sym& a, T b) { return f(a, Sym(b)); } VF_A inline Sym f(T a, const Sym& b) { return f(Sym(a), b); }
VF_FUNS2(X)
#undef X
bool isnan(const Sym& a); bool isinf(const Sym& a); bool isfinite(const Sym& a); bool signbit(const Sym& a);
std::ostream& operator<<(std::ostream& o, const Sym& a);
std::istream& operator>>(std::istream& i, Sym& a);
// text form used in files: an exact decimal for constants, a token for symbolic values
std::string symText(const Sym& a, int precision = 17);
bool symParse(const std::string& s, Sym& out);
Sym lossy(const Sym& a, const char* why);             // value after a conversion that loses digits
// `float` in the code under test: keeps fewer digits than double
struct SymF { Sym v; SymF() {} SymF(const Sym& s) : v(lossy(s, "float")) {} VF_A SymF(T x) : v((real)(float)x) {} operator Sym() const { return v; } };
inline Sym operator*(const SymF& a, const Sym& b) { return a.v * b; } inline Sym operator*(const Sym& b, const SymF& a) { return a.v * b; }
inline Sym operator+(const SymF& a, const Sym& b) { return a.v + b; } inline Sym operator+(const Sym& b, const SymF& a) { return a.v + b; }
}  // namespace vf
namespace std {
#define X(f) using vf::f;
VF_FUNS1(X) VF_FUNS2(X)
#undef X
using vf::isnan; using vf::isinf; using vf::isfinite; using vf::signbit;
inline vf::Sym sqr(const vf::Sym& a) { return a * a; }
inline string to_string(const vf::Sym& a) { return vf::symText(a, 6); }
template <> struct numeric_limits<vf::Sym> : numeric_limits<vf::real> {
  static vf::Sym max() { return numeric_limits<vf::real>::max(); } static vf::Sym min() { return numeric_limits<vf::real>::min(); } static vf::Sym lowest() { return numeric_limits<vf::real>::lowest(); }
  static vf::Sym epsilon() { return numeric_limits<vf::real>::epsilon(); } static vf::Sym infinity() { return numeric_limits<vf::real>::infinity(); } static vf::Sym quiet_NaN() { return numeric_limits<vf::real>::quiet_NaN(); }
};
}
