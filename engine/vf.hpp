// vf: exact term algebra used to encode the real code's arithmetic for an SMT solver.
//
// A value computed by the code under test is kept as an exact rational function over a set of
// generators: free variables, cos/sin of linear forms of free variables, square roots.
// Products are reduced by c^2 = 1 - s^2 and r^2 = arg.  The algebra only *encodes*; every
// obligation is sent to an SMT solver (see Solver) which decides it.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace vf {

// ------------------------------------------------------------------ rationals
class Q {
  int64_t n_ = 0, d_ = 1;
  mpq_class* b_ = nullptr;
  void setBig(const mpq_class& v);
 public:
  Q() {}
  Q(int v) : n_(v) {}
  Q(long v) : n_(v) {}
  Q(long long v) : n_(v) {}
  Q(int64_t n, int64_t d);
  explicit Q(const mpq_class& v) { setBig(v); }
  static Q fromDouble(double v);
  Q(const Q& o) : n_(o.n_), d_(o.d_), b_(o.b_ ? new mpq_class(*o.b_) : nullptr) {}
  Q(Q&& o) noexcept : n_(o.n_), d_(o.d_), b_(o.b_) { o.b_ = nullptr; }
  Q& operator=(const Q& o) { if (this != &o) { Q t(o); swap(t); } return *this; }
  Q& operator=(Q&& o) noexcept { swap(o); return *this; }
  ~Q() { delete b_; }
  void swap(Q& o) noexcept { std::swap(n_, o.n_); std::swap(d_, o.d_); std::swap(b_, o.b_); }
  bool isZero() const { return b_ ? sgn(*b_) == 0 : n_ == 0; }
  bool isOne() const { return !b_ && n_ == 1 && d_ == 1; }
  int sign() const { return b_ ? sgn(*b_) : (n_ > 0) - (n_ < 0); }
  bool isInt() const;
  long toLong() const;
  mpq_class mpq() const;
  double toDouble() const;
  std::string smt() const;   // SMT-LIB real literal
  std::string str() const;
  Q operator-() const;
  friend Q operator+(const Q&, const Q&);
  friend Q operator-(const Q& a, const Q& b) { return a + (-b); }
  friend Q operator*(const Q&, const Q&);
  friend Q operator/(const Q&, const Q&);
  friend bool operator==(const Q& a, const Q& b);
  friend bool operator!=(const Q& a, const Q& b) { return !(a == b); }
  friend bool operator<(const Q& a, const Q& b);
};

// ------------------------------------------------------------------ polynomials
using Mono = uint32_t;               // interned monomial; 0 is the empty monomial
using GenId = uint16_t;
struct Term { Mono m; Q c; };
class Poly {
 public:
  std::vector<Term> t;               // sorted by m, coefficients nonzero
  Poly() {}
  Poly(const Q& c) { if (!c.isZero()) t.push_back({0, c}); }
  Poly(int c) : Poly(Q(c)) {}
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m == 0); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].c; }
  Q constTerm() const { return (!t.empty() && t[0].m == 0) ? t[0].c : Q(0); }
  size_t size() const { return t.size(); }
  Poly operator-() const;
  friend Poly operator+(const Poly&, const Poly&);
  friend Poly operator-(const Poly&, const Poly&);
  friend Poly operator*(const Poly&, const Poly&);
  Poly scaled(const Q& q) const;
  friend bool operator==(const Poly& a, const Poly& b);
  std::string smt() const;
  std::string str(size_t maxTerms = 12) const;
};
bool lessPoly(const Poly& a, const Poly& b);   // arbitrary total order

// linear form over VAR generators + constant
struct LinForm {
  std::map<GenId, Q> c;
  Q k;
};

struct NeedExpand : std::runtime_error { using std::runtime_error::runtime_error; };
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };

struct Gen {
  enum Kind { VAR, COS, SIN, SQRT, OPAQUE } kind;
  std::string name;      // SMT name
  LinForm form;          // COS/SIN
  GenId mate = 0;        // COS<->SIN
  Poly arg;              // SQRT
  std::function<double(const std::vector<double>&)> opaqueEval;
  std::vector<int> opaqueArgs;   // indices into an opaque argument table
};

// rational function: num / prod(den_i ^ e_i)
class Rat {
 public:
  Poly num;
  std::map<int, int> den;            // denominator id -> exponent
  Rat() {}
  Rat(int v) : num(v) {}
  Rat(const Q& v) : num(v) {}
  Rat(const Poly& p) : num(p) {}
  bool isZero() const { return num.isZero(); }
  bool isConst() const { return den.empty() && num.isConst(); }
  Q constVal() const { return num.constVal(); }
  Rat operator-() const { Rat r; r.num = -num; r.den = den; return r; }
  friend Rat operator+(const Rat&, const Rat&);
  friend Rat operator-(const Rat& a, const Rat& b);
  friend Rat operator*(const Rat&, const Rat&);
  friend Rat operator/(const Rat&, const Rat&);
  Rat& operator+=(const Rat& o) { *this = *this + o; return *this; }
  Rat& operator-=(const Rat& o) { *this = *this - o; return *this; }
  Rat& operator*=(const Rat& o) { *this = *this * o; return *this; }
  std::string smt() const;
  std::string str() const;
};
// identical as elements of the encoded algebra (cross-multiplied)
bool sameRat(const Rat& a, const Rat& b);

// ------------------------------------------------------------------ context
void setExpandAngles(bool on);            // cos(a+b) expanded into atoms of single variables
bool expandAngles();
void setTermLimit(size_t n);
Rat var(const std::string& name);         // free real variable (same name -> same variable)
GenId varId(const std::string& name);
bool isVarName(const std::string& name);
void setNumericAngles(bool on);           // fixed angles as the rotation given by the double cos/sin (for close())
Rat rcos(const Rat& a);
Rat rsin(const Rat& a);
Rat rsqrt(const Rat& a);
Rat rabs(const Rat& a);                   // sqrt(a^2)
Rat ipow(const Rat& a, int n);
Rat opaque(const std::string& op, const std::vector<Rat>& args,
           std::function<double(const std::vector<double>&)> ev);
const Rat& opaqueArg(int i);
Rat diff(const Rat& a, GenId v);
Poly diffP(const Poly& a, GenId v);
const Gen& gen(GenId g);
size_t numGens();
const std::vector<std::pair<GenId, uint16_t>>& mono(Mono m);
std::set<GenId> gensOf(const Poly& p);    // including nested sqrt args
std::set<GenId> gensOf(const Rat& r);
const Poly& denPoly(int id);
Mono internMono(std::vector<std::pair<GenId, uint16_t>> v);
Poly genPoly(GenId g);
Poly subst(const Poly& p, const std::map<GenId, Poly>& s);

// numeric evaluation; assignment by variable name
using Env = std::map<std::string, double>;
double evalP(const Poly& p, const Env& e);
double evalR(const Rat& r, const Env& e);
double absEvalR(const Rat& r, const Env& e);  // sum of |terms|, for tolerances

// ------------------------------------------------------------------ solver
struct SolverStats { long queries = 0, unsat = 0, sat = 0, unknown = 0; double seconds = 0; long bytes = 0; };
class Solver {
  int in_ = -1, out_ = -1; int pid_ = -1;
  std::string name_;
  std::string buf_;
  void start();
  std::string readLine();
 public:
  SolverStats st;
  double lastSeconds = 0;
  explicit Solver(std::string cmd) : name_(std::move(cmd)) {}
  ~Solver();
  void stop();
  void detach();   // in a forked child: forget the parent's solver process
  // body: declarations and assertions. returns "sat", "unsat" or "unknown"
  std::string check(const std::string& body, int timeoutMs, const std::vector<std::string>* wantModel = nullptr,
                    std::map<std::string, std::string>* model = nullptr);
};
// declarations + side conditions (trig, sqrt, nonzero denominators) for these generators
std::string declare(const std::set<GenId>& gs, const std::set<int>& dens = {});
double parseSmtReal(const std::string& s);   // numeric value of a model value (rational / root-obj)
}  // namespace vf
