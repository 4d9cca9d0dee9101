#include "vf.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <poll.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace vf {

// ============================================================ Q
static int64_t gcd64(int64_t a, int64_t b) {
  uint64_t x = a < 0 ? -(uint64_t)a : a, y = b < 0 ? -(uint64_t)b : b;
  while (y) { uint64_t r = x % y; x = y; y = r; }
  return (int64_t)x;
}
static mpz_class mpzFrom(int64_t v) { mpz_class z; mpz_set_si(z.get_mpz_t(), v); return z; }
void Q::setBig(const mpq_class& v) {
  const mpz_class &n = v.get_num(), &d = v.get_den();
  if (n.fits_slong_p() && d.fits_slong_p()) {
    delete b_; b_ = nullptr; n_ = n.get_si(); d_ = d.get_si();
    if (n_ != INT64_MIN) return;
  }
  if (b_) *b_ = v; else b_ = new mpq_class(v);
}
Q::Q(int64_t n, int64_t d) {
  mpq_class v(mpzFrom(n), mpzFrom(d)); v.canonicalize(); setBig(v);
}
mpq_class Q::mpq() const {
  if (b_) return *b_;
  return mpq_class(mpzFrom(n_), mpzFrom(d_));
}
Q Q::fromDouble(double v) {
  if (!std::isfinite(v)) throw Unsupported("non-finite constant");
  if (v == std::floor(v) && std::fabs(v) < 1e15) return Q((long)v);
  mpq_class m(v); m.canonicalize(); return Q(m);
}
bool Q::isInt() const { return b_ ? b_->get_den() == 1 : d_ == 1; }
long Q::toLong() const { return b_ ? b_->get_num().get_si() : n_; }
double Q::toDouble() const { return b_ ? b_->get_d() : (d_ == 1 ? (double)n_ : mpq().get_d()); }
std::string Q::str() const { return mpq().get_str(); }
std::string Q::smt() const {
  mpq_class v = mpq();
  bool neg = sgn(v) < 0; if (neg) v = -v;
  std::string s;
  if (v.get_den() == 1) s = v.get_num().get_str() + ".0";
  else s = "(/ " + v.get_num().get_str() + ".0 " + v.get_den().get_str() + ".0)";
  return neg ? "(- " + s + ")" : s;
}
Q Q::operator-() const {
  if (b_) return Q(mpq_class(-*b_));
  Q r; r.n_ = -n_; r.d_ = d_; return r;
}
Q operator+(const Q& a, const Q& b) {
  if (!a.b_ && !b.b_) {
    if (a.d_ == 1 && b.d_ == 1) { int64_t s; if (!__builtin_add_overflow(a.n_, b.n_, &s) && s != INT64_MIN) { Q r; r.n_ = s; return r; } }
    else {
      int64_t g = gcd64(a.d_, b.d_), bd = b.d_ / g, ad = a.d_ / g, x, y, n, d;
      if (!__builtin_mul_overflow(a.n_, bd, &x) && !__builtin_mul_overflow(b.n_, ad, &y) &&
          !__builtin_add_overflow(x, y, &n) && !__builtin_mul_overflow(a.d_, bd, &d) && n != INT64_MIN) {
        Q r; if (n == 0) return r;
        int64_t h = gcd64(n, d); r.n_ = n / h; r.d_ = d / h; return r;
      }
    }
  }
  return Q(mpq_class(a.mpq() + b.mpq()));
}
Q operator*(const Q& a, const Q& b) {
  if (!a.b_ && !b.b_) {
    if (a.isOne()) return b;
    if (b.isOne()) return a;
    if (a.d_ == 1 && b.d_ == 1) { int64_t s; if (!__builtin_mul_overflow(a.n_, b.n_, &s) && s != INT64_MIN) { Q r; r.n_ = s; return r; } }
    else {
      if (a.n_ == 0 || b.n_ == 0) return Q();
      int64_t g1 = gcd64(a.n_, b.d_), g2 = gcd64(b.n_, a.d_), n, d;
      if (!__builtin_mul_overflow(a.n_ / g1, b.n_ / g2, &n) && !__builtin_mul_overflow(a.d_ / g2, b.d_ / g1, &d) && n != INT64_MIN) {
        Q r; r.n_ = n; r.d_ = d; return r;
      }
    }
  }
  return Q(mpq_class(a.mpq() * b.mpq()));
}
Q operator/(const Q& a, const Q& b) {
  if (b.isZero()) throw Unsupported("division by constant zero");
  return Q(mpq_class(a.mpq() / b.mpq()));
}
bool operator==(const Q& a, const Q& b) {
  if (!a.b_ && !b.b_) return a.n_ == b.n_ && a.d_ == b.d_;
  return a.mpq() == b.mpq();
}
bool operator<(const Q& a, const Q& b) { return a.mpq() < b.mpq(); }

// ============================================================ generators
static std::deque<Gen>& gens() { static std::deque<Gen> g; return g; }
const Gen& gen(GenId g) { return gens()[g]; }
size_t numGens() { return gens().size(); }
static bool g_expand = false;
static size_t g_limit = 3000000;
void setExpandAngles(bool on) { g_expand = on; }
bool expandAngles() { return g_expand; }
void setTermLimit(size_t n) { g_limit = n; }
static std::map<std::string, GenId>& varIdx() { static std::map<std::string, GenId> m; return m; }
static GenId newGen(Gen g) {
  if (gens().size() > 60000) throw TooBig("generators");
  gens().push_back(std::move(g)); return (GenId)(gens().size() - 1);
}
GenId varId(const std::string& name) {
  auto it = varIdx().find(name);
  if (it != varIdx().end()) return it->second;
  Gen g; g.kind = Gen::VAR; g.name = "|" + name + "|";
  GenId id = newGen(g); varIdx()[name] = id; return id;
}
bool isVarName(const std::string& name) { return varIdx().count(name) > 0; }

// ============================================================ monomials
using MV = std::vector<std::pair<GenId, uint16_t>>;
static std::deque<MV>& monos() { static std::deque<MV> m(1); return m; }
struct MVHash { size_t operator()(const MV& v) const { uint64_t h = 1469598103934665603ull; for (auto& p : v) { h ^= ((uint64_t)p.first << 16) | p.second; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<MV, Mono, MVHash>& monoIdx() { static std::unordered_map<MV, Mono, MVHash> m{{MV(), 0}}; return m; }
const MV& mono(Mono m) { return monos()[m]; }
Mono internMono(MV v) {
  auto& ix = monoIdx();
  auto it = ix.find(v);
  if (it != ix.end()) return it->second;
  Mono id = (Mono)monos().size();
  monos().push_back(v);
  ix.emplace(std::move(v), id);
  return id;
}
Poly genPoly(GenId g) { Poly p; p.t.push_back({internMono({{g, 1}}), Q(1)}); return p; }

struct MulRes { Mono m; int poly; };
static std::unordered_map<uint64_t, MulRes>& mulCache() { static std::unordered_map<uint64_t, MulRes> m; return m; }
static std::deque<Poly>& mulPolys() { static std::deque<Poly> p; return p; }

static MulRes mulMonoSlow(Mono a, Mono b) {
  const MV &x = monos()[a], &y = monos()[b];
  MV r; r.reserve(x.size() + y.size());
  size_t i = 0, j = 0;
  std::vector<std::pair<GenId, uint16_t>> special;   // squared cos / sqrt factors to expand
  auto push = [&](GenId g, unsigned e) {
    auto k = gens()[g].kind;
    if (e >= 2 && (k == Gen::COS || k == Gen::SQRT)) {
      special.push_back({g, (uint16_t)(e / 2)});
      if (e % 2) r.push_back({g, 1});
    } else r.push_back({g, (uint16_t)e});
  };
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) { push(x[i].first, x[i].second); i++; }
    else if (i >= x.size() || y[j].first < x[i].first) { push(y[j].first, y[j].second); j++; }
    else { push(x[i].first, x[i].second + y[j].second); i++; j++; }
  }
  Mono base = internMono(r);
  if (special.empty()) return {base, -1};
  Poly p; p.t.push_back({base, Q(1)});
  for (auto& s : special) {
    const Gen g = gens()[s.first];
    Poly f;
    if (g.kind == Gen::COS) { f = Poly(1); Poly sn; sn.t.push_back({internMono({{g.mate, 2}}), Q(1)}); f = f - sn; }
    else f = g.arg;
    for (int k = 0; k < s.second; k++) p = p * f;
  }
  mulPolys().push_back(p);
  return {0, (int)mulPolys().size() - 1};
}
static MulRes mulMono(Mono a, Mono b) {
  if (a == 0) return {b, -1};
  if (b == 0) return {a, -1};
  if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | b;
  auto& c = mulCache();
  auto it = c.find(k);
  if (it != c.end()) return it->second;
  MulRes r = mulMonoSlow(a, b);
  if (c.size() > 12000000) c.clear();
  c.emplace(k, r);
  return r;
}

// ============================================================ Poly
static Poly fromAcc(std::unordered_map<Mono, Q>& acc) {
  Poly r; r.t.reserve(acc.size());
  for (auto& kv : acc) if (!kv.second.isZero()) r.t.push_back({kv.first, std::move(kv.second)});
  std::sort(r.t.begin(), r.t.end(), [](const Term& a, const Term& b) { return a.m < b.m; });
  if (r.t.size() > g_limit) throw TooBig("polynomial exceeds term limit");
  return r;
}
Poly Poly::operator-() const { Poly r = *this; for (auto& x : r.t) x.c = -x.c; return r; }
Poly Poly::scaled(const Q& q) const {
  if (q.isZero()) return Poly();
  Poly r = *this; if (!q.isOne()) for (auto& x : r.t) x.c = x.c * q;
  return r;
}
Poly operator+(const Poly& a, const Poly& b) {
  if (a.isZero()) return b;
  if (b.isZero()) return a;
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].m < b.t[j].m)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].m < a.t[i].m) r.t.push_back(b.t[j++]);
    else { Q s = a.t[i].c + b.t[j].c; if (!s.isZero()) r.t.push_back({a.t[i].m, s}); i++; j++; }
  }
  return r;
}
Poly operator-(const Poly& a, const Poly& b) { return a + (-b); }
Poly operator*(const Poly& a, const Poly& b) {
  if (a.isZero() || b.isZero()) return Poly();
  if (a.isConst()) return b.scaled(a.t[0].c);
  if (b.isConst()) return a.scaled(b.t[0].c);
  std::unordered_map<Mono, Q> acc; acc.reserve(std::min<size_t>(a.t.size() * b.t.size(), 4000000));
  auto add = [&](Mono m, const Q& q) {
    auto r = acc.emplace(m, q);
    if (!r.second) r.first->second = r.first->second + q;
  };
  for (auto& x : a.t) for (auto& y : b.t) {
    MulRes m = mulMono(x.m, y.m);
    Q c = x.c * y.c;
    if (m.poly < 0) add(m.m, c);
    else { const Poly& p = mulPolys()[m.poly]; for (auto& z : p.t) add(z.m, c * z.c); }
  }
  return fromAcc(acc);
}
bool operator==(const Poly& a, const Poly& b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].m != b.t[i].m || a.t[i].c != b.t[i].c) return false;
  return true;
}
bool lessPoly(const Poly& a, const Poly& b) {
  if (a.t.size() != b.t.size()) return a.t.size() < b.t.size();
  for (size_t i = 0; i < a.t.size(); i++) {
    if (a.t[i].m != b.t[i].m) return a.t[i].m < b.t[i].m;
    if (a.t[i].c != b.t[i].c) return a.t[i].c < b.t[i].c;
  }
  return false;
}
static void monoSmt(std::string& o, Mono m) {
  for (auto& p : monos()[m]) for (int k = 0; k < p.second; k++) { o += ' '; o += gens()[p.first].name; }
}
std::string Poly::smt() const {
  if (t.empty()) return "0.0";
  std::string o;
  if (t.size() > 1) o += "(+";
  for (auto& x : t) {
    if (t.size() > 1) o += ' ';
    if (x.m == 0) { o += x.c.smt(); continue; }
    const MV& v = monos()[x.m];
    bool one = x.c.isOne();
    if (one && v.size() == 1 && v[0].second == 1) { o += gens()[v[0].first].name; continue; }
    o += "(*"; if (!one) { o += ' '; o += x.c.smt(); }
    monoSmt(o, x.m); o += ')';
  }
  if (t.size() > 1) o += ')';
  return o;
}
std::string Poly::str(size_t mx) const {
  if (t.empty()) return "0";
  std::string o; size_t k = 0;
  for (auto& x : t) {
    if (k) o += " + ";
    if (k++ >= mx) { o += "... (" + std::to_string(t.size()) + " terms)"; break; }
    o += x.c.str();
    for (auto& p : monos()[x.m]) { o += "*" + gens()[p.first].name; if (p.second > 1) o += "^" + std::to_string(p.second); }
  }
  return o;
}
Poly subst(const Poly& p, const std::map<GenId, Poly>& s) {
  Poly r;
  for (auto& x : p.t) {
    Poly f(x.c); MV rest;
    for (auto& g : monos()[x.m]) {
      auto it = s.find(g.first);
      if (it == s.end()) rest.push_back(g);
      else for (int k = 0; k < g.second; k++) f = f * it->second;
    }
    Poly m; m.t.push_back({internMono(rest), Q(1)});
    r = r + f * m;
  }
  return r;
}

// ============================================================ Rat
struct PolyLess { bool operator()(const Poly& a, const Poly& b) const { return lessPoly(a, b); } };
static std::deque<Poly>& dens() { static std::deque<Poly> d; return d; }
static std::map<Poly, int, PolyLess>& denIdx() { static std::map<Poly, int, PolyLess> m; return m; }
const Poly& denPoly(int id) { return dens()[id]; }
static int denId(const Poly& p) {
  auto it = denIdx().find(p);
  if (it != denIdx().end()) return it->second;
  dens().push_back(p); int id = (int)dens().size() - 1; denIdx()[p] = id; return id;
}
// cancel denominators that are single generators dividing every term of the numerator
static void cancel(Rat& r) {
  if (r.den.empty()) return;
  if (r.num.isZero()) { r.den.clear(); return; }
  for (auto it = r.den.begin(); it != r.den.end();) {
    const Poly& d = dens()[it->first];
    bool erased = false;
    if (d.t.size() == 1 && monos()[d.t[0].m].size() == 1 && monos()[d.t[0].m][0].second == 1) {
      GenId g = monos()[d.t[0].m][0].first;
      while (it->second > 0) {
        bool all = true;
        for (auto& x : r.num.t) { bool has = false; for (auto& q : monos()[x.m]) if (q.first == g) has = true; if (!has) { all = false; break; } }
        if (!all) break;
        Poly n;
        for (auto& x : r.num.t) { MV v = monos()[x.m]; for (size_t k = 0; k < v.size(); k++) if (v[k].first == g) { if (--v[k].second == 0) v.erase(v.begin() + k); break; } n.t.push_back({internMono(v), x.c}); }
        std::sort(n.t.begin(), n.t.end(), [](const Term& a, const Term& b) { return a.m < b.m; });
        r.num = n;
        it->second--;
      }
      if (it->second == 0) { it = r.den.erase(it); erased = true; }
    } else if (d == r.num && it->second > 0) {
      r.num = Poly(1); if (--it->second == 0) { it = r.den.erase(it); erased = true; }
    }
    if (!erased) ++it;
  }
}
static Poly denPow(int id, int e) { Poly p(1); for (int i = 0; i < e; i++) p = p * dens()[id]; return p; }
Rat operator+(const Rat& a, const Rat& b) {
  if (a.den == b.den) { Rat r; r.num = a.num + b.num; r.den = a.den; cancel(r); return r; }
  Rat r; r.den = a.den;
  for (auto& d : b.den) { int& e = r.den[d.first]; e = std::max(e, d.second); }
  auto lift = [&](const Rat& x) {
    Poly p = x.num;
    for (auto& d : r.den) { auto it = x.den.find(d.first); int have = it == x.den.end() ? 0 : it->second; if (d.second > have) p = p * denPow(d.first, d.second - have); }
    return p;
  };
  r.num = lift(a) + lift(b); cancel(r); return r;
}
Rat operator-(const Rat& a, const Rat& b) { return a + (-b); }
Rat operator*(const Rat& a, const Rat& b) {
  Rat r; r.num = a.num * b.num; r.den = a.den;
  for (auto& d : b.den) r.den[d.first] += d.second;
  cancel(r); return r;
}
Rat operator/(const Rat& a, const Rat& b) {
  if (b.num.isZero()) throw Unsupported("division by zero expression");
  Rat r; r.num = a.num; r.den = a.den;
  for (auto& d : b.den) {
    int e = d.second; auto it = r.den.find(d.first);
    if (it != r.den.end()) { int m = std::min(e, it->second); it->second -= m; e -= m; if (!it->second) r.den.erase(it); }
    if (e) r.num = r.num * denPow(d.first, e);
  }
  const Poly& n = b.num;
  if (n.t.size() == 1) {
    r.num = r.num.scaled(Q(1) / n.t[0].c);
    for (auto& g : monos()[n.t[0].m]) r.den[denId(genPoly(g.first))] += g.second;
  } else {
    Q lead = n.t.back().c;
    r.num = r.num.scaled(Q(1) / lead);
    r.den[denId(n.scaled(Q(1) / lead))] += 1;
  }
  cancel(r); return r;
}
bool sameRat(const Rat& a, const Rat& b) { return (a - b).num.isZero(); }
std::string Rat::smt() const {
  if (den.empty()) return num.smt();
  std::string o = "(/ " + num.smt() + " (*";
  for (auto& d : den) for (int i = 0; i < d.second; i++) o += " " + dens()[d.first].smt();
  o += " 1.0))"; return o;
}
std::string Rat::str() const {
  if (den.empty()) return num.str();
  std::string o = "(" + num.str() + ") / (";
  for (auto& d : den) o += "(" + dens()[d.first].str() + ")^" + std::to_string(d.second);
  return o + ")";
}
Rat var(const std::string& n) { return Rat(genPoly(varId(n))); }
Rat ipow(const Rat& a, int n) {
  if (n < 0) return Rat(1) / ipow(a, -n);
  Rat r(1); for (int i = 0; i < n; i++) r = r * a; return r;
}

// ============================================================ trig
struct Atom { LinForm f; GenId c, s; };
static std::vector<Atom>& atoms() { static std::vector<Atom> a; return a; }
static std::vector<std::map<GenId, Q>>& basis() { static std::vector<std::map<GenId, Q>> b; return b; }

static void axpy(std::map<GenId, Q>& v, const Q& k, const std::map<GenId, Q>& w) {
  for (auto& p : w) { Q x = v.count(p.first) ? v[p.first] + k * p.second : k * p.second; if (x.isZero()) v.erase(p.first); else v[p.first] = x; }
}
static bool addIndependent(std::map<GenId, Q> v) {
  for (auto& b : basis()) { GenId piv = b.begin()->first; auto it = v.find(piv); if (it != v.end()) { Q k = -(it->second / b.begin()->second); axpy(v, k, b); } }
  if (v.empty()) return false;
  GenId piv = v.begin()->first;
  for (auto& b : basis()) { auto it = b.find(piv); if (it != b.end()) { Q k = -(it->second / v.begin()->second); axpy(b, k, v); } }
  basis().push_back(v); return true;
}
static std::pair<Rat, Rat> atomCS(const std::map<GenId, Q>& f, bool checkIndep) {
  for (auto& a : atoms()) if (a.f.c == f) return {Rat(genPoly(a.c)), Rat(genPoly(a.s))};
  if (checkIndep && !addIndependent(f)) throw NeedExpand("dependent angle forms");
  std::string nm;
  for (auto& p : f) { std::string v = gens()[p.first].name; v = v.substr(1, v.size() - 2); nm += (nm.empty() ? "" : "+") + (p.second.isOne() ? std::string() : p.second.str() + "*") + v; }
  Gen c; c.kind = Gen::COS; c.name = "|cos(" + nm + ")|"; c.form.c = f;
  Gen s = c; s.kind = Gen::SIN; s.name = "|sin(" + nm + ")|";
  GenId ci = newGen(c), si = newGen(s);
  gens()[ci].mate = si; gens()[si].mate = ci;
  LinForm lf; lf.c = f; atoms().push_back({lf, ci, si});
  return {Rat(genPoly(ci)), Rat(genPoly(si))};
}
static bool linForm(const Rat& a, LinForm& f) {
  if (!a.den.empty()) return false;
  for (auto& x : a.num.t) {
    const MV& v = monos()[x.m];
    if (v.empty()) f.k = x.c;
    else if (v.size() == 1 && v[0].second == 1 && gens()[v[0].first].kind == Gen::VAR) f.c[v[0].first] = x.c;
    else return false;
  }
  return true;
}
static bool g_numAngles = false;
void setNumericAngles(bool on) { g_numAngles = on; }
static std::pair<Rat, Rat> cosSin(const Rat& a) {
  LinForm f;
  if (!linForm(a, f)) throw Unsupported("trigonometric argument is not linear in the inputs");
  // constant part: exact multiples of pi/2 (to 1e-9) are exact rotations
  double k = f.k.toDouble(); long n = std::lround(k / M_PI_2); bool fixedAngle = false;
  if (std::fabs(k - n * M_PI_2) > 1e-9 && g_numAngles) { fixedAngle = true; n = 0; }
  else if (std::fabs(k - n * M_PI_2) > 1e-9) { char b[64]; snprintf(b, sizeof b, "kang!%.17g", k); GenId g = varId(b); f.c[g] = f.c.count(g) ? f.c[g] + Q(1) : Q(1); n = 0; }
  Rat C(1), S(0);
  if (!f.c.empty()) {
    if (g_expand) {
      for (auto& p : f.c) {
        if (!p.second.isInt()) throw Unsupported("non-integer multiple of an angle");
        long m = p.second.toLong(); bool neg = m < 0; if (neg) m = -m;
        auto cs = atomCS({{p.first, Q(1)}}, false);
        if (neg) cs.second = -cs.second;
        for (long i = 0; i < m; i++) { Rat c2 = C * cs.first - S * cs.second; S = S * cs.first + C * cs.second; C = c2; }
      }
    } else {
      std::map<GenId, Q> g = f.c; bool neg = g.begin()->second.sign() < 0;
      if (neg) for (auto& p : g) p.second = -p.second;
      auto cs = atomCS(g, true);
      C = cs.first; S = neg ? -cs.second : cs.second;
    }
  }
  if (fixedAngle) { Rat c(Q::fromDouble(std::cos(k))), z(Q::fromDouble(std::sin(k))), t = C * c - S * z; S = S * c + C * z; C = t; }
  switch (((n % 4) + 4) % 4) {
    case 1: { Rat t = C; C = -S; S = t; break; }
    case 2: C = -C; S = -S; break;
    case 3: { Rat t = C; C = S; S = -t; break; }
  }
  return {C, S};
}
Rat rcos(const Rat& a) { return cosSin(a).first; }
Rat rsin(const Rat& a) { return cosSin(a).second; }

static std::map<Poly, GenId, PolyLess>& sqrtIdx() { static std::map<Poly, GenId, PolyLess> m; return m; }
static GenId sqrtGen(const Poly& p) {
  auto it = sqrtIdx().find(p);
  if (it != sqrtIdx().end()) return it->second;
  Gen g; g.kind = Gen::SQRT; g.arg = p; g.name = "|sqrt#" + std::to_string(sqrtIdx().size()) + "|";
  GenId id = newGen(g); sqrtIdx()[p] = id; return id;
}
Rat rsqrt(const Rat& a) {
  if (!a.den.empty()) throw Unsupported("square root of a quotient");
  const Poly& p = a.num;
  if (p.isZero()) return Rat(0);
  if (p.t.size() == 1) {
    mpq_class c = p.t[0].c.mpq();
    bool sq = sgn(c) > 0 && mpz_perfect_square_p(c.get_num().get_mpz_t()) && mpz_perfect_square_p(c.get_den().get_mpz_t());
    bool even = true;
    for (auto& g : monos()[p.t[0].m]) if (g.second % 2) even = false;
    if (sq && even) {
      mpq_class r(sqrt(c.get_num()), sqrt(c.get_den())); r.canonicalize();
      Rat out{Q(r)};
      for (auto& g : monos()[p.t[0].m]) {
        int h = g.second / 2; Rat gp(genPoly(g.first));
        if (h % 2 == 1) {
          if (gens()[g.first].kind == Gen::SQRT) out = out * gp; else out = out * Rat(genPoly(sqrtGen(genPoly(g.first) * genPoly(g.first))));
          h--;
        }
        for (int i = 0; i < h; i++) out = out * gp;
      }
      return out;
    }
  }
  return Rat(genPoly(sqrtGen(p)));
}
Rat rabs(const Rat& a) { if (a.isConst()) return a.constVal().sign() < 0 ? -a : a; return rsqrt(a * a); }

struct OpaqueRec { std::string op; std::vector<Rat> args; };
static std::deque<OpaqueRec>& opq() { static std::deque<OpaqueRec> o; return o; }
static std::vector<GenId>& opqGen() { static std::vector<GenId> o; return o; }
static std::deque<Rat>& opqArgs() { static std::deque<Rat> o; return o; }
Rat opaque(const std::string& op, const std::vector<Rat>& args, std::function<double(const std::vector<double>&)> ev) {
  for (size_t i = 0; i < opq().size(); i++) {
    if (opq()[i].op != op || opq()[i].args.size() != args.size()) continue;
    bool same = true;
    for (size_t k = 0; k < args.size(); k++) if (!sameRat(args[k], opq()[i].args[k])) { same = false; break; }
    if (same) return Rat(genPoly(opqGen()[i]));
  }
  Gen g; g.kind = Gen::OPAQUE; g.name = "|" + op + "#" + std::to_string(opq().size()) + "|"; g.opaqueEval = ev;
  for (auto& a : args) { g.opaqueArgs.push_back((int)opqArgs().size()); opqArgs().push_back(a); }
  GenId id = newGen(g); opq().push_back({op, args}); opqGen().push_back(id);
  return Rat(genPoly(id));
}

const Rat& opaqueArg(int i) { return opqArgs()[i]; }
// ============================================================ derivative
static Rat dGen(GenId g, GenId v) {
  const Gen& G = gens()[g];
  switch (G.kind) {
    case Gen::VAR: return Rat(g == v ? 1 : 0);
    case Gen::COS: { auto it = G.form.c.find(v); if (it == G.form.c.end()) return Rat(0); return Rat(genPoly(G.mate).scaled(-it->second)); }
    case Gen::SIN: { auto it = G.form.c.find(v); if (it == G.form.c.end()) return Rat(0); return Rat(genPoly(G.mate).scaled(it->second)); }
    case Gen::SQRT: { Rat da = diff(Rat(G.arg), v); if (da.isZero()) return Rat(0); return da / Rat(genPoly(g).scaled(Q(2))); }
    case Gen::OPAQUE: for (int a : G.opaqueArgs) if (!diff(opqArgs()[a], v).isZero()) throw Unsupported("derivative of opaque operation"); return Rat(0);
  }
  return Rat(0);
}
static Rat diffPoly(const Poly& p, GenId v) {
  std::map<GenId, std::unordered_map<Mono, Q>> parts;   // g -> d p / d g
  std::set<GenId> gs; std::map<GenId, Rat> dg;
  for (auto& x : p.t) for (auto& g : monos()[x.m]) gs.insert(g.first);
  for (GenId g : gs) { Rat d = dGen(g, v); if (!d.isZero()) dg[g] = d; }
  if (dg.empty()) return Rat(0);
  for (auto& x : p.t) {
    MV base = monos()[x.m];
    for (size_t k = 0; k < base.size(); k++) {
      if (!dg.count(base[k].first)) continue;
      MV w = base; int e = w[k].second; if (--w[k].second == 0) w.erase(w.begin() + k);
      Mono m = internMono(w); auto& acc = parts[base[k].first];
      Q c = x.c * Q(e); auto r = acc.emplace(m, c); if (!r.second) r.first->second = r.first->second + c;
    }
  }
  Rat out;
  for (auto& pr : parts) out = out + Rat(fromAcc(pr.second)) * dg[pr.first];
  return out;
}
Rat diff(const Rat& a, GenId v) {
  Rat dn = diffPoly(a.num, v);
  if (a.den.empty()) return dn;
  Rat r = a; r.num = Poly(1);
  Rat out = dn * r;
  for (auto& d : a.den) { Rat dd = diffPoly(dens()[d.first], v); if (dd.isZero()) continue; Rat f = a; f.den[d.first] += 1; out = out - f * dd * Rat(Q(d.second)); }
  return out;
}
Poly diffP(const Poly& a, GenId v) { Rat r = diffPoly(a, v); if (!r.den.empty()) throw Unsupported("diffP"); return r.num; }

std::set<GenId> gensOf(const Poly& p) {
  std::set<GenId> s; std::set<Mono> seen;
  for (auto& x : p.t) if (seen.insert(x.m).second) for (auto& g : monos()[x.m]) s.insert(g.first);
  std::set<GenId> ext = s;
  for (GenId g : s) if (gens()[g].kind == Gen::SQRT) { auto q = gensOf(gens()[g].arg); ext.insert(q.begin(), q.end()); }
  return ext;
}
std::set<GenId> gensOf(const Rat& r) {
  auto s = gensOf(r.num);
  for (auto& d : r.den) { auto q = gensOf(dens()[d.first]); s.insert(q.begin(), q.end()); }
  return s;
}

// ============================================================ numeric evaluation
static double evalGen(GenId g, const Env& e, std::vector<double>& memo, std::vector<char>& have) {
  if (have[g]) return memo[g];
  const Gen& G = gens()[g]; double r = 0;
  auto varVal = [&](GenId v) {
    std::string n = gens()[v].name; n = n.substr(1, n.size() - 2);
    auto it = e.find(n); if (it != e.end()) return it->second;
    if (n.rfind("kang!", 0) == 0) return std::stod(n.substr(5));
    throw std::runtime_error("no value for variable " + n);
  };
  switch (G.kind) {
    case Gen::VAR: r = varVal(g); break;
    case Gen::COS: case Gen::SIN: { double a = 0; for (auto& p : G.form.c) a += p.second.toDouble() * varVal(p.first); r = G.kind == Gen::COS ? std::cos(a) : std::sin(a); break; }
    case Gen::SQRT: r = std::sqrt(std::max(0.0, evalP(G.arg, e))); break;
    case Gen::OPAQUE: { std::vector<double> a; for (int k : G.opaqueArgs) a.push_back(evalR(opqArgs()[k], e)); r = G.opaqueEval(a); break; }
  }
  have[g] = 1; memo[g] = r; return r;
}
static double evalPoly(const Poly& p, const Env& e, bool absolute) {
  std::vector<double> memo(gens().size()); std::vector<char> have(gens().size());
  long double s = 0;
  for (auto& x : p.t) { double v = x.c.toDouble(); for (auto& g : monos()[x.m]) { double b = evalGen(g.first, e, memo, have); for (int k = 0; k < g.second; k++) v *= b; } s += absolute ? std::fabs(v) : v; }
  return (double)s;
}
double evalP(const Poly& p, const Env& e) { return evalPoly(p, e, false); }
double evalR(const Rat& r, const Env& e) { double v = evalP(r.num, e); for (auto& d : r.den) v /= std::pow(evalP(dens()[d.first], e), d.second); return v; }
double absEvalR(const Rat& r, const Env& e) { double v = evalPoly(r.num, e, true); for (auto& d : r.den) v /= std::fabs(std::pow(evalP(dens()[d.first], e), d.second)); return v; }

// ============================================================ SMT
std::string declare(const std::set<GenId>& gs0, const std::set<int>& ds) {
  std::set<GenId> gs = gs0;
  for (int d : ds) { auto q = gensOf(dens()[d]); gs.insert(q.begin(), q.end()); }
  for (GenId g : gs0) if (gens()[g].kind == Gen::COS || gens()[g].kind == Gen::SIN) gs.insert(gens()[g].mate);
  std::string o;
  for (GenId g : gs) o += "(declare-const " + gens()[g].name + " Real)\n";
  for (GenId g : gs) {
    const Gen& G = gens()[g];
    if (G.kind == Gen::COS) o += "(assert (= (+ (* " + G.name + " " + G.name + ") (* " + gens()[G.mate].name + " " + gens()[G.mate].name + ")) 1.0))\n";
    if (G.kind == Gen::SQRT) o += "(assert (and (>= " + G.name + " 0.0) (= (* " + G.name + " " + G.name + ") " + G.arg.smt() + ")))\n";
  }
  for (int d : ds) o += "(assert (not (= " + dens()[d].smt() + " 0.0)))\n";
  return o;
}
void Solver::start() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
  pid_ = fork();
  if (pid_ == 0) {
    dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2);
    for (int f = 3; f < 64; f++) close(f);
    execl("/bin/sh", "sh", "-c", ("exec " + name_).c_str(), (char*)nullptr);
    _exit(127);
  }
  close(a[0]); close(b[1]); in_ = a[1]; out_ = b[0]; buf_.clear();
  fcntl(in_, F_SETFD, FD_CLOEXEC); fcntl(out_, F_SETFD, FD_CLOEXEC);
  signal(SIGPIPE, SIG_IGN);
}
void Solver::stop() {
  if (pid_ > 0) { close(in_); close(out_); kill(pid_, SIGKILL); int st; waitpid(pid_, &st, 0); pid_ = -1; }
}
Solver::~Solver() { stop(); }
void Solver::detach() { if (pid_ > 0) { close(in_); close(out_); pid_ = -1; } buf_.clear(); st = SolverStats(); }
static bool readMore(int fd, std::string& buf, int ms) {
  pollfd p{fd, POLLIN, 0};
  if (poll(&p, 1, ms) <= 0) return false;
  char b[65536]; ssize_t n = read(fd, b, sizeof b);
  if (n <= 0) return false;
  buf.append(b, n); return true;
}
std::string Solver::check(const std::string& body, int timeoutMs, const std::vector<std::string>* want, std::map<std::string, std::string>* model) {
  if (pid_ < 0) start();
  auto t0 = std::chrono::steady_clock::now();
  st.queries++; st.bytes += body.size();
  std::string q = "(push 1)\n(set-option :timeout " + std::to_string(timeoutMs) + ")\n" + body + "(check-sat)\n(echo \"@@1\")\n";
  auto wr = [&](const std::string& s) -> bool {
    size_t o = 0; while (o < s.size()) { ssize_t n = write(in_, s.data() + o, std::min<size_t>(s.size() - o, 1 << 16)); if (n <= 0) return false; o += n; } return true;
  };
  auto upto = [&](const std::string& tag, int ms, std::string& out) -> bool {
    auto s0 = std::chrono::steady_clock::now();
    for (;;) {
      size_t p = buf_.find(tag);
      if (p != std::string::npos) { out = buf_.substr(0, p); size_t e = buf_.find('\n', p); buf_.erase(0, e == std::string::npos ? buf_.size() : e + 1); return true; }
      int left = ms - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - s0).count();
      if (left <= 0 || !readMore(out_, buf_, left)) return false;
    }
  };
  std::string r, ans = "unknown";
  bool ok = wr(q) && upto("@@1", timeoutMs * 2 + 20000, r);
  if (ok) {
    if (r.find("(error") != std::string::npos) { fprintf(stderr, "solver error: %s\n", r.substr(0, 400).c_str()); ans = "unknown"; }
    else if (r.find("unsat") != std::string::npos) ans = "unsat";
    else if (r.find("unknown") != std::string::npos) ans = "unknown";
    else if (r.find("sat") != std::string::npos) ans = "sat";
    if (ans == "sat" && want && model && !want->empty()) {
      std::string g = "(get-value (";
      for (auto& w : *want) g += w + " ";
      g += "))\n(echo \"@@2\")\n";
      std::string m;
      if (wr(g) && upto("@@2", 20000, m)) {
        // parse ((name value) ...)
        for (auto& w : *want) {
          size_t p = m.find("(" + w + " "); if (p == std::string::npos) continue;
          size_t i = p + w.size() + 2; int depth = 0; size_t j = i;
          for (; j < m.size(); j++) { if (m[j] == '(') depth++; else if (m[j] == ')') { if (depth == 0) break; depth--; } }
          (*model)[w] = m.substr(i, j - i);
        }
      }
    }
    ok = wr("(pop 1)\n");
  }
  if (!ok) stop();
  lastSeconds = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.seconds += lastSeconds;
  if (ans == "unsat") st.unsat++; else if (ans == "sat") st.sat++; else st.unknown++;
  return ans;
}
double parseSmtReal(const std::string& s0) {
  // grammar: num | (- x) | (/ x y) | (root-obj ...) (approximated by ? -> NaN)
  size_t i = 0; const std::string& s = s0;
  std::function<double()> rec = [&]() -> double {
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    if (i < s.size() && s[i] == '(') {
      i++; while (i < s.size() && isspace((unsigned char)s[i])) i++;
      size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++;
      std::string op = s.substr(i, j - i); i = j;
      if (op == "-") { double a = rec(); while (i < s.size() && s[i] != ')') { if (isspace((unsigned char)s[i])) { i++; continue; } a -= rec(); i++; return a; } i++; return -a; }
      if (op == "/") { double a = rec(), b = rec(); while (i < s.size() && s[i] != ')') i++; i++; return a / b; }
      return NAN;
    }
    size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j]) && s[j] != ')') j++;
    std::string t = s.substr(i, j - i); i = j; if (!t.empty() && t.back() == '?') t.pop_back();
    try { return std::stod(t); } catch (...) { return NAN; }
  };
  return rec();
}
}  // namespace vf
