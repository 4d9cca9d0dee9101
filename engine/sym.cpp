// Runtime of the symbolic scalar and of the scenario interface (symbolic side).
#define SC_IMPL_SYM 1
#include "sym.hpp"
#include "scen.hpp"
#include "report.hpp"
#include "vf_casadi.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <link.h>
#include <mutex>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start, _end;
namespace vf {
using namespace casadi;
// ------------------------------------------------------------------ operation graph
enum { K_VAR = -1, K_CMP = -2 };
struct Arg { real c; int id; bool operator==(const Arg& o) const { return id == o.id && (id != 0 || !memcmp(&c, &o.c, sizeof c)); } };
struct Node { int op; Arg a, b; std::string name; };
struct Key { int op; Arg a, b; bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key& k) const { auto h = [](const Arg& x) { return x.id != 0 ? (size_t)x.id * 0x9E3779B97F4A7C15ull : std::hash<real>()(x.c) ^ 0x5bd1e995; }; return (size_t)k.op * 1000003 + h(k.a) * 31 + (h(k.b) << 1); } };
static std::recursive_mutex& mx() { static auto* m = new std::recursive_mutex; return *m; }
static std::vector<Node>& nodes() { static auto* v = new std::vector<Node>(1, Node{K_VAR, {0, 0}, {0, 0}, ""}); return *v; }   // id 0: a constant
static std::unordered_map<Key, int, KeyH>& table() { static auto* t = new std::unordered_map<Key, int, KeyH>; return *t; }
static std::map<std::string, int>& varTable() { static auto* t = new std::map<std::string, int>; return *t; }
static int mkVar(const std::string& n) {
  std::lock_guard<std::recursive_mutex> l(mx());
  auto it = varTable().find(n); if (it != varTable().end()) return it->second;
  nodes().push_back({K_VAR, {0, 0}, {0, 0}, n}); int id = (int)nodes().size() - 1; varTable()[n] = id; return id;
}
// storage nobody wrote to: automatic variables (-ftrivial-auto-var-init=pattern) and heap blocks (poison.cpp)
// start with a byte pattern that no value of the graph has; reading it yields an arbitrary value
static const Sym& norm(const Sym& s) {
  if (s.id == 0 || (s.id > 0 && s.id < (int)nodes().size())) return s;
  static Sym* u = new Sym(Sym::node(mkVar("uninit!"))); return *u;
}
static Arg arg(const Sym& s) { const Sym& n = norm(s); return {n.id ? 0.0 : n.c, n.id}; }
static Sym sym(const Arg& a) { Sym s(a.c); s.id = a.id; return s; }
static double foldOp(int op, double a, double b) { double r = 0; casadi_math<double>::fun(op, a, b, r); return r; }
static Sym mk(int op, const Sym& a, const Sym& b) {
  std::lock_guard<std::recursive_mutex> l(mx());
  Key k{op, arg(a), arg(b)}; auto it = table().find(k); if (it != table().end()) return Sym::node(it->second);
  nodes().push_back({op, k.a, k.b, ""}); int id = (int)nodes().size() - 1; table()[k] = id; return Sym::node(id);
}
static const int BIN[4] = {OP_ADD, OP_SUB, OP_MUL, OP_DIV};
static Sym op2(int op, const Sym& a0, const Sym& b0) {
  VF_RD(&a0); VF_RD(&b0); const Sym &a = norm(a0), &b = norm(b0);
  if (op == OP_CONSTPOW) op = OP_POW;
  if (a.id == 0 && b.id == 0) return Sym(foldOp(op, a.c, b.c));
  if (op == OP_ADD) { if (a.id == 0 && a.c == 0) return b; if (b.id == 0 && b.c == 0) return a; }
  if (op == OP_SUB && b.id == 0 && b.c == 0) return a;
  if (op == OP_MUL) { if ((a.id == 0 && a.c == 0) || (b.id == 0 && b.c == 0)) return Sym(0.0); if (a.id == 0 && a.c == 1) return b; if (b.id == 0 && b.c == 1) return a; }
  if (op == OP_DIV && b.id == 0 && b.c == 1) return a;
  return mk(op, a, b);
}
static Sym op1(int op, const Sym& a0) {
  VF_RD(&a0); const Sym& a = norm(a0); if (a.id == 0) return Sym(foldOp(op, a.c, 0));
  // spellings that differ between CasADi's graph and the C text it writes for the same graph
  if (op == OP_SQ) return mk(OP_MUL, a, a);
  if (op == OP_TWICE) return mk(OP_MUL, Sym(2.0), a);
  if (op == OP_INV) return mk(OP_DIV, Sym(1.0), a);
  if (op == OP_ASSIGN) return a;
  return mk(op, a, Sym(0.0));
}
Sym symOp(int op, const Sym& a, const Sym& b) { return op2(BIN[op], a, b); }
Sym symOp1(int op, const Sym& a) { return op1(OP_NEG, a); }
struct Rnd { static double round(double x) { return std::round(x); } };
enum { X_ROUND = 9001, X_TRUNC, X_CBRT, X_LOSSY };
static Sym xop(int op, const Sym& a0, double (*f)(double)) { const Sym& a = norm(a0); if (a.id == 0) return Sym(f(a.c)); return mk(op, a, Sym(0.0)); }
Sym sin(const Sym& a) { return op1(OP_SIN, a); } Sym cos(const Sym& a) { return op1(OP_COS, a); } Sym tan(const Sym& a) { return op1(OP_TAN, a); }
Sym asin(const Sym& a) { return op1(OP_ASIN, a); } Sym acos(const Sym& a) { return op1(OP_ACOS, a); } Sym atan(const Sym& a) { return op1(OP_ATAN, a); }
Sym sinh(const Sym& a) { return op1(OP_SINH, a); } Sym cosh(const Sym& a) { return op1(OP_COSH, a); } Sym tanh(const Sym& a) { return op1(OP_TANH, a); }
Sym exp(const Sym& a) { return op1(OP_EXP, a); } Sym log(const Sym& a) { return op1(OP_LOG, a); } Sym sqrt(const Sym& a) { return op1(OP_SQRT, a); }
Sym fabs(const Sym& a) { return op1(OP_FABS, a); } Sym abs(const Sym& a) { return op1(OP_FABS, a); } Sym floor(const Sym& a) { return op1(OP_FLOOR, a); } Sym ceil(const Sym& a) { return op1(OP_CEIL, a); }
Sym round(const Sym& a) { return xop(X_ROUND, a, std::round); } Sym trunc(const Sym& a) { return xop(X_TRUNC, a, std::trunc); } Sym cbrt(const Sym& a) { return xop(X_CBRT, a, std::cbrt); }
Sym atan2(const Sym& a, const Sym& b) { return op2(OP_ATAN2, a, b); } Sym pow(const Sym& a, const Sym& b) { return op2(OP_POW, a, b); } Sym fmod(const Sym& a, const Sym& b) { return op2(OP_FMOD, a, b); }
Sym hypot(const Sym& a, const Sym& b) { return op2(OP_HYPOT, a, b); } Sym fmin(const Sym& a, const Sym& b) { return op2(OP_FMIN, a, b); } Sym fmax(const Sym& a, const Sym& b) { return op2(OP_FMAX, a, b); } Sym copysign(const Sym& a, const Sym& b) { return op2(OP_COPYSIGN, a, b); }
bool isnan(const Sym& a) { return a.id == 0 && std::isnan(a.c); } bool isinf(const Sym& a) { return a.id == 0 && std::isinf(a.c); } bool isfinite(const Sym& a) { return a.id != 0 || std::isfinite(a.c); }
bool signbit(const Sym& a) { return a.id == 0 ? std::signbit(a.c) : symCmp(0, a, Sym(0)); }
static int lossyCount = 0;
Sym lossy(const Sym& a0, const char* why) { const Sym& a = norm(a0); if (a.id == 0) return a; return mk(X_LOSSY, a, Sym((double)(lossyCount++))); }
real symConst(const Sym& a, const char* what) { if (a.id == 0) return a.c; throw Unsupported(what); }

// ------------------------------------------------------------------ CasADi
static std::map<int, SX>& leafOf() { static auto* m = new std::map<int, SX>; return *m; }
static std::unordered_map<const void*, int>& idOfLeaf() { static auto* m = new std::unordered_map<const void*, int>; return *m; }
Sym::operator Matrix<SXElem>() const {
  int id = norm(*this).id;
  if (id == 0) return SX(c);
  auto it = leafOf().find(id); if (it != leafOf().end()) return it->second;
  SX s = SX::sym(symText(*this)); leafOf()[id] = s; idOfLeaf()[s.scalar().get()] = id; return s;
}
static std::unordered_map<const void*, Sym>* conv = nullptr; static std::vector<SXElem>* keep = nullptr;
static Sym fromElem(const SXElem& e0) {
  if (!conv) { conv = new std::unordered_map<const void*, Sym>; keep = new std::vector<SXElem>; }
  std::vector<SXElem> st{e0};
  auto direct = [&](const SXElem& e, Sym& o) -> bool {
    if (e.is_constant()) { o = Sym(static_cast<double>(e)); return true; }
    auto i = idOfLeaf().find(e.get()); if (i != idOfLeaf().end()) { o = Sym::node(i->second); return true; }
    auto j = conv->find(e.get()); if (j != conv->end()) { o = j->second; return true; }
    return false;
  };
  Sym r(0.0);
  if (direct(e0, r)) return r;
  while (!st.empty()) {
    SXElem e = st.back(); if (direct(e, r)) { st.pop_back(); continue; }
    if (e.is_symbolic()) { (void)static_cast<double>(e); throw Unsupported("conversion of a model symbol to a number"); }
    casadi_int n = e.n_dep(); bool ready = true; Sym a(0.0), b(0.0);
    if (!direct(e.dep(0), a)) { st.push_back(e.dep(0)); ready = false; }
    if (n > 1 && !direct(e.dep(1), b)) { st.push_back(e.dep(1)); ready = false; }
    if (!ready) continue;
    Sym v = n > 1 ? op2((int)e.op(), a, b) : op1((int)e.op(), a);
    (*conv)[e.get()] = v; keep->push_back(e); st.pop_back();
  }
  direct(e0, r); return r;
}
Sym::Sym(const SX& m) { Sym v = (m.numel() == 1 && m.nnz() == 0) ? Sym(0.0) : fromElem(m.scalar()); c = v.c; id = v.id; }
Sym::Sym(const SXElem& e) { Sym v = fromElem(e); c = v.c; id = v.id; }

// ------------------------------------------------------------------ values
static Rat ratOf(const Arg& a, const std::unordered_map<int, Rat>& memo) { return a.id == 0 ? Rat(snap(a.c)) : memo.at(a.id); }
static void evalNodes(const std::vector<Sym>& v, std::unordered_map<int, Rat>& memo) {
  std::vector<int> st; for (auto& s : v) if (s.id > 0) st.push_back(s.id);
  while (!st.empty()) {
    int i = st.back(); if (memo.count(i)) { st.pop_back(); continue; }
    const Node n = nodes()[i];
    if (n.op == K_VAR) { memo[i] = var(n.name); st.pop_back(); continue; }
    bool ready = true;
    for (const Arg* x : {&n.a, &n.b}) if (x->id > 0 && !memo.count(x->id)) { st.push_back(x->id); ready = false; }
    if (!ready) continue;
    Rat a = ratOf(n.a, memo), b = ratOf(n.b, memo), r;
    if (n.op == X_LOSSY) r = var("lossy!" + std::to_string((int)n.b.c));
    else if (n.op >= X_ROUND) { int op = n.op; r = opaque("x" + std::to_string(op), {a}, [op](const std::vector<double>& w) { return op == X_ROUND ? std::round(w[0]) : op == X_TRUNC ? std::trunc(w[0]) : std::cbrt(w[0]); }); }
    else r = applyOp(n.op, a, b);
    memo[i] = r; st.pop_back();
  }
}
// plain numeric evaluation of the operation graph (uninitialised and digit-losing values give NaN)
static void evalDag(const std::vector<Sym>& v, const Env& e, std::unordered_map<int, double>& memo) {
  std::vector<int> st; for (auto& s : v) if (s.id > 0) st.push_back(s.id);
  while (!st.empty()) {
    int i = st.back(); if (memo.count(i)) { st.pop_back(); continue; }
    const Node& n = nodes()[i];
    if (n.op == K_VAR) { auto it = e.find(n.name); memo[i] = it == e.end() ? NAN : it->second; st.pop_back(); continue; }
    bool ready = true;
    for (const Arg* x : {&n.a, &n.b}) if (x->id > 0 && !memo.count(x->id)) { st.push_back(x->id); ready = false; }
    if (!ready) continue;
    double a = n.a.id == 0 ? n.a.c : memo[n.a.id], b = n.b.id == 0 ? n.b.c : memo[n.b.id];
    memo[i] = n.op == X_LOSSY ? NAN : n.op == X_ROUND ? std::round(a) : n.op == X_TRUNC ? std::trunc(a) : n.op == X_CBRT ? std::cbrt(a) : foldOp(n.op, a, b);
    st.pop_back();
  }
}
static std::vector<Rat> rats(const std::vector<Sym>& v) {
  std::unordered_map<int, Rat> memo; evalNodes(v, memo);
  std::vector<Rat> o; for (auto& s : v) o.push_back(s.id == 0 ? Rat(snap(s.c)) : memo[s.id]); return o;
}
static Rat rat1(const Sym& s) { return rats({norm(s)})[0]; }
std::string symText(const Sym& a0, int prec) {
  const Sym& a = norm(a0);
  if (a.id != 0) { if (prec < 17) { Sym l = lossy(a, "text"); return "sym" + std::to_string(l.id); } return "sym" + std::to_string(a.id); }
  std::ostringstream o; if (std::isnan(a.c)) return ".nan"; if (std::isinf(a.c)) return a.c > 0 ? ".inf" : "-.inf"; o << std::setprecision(prec) << a.c; return o.str();
}
bool symParse(const std::string& s, Sym& out) {
  if (s.size() > 3 && !s.compare(0, 3, "sym")) { size_t p = 0; int id = 0; try { id = std::stoi(s.substr(3), &p); } catch (...) { return false; } if (p + 3 != s.size() || id <= 0 || id >= (int)nodes().size()) return false; out = Sym::node(id); return true; }
  if (s == ".inf" || s == ".Inf" || s == ".INF" || s == "+.inf") { out = Sym(INFINITY); return true; } if (s == "-.inf") { out = Sym(-INFINITY); return true; } if (s == ".nan" || s == ".NaN") { out = Sym(NAN); return true; }
  std::istringstream i(s); double d; i.unsetf(std::ios::dec); i >> std::noskipws >> d; if (i.fail()) return false; i >> std::ws; if (!i.eof()) return false; out = Sym(d); return true;
}
std::ostream& operator<<(std::ostream& o, const Sym& a) { return o << symText(a, (int)o.precision()); }
std::istream& operator>>(std::istream& i, Sym& a) { std::string w; if (i >> w && !symParse(w, a)) i.setstate(std::ios::failbit); return i; }

// ------------------------------------------------------------------ paths
struct Shared { int paths; int natives; };
struct Run {
  struct Check { std::string name; std::vector<Sym> got; std::map<size_t, Rat> rat; };
  std::vector<Check> checks;
  Reporter rep; std::string pc; std::vector<Rat> pcRats; int depth = 0; std::map<std::string, int> count; std::string work; bool quiet = true;
  std::string native; std::vector<std::string> argv; std::string dataDir; Shared* sh = nullptr; std::set<std::string> vars;
};
static Run* R = nullptr;
static std::string declFor(const std::vector<Rat>& rs) {
  std::set<GenId> gs; std::set<int> ds;
  for (auto& r : rs) { auto q = gensOf(r); gs.insert(q.begin(), q.end()); for (auto& d : r.den) ds.insert(d.first); }
  return declare(gs, ds);
}
static std::string copyDir(const std::string& from) {
  char t[] = "/tmp/vfw-XXXXXX"; if (!mkdtemp(t)) throw Unsupported("mkdtemp");
  if (!from.empty()) { std::string c = "cp -a '" + from + "/.' '" + t + "/'"; if (system(c.c_str())) throw Unsupported("copy"); }
  return t;
}
static void dropDir(const std::string& d) { if (d.compare(0, 9, "/tmp/vfw-") == 0) { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } }

// one run of the native build at a concrete input
struct NativeRun { int rc = 0; bool crashed = false; std::map<std::string, std::vector<double>> got, want; std::map<std::string, std::pair<bool, std::string>> oks; std::string err; };
static NativeRun runNative(const Env& e) {
  NativeRun o; std::string d = copyDir(""); R->sh->natives++;
  { std::ofstream f(d + "/env.txt"); f << std::setprecision(17); for (auto& x : e) f << x.first << " " << x.second << "\n"; }
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(d.c_str())) _exit(98);
    setenv("VF_ENV", (d + "/env.txt").c_str(), 1); setenv("VF_OUT", (d + "/result.txt").c_str(), 1); setenv("MALLOC_PERTURB_", "165", 1);
    if (!freopen("/dev/null", "w", stdout)) _exit(97); if (!freopen((d + "/err.txt").c_str(), "w", stderr)) _exit(97);
    std::vector<char*> av; av.push_back((char*)R->native.c_str()); for (auto& s : R->argv) av.push_back((char*)s.c_str()); av.push_back(nullptr);
    alarm(60); execv(R->native.c_str(), av.data()); _exit(99);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { o.crashed = true; o.rc = -WTERMSIG(st); } else o.rc = WEXITSTATUS(st);
  std::ifstream f(d + "/result.txt"); std::string l;
  while (std::getline(f, l)) {
    std::istringstream i(l); std::string k, n; i >> k; std::getline(i, n, '\t'); n = n.substr(n.find_first_not_of(' '));
    auto rd = [&](std::vector<double>& v) { int c; i >> c; for (int k = 0; k < c; k++) { std::string w; i >> w; v.push_back(strtod(w.c_str(), nullptr)); } };
    if (k == "E") { rd(o.got[n]); rd(o.want[n]); } else if (k == "O") { int b; i >> b; std::string det; std::getline(i, det); o.oks[n] = {b != 0, det}; }
  }
  std::ifstream ef(d + "/err.txt"); std::stringstream ss; ss << ef.rdbuf(); o.err = ss.str(); if (o.err.size() > 300) o.err = o.err.substr(o.err.size() - 300);
  dropDir(d); return o;
}
// inputs satisfying the path condition and an extra constraint
static bool solveInputs(const std::string& extra, const std::vector<Rat>& mentioned, Env& e, unsigned salt) {
  std::vector<Rat> all = R->pcRats; all.insert(all.end(), mentioned.begin(), mentioned.end());
  std::set<GenId> gs; for (auto& r : all) { auto q = gensOf(r); gs.insert(q.begin(), q.end()); for (auto& d : r.den) { auto z = gensOf(denPoly(d.first)); gs.insert(z.begin(), z.end()); } }
  std::set<GenId> cl = gs; for (GenId g : gs) if (gen(g).kind == Gen::COS || gen(g).kind == Gen::SIN) cl.insert(gen(g).mate);
  std::vector<std::string> want; std::string box;
  for (GenId g : cl) { auto k = gen(g).kind; if (k == Gen::OPAQUE) continue; want.push_back(gen(g).name); }
  // prefer generic values: pin a random half of the plain variables first
  unsigned s = R->rep.seed * 7919u + salt * 104729u + 5; for (int i = 0; i < 5; i++) rnd(s);
  for (int attempt = 0; attempt < 3; attempt++) {
    std::string pin;
    for (GenId g : cl) if (gen(g).kind == Gen::VAR && attempt < 2) { double v = std::round(rnd(s) * 200) / 64.0; if (attempt == 0 || rnd(s) > 0) pin += "(assert (= " + gen(g).name + " " + Q::fromDouble(v).smt() + "))\n"; else pin += "(assert (and (<= (- 16.0) " + gen(g).name + ") (<= " + gen(g).name + " 16.0)))\n"; }
    std::map<std::string, std::string> m;
    std::string r = R->rep.z3.check(declFor(all) + R->pc + pin + extra, attempt < 2 ? 4000 : 15000, &want, &m);
    if (r != "sat") continue;
    std::map<GenId, double> val; bool bad = false;
    for (GenId g : cl) { if (gen(g).kind == Gen::OPAQUE) continue; double v = parseSmtReal(m[gen(g).name]); if (std::isnan(v)) bad = true; val[g] = v; }
    (void)bad;
    for (GenId g : cl) if (gen(g).kind == Gen::VAR) e[gen(g).name.substr(1, gen(g).name.size() - 2)] = std::isnan(val[g]) ? 0.5 : val[g];
    for (GenId g : cl) if (gen(g).kind == Gen::COS && gen(g).form.c.size() == 1) {
      auto f = *gen(g).form.c.begin(); if (!val.count(gen(g).mate) || std::isnan(val[g]) || std::isnan(val[gen(g).mate])) continue;
      double a = std::atan2(val[gen(g).mate], val[g]); e[gen(f.first).name.substr(1, gen(f.first).name.size() - 2)] = (a - gen(g).form.k.toDouble()) / f.second.toDouble();
    }
    return true;
  }
  return false;
}
static Env complete(Env e, unsigned salt) { unsigned s = R->rep.seed * 31u + salt * 977u + 3; for (int i = 0; i < 5; i++) rnd(s); for (auto& v : R->vars) { double x = rnd(s); if (!e.count(v)) e[v] = x * 1.7 + (x > 0 ? 0.1 : -0.1) + 0.000123456789; } return e; }

static void finishPath();
static void onCrash(int st) {
  // a path process died: confirm with the native build
  for (unsigned salt = 1; salt <= 3; salt++) {
    Env e; if (R->pcRats.size() && !solveInputs("", {}, e, salt)) break;
    e = complete(e, salt); NativeRun n = runNative(e);
    if (n.crashed) { CE ce; ce.env = e; R->rep.obligations++; R->rep.violation("no crash", "the code crashes on a valid input", &ce, "signal " + std::to_string(-n.rc) + ": " + n.err); return; }
  }
  R->rep.inconclusiveObl("path", "symbolic run ended by signal " + std::to_string(WTERMSIG(st)) + ", the native run did not");
}
static bool feasible(const std::string& cond, const std::vector<Rat>& m) {
  std::vector<Rat> all = R->pcRats; all.insert(all.end(), m.begin(), m.end());
  return R->rep.z3.check(declFor(all) + R->pc + cond, 5000) != "unsat";
}
static void assume(const std::string& c, const std::vector<Rat>& m) { R->pc += c; R->pcRats.insert(R->pcRats.end(), m.begin(), m.end()); }
// runs the rest of the program in a child for the given assumption
static bool branchChild(const std::string& c, const std::vector<Rat>& m) {
  fflush(stdout); std::cout.flush();
  pid_t p = fork();
  if (p == 0) {
    R->rep.z3.detach(); R->rep.resetCounters(); R->depth++; assume(c, m);
    std::string old = R->work; R->work = copyDir(old); if (chdir(R->work.c_str())) _exit(96);
    return true;
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { std::string pc = R->pc; auto pr = R->pcRats; assume(c, m); onCrash(st); R->pc = pc; R->pcRats = pr; }
  return false;
}
bool symCmp(int op, const Sym& a0, const Sym& b0) {
  VF_RD(&a0); VF_RD(&b0); const Sym &a = norm(a0), &b = norm(b0);
  if (a.id == 0 && b.id == 0) return op == 0 ? a.c < b.c : op == 1 ? a.c <= b.c : a.c == b.c;
  if (a.id == b.id) return op != 0;
  if ((a.id == 0 && std::isinf(a.c)) || (b.id == 0 && std::isinf(b.c))) { double x = a.id == 0 ? a.c : 0, y = b.id == 0 ? b.c : 0; return op == 0 ? x < y : op == 1 ? x <= y : false; }
  if ((a.id == 0 && std::isnan(a.c)) || (b.id == 0 && std::isnan(b.c))) return false;
  std::unique_lock<std::recursive_mutex> l(mx());
  Rat x = rat1(a), y = rat1(b);
  Rat d = x - y;
  if (d.isConst()) { int s = d.constVal().sign(); return op == 0 ? s < 0 : op == 1 ? s <= 0 : s == 0; }
  std::string e = std::string("(") + (op == 0 ? "<" : op == 1 ? "<=" : "=") + " " + x.smt() + " " + y.smt() + ")", T = "(assert " + e + ")\n", F = "(assert (not " + e + "))\n";
  bool ft = feasible(T, {x, y}), ff = feasible(F, {x, y});
  if (ft && !ff) return true;
  if (ff && !ft) return false;
  if (!ft && !ff) return false;
  if (++R->sh->paths > 96) { R->rep.inconclusiveObl("paths", "more than 96 execution paths"); R->rep.summary(); dropDir(R->work); fflush(stdout); _exit(0); }
  l.unlock();      // the mutex belongs to this thread, not to the one of the child
  if (branchChild(F, {x, y})) return false;
  assume(T, {x, y}); return true;
}

// ------------------------------------------------------------------ obligations
static std::string uniq(const std::string& n) { int k = R->count[n]++; return k ? n + "#" + std::to_string(k) : n; }
static bool replayEq(const std::string& name, const std::vector<Rat>& spec, const Env& e, double tol, const std::string& what) {
  NativeRun n = runNative(e); CE ce; ce.env = e;
  if (n.crashed) { R->rep.violation(name, what, &ce, "the native build crashes here: signal " + std::to_string(-n.rc) + " " + n.err); return true; }
  auto it = n.got.find(name);
  if (it == n.got.end()) { auto c = n.oks.find("completes"); if (c != n.oks.end() && !c->second.first) { R->rep.violation(name, what, &ce, "the native build throws here: " + c->second.second); return true; } return false; }
  auto& w = n.want[name];
  if (it->second.size() != w.size()) { R->rep.violation(name, what, &ce, "wrong number of elements"); return true; }
  for (size_t k = 0; k < w.size(); k++) {
    double g = it->second[k], x = w[k];
    if ((std::isnan(g) != std::isnan(x)) || std::fabs(g - x) > tol * (1 + std::fabs(x))) {
      ce.index = (int)k; ce.real = g; ce.spec = x; ce.impl = x;
      R->rep.violation(name, what, &ce, "element " + std::to_string(k) + " of " + std::to_string(w.size()) + ": real code gives " + std::to_string(g) + ", expected " + std::to_string(x)); return true;
    }
  }
  return false;
}
}  // namespace vf
namespace sc {
using namespace vf;
Sym var(const std::string& n) { R->vars.insert(n); return Sym::node(mkVar(n)); }
V vars(const std::string& b, int n) { V v; for (int i = 0; i < n; i++) v.push_back(var(b + "[" + std::to_string(i) + "]")); return v; }
void positive(const Sym& x) { Rat r = rat1(x); assume("(assert (> " + r.smt() + " 0.0))\n", {r}); if (!feasible("", {})) R->rep.inconclusiveObl("assumption", "contradictory"); else R->rep.witnesses++; }
void nonzero(const Sym& x) { Rat r = rat1(x); assume("(assert (not (= " + r.smt() + " 0.0)))\n", {r}); R->rep.witnesses++; }
void fn(const std::string& n) { R->rep.functions.push_back(n); }
std::string text(const Sym& x) { return symText(x, 17); }
std::string data(const std::string& f) { return R->dataDir + "/" + f; }
void ok(const std::string& name0, bool holds, const std::string& detail, const std::string& what) {
  std::string name = uniq(name0); Reporter& r = R->rep; r.obligations++;
  // the statement holds on this path unless the path condition is satisfiable and the statement is false
  if (holds) { std::string a = r.z3.check(declFor(R->pcRats) + R->pc + "(assert (not (= 1.0 1.0)))\n", 5000); if (a == "unsat") r.discharged++; else r.inconclusiveObl(name, "solver"); return; }
  for (unsigned salt = 1; salt <= 3; salt++) {
    Env e; if (!solveInputs("", {}, e, salt)) continue;
    e = complete(e, salt); NativeRun n = runNative(e); CE ce; ce.env = e;
    auto it = n.oks.find(name);
    if (n.crashed) { r.violation(name, what, &ce, detail + "; the native build crashes here: signal " + std::to_string(-n.rc)); return; }
    if (it != n.oks.end() && !it->second.first) { r.violation(name, what, &ce, detail.empty() ? it->second.second : detail); return; }
  }
  r.inconclusiveObl(name, "fails symbolically (" + detail + ") but not in the native build");
}
static void sampleNative(const std::string& name, const std::string& what, const std::string& why) {
  // no algebraic form within reach: the real code is still tried at inputs of this path; never counts as discharged
  for (unsigned salt = 1; salt <= 4; salt++) { Env e; if (!R->pcRats.empty() && !solveInputs("", {}, e, salt)) break; if (replayEq(name, {}, complete(e, salt), 1e-9, what)) return; }
  R->rep.inconclusiveObl(name, why);
}
void eq(const std::string& name0, const V& got0, const V& want0, const std::string& what) {
  V got, want; for (auto& x : got0) got.push_back(norm(x)); for (auto& x : want0) want.push_back(norm(x));
  std::string name = uniq(name0); Reporter& r = R->rep;
  if (got.size() != want.size()) { R->count[name0 + " size"]; ok(name0 + " size", false, std::to_string(got.size()) + " elements, expected " + std::to_string(want.size()), what); return; }
  else ok(name0 + " size", true);
  r.obligations++; r.elements += (long)got.size();
  std::vector<size_t> idx; std::string same; int ns = 0;
  auto inf = [](const Sym& x) { return x.id == 0 && !std::isfinite(x.c); };
  for (size_t i = 0; i < got.size(); i++) {
    const Sym &g = got[i], &w = want[i];
    // the same node of the operation graph: one arbitrary value compared with itself
    if (g.id != 0 && g.id == w.id) { std::string v = "e" + std::to_string(ns++); same += "(declare-const " + v + " Real)"; continue; }
    if (inf(g) || inf(w)) {
      if (g.id == 0 && w.id == 0 && (g.c == w.c || (std::isnan(g.c) && std::isnan(w.c)))) continue;
      sampleNative(name, what, "non-finite value"); return;
    }
    idx.push_back(i);
  }
  Run::Check chk{name, got, {}};
  bool unk = false;
  if (ns) { std::string q = same + "(assert (or false"; for (int k = 0; k < ns; k++) q += " (not (= e" + std::to_string(k) + " e" + std::to_string(k) + "))"; if (r.z3.check(q + "))\n", r.timeoutMs) != "unsat") unk = true; }
  std::vector<Rat> a, b;
  try { V all; for (size_t i : idx) { all.push_back(got[i]); all.push_back(want[i]); } auto rr = rats(all); for (size_t k = 0; k < idx.size(); k++) { a.push_back(rr[2 * k]); b.push_back(rr[2 * k + 1]); chk.rat[idx[k]] = rr[2 * k]; } }
  catch (TooBig&) { sampleNative(name, what, "too big"); return; }
  catch (NeedExpand& ex) { sampleNative(name, what, ex.what()); return; }
  catch (Unsupported& ex) { sampleNative(name, what, ex.what()); return; }
  R->checks.push_back(chk);
  std::vector<size_t> bad; size_t i = 0;
  try {
    while (i < a.size()) {
      std::string ors; std::vector<Rat> m = R->pcRats; size_t j = i; bool differ = false;
      for (; j < a.size() && ors.size() < 300000; j++) {
        Rat d = a[j] - b[j]; if (!d.num.isZero()) { differ = true; bad.push_back(j); }
        Rat x = a[j], y = b[j];
        if (x.den == y.den) { Rat X(x.num), Y(y.num); ors += " (not (= " + X.smt() + " " + Y.smt() + "))"; } else { Rat D(d.num); ors += " (not (= " + D.smt() + " 0.0))"; }
        m.push_back(x); m.push_back(y);
      }
      if (!differ) { std::string s = r.z3.check(declFor(m) + R->pc + "(assert (or false" + ors + "))\n", r.timeoutMs); if (s == "sat") { r.inconclusiveObl(name, "solver reports a difference the encoding does not show"); return; } if (s != "unsat") unk = true; }
      i = j;
    }
  } catch (TooBig&) { sampleNative(name, what, "too big"); return; }
  if (bad.empty()) { if (unk) r.inconclusiveObl(name, "solver gave no answer"); else r.discharged++; return; }
  std::string why = "solver found no input";
  size_t excluded = 0;
  for (size_t q = 0; q < bad.size() && q < 5; q++) {
    size_t k = bad[q]; Rat d = a[k] - b[k]; std::vector<Rat> m{a[k], b[k]};
    bool anySat = false;
    for (const char* eps : {"0.0009765625", "0.00000095367431640625"}) {
      for (unsigned salt = 1; salt <= 3; salt++) {
        Env e; std::string ex = "(assert (let ((d " + (d.den.empty() ? d.num.smt() : d.smt()) + ")) (or (> d " + eps + ") (< d (- " + eps + ")))))\n";
        if (!solveInputs(ex, m, e, salt)) continue;
        anySat = true; e = complete(e, salt);
        if (replayEq(name, b, e, 1e-9, what)) return;
        // values exactly representable in few digits hide rounding: retry with generic inputs
        if (R->pcRats.empty() && replayEq(name, b, complete(Env(), salt + 17), 1e-12, what)) return;
        why = "counterexample did not reproduce in the native build";
      }
      if (anySat) break;
    }
    if (!anySat) { std::vector<Rat> mm = R->pcRats; mm.push_back(Rat(d.num)); std::string s = r.z3.check(declFor(mm) + R->pc + "(assert (not (= " + d.num.smt() + " 0.0)))\n", r.timeoutMs); if (s == "unsat") excluded++; }
  }
  if (excluded == bad.size() && !unk) { r.discharged++; return; }
  r.inconclusiveObl(name, why);
}
// the symbolic run of this path evaluated at a concrete input against the native build at that input
static void validatePath() {
  if (R->checks.empty()) return;
  Env e; if (!R->pcRats.empty() && !solveInputs("", {}, e, 41)) return;
  e = complete(e, 41); NativeRun n = runNative(e); std::unordered_map<int, double> memo; long cmp = 0;
  for (auto& c : R->checks) {
    auto it = n.got.find(c.name); if (it == n.got.end() || it->second.size() != c.got.size()) { if (!n.crashed) R->rep.inconclusiveObl("encoding of " + c.name, "not produced by the native build"); return; }
    evalDag(c.got, e, memo);
    for (size_t k = 0; k < c.got.size(); k++) {
      double x = c.got[k].id == 0 ? c.got[k].c : memo[c.got[k].id], y = it->second[k]; if (std::isnan(x)) continue;
      bool bad = !(std::fabs(x - y) <= 1e-7 * (1 + std::fabs(y)));
      if (!bad && c.rat.count(k)) { double z = evalR(c.rat[k], e); if (!std::isnan(z)) bad = !(std::fabs(z - y) <= 1e-7 * (1 + std::fabs(y) + absEvalR(c.rat[k], e))); }
      if (bad) { R->rep.inconclusiveObl("encoding of " + c.name, "element " + std::to_string(k) + ": encoding gives " + std::to_string(x) + ", native build gives " + std::to_string(y)); return; }
      cmp++;
    }
  }
  if (cmp) R->rep.validated++;
}
V runModel(const std::string& file, const std::vector<V>& in) {
  static std::map<std::string, casadi::Function> cache; auto it = cache.find(file);
  if (it == cache.end()) it = cache.emplace(file, casadi::Function::load(file)).first;
  return runFunction(it->second, in);
}
V runFunction(const casadi::Function& f, const std::vector<V>& in) {
  std::string file = f.name();
  if ((size_t)f.n_in() != in.size()) throw Unsupported("arity of " + file);
  for (size_t k = 0; k < in.size(); k++) if ((size_t)f.numel_in(k) != in[k].size()) throw Unsupported("input " + std::to_string(k) + " of " + file);
  V w(f.sz_w(), Sym(0.0)); const casadi::Sparsity& sp = f.sparsity_out(0); V nz(sp.nnz(), Sym(0.0));
  for (casadi_int k = 0; k < f.n_instructions(); k++) {
    int op = (int)f.instruction_id(k); auto o = f.instruction_output(k), i = f.instruction_input(k);
    if (op == casadi::OP_CONST) w[o[0]] = Sym(f.instruction_constant(k));
    else if (op == casadi::OP_INPUT) w[o[0]] = in[i[0]][i[1]];
    else if (op == casadi::OP_OUTPUT) { if (o[0] == 0) nz.at(o[1]) = w[i[0]]; }
    else w[o[0]] = i.size() > 1 ? op2(op, w[i[0]], w[i[1]]) : op1(op, w[i[0]]);
  }
  V out((size_t)sp.numel(), Sym(0.0)); std::vector<casadi_int> row, col; sp.get_triplet(row, col);
  for (size_t k = 0; k < nz.size(); k++) out[row[k] + col[k] * sp.size1()] = nz[k];
  return out;
}
void materialize(const std::string& tmpl, const std::string& out) {
  std::ifstream f(tmpl); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(), o; size_t p = 0;
  for (;;) { size_t q = s.find("${", p); if (q == std::string::npos) { o += s.substr(p); break; } size_t e = s.find('}', q); o += s.substr(p, q - p) + text(var(s.substr(q + 2, e - q - 2))); p = e + 1; }
  std::ofstream(out) << o;
}
int run(int argc, char** argv, const std::map<std::string, Scenario>& all) {
  Run run; R = &run; setExpandAngles(true);
  std::string sc = argv[1]; auto it = all.find(sc); if (it == all.end()) { fprintf(stderr, "no scenario %s\n", sc.c_str()); return 3; }
  std::vector<std::string> args; for (int i = 2; i < argc; i++) args.push_back(argv[i]);
  for (int i = 1; i < argc; i++) run.argv.push_back(argv[i]);
  run.native = getenv("VF_NATIVE") ? getenv("VF_NATIVE") : ""; run.dataDir = getenv("VF_DATA") ? getenv("VF_DATA") : "."; run.rep.config = getenv("VF_LABEL") ? getenv("VF_LABEL") : sc;
  run.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(run.sh, 0, sizeof(Shared));
  std::ostringstream sink; std::streambuf *co = std::cout.rdbuf(sink.rdbuf()), *ce = std::cerr.rdbuf(sink.rdbuf());
  run.work = "";
  if (branchChild("", {})) {
    std::string err; bool threw = false;
    try { it->second(args); }
    catch (NeedExpand& ex) { run.rep.inconclusiveObl("scenario", std::string("not encodable: ") + ex.what()); }
    catch (Unsupported& ex) { run.rep.inconclusiveObl("scenario", std::string("not encodable: ") + ex.what()); }
    catch (TooBig& ex) { run.rep.inconclusiveObl("scenario", std::string("too big: ") + ex.what()); }
    catch (std::exception& ex) { threw = true; err = ex.what(); }
    ok("completes", !threw, err.substr(0, 300), "the code throws on a valid input");
    if (!threw) validatePath();
    run.rep.summary(); dropDir(run.work); fflush(stdout); _exit(0);
  }
  std::cout.rdbuf(co); std::cerr.rdbuf(ce);
  run.rep.note("paths", std::to_string(run.sh->paths + 1)); run.rep.note("native runs", std::to_string(run.sh->natives));
  run.rep.z3.stop(); run.rep.summary();
  return 0;
}
}
