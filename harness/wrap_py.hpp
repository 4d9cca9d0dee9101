// P19: each name exposed to Python against the class method of that name, both on copies of the same instance.
#include <pybind11/pybind11.h>
namespace py = pybind11;
#define X(n) template <class T> auto m_##n(T*, int) -> decltype(py::callable<T>(&T::n)) { return py::callable<T>(&T::n); } template <class T> py::Callable m_##n(T*, long) { return py::Callable(); } \
  template <class T> auto dv_##n(T& t, const py::Val& v, int) -> decltype(t.n(std::declval<Vec>()), bool()) { Vec e = vec(v.v); (void)t.n(e); return true; } template <class T> bool dv_##n(T&, const py::Val&, long) { return false; } \
  template <class T> auto ds_##n(T& t, const py::Val& v, int) -> decltype(t.n(std::declval<std::string>()), bool()) { (void)t.n(v.s); return true; } template <class T> bool ds_##n(T&, const py::Val&, long) { return false; }
WRAP_NAMES(X)
#undef X
struct Direct { py::Callable c; std::function<bool(Cls&, const py::Val&, char)> dflt; };
static std::map<std::string, Direct> direct() {
  std::map<std::string, Direct> o;
#define X(n) o[#n] = Direct{m_##n((Cls*)nullptr, 0), [](Cls& t, const py::Val& v, char k) { return k == 's' ? ds_##n(t, v, 0) : dv_##n(t, v, 0); }};
  WRAP_NAMES(X)
#undef X
  return o;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void p19(const Args& a) {
  W w(a); Meta& m = w.m; std::string B = "an exposed name does not invoke the method of that name", M = "a generated getter is not exposed", D = "an exposed default or argument order differs from the class";
  auto& reg = py::registry(); auto dir = direct(); std::set<std::string> seen; std::map<std::string, const py::Binding*> by;
  sc::fn("generated Python module"); sc::fn("add_bindings_template"); sc::fn("change_to_robot");
  for (auto& b : reg) if (!by.count(b.name)) by[b.name] = &b;      // overloads: the first registered one is called
  ok("module can create instances", by.count("__init__") > 0, "", B);
  Cls base; State s = w.zero(); base.load_conf(w.conf); s = w.loaded(s, m, true); w.scramble(base, s);
  V rg = freshREG(m.n), rd = fresh("dl", m.n * m.Dl); writeREG("in_reg.yaml", rg, m.Dl ? &rd : nullptr, m.Dl);
  for (auto& g : w.t.f) { bool e = by.count("get_" + g.name) > 0; ok("exposed get_" + g.name, e, "", M); }
  std::set<int> len{0, 1, 3, 6, m.n, m.ne, m.n + 1, 10 * m.n, 4 * m.n, m.n * m.Dl}; for (auto& g : w.pn()) len.insert((int)s[g].size());
  auto compare = [&](const std::string& n, Cls& x, Cls& y) { for (auto& g : w.pn()) eq(n + ": " + g, w.par(x, g), w.par(y, g), B); for (auto& g : w.qn()) if (w.fun("obs_" + g)) eq(n + ": " + g, w.get.at("obs_" + g)(x).v, w.get.at("obs_" + g)(y).v, B); };
  auto same = [&](const std::string& n, const py::Ret& x, const py::Ret& y) { ok(n + ": kind of result", x.kind == y.kind && x.r == y.r && x.c == y.c && x.s == y.s, x.kind + " " + y.kind, B); eq(n + ": result", x.v, y.v, B); };
  for (auto& kv : by) {
    const py::Binding& b = *kv.second; if (b.isInit) continue;
    auto d = dir.find(b.name); if (d == dir.end() || !d->second.c.f) continue;     // no (single) method of that name in the class
    const Direct& di = d->second; std::string K = b.c.kinds;
    ok(b.name + " takes the arguments of its method", K == di.c.kinds, K + " instead of " + di.c.kinds, B); if (K != di.c.kinds || K.find('?') != std::string::npos) continue;
    ok(b.name + " names each argument", b.params.empty() || b.params.size() == K.size(), "", D);
    bool hasV = K.find('v') != std::string::npos || K.find('l') != std::string::npos, hasB = K.find('b') != std::string::npos, hasS = K.find('s') != std::string::npos;
    for (int L : hasV ? std::vector<int>(len.begin(), len.end()) : std::vector<int>{0}) for (int bv = 0; bv < (hasB ? 2 : 1); bv++) for (int file = 0; file < (hasS ? 2 : 1); file++) {
      std::vector<py::Val> v1, v2; std::string n = b.name + (hasV ? " length " + std::to_string(L) : "") + (hasB ? (bv ? " true" : " false") : "") + (hasS ? " file " + std::to_string(file) : "");
      bool load = b.name.find("load") == 0; static int k = 0; std::string f1 = "pa" + std::to_string(k), f2 = "pb" + std::to_string(k); k++;
      for (char c : K) { py::Val x; x.b = bv; x.i = 1; if (c == 'd') x.v = fresh("arg", 1); if (c == 'v' || c == 'l') x.v = fresh("arg", L); py::Val y = x; if (c == 's') { x.s = load ? (file ? w.conf : std::string("in_reg.yaml")) : f1; y.s = load ? x.s : f2; } v1.push_back(x); v2.push_back(y); }
      Cls x(base), y(base); py::Ret r1, r2; std::string e1, e2;
      try { r1 = b.c.f(&x, v1); } catch (std::exception& e) { e1 = e.what(); } try { r2 = di.c.f(&y, v2); } catch (std::exception& e) { e2 = e.what(); }
      ok(n + ": completes alike", e1.empty() == e2.empty(), e1 + e2, B); same(n, r1, r2); compare(n, x, y);
      if (hasS && !load) ok(n + ": writes the same file", slurp(f1) == slurp(f2), "", B);
    }
    // left-out arguments
    if (K.size() == 2 && K[1] == 'b' && (K[0] == 'v' || K[0] == 's')) {
      Cls probe(base); py::Val x; static int q = 0; int L = b.name == "set_par_DYN" || b.name == "set_par_REG" ? 10 * m.n : m.n; x.v = fresh("dflt", L); x.s = b.name == "load_par_REG" ? "in_reg.yaml" : w.conf; (void)q;
      bool can = di.dflt(probe, x, K[0]); bool has = b.params.size() == 2 && b.params[1].hasDefault; ok(b.name + ": default as in the class", can == has, can ? "the class has a default" : "the class has no default", D);
      if (can && has) { Cls y(base); b.c.f(&y, {x, b.params[1].def}); compare(b.name + " default", y, probe); }
    }
    for (size_t k = 0; k < b.params.size() && k < K.size(); k++) if (b.params[k].hasDefault && K[k] != 'b') ok(b.name + ": no extra default", true);
  }
  // argument names: calls by keyword
  auto names = [&](const std::string& n, const std::vector<std::string>& want) { auto i = by.find(n); if (i == by.end() || i->second->params.empty()) return; std::vector<std::string> g; for (auto& p : i->second->params) g.push_back(p.name); ok(n + ": argument names in order", g == want, "", D); };
  names("setArguments", {"q", "dq", "dqr", "ddqr"});
  for (auto x : {std::make_pair("set_par_REG", "update_DYN"), std::make_pair("set_par_DYN", "update_REG"), std::make_pair("load_par_REG", "update_DYN"), std::make_pair("load_conf", "update_REG")}) { auto i = by.find(x.first); if (i != by.end() && i->second->params.size() == 2) ok(std::string(x.first) + ": flag name", i->second->params[1].name == x.second, i->second->params[1].name, D); }
}
