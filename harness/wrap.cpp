// Scenarios on the generated class and the generated C library of one robot (names come from wrapgen.hpp).
#include "meta.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <yaml-cpp/yaml.h>
#include <eigen3/Eigen/Dense>
#ifdef WRAP_PRIV
#define private public
#define protected public
#endif
#include "wrapgen.hpp"
#undef private
#undef protected
#ifdef WRAP_MODEL
#include "robot.h"
#include "genYaml.h"
#endif
using sc::V; using sc::eq; using sc::ok; using sc::vars; using sc::var;
typedef std::vector<std::string> Args;
typedef std::map<std::string, V> State;
typedef Eigen::VectorXd Vec;
static Vec vec(const V& v) { Vec e(v.size()); for (size_t i = 0; i < v.size(); i++) e(i) = v[i]; return e; }
struct Res { bool there; int r, c; V v; };
template <class M> Res res(const M& m) { return Res{true, (int)m.rows(), (int)m.cols(), sc::flat(m)}; }
#define X(n) template <class T> auto g_##n(T& t, int) -> decltype(res(t.get_##n())) { return res(t.get_##n()); } template <class T> Res g_##n(T&, long) { return Res{false, 0, 0, {}}; }
WRAP_FUNS(X)
#undef X
struct Fun { std::string name; int r, c; std::vector<std::pair<std::string, int>> args; };
struct Table {
  std::vector<Fun> f; std::map<std::string, std::vector<int>> mask;
  explicit Table(const std::string& file) {
    std::ifstream i(file); std::string l;
    while (std::getline(i, l)) {
      std::istringstream s(l); std::string k; s >> k;
      if (k == "mask") { std::string g; s >> g; int x; auto& m = mask[g]; while (s >> x) m.push_back(x); }
      if (k != "fun") continue;
      Fun q; int n; s >> q.name >> q.r >> q.c >> n; std::string a; while (s >> a) { size_t p = a.find(':'); q.args.push_back({a.substr(0, p), atoi(a.c_str() + p + 1)}); } f.push_back(q);
    }
  }
};
static std::map<std::string, std::function<Res(Cls&)>> getters() {
  std::map<std::string, std::function<Res(Cls&)>> g;
#define X(n) g[#n] = [](Cls& t) { return g_##n(t, 0); };
  WRAP_FUNS(X)
#undef X
  return g;
}
typedef int (*CFun)(const SC_T**, SC_T**, long long*, SC_T*, int); typedef int (*CWork)(long long*, long long*, long long*, long long*); typedef const long long* (*CSp)(long long); typedef long long (*CN)();
struct CF { CFun f; CWork w; CSp in, out; CN ni, no; };
static std::map<std::string, CF> cfuns() {
  std::map<std::string, CF> g;
#define X(n) g[#n] = CF{CPRE(n, ), CPRE(n, _work), CPRE(n, _sparsity_in), CPRE(n, _sparsity_out), CPRE(n, _n_in), CPRE(n, _n_out)};
  WRAP_FUNS(X)
#undef X
  return g;
}
static int salt = 0;
static V fresh(const std::string& b, int n) { return vars(b + "!" + std::to_string(salt++), n); }
static V freshREG(int n) { V v = fresh("reg", 10 * n); nonzeroMasses(v); return v; }
static std::string cfg(const std::string& f) { static int k = 0; std::string o = "wconf" + std::to_string(k++) + ".yaml"; sc::materialize(sc::data(f), o); return o; }

struct W {
  Meta m; Table t; std::string conf, dir; std::map<std::string, std::function<Res(Cls&)>> get; std::set<std::string> compact{"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity"};
  // <dir of the generated robot> <configuration with arbitrary values> <meta>
  explicit W(const Args& a) : m(sc::data(a.at(2))), t(sc::data(a.at(0) + "/table.txt")), conf(cfg(a.at(1))), dir(a.at(0)), get(getters()) {}
  std::vector<std::string> qn() const { return {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w"}; }
  int qsize(const std::string& g) const { return g == "w" ? 6 : g.find('x') != std::string::npos ? m.ne : m.n; }
  std::vector<std::string> pn() const { return {"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN", "par_REG", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}; }
  int fullSize(const std::string& g) const {
    if (g == "par_DHtable") return 4 * m.n; if (g == "par_gravity") return 3; if (g == "par_world2L0" || g == "par_Ln2EE") return 6; if (g == "par_DYN" || g == "par_REG") return 10 * m.n;
    if (g == "par_Dl") return m.n * m.Dl; int ne = m.elastic ? m.ne : 0; return g == "par_K" ? ne * m.K : g == "par_D" ? ne * m.D : g == "par_Dm" ? ne * m.Dm : m.ne;   // the class keeps room for Mm of every elastic joint
  }
  State zero() const { State s; for (auto& g : qn()) s[g] = V(qsize(g), SC_T(0)); for (auto& g : pn()) s[g] = V(fullSize(g), SC_T(0)); return s; }
  // state after loading the configuration on top of s
  State loaded(State s, const Meta& mm, bool reg) const {
    for (auto& g : pn()) {
      if (g == "par_REG") { if (reg) s[g] = dynToReg(mm.full("par_DYN")); continue; }
      if (!mm.val.count(g) || mm.missing(g) || (!mm.elastic && (g == "par_K" || g == "par_D" || g == "par_Dm" || g == "par_Mm"))) continue;
      s[g] = compact.count(g) ? mm.select(g, mm.full(g)) : mm.full(g);
    }
    return s;
  }
  V par(Cls& c, const std::string& g) const {
    if (g == "par_DHtable") return sc::flat(c.get_par_DHtable()); if (g == "par_world2L0") return sc::flat(c.get_par_world2L0()); if (g == "par_Ln2EE") return sc::flat(c.get_par_Ln2EE()); if (g == "par_gravity") return sc::flat(c.get_par_gravity());
    if (g == "par_DYN") return sc::flat(c.get_par_DYN()); if (g == "par_REG") return sc::flat(c.get_par_REG()); if (g == "par_Dl") return sc::flat(c.get_par_Dl()); if (g == "par_K") return sc::flat(c.get_par_K());
    if (g == "par_D") return sc::flat(c.get_par_D()); if (g == "par_Dm") return sc::flat(c.get_par_Dm()); return sc::flat(c.get_par_Mm());
  }
  const Fun* fun(const std::string& n) const { for (auto& f : t.f) if (f.name == n) return &f; return nullptr; }
  V arg(const State& s, const std::string& a, int n) const { const V& v = s.at(a); if ((int)v.size() == n) return v; auto i = t.mask.find(a); V o; if (i != t.mask.end() && i->second.size() == v.size()) for (size_t k = 0; k < v.size(); k++) if (i->second[k]) o.push_back(v[k]); return o; }
  // every parameter as read back, every variable as seen by the functions added for that purpose
  void look(const std::string& tag, Cls& c, const State& s, const std::string& why, const std::set<std::string>& except = {}) const {
    for (auto& g : pn()) if (!except.count(g)) eq(tag + ": " + g, par(c, g), s.at(g), why);
    for (auto& g : qn()) { if (except.count(g) || !fun("obs_" + g)) continue; eq(tag + ": " + g, get.at("obs_" + g)(c).v, s.at(g), why); }
  }
  void evaluate(const std::string& tag, Cls& c, const State& s, const std::string& why) const {
    for (auto& f : t.f) {
      Res r = get.at(f.name)(c); ok(tag + " get_" + f.name + " exists", r.there, "the class has no get_" + f.name, why); if (!r.there) continue;
      ok(tag + " shape of get_" + f.name, r.r == f.r && r.c == f.c, std::to_string(r.r) + "x" + std::to_string(r.c), why);
      std::vector<V> in; bool good = true; for (auto& a : f.args) { in.push_back(arg(s, a.first, a.second)); good = good && (int)in.back().size() == a.second; }
      if (!good) { ok(tag + " arguments of get_" + f.name, false, "", why); continue; }
      eq(tag + " get_" + f.name, r.v, sc::runModel(sc::data(dir + "/ref_" + f.name + ".casadi"), in), why);
    }
  }
  struct Set { std::string name, g; std::function<void(Cls&, const Vec&)> f; };
  std::vector<Set> setters() const {
    std::vector<Set> o;
#define SQ(x) o.push_back({"set_" #x, #x, [](Cls& c, const Vec& v) { c.set_##x(v); }}); sc::fn("thunder class: set_" #x);
    SQ(q) SQ(dq) SQ(ddq) SQ(d3q) SQ(d4q) SQ(dqr) SQ(ddqr) SQ(x) SQ(dx) SQ(ddx) SQ(ddxr) SQ(w)
    SQ(par_K) SQ(par_D) SQ(par_Dm) SQ(par_Mm) SQ(par_Dl) SQ(par_DHtable) SQ(par_gravity) SQ(par_world2L0) SQ(par_Ln2EE) SQ(par_DYN) SQ(par_REG)
    return o;
  }
  // arbitrary state reached through the setters; sizes as they are now
  void scramble(Cls& c, State& s) const {
    for (auto& x : setters()) {
      if (x.g == "par_DYN" || x.g == "par_REG") continue;
      s[x.g] = fresh(x.g, (int)s[x.g].size()); x.f(c, vec(s[x.g]));
    }
    s["par_DYN"] = fresh("dyn", 10 * m.n); c.set_par_DYN(vec(s["par_DYN"]), false); s["par_REG"] = freshREG(m.n); c.set_par_REG(vec(s["par_REG"]), false);
  }
};
// setters that take a matrix: other shapes with the same number of elements
template <class A> static void shapes(void (Cls::*set)(A), const std::string& name, int sz, Cls& c, const std::function<void(const std::string&)>& check) {
  if constexpr (std::is_same<std::decay_t<A>, Eigen::MatrixXd>::value) {
    for (int cols : {2, 4, sz}) {
      if (sz < 2 || sz % cols) continue;
      Eigen::MatrixXd v(sz / cols, cols); V x = fresh(name, sz); for (int i = 0; i < sz; i++) v(i / cols, i % cols) = x[i];
      (c.*set)(v); check(std::to_string(sz / cols) + "x" + std::to_string(cols));
    }
  }
}
// ---------------------------------------------------------------- P14
static void p14(const Args& a) {
  W w(a); std::string G = "a getter does not evaluate its model function at the current state", Z = "a fresh instance is not at zero", S = "a call changes more, or less, than its own quantity", L = "loading leaves the instance in a wrong state";
  sc::fn("thunder class: all generated getters"); sc::fn("change_to_robot");
  Cls A, B; State sa = w.zero(), sb = sa; Meta& m = w.m;
  ok("numbers", A.get_numJoints() == m.n && A.get_numParDYN() == 10 * m.n && A.get_numParREG() == 10 * m.n && A.n_joints == m.n && A.numElasticJoints == m.ne && A.Dl_order == m.Dl && (!m.elastic || (A.K_order == m.K && A.D_order == m.D && A.Dm_order == m.Dm)) && A.ELASTIC == (m.elastic != 0), "", "the class describes another robot");
  for (int i = 0; i < m.n; i++) ok("elastic joint " + std::to_string(i), A.isElasticJoint[i] == (m.types[i].find("_SEA") != std::string::npos), "", "the class describes another robot");
  w.look("fresh", A, sa, Z); w.evaluate("fresh", A, sa, Z); w.look("fresh, after getters", A, sa, "a getter changes the state");
  A.load_conf(w.conf); sa = w.loaded(sa, m, true); w.look("loaded", A, sa, L); w.evaluate("loaded", A, sa, G);
  w.scramble(A, sa); w.look("set", A, sa, S); w.evaluate("set", A, sa, G); w.look("set, after getters", A, sa, "a getter changes the state");
  // a second instance does not disturb the first
  B.load_conf(w.conf); sb = w.loaded(sb, m, true); w.scramble(B, sb); w.evaluate("second instance", B, sb, G); w.look("second instance", B, sb, S); w.evaluate("first instance again", A, sa, G);
  { Cls C; w.look("third, fresh", C, w.zero(), Z); w.evaluate("third, fresh", C, w.zero(), Z); Cls D(A); w.look("copy", D, sa, S); w.evaluate("copy", D, sa, G); }
  // one step of each kind from the arbitrary state: exactly the own quantity changes
  for (auto& x : w.setters()) {
    V v = x.g == "par_REG" ? freshREG(m.n) : fresh(x.g, (int)sa[x.g].size()); if (x.g == "par_DYN") nonzeroMasses(v);
    x.f(A, vec(v)); sa[x.g] = v; if (x.g == "par_DYN") sa["par_REG"] = dynToReg(v); if (x.g == "par_REG") sa["par_DYN"] = regToDyn(v);
    w.look(x.name, A, sa, S);
  }
  { V q = fresh("q", m.n), dq = fresh("dq", m.n), dqr = fresh("dqr", m.n), ddqr = fresh("ddqr", m.n); A.setArguments(vec(q), vec(dq), vec(dqr), vec(ddqr)); sa["q"] = q; sa["dq"] = dq; sa["dqr"] = dqr; sa["ddqr"] = ddqr; w.look("setArguments", A, sa, S); w.evaluate("setArguments", A, sa, G); }
  w.look("other instance at the end", B, sb, S); w.evaluate("other instance at the end", B, sb, G);
}
// ---------------------------------------------------------------- P15
static void p15(const Args& a) {
  W w(a); Meta& m = w.m; std::string L = "a configured value is not in its documented slot of the class", S = "loading touches other state"; sc::fn("thunder class: load_conf");
  Cls A; State s = w.zero(); A.load_conf(w.conf); s = w.loaded(s, m, true); w.look("load", A, s, L);
  w.scramble(A, s); A.load_conf(w.conf); s = w.loaded(s, m, true); w.look("reload", A, s, L);
  w.scramble(A, s); A.load_conf(w.conf, false); s = w.loaded(s, m, false); w.look("reload, no update", A, s, L);
  if (a.size() > 3) { Meta m2(sc::data(a[4])); std::string c2 = cfg(a[3]); A.load_conf(c2); s = w.loaded(s, m2, true); w.look("second file", A, s, L); A.load_conf(w.conf); s = w.loaded(s, m, true); w.look("first file again", A, s, L); }
  // a section missing from a file loaded later leaves its values as they are
  for (std::string sec : {"kinematics", "Base_to_L0", "Ln_to_EE", "gravity", "dynamics", "elastic", "friction", "last friction"}) {
    std::string f = less(w.conf, sec, m.n); if (f.empty()) continue;
    w.scramble(A, s); A.load_conf(f); State u = s, n = w.loaded(s, m, sec != "dynamics"); for (auto& g : w.pn()) if (!gone(sec, g)) u[g] = n[g];
    if (sec == "last friction") for (int k = 0; k < m.Dl * (m.n - 1); k++) u["par_Dl"][k] = n["par_Dl"][k];
    s = u; w.look("file without " + sec, A, s, L);
    Cls B; B.load_conf(f); State z = w.zero(), b = z; n = w.loaded(z, m, sec != "dynamics"); for (auto& g : w.pn()) if (!gone(sec, g)) b[g] = n[g];
    if (sec == "last friction") for (int k = 0; k < m.Dl * (m.n - 1); k++) b["par_Dl"][k] = n["par_Dl"][k];
    w.look("fresh, file without " + sec, B, b, L);
  }
}
// ---------------------------------------------------------------- P12
static void writeREG(const std::string& f, const V& v, const V* Dl, int order) {
  static const char* key[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
  std::ofstream o(f); o << "dynamics:\n";
  for (size_t i = 0; i < v.size() / 10; i++) { o << "  link" << i + 1 << ":\n    inertial:\n"; for (int k = 0; k < 10; k++) o << "      " << key[k] << ": " << sc::text(v[10 * i + k]) << "\n";
    if (Dl) { o << "    friction:\n      Dl: ["; for (int k = 0; k < order; k++) o << (k ? ", " : "") << sc::text((*Dl)[order * i + k]); o << "]\n"; } }
}
static void p12(const Args& a) {
  W w(a); Meta& m = w.m; std::string C = "standard and linear inertial parameters disagree in the class", U = "an update flag is not honoured";
  sc::fn("thunder class: update_inertial_REG"); sc::fn("thunder class: update_inertial_DYN"); sc::fn("thunder class: load_par_REG"); sc::fn("thunder class: load_conf"); sc::fn("thunder class: set_par_DYN"); sc::fn("thunder class: set_par_REG");
  Cls A; State s = w.zero(); A.load_conf(w.conf); s = w.loaded(s, m, true); w.look("load", A, s, C);
  V d = fresh("dyn", 10 * m.n); nonzeroMasses(d);
  A.set_par_DYN(vec(d)); s["par_DYN"] = d; s["par_REG"] = dynToReg(d); w.look("set DYN", A, s, C);
  A.set_par_REG(A.get_par_REG()); w.look("round trip", A, s, C);
  V g = freshREG(m.n); A.set_par_REG(vec(g)); s["par_REG"] = g; s["par_DYN"] = regToDyn(g); w.look("set REG", A, s, C);
  A.set_par_DYN(A.get_par_DYN()); w.look("round trip back", A, s, C);
  V d2 = fresh("dyn", 10 * m.n); A.set_par_DYN(vec(d2), false); s["par_DYN"] = d2; w.look("set DYN, no update", A, s, U);
  V g2 = freshREG(m.n); A.set_par_REG(vec(g2), false); s["par_REG"] = g2; w.look("set REG, no update", A, s, U);
  A.load_conf(w.conf, false); s = w.loaded(s, m, false); w.look("load, no update", A, s, U);
  V g3 = freshREG(m.n), dl = fresh("dl", m.n * m.Dl); writeREG("w.yaml", g3, m.Dl ? &dl : nullptr, m.Dl);
  Vec r = A.load_par_REG("w.yaml", false); s["par_REG"] = g3; if (m.Dl) s["par_Dl"] = dl; eq("load REG returns", sc::flat(r), g3, C); w.look("load REG, no update", A, s, U);
  writeREG("w2.yaml", g3, nullptr, 0); r = A.load_par_REG("w2.yaml"); s["par_DYN"] = regToDyn(g3); eq("load REG returns", sc::flat(r), g3, C); w.look("load REG", A, s, C);
}
// ---------------------------------------------------------------- P16
static void p16(const Args& a) {
  W w(a); Meta& m = w.m; std::string R = "a saved value is not restored", S = "saving changes the instance";
  for (auto f : {"save_par_REG", "save_par_DYN", "save_par", "load_par_REG", "load_conf"}) sc::fn(std::string("thunder class: ") + f);
  Cls A; State s = w.zero(); A.load_conf(w.conf); s = w.loaded(s, m, true); w.scramble(A, s);
  A.save_par_REG("reg.yaml"); w.look("save_par_REG", A, s, S); A.save_par_DYN("dyn.yaml"); w.look("save_par_DYN", A, s, S); ok("save_par returns success", A.save_par("par.yaml") == 1); w.look("save_par", A, s, S);
  { Cls B; State b = w.zero(); w.scramble(B, b); B.load_par_REG("reg.yaml"); b["par_REG"] = s["par_REG"]; b["par_DYN"] = regToDyn(s["par_REG"]); if (m.Dl) b["par_Dl"] = s["par_Dl"]; w.look("load_par_REG", B, b, R); }
  { Cls B; State b = w.zero(); w.scramble(B, b); B.load_conf("dyn.yaml"); b["par_DYN"] = s["par_DYN"]; b["par_REG"] = dynToReg(s["par_DYN"]); if (m.Dl) b["par_Dl"] = s["par_Dl"]; w.look("save_par_DYN, load_conf", B, b, R); }
  { YAML::Node y = YAML::LoadFile("par.yaml"); for (auto& g : w.pn()) { ok("save_par writes " + g, (bool)y[g], "", R); V v; if (y[g]) for (auto x : y[g]) v.push_back(x.as<double>()); eq("save_par: " + g, v, s[g], R); } }
#ifdef WRAP_MODEL
  using thunder_ns::robot_from_file;
  auto robot = [&]() { return robot_from_file("rb", w.conf, 0); };
  sc::fn("Robot::load_par"); sc::fn("Robot::load_par_REG"); sc::fn("Robot::save_par_REG"); sc::fn("Robot::save_conf"); sc::fn("genInertial_files");
  { auto o = robot(); o.load_par_REG("reg.yaml"); eq("class file in the model object: REG", sc::flat(o.get_par_REG()), s["par_REG"], R); eq("class file in the model object: DYN", sc::flat(o.get_par_DYN()), regToDyn(s["par_REG"]), R); if (m.Dl) eq("class file in the model object: Dl", sc::flat(o.get_arg("par_Dl")), s["par_Dl"], R); }
  bool full = true; for (auto& g : w.compact) full = full && m.all(g);
  if (full) { auto o = robot(); ok("load_par returns success", o.load_par("par.yaml") == 1); for (auto& g : w.pn()) if (m.val.count(g) || g == "par_REG") eq("save_par in the model object: " + g, sc::flat(o.get_arg(g)), s[g], R); }
  { auto o = robot(); V g = freshREG(m.n); o.set_arg("par_REG", vec(g)); V dl = m.Dl ? sc::flat(o.get_arg("par_Dl")) : V(); o.save_par_REG("mreg.yaml"); Cls B; State b = w.zero(); w.scramble(B, b); B.load_par_REG("mreg.yaml"); b["par_REG"] = g; b["par_DYN"] = regToDyn(g); { YAML::Node y = YAML::LoadFile("mreg.yaml"); if (m.Dl && y["dynamics"].begin()->second["friction"]) b["par_Dl"] = dl; }   /* friction is restored when it was saved */ w.look("model object file in the class", B, b, R);
    ok("save_conf returns success", o.save_conf("copy.yaml") == 1); Cls C, D; C.load_conf("copy.yaml"); D.load_conf(w.conf); State c = w.loaded(w.zero(), m, true); w.look("configuration copy in the class", C, c, R); }
  { ok("generator", thunder_ns::genInertial_files("rb", m.n, w.conf, "gd.yaml", "gr.yaml") == 1); Cls B; State b = w.zero(); w.scramble(B, b); B.load_par_REG("gr.yaml"); b["par_REG"] = dynToReg(m.full("par_DYN")); b["par_DYN"] = m.full("par_DYN"); if (m.Dl) b["par_Dl"] = m.full("par_Dl"); w.look("generated REG file in the class", B, b, R);
    Cls C; State c = w.zero(); w.scramble(C, c); C.load_conf("gd.yaml"); c["par_REG"] = b["par_REG"]; c["par_DYN"] = b["par_DYN"]; if (m.Dl) c["par_Dl"] = b["par_Dl"]; w.look("generated DYN file in the class", C, c, R); }
#endif
}
// ---------------------------------------------------------------- P17
static void p17(const Args& a) {
  W w(a); Meta& m = w.m; std::string R = "a vector of the wrong length is accepted or changes the instance", S = "a vector of the right length is not stored";
  for (int before = 0; before < 2; before++) {
    Cls A; State s = w.zero(); if (before) { A.load_conf(w.conf); s = w.loaded(s, m, true); } w.scramble(A, s); std::string tag = before ? "loaded, " : "unloaded, ";
    for (auto& x : w.setters()) {
      int sz = (int)s[x.g].size();
      for (int k = 0; k <= 2 * sz + 1; k++) {
        if (k > 14 && !(k >= sz - 1 && k <= sz + 1) && k != 2 * sz) continue;
        std::string n = tag + x.name + " length " + std::to_string(k) + " of " + std::to_string(sz); V v = fresh(x.name, k); if (k == sz && x.g.find("par_") == 0 && (x.g == "par_DYN" || x.g == "par_REG")) nonzeroMasses(v);
        x.f(A, vec(v));
        if (k == sz) { s[x.g] = v; if (x.g == "par_DYN") s["par_REG"] = dynToReg(v); if (x.g == "par_REG") s["par_DYN"] = regToDyn(v); w.look(n, A, s, S); } else w.look(n, A, s, R);
      }
    }
    shapes(&Cls::set_par_DHtable, "par_DHtable", (int)s["par_DHtable"].size(), A, [&](const std::string& k) { w.look(tag + "set_par_DHtable with a " + k + " matrix", A, s, R); });
    // setArguments: any one of the four wrong
    for (int bad = 0; bad < 5; bad++) for (int k : {0, m.n - 1, m.n + 1, 2 * m.n}) {
      if (bad == 4 && k != 0) continue; V v[4]; for (int i = 0; i < 4; i++) v[i] = fresh("sa", i == bad ? k : m.n);
      A.setArguments(vec(v[0]), vec(v[1]), vec(v[2]), vec(v[3])); if (bad == 4) { s["q"] = v[0]; s["dq"] = v[1]; s["dqr"] = v[2]; s["ddqr"] = v[3]; }
      w.look(tag + "setArguments, argument " + std::to_string(bad) + " of length " + std::to_string(k), A, s, bad == 4 ? S : R);
    }
  }
}
// ---------------------------------------------------------------- P18
static void p18(const Args& a) {
  W w(a); std::string E = "a model function is not exported by the generated library", F = "an exported function does not compute its model function"; auto cf = cfuns();
  for (auto& f : w.t.f) {
    if (a.size() > 3 && f.name != a[3]) continue;
    sc::fn(f.name + "_fun"); CF c = cf[f.name]; bool there = c.f && c.w && c.in && c.out && c.ni && c.no; ok("exported " + f.name, there, "missing symbols for " + f.name, E); if (!there) continue;
    long long sa = 0, sr = 0, si = 0, sw = 0; ok("work of " + f.name, c.w(&sa, &sr, &si, &sw) == 0 && sa >= (long long)f.args.size() && sr >= 1, "", F);
    ok("inputs of " + f.name, c.ni() == (long long)f.args.size() && c.no() == 1, "", F);
    const long long* o = c.out(0); int nnz = f.r * f.c;
    bool dense = o && o[0] == f.r && o[1] == f.c; if (dense && o[2] != 1) { dense = o[2 + f.c] == nnz; for (int j = 0; dense && j <= f.c; j++) dense = o[2 + j] == (long long)j * f.r; for (int k = 0; dense && k < nnz; k++) dense = o[3 + f.c + k] == k % f.r; }
    ok("dense output of " + f.name, dense, "", "the output is not stored densely in column order");
    std::vector<V> in; bool sized = true; for (size_t k = 0; k < f.args.size(); k++) { const long long* s = c.in((long long)k); sized = sized && s && s[0] * s[1] == f.args[k].second; in.push_back(fresh(f.args[k].first, f.args[k].second)); } ok("input sizes of " + f.name, sized, "", F); if (!sized) continue;
    for (int rep = 0; rep < 2; rep++) {   // twice: nothing is carried over between calls
      V out = fresh("junk", nnz), wk = fresh("work", (int)sw + 1); std::vector<long long> iw(si + 1, 77); if (rep) for (auto& v : in) v = fresh("again", (int)v.size());
      std::vector<const SC_T*> ap; for (auto& v : in) ap.push_back(v.data()); ap.resize(sa + 1); std::vector<SC_T*> rp(sr + 1); rp[0] = out.data();
      ok("status of " + f.name, c.f(ap.data(), rp.data(), iw.data(), wk.data(), 0) == 0, "", F);
      eq(f.name + (rep ? " again" : ""), out, sc::runModel(sc::data(w.dir + "/ref_" + f.name + ".casadi"), in), F);
    }
    V s = sc::runModel(sc::data(w.dir + "/" + f.name + ".casadi"), in); eq("saved function " + f.name, s, sc::runModel(sc::data(w.dir + "/ref_" + f.name + ".casadi"), in), "the saved function is not the model function");
    Cls t; Res r = w.get.at(f.name)(t); ok("reachable " + f.name, r.there && r.r == f.r && r.c == f.c, "", "a model function is not reachable from the class");
  }
}
// ---------------------------------------------------------------- P22: the user functions that harness/vgen.cpp adds, replaces and protects
static void p22(const Args& a) {
  W w(a); Meta& m = w.m; auto cf = cfuns(); std::string E = "a user function is not exported as declared", G = "a user function is not evaluated at the current arguments"; sc::fn("Robot::add_function"); sc::fn("Robot::generate_library"); sc::fn("thunder class: getters of user functions");
  typedef std::map<std::string, V> In; struct U { std::string name; std::vector<std::string> args; int r, c; std::function<V(const In&)> f; };
  int n = m.n; auto Z = SC_T(0); std::vector<U> us{
    {"user_w", {"w", "q"}, n, 1, [n](const In& i) { V o; for (auto& x : i.at("q")) o.push_back(i.at("w")[1] * x); return o; }},
    {"user_const", {}, 2, 2, [Z](const In&) { return V{SC_T(1), Z, Z, SC_T(1)}; }},
    {"user_rep", {"dqr", "dq", "q"}, 3, 1, [n](const In& i) { return V{i.at("dq")[0] * SC_T(3), i.at("dqr")[n - 1], i.at("q")[0] - i.at("dq")[0]}; }},
    {"user_keep", {"q", "dq"}, 1, 2, [n](const In& i) { return V{i.at("dq")[n - 1] * SC_T(2), i.at("q")[0] + SC_T(1)}; }},
    {"user_new", {"q", "dq"}, 1, 1, [n](const In& i) { return V{i.at("dq")[0] * i.at("q")[n - 1]}; }},
    {"user_chain", {"dq", "q"}, 1, 1, [](const In& i) { return V{i.at("dq")[0] * SC_T(3) * (i.at("q")[0] + SC_T(1))}; }},
    {"user_Function_with_a_name_of_more_than_sixty_three_characters_2b_kept", {"q"}, 1, 1, [n](const In& i) { return V{i.at("q")[n - 1] * SC_T(5)}; }},
    {"robot_thunder_robot", {"dq"}, 1, 1, [](const In& i) { return V{i.at("dq")[0] - SC_T(4)}; }},
    {"U", {"q"}, 1, 1, [](const In& i) { return V{i.at("q")[0] + SC_T(8)}; }},
    {"user_tie", {"dq"}, 1, 1, [](const In& i) { return V{i.at("dq")[0] + SC_T(1)}; }}};
  for (auto& g : w.qn()) if (w.fun("obs_" + g)) us.push_back({"obs_" + g, {g}, w.qsize(g), 1, [g](const In& i) { return i.at(g); }});
  Cls c; State s = w.zero(); c.load_conf(w.conf); s = w.loaded(s, m, true);
  for (int round = 0; round < 3; round++) {
    std::string tag = round == 0 ? "at rest: " : round == 1 ? "set: " : "set again: "; if (round) w.scramble(c, s);
    for (auto& u : us) { Res r = w.get.at(u.name)(c); ok(tag + "get_" + u.name, r.there && r.r == u.r && r.c == u.c, "missing or of another shape", E); if (r.there && r.r == u.r && r.c == u.c) eq(tag + u.name, r.v, u.f(s), G); }
#ifndef WRAP_LIGHT
    // kinetic energy, over a model expression
    V M = sc::flat(c.get_M()), d = s["dq"]; SC_T e(0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e = e + d[i] * M[i + j * n] * d[j];
    Res r = w.get.at("user_energy")(c); ok(tag + "get_user_energy", r.there && r.r == 1 && r.c == 1, "missing or of another shape", E); if (r.there) eq(tag + "user_energy", r.v, V{e / SC_T(2)}, G);
#endif
  }
  for (auto& u : us) {   // the library: declared arguments, in order and of their sizes
    CF f = cf[u.name]; bool there = f.f && f.w && f.in && f.out && f.ni && f.no; ok("exported " + u.name, there, "missing symbols for " + u.name, E); if (!there) continue;
    ok("inputs of " + u.name, f.ni() == (long long)u.args.size() && f.no() == 1, "", E); if (f.ni() != (long long)u.args.size()) continue;
    long long sa = 0, sr = 0, si = 0, sw = 0; f.w(&sa, &sr, &si, &sw); In in; std::vector<const SC_T*> ap; bool good = true;
    for (size_t k = 0; k < u.args.size(); k++) { const long long* sp = f.in((long long)k); good = good && sp && sp[0] * sp[1] == w.qsize(u.args[k]); in[u.args[k]] = fresh(u.args[k], w.qsize(u.args[k])); } ok("argument sizes of " + u.name, good, "", E);
    const long long* o = f.out(0); bool shape = o && o[0] == u.r && o[1] == u.c; ok("shape of " + u.name, shape, "", E); if (!good || !shape) continue;
    for (auto& x : u.args) ap.push_back(in[x].data()); ap.resize(std::max<long long>(sa, (long long)ap.size()) + 1); V out = fresh("junk", u.r * u.c), wk = fresh("work", (int)sw + 1); std::vector<long long> iw(si + 1, 5); std::vector<SC_T*> rp(sr + 1); rp[0] = out.data();
    ok("status of " + u.name, f.f(ap.data(), rp.data(), iw.data(), wk.data(), 0) == 0, "", E); eq("library " + u.name, out, u.f(in), E);
    std::vector<V> iv; for (auto& x : u.args) iv.push_back(in[x]); try { eq("saved " + u.name, sc::runModel(sc::data(w.dir + "/" + u.name + ".casadi"), iv), u.f(in), E); } catch (std::exception& ex) { ok("saved " + u.name, false, ex.what(), E); }
    for (auto& t : w.t.f) if (t.name == u.name) { bool same = t.args.size() == u.args.size(); for (size_t k = 0; same && k < u.args.size(); k++) same = t.args[k].first == u.args[k]; ok("listed arguments of " + u.name, same && t.r == u.r && t.c == u.c, "", E); }
  }
}
#ifdef WRAP_PY
#include "wrap_py.hpp"
#endif
#ifdef WRAP_PRIV
// ---------------------------------------------------------------- P21: the helpers the class keeps for itself
#define RIGID_NO_BODY
#include "rigid.hpp"
template <class T> auto hRot(T& c, const V& a, int) -> decltype(sc::flat(c.rpyRot(a))) { return sc::flat(c.rpyRot(a)); } template <class T> V hRot(T&, const V&, long) { return {}; }
template <class T> auto hI(T& c, const V& a, int) -> decltype(sc::flat(c.createI(a))) { return sc::flat(c.createI(a)); } template <class T> V hI(T&, const V&, long) { return {}; }
template <class T> auto hHat(T& c, const V& a, int) -> decltype(sc::flat(c.hat(Eigen::Vector3d(a[0], a[1], a[2])))) { return sc::flat(c.hat(Eigen::Vector3d(a[0], a[1], a[2]))); } template <class T> V hHat(T&, const V&, long) { return {}; }
static void p21(const Args&) {
  Cls c; V a = vars("rpy", 3), p = vars("par", 6), v = vars("v", 3);
  V R = hRot(c, a, 0), I = hI(c, p, 0), H = hHat(c, v, 0);
  if (R.size()) { sc::fn("thunder class: rpyRot"); rigid::rotation("class rpyRot", R, a[0], a[1], a[2]); }
  if (I.size()) { sc::fn("thunder class: createI"); eq("class createI", I, rigid::sym6(p), "the inertia matrix is not the one of its six elements"); }
  if (H.size()) { sc::fn("thunder class: hat"); eq("class hat", H, V{SC_T(0), v[2], -v[1], -v[2], SC_T(0), v[0], v[1], -v[0], SC_T(0)}, "hat is not the cross-product matrix"); }
}
#endif
int main(int argc, char** argv) {
  std::map<std::string, sc::Scenario> all{{"p12", p12}, {"p14", p14}, {"p15", p15}, {"p16", p16}, {"p17", p17}, {"p18", p18}, {"p22", p22}};
#ifdef WRAP_PRIV
  all["p21"] = p21;
#endif
#ifdef WRAP_PY
  all["p19"] = p19; if (argc > 1 && std::string(argv[1]) == "names") { for (auto& b : pybind11::registry()) std::cout << b.name << std::endl; return 0; }
#endif
  return sc::run(argc, argv, all);
}
