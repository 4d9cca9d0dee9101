// Scenarios on the model object (Robot), the parameter-file generator and the helper functions.
#include "meta.hpp"
#include "robot.h"
#include "utils.h"
#include "genYaml.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "userDefined.h"
#include "rigid.hpp"
#include <iostream>
using namespace thunder_ns;
using sc::V; using sc::eq; using sc::ok; using sc::vars; using sc::var;
typedef std::vector<std::string> Args;
typedef std::map<std::string, V> State;
static Eigen::VectorXd vec(const V& v) { Eigen::VectorXd e(v.size()); for (size_t i = 0; i < v.size(); i++) e(i) = v[i]; return e; }
static std::string cfg(const std::string& f) { static int k = 0; std::string o = "conf" + std::to_string(k++) + ".yaml"; sc::materialize(sc::data(f), o); return o; }
static std::vector<std::string> qn(const Meta& m) { std::vector<std::string> r{"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w"}; if (m.elastic) for (auto s : {"x", "dx", "ddx", "ddxr"}) r.push_back(s); return r; }
static State state(Robot& r, const Meta& m) { State s; for (auto& g : qn(m)) s[g] = sc::flat(r.get_arg(g)); for (auto& g : m.groups()) s[g] = sc::flat(r.get_arg(g)); s["par_REG"] = sc::flat(r.get_arg("par_REG")); return s; }
static void same(const std::string& what, const State& got, const State& want, const std::string& why, const std::vector<std::string>& except = {}) {
  for (auto& x : want) if (std::find(except.begin(), except.end(), x.first) == except.end()) eq(what + ": " + x.first, got.at(x.first), x.second, why);
}
struct Bot { Meta m; std::string conf; bool comp; Robot r; Bot(const Args& a) : m(sc::data(a.at(1))), conf(cfg(a.at(0))), comp(a.at(2) == "1"), r(robot_from_file("rb", conf, comp)) {}
  V held(const std::string& g, const V& v) const { return comp ? m.select(g, v) : v; } };
static int salt = 0;
static V fresh(const std::string& b, int n) { return vars(b + "!" + std::to_string(salt++), n); }
static V freshREG(int n) { V v = fresh("reg", 10 * n); nonzeroMasses(v); return v; }

// ---------------------------------------------------------------- P12
static void writeREG(const std::string& f, const V& v, const V* Dl, int order) {
  static const char* key[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
  std::ofstream o(f); o << "dynamics:\n";
  for (size_t i = 0; i < v.size() / 10; i++) { o << "  link" << i + 1 << ":\n    inertial:\n"; for (int k = 0; k < 10; k++) o << "      " << key[k] << ": " << sc::text(v[10 * i + k]) << "\n";
    if (Dl) { o << "    friction:\n      Dl: ["; for (int k = 0; k < order; k++) o << (k ? ", " : "") << sc::text((*Dl)[order * i + k]); o << "]\n"; } }
}
static void p12(const Args& a) {
  Bot b(a); Meta& m = b.m; Robot& r = b.r; V dyn = m.full("par_DYN");
  sc::fn("Robot::load_conf_par"); sc::fn("Robot::update_inertial_REG"); sc::fn("Robot::update_inertial_DYN"); sc::fn("Robot::set_par_REG"); sc::fn("Robot::set_par_DYN"); sc::fn("Robot::load_par_REG");
  std::string W = "standard and linear inertial parameters disagree", U = "an update flag is not honoured";
  eq("REG after loading", sc::flat(r.get_par_REG()), dynToReg(dyn), W);
  eq("DYN after loading", sc::flat(r.get_arg("par_DYN")), b.held("par_DYN", dyn), W);
  V g = freshREG(m.n); State s0 = state(r, m);
  ok("set_par_REG returns success", r.set_par_REG(vec(g)) == 1);
  eq("set REG: REG", sc::flat(r.get_par_REG()), g, W); eq("set REG: DYN", sc::flat(r.get_arg("par_DYN")), b.held("par_DYN", regToDyn(g)), W);
  same("set REG leaves", state(r, m), s0, "setting one representation touches another quantity", {"par_DYN", "par_REG"});
  if (!b.comp || m.all("par_DYN")) {
    V d = fresh("dyn", 10 * m.n); nonzeroMasses(d);
    ok("set_par_DYN returns success", r.set_par_DYN(vec(d)) == 1);
    eq("set DYN: DYN", sc::flat(r.get_par_DYN()), d, W); eq("set DYN: REG", sc::flat(r.get_par_REG()), dynToReg(d), W);
    r.set_par_REG(r.get_par_REG());
    eq("round trip", sc::flat(r.get_par_DYN()), d, W);
    same("set DYN leaves", state(r, m), s0, "setting one representation touches another quantity", {"par_DYN", "par_REG"});
  }
  // loading with and without update
  State s1 = state(r, m);
  r.load_conf_par(b.conf, false);
  eq("load conf, no update: DYN", sc::flat(r.get_arg("par_DYN")), b.held("par_DYN", dyn), U); eq("load conf, no update: REG", sc::flat(r.get_par_REG()), s1["par_REG"], U);
  r.load_conf_par(b.conf, true);
  eq("load conf: DYN", sc::flat(r.get_arg("par_DYN")), b.held("par_DYN", dyn), W); eq("load conf: REG", sc::flat(r.get_par_REG()), dynToReg(dyn), W);
  V g2 = freshREG(m.n); writeREG("reg.yaml", g2, nullptr, 0); State s2 = state(r, m);
  r.load_par_REG("reg.yaml", false);
  eq("load REG, no update: REG", sc::flat(r.get_par_REG()), g2, U); same("load REG, no update leaves", state(r, m), s2, U, {"par_REG"});
  r.load_par_REG("reg.yaml", true);
  eq("load REG: REG", sc::flat(r.get_par_REG()), g2, W); eq("load REG: DYN", sc::flat(r.get_arg("par_DYN")), b.held("par_DYN", regToDyn(g2)), W);
  same("load REG leaves", state(r, m), s2, "loading one representation touches another quantity", {"par_REG", "par_DYN"});
}
static V readFile(const std::string& f, bool reg, int n, V& Dl, int order) {
  std::string c = reg ? "m_CoM_" : "CoM_"; V v; YAML::Node y = YAML::LoadFile(f)["dynamics"]; int i = 0;
  for (auto& x : {"mass", "x", "y", "z"}) (void)x;
  for (const auto& l : y) { if (i++ == n) break; YAML::Node q = l.second["inertial"]; for (std::string k : {std::string("mass"), c + "x", c + "y", c + "z", std::string("Ixx"), std::string("Ixy"), std::string("Ixz"), std::string("Iyy"), std::string("Iyz"), std::string("Izz")}) v.push_back(q[k].as<double>());
    if (order) { auto d = l.second["friction"]["Dl"].as<std::vector<double>>(); for (int k = 0; k < order; k++) Dl.push_back(d.at(k)); } }
  return v;
}
static void p12gen(const Args& a) {
  Meta m(sc::data(a.at(0 + 1))); std::string c = cfg(a.at(0)); V dyn = m.full("par_DYN"), dl, dl2, none;
  sc::fn("genInertial_files"); sc::fn("fillInertialYaml");
  ok("parameter files are generated", genInertial_files("rb", m.n, c, "DYN.yaml", "REG.yaml") == 1);
  eq("generated REG file", readFile("REG.yaml", true, m.n, dl, m.Dl), dynToReg(dyn), "the parameter-file generator converts wrongly");
  eq("generated DYN file", readFile("DYN.yaml", false, m.n, dl2, m.Dl), dyn, "the parameter-file generator changes standard parameters");
  if (m.Dl) { eq("generated REG friction", dl, m.full("par_Dl"), "friction lost"); eq("generated DYN friction", dl2, m.full("par_Dl"), "friction lost"); }
}
// ---------------------------------------------------------------- P15
static void p15(const Args& a) {
  Bot b(a); Meta& m = b.m; Robot& r = b.r;
  sc::fn("Robot::parse_config"); sc::fn("Robot::load_conf_par"); sc::fn("Robot::initVarsFuns");
  std::string W = "a configured value is not in its documented slot";
  for (auto& g : m.groups()) eq(g, sc::flat(r.get_arg(g)), b.held(g, m.full(g)), W);
  eq("par_REG", sc::flat(r.get_par_REG()), dynToReg(m.full("par_DYN")), W);
  ok("joints", r.get_numJoints() == m.n && r.get_numElasticJoints() == m.ne, "", W);
  ok("orders", r.get_Dl_order() == m.Dl && (!m.elastic || (r.get_K_order() == m.K && r.get_D_order() == m.D && r.get_Dm_order() == m.Dm)) && r.get_ELASTIC() == (m.elastic != 0), "", W);
  ok("types", r.get_jointsType() == m.types, "", W);
  std::vector<int> el; for (auto& t : m.types) el.push_back(t.size() > 4 && t.substr(t.size() - 4) == "_SEA");
  ok("elastic joints", r.get_isElasticJoint() == el, "", W);
  ok("parameter counts", r.get_numParDYN() == 10 * m.n && r.get_numParREG() == 10 * m.n, "", W);
  for (auto& g : qn(m)) { V z = sc::flat(r.get_arg(g)); V w(g == "w" ? 6 : g[0] == 'x' || g.find('x') != std::string::npos ? m.ne : m.n, SC_T(0)); eq("initial " + g, z, w, "a state variable does not start at zero"); }
  {   // built from a loaded document instead of a file name; copies are objects of their own
    sc::fn("Robot::Robot"); Robot y(YAML::LoadFile(b.conf)), f(b.conf); y.load_conf_par(b.conf); f.load_conf_par(b.conf); for (auto& g : m.groups()) { eq("from a document: " + g, sc::flat(y.get_arg(g)), m.full(g), W); eq("from a file: " + g, sc::flat(f.get_arg(g)), m.full(g), W); }
    ok("from a document: masks", y.symb == f.symb && y.get_jointsType() == m.types && y.get_isElasticJoint() == el, "", W);
    Robot c(r); State s0 = state(r, m); same("copy", state(c, m), s0, W); for (auto& g : qn(m)) c.set_arg(g, vec(fresh(g, (int)c.get_arg(g).size()))); c.set_par_REG(vec(freshREG(m.n))); if (m.n) c.set_arg("par_world2L0", vec(fresh("b", (int)c.get_arg("par_world2L0").size()))); same("a change of the copy leaves", state(r, m), s0, "loading touches other state");
    y.load_conf_par(b.conf); same("original after loading another object", state(r, m), s0, "loading touches other state");
  }
  // loading again on top of other values
  for (auto& g : qn(m)) r.set_arg(g, vec(fresh(g, (int)r.get_arg(g).size())));
  State s = state(r, m);
  r.load_conf_par(b.conf);
  for (std::string g : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (m.val.count(g) && (g == "par_DYN" || (g == "par_Dl" ? m.Dl > 0 : m.elastic))) eq("reload: " + g, sc::flat(r.get_arg(g)), b.held(g, m.full(g)), W);
  same("reload leaves", state(r, m), s, "loading parameters touches other state", {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"});
  if (a.size() > 3) {   // another configuration of the same robot loaded afterwards
    Meta m2(sc::data(a[4])); std::string c2 = cfg(a[3]); s = state(r, m); r.load_conf_par(c2);
    for (std::string g : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (m.val.count(g) && (g == "par_DYN" || (g == "par_Dl" ? m.Dl > 0 : m.elastic))) eq("second: " + g, sc::flat(r.get_arg(g)), b.held(g, m2.full(g)), W);
    eq("second: par_REG", sc::flat(r.get_par_REG()), dynToReg(m2.full("par_DYN")), W);
    same("second leaves", state(r, m), s, "loading parameters touches other state", {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm", "par_REG"});
  }
  for (std::string sec : {"elastic", "friction", "last friction"}) {   // parameters of a file without these count as zero
    std::string f = less(b.conf, sec, m.n); if (f.empty()) continue;
    for (std::string g : {"par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (m.val.count(g) && r.get_arg(g).size()) r.set_arg(g, vec(fresh(g, (int)r.get_arg(g).size())));
    s = state(r, m); r.load_conf_par(f);
    for (std::string g : {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"}) if (m.val.count(g) && (g == "par_DYN" || (g == "par_Dl" ? m.Dl > 0 : m.elastic))) {
      V w = m.full(g); if (gone(sec, g)) for (size_t k = sec == "last friction" ? m.Dl * (m.n - 1) : 0; k < w.size(); k++) w[k] = SC_T(0);
      eq("without " + sec + ": " + g, sc::flat(r.get_arg(g)), b.held(g, w), W);
    }
    same("without " + sec + " leaves", state(r, m), s, "loading parameters touches other state", {"par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm", "par_REG"});
    if (sec != "elastic") { Robot y(f); y.load_conf_par(f); if (m.Dl) { V w = m.full("par_Dl"); for (size_t k = sec == "last friction" ? m.Dl * (m.n - 1) : 0; k < w.size(); k++) w[k] = SC_T(0); eq("built without " + sec, sc::flat(y.get_arg("par_Dl")), w, W); } }
  }
}
// ---------------------------------------------------------------- P16
static void p16(const Args& a) {
  Bot b(a); Meta& m = b.m; Robot& r = b.r; std::string W = "a saved value is not restored";
  sc::fn("Robot::save_par"); sc::fn("Robot::load_par"); sc::fn("Robot::save_par_REG"); sc::fn("Robot::load_par_REG"); sc::fn("Robot::save_conf");
  std::vector<std::string> G = m.groups(); G.push_back("par_REG");
  for (auto& g : G) r.set_arg(g, vec(g == "par_REG" ? freshREG(m.n) : fresh(g, (int)r.get_arg(g).size())));
  State s = state(r, m);
  std::vector<std::string> list; for (auto& g : G) if (s[g].size()) list.push_back(g);
  ok("save_par returns success", r.save_par("par.yaml", list) == 1);
  same("saving leaves", state(r, m), s, "saving changes the object");
  { Robot o = robot_from_file("rb", b.conf, b.comp); ok("load_par returns success", o.load_par("par.yaml") == 1); same("load_par", state(o, m), s, W); }
  { Robot o = robot_from_file("rb", b.conf, b.comp); State s0 = state(o, m);   // only what is asked for
    std::vector<std::string> some; for (size_t k = 0; k < list.size(); k += 2) some.push_back(list[k]);
    ok("load_par of a list returns success", o.load_par("par.yaml", some) == 1); State want = s0; for (auto& g : some) want[g] = s[g]; same("load_par of a list", state(o, m), want, W); }
  { Robot o = robot_from_file("rb", b.conf, b.comp); State s0 = state(o, m); ok("save some", r.save_par("some.yaml", {list[0], "par_REG"}) == 1); ok("load some", o.load_par("some.yaml") == 1); s0[list[0]] = s[list[0]]; s0["par_REG"] = s["par_REG"]; same("partial file", state(o, m), s0, W); }
  ok("save_par_REG returns success", r.save_par_REG("reg.yaml") == 1);
  { Robot o = robot_from_file("rb", b.conf, b.comp); State s0 = state(o, m); o.load_par_REG("reg.yaml"); eq("load_par_REG: REG", sc::flat(o.get_par_REG()), s["par_REG"], W); eq("load_par_REG: DYN", sc::flat(o.get_arg("par_DYN")), b.held("par_DYN", regToDyn(s["par_REG"])), W); same("load_par_REG leaves", state(o, m), s0, W, {"par_REG", "par_DYN"}); }
  ok("save_conf returns success", r.save_conf("copy.yaml") == 1);
  { Robot o = robot_from_file("rb", b.conf, b.comp), p = robot_from_file("rb", "copy.yaml", b.comp); same("configuration copy", state(p, m), state(o, m), "the configuration copy is not the configuration");
    ok("configuration copy: masks", o.symb == p.symb); ok("configuration copy: shape", o.get_numJoints() == p.get_numJoints() && o.get_jointsType() == p.get_jointsType() && o.get_K_order() == p.get_K_order() && o.get_D_order() == p.get_D_order() && o.get_Dm_order() == p.get_Dm_order() && o.get_Dl_order() == p.get_Dl_order()); }
  // file written by the generator for the same configuration
  ok("generator", genInertial_files("rb", m.n, b.conf, "gDYN.yaml", "gREG.yaml") == 1);
  { Robot o = robot_from_file("rb", b.conf, b.comp); State s0 = state(o, m); o.load_par_REG("gREG.yaml"); same("generated REG file", state(o, m), s0, W); }
  if (!b.comp && m.Dl) { V g = freshREG(m.n), d = fresh("dl", m.n * m.Dl); writeREG("fr.yaml", g, &d, m.Dl); Robot o = robot_from_file("rb", b.conf, b.comp); o.load_par_REG("fr.yaml"); eq("friction in a REG file", sc::flat(o.get_arg("par_Dl")), d, W); }
}
// ---------------------------------------------------------------- P17
static void p17(const Args& a) {
  Bot b(a); Meta& m = b.m; Robot& r = b.r; std::string W = "a vector of the wrong length is accepted or changes the state", S = "a vector of the right length is not stored";
  for (auto& g : qn(m)) ok("preset " + g, r.set_arg(g, vec(fresh(g, (int)r.get_arg(g).size()))) == 1);
  struct Set { std::string name; std::function<int(const Eigen::VectorXd&)> f; std::string g; };
  std::vector<Set> sets;
#define SETTER(x) sets.push_back({"set_" #x, [&](const Eigen::VectorXd& v) { return r.set_##x(v); }, #x}); sc::fn("Robot::set_" #x);
  SETTER(q) SETTER(dq) SETTER(dqr) SETTER(ddqr) SETTER(par_DYN) SETTER(par_REG)
  if (m.elastic) { SETTER(x) SETTER(dx) SETTER(ddx) SETTER(ddxr) }
  std::vector<std::string> G = m.groups(); for (auto& g : qn(m)) G.push_back(g); G.push_back("par_REG");
  for (auto& g : G) { sets.push_back({"set_arg(" + g + ")", [&r, g](const Eigen::VectorXd& v) { return r.set_arg(g, v); }, g}); } sc::fn("Robot::set_arg");
  for (auto& s : sets) {
    int sz = (int)r.get_arg(s.g).size();
    for (int k = 0; k <= sz + 2; k++) {
      if (k > 14 && k < sz - 2) continue;
      State s0 = state(r, m); V v = s.name == "set_par_REG" || s.name == "set_par_DYN" ? fresh(s.name, k) : fresh(s.name, k);
      if (k == sz && s.name.find("set_par_") == 0) nonzeroMasses(v);
      int rc = s.f(vec(v)); State s1 = state(r, m);
      std::string n = s.name + " length " + std::to_string(k) + " of " + std::to_string(sz);
      if (k == sz) { ok(n + ": accepted", rc == 1, "", S); eq(n + ": stored", s1[s.g], v, S); std::vector<std::string> ex{s.g}; if (s.g == "par_DYN") ex.push_back("par_REG"); if (s.g == "par_REG") ex.push_back("par_DYN"); same(n + " leaves", s1, s0, W, s.name.find("set_arg") == 0 ? std::vector<std::string>{s.g} : ex); }
      else { ok(n + ": refused", rc == 0, "", W); same(n + " leaves", s1, s0, W); }
    }
  }
}
// ---------------------------------------------------------------- P22
static V argOf(Robot& r, const std::string& n) { return sc::flat(r.get_arg(n)); }
static void p22(const Args& a) {
  Bot b(a); Meta& m = b.m; Robot& r = b.r; std::string W = "a named function is not evaluated at the current arguments", O = "overwrite request not honoured";
  sc::fn("Robot::add_function"); sc::fn("Robot::get"); sc::fn("Robot::set_arg"); sc::fn("Robot::get_functions");
  auto setAll = [&]() { for (auto& g : qn(m)) r.set_arg(g, vec(fresh(g, (int)r.get_arg(g).size()))); for (auto& g : m.groups()) if (r.get_arg(g).size()) r.set_arg(g, vec(fresh(g, (int)r.get_arg(g).size()))); };
  auto check = [&](const std::string& tag, bool big) {
    for (auto& f : r.get_functions(false)) {
      if (!big && (f.name.size() > 2 && (f.name.find("ddC") == 0 || f.name.find("C_d") == 0))) continue;
      std::vector<V> in; for (auto& x : f.args) in.push_back(argOf(r, x));
      Eigen::MatrixXd g = r.get(f.name); ok(tag + " shape of " + f.name, g.rows() == f.fun.size1_out(0) && g.cols() == f.fun.size2_out(0), "", W);
      eq(tag + " " + f.name, sc::flat(g), sc::runFunction(f.fun, in), W);
    }
  };
  setAll(); check("get", true);
  // user functions over model variables and model expressions
  casadi::SX q = r.model["q"], dq = r.model["dq"], w = r.model["w"];
  auto Q = [&](int i) { return argOf(r, "q").at(i); };
  size_t before = r.get_functions().size();
  ok("add", r.add_function("f1", q(0) * q(0) + casadi::SX::sin(dq(m.n - 1)), {"q", "dq"}, "first") == 1);
  ok("add matrix", r.add_function("f2", casadi::SX::vertcat({w(1) * q(0), w(2), dq(0)}), {"w", "q", "dq"}, "second") == 1);
  ok("add constant", r.add_function("f3", casadi::SX::eye(2) * 3, {}, "third") == 1);
  casadi::SX rect = casadi::SX::horzcat({q * 2, dq}); ok("add rectangular", r.add_function("f4", rect, {"dq", "q"}, "fourth", false) == 1);
  // an expression of the model itself
  bool kin = m.mask["par_DHtable"].size() && std::find(m.mask["par_DHtable"].begin(), m.mask["par_DHtable"].end(), 1) != m.mask["par_DHtable"].end();
  if (b.comp && r.model.count("M")) {
    auto al = r.obtain_symb_parameters({"q", "dq"}, {"par_DHtable", "par_world2L0", "par_DYN"});
    ok("add over model expressions", r.add_function("f5", casadi::SX::mtimes({dq.T(), r.model["M"], dq}) / 2, al, "kinetic energy") == 1); (void)kin;
  }
  ok("listed", r.get_functions().size() == before + (b.comp && r.model.count("M") ? 5 : 4));
  for (int round = 0; round < 2; round++) {
    std::string t = "round " + std::to_string(round) + " ";
    setAll(); V dqv = argOf(r, "dq"), qv = argOf(r, "q"), wv = argOf(r, "w");
    eq(t + "f1", sc::flat(r.get("f1")), V{Q(0) * Q(0) + sin(dqv.at(m.n - 1))}, W);
    eq(t + "f2", sc::flat(r.get("f2")), V{wv.at(1) * Q(0), wv.at(2), dqv.at(0)}, W);
    eq(t + "f3", sc::flat(r.get("f3")), V{SC_T(3), SC_T(0), SC_T(0), SC_T(3)}, W);
    V wr; for (auto& x : qv) wr.push_back(x * SC_T(2)); for (auto& x : dqv) wr.push_back(x); eq(t + "f4", sc::flat(r.get("f4")), wr, W);
    if (b.comp && r.model.count("M")) {
      V M = sc::flat(r.get("M")); SC_T e(0); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) e = e + dqv[i] * M[i + j * m.n] * dqv[j];
      eq(t + "f5", sc::flat(r.get("f5")), V{e / SC_T(2)}, W);
    }
  }
  // protect and replace
  State s0 = state(r, m); V f1 = sc::flat(r.get("f1")); size_t nf = r.get_functions().size();
  ok("protected name is refused", r.add_function("f1", q(0) * 7, {"q"}, "other", false) == 0, "", O);
  eq("protected f1", sc::flat(r.get("f1")), f1, O); same("protected leaves", state(r, m), s0, O); ok("protected count", r.get_functions().size() == nf, "", O);
  for (auto& f : r.get_functions()) if (f.name == "f1") { ok("protected description", f.description == "first", f.description, O); ok("protected arguments", f.args == std::vector<std::string>({"q", "dq"}), "", O); }
  ok("protected variable is refused", r.add_function("q", dq * 7, {"dq"}, "other", false) == 0, "", O);
  if (b.comp) { V T = sc::flat(r.get("T_0_1")); ok("protected model function is refused", r.add_function("T_0_1", q * 7, {"q"}, "other", false) == 0, "", O); eq("protected T_0_1", sc::flat(r.get("T_0_1")), T, O); }
  ok("replacement accepted", r.add_function("f1", casadi::SX::vertcat({dq(0) * 3, q(0)}), {"dq", "q"}, "changed") == 1, "", O);
  V dqv = argOf(r, "dq");
  eq("replaced f1", sc::flat(r.get("f1")), V{dqv[0] * SC_T(3), Q(0)}, O); ok("replaced count", r.get_functions().size() == nf, "", O);
  for (auto& f : r.get_functions()) if (f.name == "f1") { ok("replaced description", f.description == "changed", f.description, O); ok("replaced arguments", f.args == std::vector<std::string>({"dq", "q"}), "", O); ok("replaced size", f.out_size == std::vector<int>({2, 1}), "", O); }
  ok("replaced again", r.add_function("f2", dq(0) - q(0), {"dq", "q"}, "smaller") == 1 && r.add_function("f4", casadi::SX::eye(3) * w(0), {"w"}, "other shape") == 1 && r.add_function("f3", dq * q(0), {"q", "dq"}, "was constant") == 1, "", O);
  ok("protected once more", r.add_function("f2", q(0) * 9, {"q"}, "no", false) == 0, "", O);
  if (b.comp) ok("a model function is replaced on request", r.add_function("G", dq * 2, {"dq"}, "mine") == 1, "", O);
  ok("built on a replaced function", r.add_function("f6", r.model["f2"] * q(0), {"q", "dq"}, "chain") == 1, "", O);
  // the example of userDefined.cpp: distance from a configured point (its numbers become part of the model, so they are concrete)
  V q0; for (int i = 0; i < m.n; i++) q0.push_back(SC_T(0.25 * (i + 1) - 1)); if (b.comp) { YAML::Node y; for (auto& x : q0) y.push_back(sc::text(x)); r.config_yaml["q0"] = y; sc::fn("compute_example_fun"); compute_example_fun(r); }
  for (int round = 0; round < 2; round++) {
    std::string t = "replaced, round " + std::to_string(round) + " "; if (round) setAll();
    V d = argOf(r, "dq"), p = argOf(r, "q"), u = argOf(r, "w"), z, g, e; for (int i = 0; i < 9; i++) e.push_back(i % 4 ? SC_T(0) : u.at(0)); for (auto& x : d) { z.push_back(x * p.at(0)); g.push_back(x * SC_T(2)); }
    eq(t + "f2", sc::flat(r.get("f2")), V{d[0] - p[0]}, O); eq(t + "f3", sc::flat(r.get("f3")), z, O); eq(t + "f4", sc::flat(r.get("f4")), e, O); eq(t + "f6", sc::flat(r.get("f6")), V{(d[0] - p[0]) * p[0]}, O);
    if (b.comp) { eq(t + "G", sc::flat(r.get("G")), g, O); SC_T n2(0); for (int i = 0; i < m.n; i++) n2 = n2 + (p[i] - q0[i]) * (p[i] - q0[i]); V x = sc::flat(r.get("q0_dist")); ok("size of q0_dist", x.size() == 1, "", W); if (x.size() == 1) eq(t + "q0_dist", V{x[0] * x[0]}, V{n2}, W); }
    for (auto& f : r.get_functions(false)) if (f.name.size() == 2 && f.name[0] == 'f') {   // what is listed, and exported, is the same function
      std::vector<V> in; for (auto& x : f.args) in.push_back(argOf(r, x)); eq(t + "exported " + f.name, sc::runFunction(f.fun, in), sc::flat(r.get(f.name)), O);
      ok(t + "listed shape of " + f.name, f.out_size.size() == 2 && f.out_size[0] == f.fun.size1_out(0) && f.out_size[1] == f.fun.size2_out(0) && f.expr.size1() == f.out_size[0] && f.expr.size2() == f.out_size[1], "", O);
    }
  }
  { auto a1 = r.get_functions(true), a2 = r.get_functions(false); bool same = a1.size() == a2.size(); for (size_t i = 0; same && i < a1.size(); i++) same = a1[i].name == a2[i].name && a1[i].args == a2[i].args && a1[i].description == a2[i].description && a1[i].out_size == a2[i].out_size; ok("both listings agree", same, "", O); }
  check("after", false);
}
static void p21(const Args&) { rigid::all(); 
  sc::fn("FrameOffset::get_rotation"); sc::fn("FrameOffset::get_transform"); sc::fn("FrameOffset::set_ypr"); sc::fn("FrameOffset::set_translation");
  V a = vars("ypr", 3), t = vars("tr", 3), g = vars("gr", 3);
  auto chk = [&](FrameOffset& f, const std::string& n, bool grav) {
    V R; casadi::SX r = f.get_rotation(); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) R.push_back((double)r(i, j));
    rigid::rotation(n + " rotation", R, a[2], a[1], a[0]);
    V T; casadi::SX x = f.get_transform(); for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) T.push_back((double)x(i, j));
    V w; V q = rigid::Rspec(a[2], a[1], a[0]); for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) w.push_back(j < 3 ? (i < 3 ? q[i + 3 * j] : SC_T(0)) : (i < 3 ? t[i] : SC_T(1)));
    eq(n + " transform", T, w, "a frame offset is not its translation and rotation");
    V p; casadi::SX y = f.get_translation(); for (int i = 0; i < 3; i++) p.push_back((double)y(i)); eq(n + " translation", p, t); V yp = f.get_ypr(); eq(n + " ypr", yp, a);
    if (grav) { V z; casadi::SX u = f.get_gravity(); for (int i = 0; i < 3; i++) z.push_back((double)u(i)); eq(n + " gravity", z, g); }
  };
  FrameOffset f1; f1.set_ypr(a); f1.set_translation(t); f1.set_gravity(g); chk(f1, "FrameOffset set", true);
  FrameOffset f2(a, t); chk(f2, "FrameOffset(ypr, tr)", false); FrameOffset f3(a, t, g); chk(f3, "FrameOffset(ypr, tr, g)", true);
  V h; casadi::SX hs = f1.hat(t); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) h.push_back((double)hs(i, j)); eq("FrameOffset hat", h, V{SC_T(0), t[2], -t[1], -t[2], SC_T(0), t[0], t[1], -t[0], SC_T(0)});
  casadi::SX v3(3, 1); for (int i = 0; i < 3; i++) v3(i) = t[i]; casadi::SX h2 = hat(v3); V hv; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) hv.push_back((double)h2(i, j)); eq("hat", hv, h);
  for (int k : {0, 1, 2, 4}) for (int w = 0; w < 3; w++) { bool threw = false; V b(k), c = vars("c", 3); try { if (w == 0) FrameOffset x(b, c); else if (w == 1) FrameOffset x(c, b); else FrameOffset x(c, c, b); } catch (std::exception&) { threw = true; } ok("FrameOffset refuses " + std::to_string(k) + " values in argument " + std::to_string(w), threw); }
}
int main(int argc, char** argv) { return sc::run(argc, argv, {{"p12", p12}, {"p12gen", p12gen}, {"p15", p15}, {"p16", p16}, {"p17", p17}, {"p21", p21}, {"p22", p22}}); }
