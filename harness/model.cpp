// vmodel <property> <config.yaml>: symbolic execution of the model functions built by the real code
// for one configuration, compared with the reference model for all values of the free inputs.
#include "../engine/report.hpp"
#include "../engine/vf_casadi.hpp"
#include "spec.hpp"
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include <dlfcn.h>
#include <iostream>
#include <sstream>
using namespace vf;
using namespace spec;
using thunder_ns::Robot;

extern bool stubInv; extern casadi::SX stubRes; extern std::vector<casadi::SX> stubArg;   // inv_stub.cpp

struct Quiet { std::streambuf* o; std::streambuf* e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

struct Ctx {
  Reporter rep; std::string file; Robot robot; Cfg cfg; Model S;
  std::map<std::string, thunder_ns::fun_obj> funs; std::map<std::string, std::vector<Rat>> enc;
  // VF_ENTRY: the computation steps requested one by one (each computes what it needs), in another order, or twice
  static Robot mk(const std::string& f) {
    Quiet q; const char* en = getenv("VF_ENTRY"); if (!en) return thunder_ns::robot_from_file("robot", f, 1);
    using namespace thunder_ns; std::string e = en;
    Robot r(f); r.robotName = "robot"; r.load_conf_par(f); r.init_symb_parameters();
    auto regs = [&] { if (r.get_ELASTIC()) compute_reg_elastic(r); if (r.get_Dl_order() > 0) compute_reg_Dl(r); };
    if (e == "steps1") { compute_kin_adv(r); compute_dyn_derivatives(r); regs(); compute_reg_J(r); compute_Yr(r); }
    else if (e == "steps2") { compute_Yr(r); compute_dyn_derivatives(r); compute_reg_J(r); regs(); compute_kin_adv(r); }
    else if (e == "steps3") { compute_reg_J(r); regs(); compute_dyn_derivatives(r); compute_Yr(r); compute_kin_adv(r); }
    else { compute_regressors(r); compute_dynamics(r); compute_kinematics(r); compute_dynamics(r); compute_kinematics(r); compute_regressors(r); }
    r.update_symb_parameters(); return r;
  }
  explicit Ctx(const std::string& f) : file(f), robot(mk(f)), cfg(Cfg::load(f)), S(cfg) { for (auto& x : robot.get_functions(false)) funs[x.name] = x; }

  static std::vector<int> selIdx(Model& S, const std::string& a) { std::vector<int> o; int n = S.size(a); for (int i = 0; i < n; i++) if (S.sel(a, i)) o.push_back(i); return o; }
  static void setArgs(Robot& r, Model& S, const Env& e) {
    std::vector<std::string> all = {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w"};
    if (S.c.elastic) for (auto a : {"x", "dx", "ddx", "ddxr"}) all.push_back(a);
    for (auto& m : S.c.mask) all.push_back(m.first);
    for (auto& a : all) {
      auto idx = selIdx(S, a); Eigen::VectorXd v(idx.size());
      for (size_t k = 0; k < idx.size(); k++) { auto it = e.find(Model::vname(a, idx[k])); v((long)k) = it == e.end() ? 0.0 : it->second; }
      r.set_arg(a, v);
    }
  }
  Replay replayOf(const std::string& name) {
    return [this, name](const Env& e) { Quiet q; setArgs(robot, S, e); Eigen::MatrixXd m = robot.get(name); return std::vector<double>(m.data(), m.data() + m.size()); };
  }
  bool encode(const std::string& name) {
    if (enc.count(name)) return true;
    auto it = funs.find(name);
    if (it == funs.end()) { rep.fact("exists " + name, false, "the model has no function " + name, name); return false; }
    std::vector<std::vector<Rat>> in; auto& f = it->second;
    if ((size_t)f.fun.n_in() != f.args.size()) { rep.fact("arity " + name, false, "declared arguments and inputs differ", name); return false; }
    for (size_t k = 0; k < f.args.size(); k++) {
      auto idx = selIdx(S, f.args[k]); std::vector<Rat> v; for (int i : idx) v.push_back(S.v(f.args[k], i));
      if ((long)v.size() != (long)f.fun.numel_in(k)) { rep.fact("inputs of " + name, false, name + " takes " + std::to_string((long)f.fun.numel_in(k)) + " values for " + f.args[k] + ", expected " + std::to_string(v.size()), name); return false; }
      in.push_back(v);
    }
    try { enc[name] = runFunction(f.fun, in); }
    catch (NeedExpand&) { throw; }
    catch (std::exception& ex) { rep.inconclusiveObl("encode " + name, ex.what()); return false; }
    rep.functions.push_back(name);
    return true;
  }
  void eq(const std::string& name, const Mat& sp, const std::string& what) {
    if (!encode(name)) return;
    auto& f = funs[name];
    if (!rep.fact("shape " + name, f.out_size[0] == sp.r && f.out_size[1] == sp.c, name + " is " + std::to_string(f.out_size[0]) + "x" + std::to_string(f.out_size[1]) + ", expected " + std::to_string(sp.r) + "x" + std::to_string(sp.c), what)) return;
    if (getenv("VF_DEBUG")) { size_t t = 0; for (auto& x : sp.v) t += x.num.size(); fprintf(stderr, "%s: %zu spec terms\n", name.c_str(), t); }
    // fixed angles that are no quarter turns are floating-point numbers: compared up to rounding, for bounded inputs
    static const bool tol = getenv("VF_TOL") != nullptr;
    if (tol) { try { rep.close(name, enc[name], sp.v, 8, 1e-7, replayOf(name), what); } catch (Unsupported& ex) { rep.inconclusiveObl(name, ex.what()); } }
    else rep.equal(name, enc[name], sp.v, replayOf(name), what);
    val(name);
  }
  void val(const std::string& name) { auto vs = varsOf(enc[name]); rep.validate(name, enc[name], vs, replayOf(name), 1); }
};

static Mat col(const Vec& v) { Mat m((int)v.size(), 1); m.v = v; return m; }
static std::string S_(int i) { return std::to_string(i); }

static void P01(Ctx& c) {
  int n = c.cfg.nj;
  c.eq("T_0", c.S.Ti(0), "base frame pose");
  for (int i = 1; i <= n; i++) c.eq("T_" + S_(i), c.S.Ti(i), "relative pose of link " + S_(i));
  for (int i = 0; i <= n + 1; i++) c.eq("T_0_" + S_(i), c.S.T0(i), i <= n ? "pose of link frame " + S_(i) : "pose of the end effector");
  c.eq("T_0_ee", c.S.T0(n + 1), "pose of the end effector");
  c.rep.witness("T_0_ee", c.enc["T_0_ee"]);
}
static void P02(Ctx& c) {
  int n = c.cfg.nj;
  for (int i = 1; i <= n + 1; i++) c.eq("J_" + S_(i), c.S.J(i), "Jacobian of frame " + S_(i));
  c.eq("J_ee", c.S.J(n + 1), "Jacobian of the end effector");
  for (int i = 1; i <= n; i++) c.eq("J_cm_" + S_(i), c.S.Jcm(i), "Jacobian of the centre of mass of link " + S_(i));
  c.rep.witness("J_ee", c.enc["J_ee"]);
}
static void P03(Ctx& c) {
  int n = c.cfg.nj;
  Mat J = c.S.J(n + 1), Jd = c.S.dot(J);
  c.eq("J_ee_dot", Jd, "time derivative of the end-effector Jacobian");
  c.eq("J_ee_ddot", c.S.dot(Jd), "second time derivative of the end-effector Jacobian");
  c.rep.witness("J_ee_dot", c.enc["J_ee_dot"]);
}
// Damped inverse for every 6 x k matrix J: the Jacobian is replaced by free symbols, CasADi's matrix
// inverse by a stand-in returning 36 free symbols and recording its argument.
static void P03pinv(Ctx& c, int k) {
  auto run = [&](Robot& r, bool stub) {
    std::vector<casadi::SX> pool; for (auto a : {"par_DHtable", "par_world2L0", "par_Ln2EE", "q"}) for (int i = 0; i < (int)r.model[a].size1(); i++) pool.push_back(r.model[a](i));
    if ((int)pool.size() < 36 + 6 * k) throw std::runtime_error("not enough free symbols");
    casadi::SX J(6, k); int p = 0; for (int j = 0; j < k; j++) for (int i = 0; i < 6; i++) J(i, j) = pool[p++];
    casadi::SX I(6, 6); for (int j = 0; j < 6; j++) for (int i = 0; i < 6; i++) I(i, j) = pool[p++];
    r.model["J_ee"] = J; stubInv = stub; stubRes = I; if (stub) stubArg.clear();
    Quiet q; thunder_ns::compute_kin_adv(r); stubInv = false;
  };
  auto mk = [&] { Quiet q; Robot r(c.file); r.robotName = "robot"; r.load_conf_par(c.file); r.init_symb_parameters(); return r; };
  std::vector<Rat> pool; for (auto a : {"par_DHtable", "par_world2L0", "par_Ln2EE", "q"}) for (int i = 0; i < c.S.size(a); i++) pool.push_back(c.S.v(a, i));
  Mat J(6, k), I(6, 6); int p = 0; for (auto& x : J.v) x = pool[p++]; for (auto& x : I.v) x = pool[p++];
  // CasADi's derivative calls on the large symbol sets are not needed here; keep J_ee_dot as it is
  Robot rs = mk(); run(rs, true);
  Robot rr = mk(); run(rr, false); { Quiet q; rr.update_symb_parameters(); }
  auto funs = rs.get_functions(false); thunder_ns::fun_obj f; for (auto& x : funs) if (x.name == "J_ee_pinv") f = x;
  if (!c.rep.fact("exists J_ee_pinv", !f.args.empty(), "no J_ee_pinv", "pseudo-inverse")) return;
  c.rep.functions.push_back("J_ee_pinv");
  Rat mu(Q::fromDouble(0.02));
  Mat A = J * T(J) + mu * eye(6);
  auto numeric = [&](const Env& e, Mat& Jn, std::vector<double>& X) { Quiet q; Ctx::setArgs(rr, c.S, e); Eigen::MatrixXd m = rr.get("J_ee_pinv"); X.assign(m.data(), m.data() + m.size()); (void)Jn; };
  // residual X (J J^T + mu I) - J^T of the real code
  Replay resid = [&](const Env& e) {
    std::vector<double> X; Mat d; numeric(e, d, X); std::vector<double> o((size_t)6 * k); std::vector<double> Jn; for (auto& x : J.v) Jn.push_back(evalR(x, e));
    for (int i = 0; i < k; i++) for (int j = 0; j < 6; j++) { double s = 0; for (int l = 0; l < 6; l++) { double a = l == j ? 0.02 : 0; for (int m = 0; m < k; m++) a += Jn[l + 6 * m] * Jn[j + 6 * m]; s += X[i + (size_t)k * l] * a; } o[i + (size_t)k * j] = s - Jn[j + 6 * i]; }
    return o;
  };
  if (stubArg.size() != 1) { c.rep.inconclusiveObl("J_ee_pinv", "the damped inverse is not computed with a single CasADi inverse or solve"); }
  else {
    casadi::SXVector in; std::vector<std::vector<Rat>> rin; for (auto a : {"par_DHtable", "par_world2L0", "par_Ln2EE", "q"}) { in.push_back(rs.model[a]); std::vector<Rat> v; for (int i = 0; i < c.S.size(a); i++) v.push_back(c.S.v(a, i)); rin.push_back(v); }
    casadi::Function fa("a", in, {densify(stubArg[0])});
    std::vector<Rat> got = runFunction(fa, rin), want = A.v;
    std::vector<std::vector<Rat>> pin; for (auto& a : f.args) { std::vector<Rat> v; for (int i = 0; i < c.S.size(a); i++) v.push_back(c.S.v(a, i)); pin.push_back(v); }
    std::vector<Rat> X = runFunction(f.fun, pin);
    // the replay shows a violation as a non-zero residual of the defining equation
    Mat Xm(k, 6); Xm.v = X;
    bool shape = f.out_size[0] == k && f.out_size[1] == 6;
    if (!c.rep.fact("shape J_ee_pinv", shape, "J_ee_pinv has the wrong shape", "pseudo-inverse")) return;
    auto viaResid = [&](const std::string& nm, const std::vector<Rat>& impl, const std::vector<Rat>& sp) {
      c.rep.obligations++; bool same = impl.size() == sp.size(); if (same) for (size_t i = 0; i < impl.size(); i++) same = same && sameRat(impl[i], sp[i]);
      c.rep.obligations--;
      if (same) { c.rep.equal(nm, impl, sp, resid, "damped pseudo-inverse"); return; }
      // solver-chosen J, real residual
      for (int tr = 0; tr < 6; tr++) {
        std::set<GenId> gs; for (auto& x : J.v) { auto g = gensOf(x); gs.insert(g.begin(), g.end()); } for (auto& x : I.v) { auto g = gensOf(x); gs.insert(g.begin(), g.end()); }
        Env e = c.rep.randomEnv(gs, tr + 3); auto r = resid(e); double mx = 0; int ix = 0; for (size_t i = 0; i < r.size(); i++) if (!(std::fabs(r[i]) <= mx)) { mx = std::fabs(r[i]); ix = (int)i; }
        if (!(mx < 1e-6)) { CE ce; ce.env = e; ce.index = ix; ce.real = r[ix]; ce.spec = 0; c.rep.obligations++; c.rep.violation(nm, "damped pseudo-inverse", &ce, "X (J J^T + 0.02 I) differs from J^T by " + std::to_string(r[ix])); return; }
      }
      c.rep.inconclusiveObl(nm, "encoded differently, no failing input found");
    };
    viaResid("damped matrix", got, want);
    viaResid("pseudo-inverse product", X, (T(J) * I).v);
  }
  // the inverse stand-in against the real inverse at concrete points
  for (int tr = 0; tr < 2; tr++) {
    std::set<GenId> gs; for (auto& x : J.v) { auto g = gensOf(x); gs.insert(g.begin(), g.end()); }
    Env e = c.rep.randomEnv(gs, tr + 11); auto r = resid(e); double mx = 0; for (double v : r) mx = std::fmax(mx, std::isnan(v) ? 1e9 : std::fabs(v));
    if (mx > 1e-6) { CE ce; ce.env = e; ce.index = 0; ce.real = mx; ce.spec = 0; c.rep.violation("pseudo-inverse identity", "damped pseudo-inverse", &ce, "X (J J^T + 0.02 I) differs from J^T"); return; }
    c.rep.validated++;
  }
}
static void P04(Ctx& c) {
  int n = c.cfg.nj;
  c.eq("M", c.S.M(), "mass matrix");
  if (!c.enc.count("M") || getenv("VF_TOL")) return;
  auto& m = c.enc["M"]; Vec tr(m.size()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tr[i + n * j] = m[j + n * i];
  c.rep.equal("M symmetric", m, tr, [&](const Env& e) { auto v = c.replayOf("M")(e); return v; }, "mass matrix symmetry");
  // positive semidefinite: with link inertia L L^T, dq^T M dq = sum m |v|^2 + |L^T R^T w|^2
  bool full = true; for (int x : c.cfg.mask["par_DYN"]) full = full && x;
  if (full) {
    auto& f = c.funs["M"]; std::vector<std::vector<Rat>> in; std::vector<Mat> L(n);
    for (int i = 0; i < n; i++) { L[i] = Mat(3, 3); for (int a = 0; a < 3; a++) for (int b = 0; b <= a; b++) L[i](a, b) = vf::var("L" + S_(i) + "[" + S_(3 * a + b) + "]"); }
    for (auto& a : f.args) {
      std::vector<Rat> v; for (int i : Ctx::selIdx(c.S, a)) v.push_back(c.S.v(a, i));
      if (a == "par_DYN") for (int i = 0; i < n; i++) { Mat I = L[i] * T(L[i]); int k = 4; for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) v[10 * i + k++] = I(r, q); }
      in.push_back(v);
    }
    std::vector<Rat> Mi; try { Mi = runFunction(f.fun, in); } catch (std::exception& ex) { c.rep.inconclusiveObl("PSD", ex.what()); return; }
    Rat E, K; std::vector<std::string> lem; std::string sum = "(+ 0.0", ass;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) E += c.S.v("dq", i) * Mi[i + n * j] * c.S.v("dq", j);
    int id = 0; std::string decl;
    for (int i = 0; i < n; i++) {
      Mat J = c.S.Jcm(i + 1), dq(n, 1); for (int k = 0; k < n; k++) dq(k, 0) = c.S.v("dq", k);
      Mat v = J * dq; Mat lin = block(v, 0, 0, 3, 1), w = T(L[i]) * T(block(c.S.T0(i + 1), 0, 0, 3, 3)) * block(v, 3, 0, 3, 1);
      for (int r = 0; r < 3; r++) { K += c.S.par("par_DYN", 10 * i) * lin(r, 0) * lin(r, 0) + w(r, 0) * w(r, 0); }
      std::string m = "m" + S_(i); decl += "(declare-const " + m + " Real)\n(assert (>= " + m + " 0.0))\n";
      for (int r = 0; r < 3; r++) { std::string a = "v" + S_(id), b = "w" + S_(id); id++; decl += "(declare-const " + a + " Real)\n(declare-const " + b + " Real)\n"; sum += " (* " + m + " (* " + a + " " + a + ")) (* " + b + " " + b + ")"; }
    }
    c.rep.equal("kinetic energy decomposition", {E}, {K}, [&](const Env& e) {
      // real code at the same point: inertia from L
      Env f2 = e; for (int i = 0; i < n; i++) { Mat I = L[i] * T(L[i]); int k = 4; for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) f2[Model::vname("par_DYN", 10 * i + k++)] = evalR(I(r, q), e); }
      auto M = c.replayOf("M")(f2); double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += e.at(Model::vname("dq", i)) * M[i + n * j] * e.at(Model::vname("dq", j)); return std::vector<double>{s}; }, "kinetic energy");
    std::string lemma = decl + "(assert (< " + sum + ") 0.0))\n", r = c.rep.z3.check(lemma, 20000);
    c.rep.obligations++; if (r == "unsat") c.rep.discharged++; else c.rep.inconclusiveObl("PSD lemma", r);
  }
  c.rep.witness("M", m);
}
static void P05(Ctx& c) {
  c.eq("C", c.S.C(), "Coriolis matrix"); c.eq("C_std", c.S.C(), "Coriolis matrix, classic formulation");
  int n = c.cfg.nj;
  if (c.encode("M") && c.enc.count("C")) {
    Mat M(n, n); M.v = c.enc["M"]; Mat C(n, n); C.v = c.enc["C"]; Mat N = c.S.dot(M) - Rat(2) * C; Mat Z = N + T(N);
    c.rep.equal("skew symmetry of Mdot - 2C", Z.v, Vec(Z.v.size()), [&](const Env& e) {
      double h = 1e-5; auto C0 = c.replayOf("C")(e); Env p = e, m = e; for (int i = 0; i < n; i++) { auto k = Model::vname("q", i), d = Model::vname("dq", i); double dv = e.count(d) ? e.at(d) : 0; p[k] = (e.count(k) ? e.at(k) : 0) + h * dv; m[k] = (e.count(k) ? e.at(k) : 0) - h * dv; }
      auto Mp = c.replayOf("M")(p), Mm = c.replayOf("M")(m); std::vector<double> o(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double z = 2 * (Mp[i + n * j] - Mm[i + n * j]) / (2 * h) - 2 * C0[i + n * j] - 2 * C0[j + n * i]; o[i + n * j] = std::fabs(z) < 1e-5 ? 0 : z; } return o; }, "Mdot - 2C skew-symmetric");
  }
  c.rep.witness("C", c.enc["C"]);
}
static void P06(Ctx& c) { c.eq("G", c.S.G(), "gravity vector"); c.rep.witness("G", c.enc["G"]); }
static void P07(Ctx& c) {
  int n = c.cfg.nj; Mat rM, rC, rG; c.S.regressors(rM, rC, rG);
  c.eq("reg_M", rM, "mass regressor"); c.eq("reg_C", rC, "Coriolis regressor"); c.eq("reg_G", rG, "gravity regressor"); c.eq("Yr", rM + rC + rG, "dynamics regressor");
  if (c.enc.count("Yr") && c.encode("M") && c.encode("C") && c.encode("G")) {
    Mat Y(n, 10 * n), M(n, n), C(n, n), G(n, 1), p(10 * n, 1), a(n, 1), b(n, 1); Y.v = c.enc["Yr"]; M.v = c.enc["M"]; C.v = c.enc["C"]; G.v = c.enc["G"];
    for (int i = 0; i < n; i++) { auto B = c.S.bodyDYN(i); p(10 * i, 0) = B.m; for (int k = 0; k < 3; k++) p(10 * i + 1 + k, 0) = B.mc(k, 0); int k = 4; for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) p(10 * i + k++, 0) = B.IO(r, q); a(i, 0) = c.S.v("ddqr", i); b(i, 0) = c.S.v("dqr", i); }
    Mat L = Y * p, R = M * a + C * b + G;
    c.rep.equal("Yr par = M ddqr + C dqr + G", L.v, R.v, [&](const Env& e) {
      auto y = c.replayOf("Yr")(e), m = c.replayOf("M")(e), cc = c.replayOf("C")(e), g = c.replayOf("G")(e); std::vector<double> o(n);
      auto at = [&](const char* s, int i) { auto it = e.find(Model::vname(s, i)); return it == e.end() ? 0.0 : it->second; };
      // left side minus right side plus expected value, all from the real code
      for (int i = 0; i < n; i++) { double l = 0, r = g[i]; for (int k = 0; k < 10 * n; k++) l += y[i + (size_t)n * k] * evalR(p(k, 0), e); for (int k = 0; k < n; k++) r += m[i + n * k] * at("ddqr", k) + cc[i + n * k] * at("dqr", k); o[i] = l - r + evalR(R(i, 0), e); }
      return o; }, "regressor identity");
  }
  c.rep.witness("Yr", c.enc["Yr"]);
}
static void P08(Ctx& c) {
  Mat Md = c.S.dot(c.S.M()), Cd = c.S.dot(c.S.C()), Gd = c.S.dot(c.S.G());
  c.eq("M_dot", Md, "M_dot"); c.eq("M_ddot", c.S.dot(Md), "M_ddot"); c.eq("G_dot", Gd, "G_dot"); c.eq("G_ddot", c.S.dot(Gd), "G_ddot");
  c.eq("C_dot", Cd, "C_dot"); c.eq("C_ddot", c.S.dot(Cd), "C_ddot");
  c.rep.witness("M_ddot", c.enc["M_ddot"]);
}
// diagonal matrices, coupling vector and regressor of a family of polynomial terms
static void family(Ctx& c, const std::string& vec, const std::string& mat, int step, const std::string& par, int order, int n, const std::function<Rat(int)>& u, const std::string& what, bool energy, const std::function<Rat(int)>& rate) {
  if (order == 0) return;
  auto power = [&](int i, int k) { return step == 2 ? vf::ipow(u(i), 2 * k + 1) : Model::spow(u(i), k + 1); };
  Mat t(n, 1); for (int i = 0; i < n; i++) for (int k = 0; k < order; k++) t(i, 0) += power(i, k) * c.S.par(par, i * order + k);
  c.eq(vec, t, what);
  for (int k = 0; k < order; k++) { Mat D(n, n); for (int i = 0; i < n; i++) D(i, i) = c.S.par(par, i * order + k); c.eq(mat + S_(step == 2 ? 2 * k + 1 : k + 1), D, what + " matrix"); }
  auto idx = Ctx::selIdx(c.S, par);
  std::string reg = "reg_" + vec;
  if (idx.empty()) c.rep.fact("no " + reg, !c.funs.count(reg), reg + " exists although no parameter is selected", what);
  else {
    Mat R(n, (int)idx.size()); for (size_t s = 0; s < idx.size(); s++) { int i = idx[s] / order, k = idx[s] % order; R(i, (int)s) = power(i, k); }
    c.eq(reg, R, what + " regressor");
    if (c.enc.count(reg) && c.enc.count(vec)) {
      Mat Rm(n, (int)idx.size()), p((int)idx.size(), 1); Rm.v = c.enc[reg]; for (size_t s = 0; s < idx.size(); s++) p((int)s, 0) = c.S.v(par, idx[s]);
      Mat rest(n, 1); for (int i = 0; i < n; i++) for (int k = 0; k < order; k++) if (!c.S.sel(par, i * order + k)) rest(i, 0) += power(i, k) * c.S.par(par, i * order + k);
      Mat sum = Rm * p + rest; c.rep.equal(reg + " reproduces " + vec, sum.v, c.enc[vec], [&](const Env& e) {
        auto r = c.replayOf(reg)(e), v = c.replayOf(vec)(e); std::vector<double> o(n); for (int i = 0; i < n; i++) { double s = evalR(rest(i, 0), e); for (size_t k = 0; k < idx.size(); k++) s += r[i + (size_t)n * k] * evalR(p((int)k, 0), e); o[i] = s - v[i] + evalR(c.enc[vec][i], e); } return o; }, what);
    }
  }
  if (energy && c.enc.count(vec)) for (int i = 0; i < n; i++) {
    // non-negative coefficients never inject energy
    bool all = true; for (int k = 0; k < order; k++) all = all && c.S.sel(par, i * order + k); if (!all) continue;
    Rat P = c.enc[vec][i] * rate(i); std::string as; for (int k = 0; k < order; k++) as += "(assert (>= |" + Model::vname(par, i * order + k) + "| 0.0))\n";
    // the power is the law's own: the claim about it then depends on the deformation or rate alone
    Rat Q; for (int k = 0; k < order; k++) Q += power(i, k) * c.S.par(par, i * order + k) * rate(i);
    if ((P - Q).isZero()) {
      Rat z = vf::var("lemma_rate"), L; for (int k = 0; k < order; k++) L += (step == 2 ? vf::ipow(z, 2 * k + 2) : Model::spow(z, k + 1) * z) * c.S.par(par, i * order + k);
      std::vector<Rat> mn{L, z}; for (int k = 0; k < order; k++) mn.push_back(c.S.v(par, i * order + k));
      c.rep.implies(vec + " dissipative " + S_(i), mn, as, "(>= " + L.smt() + " 0.0)", [&](const Env&, std::string&) { return false; }, what + " injects energy"); continue;
    }
    std::vector<Rat> men{P, rate(i)}; for (int k = 0; k < order; k++) men.push_back(c.S.v(par, i * order + k));
    c.rep.implies(vec + " dissipative " + S_(i), men, as, "(>= " + P.smt() + " 0.0)", [&](const Env& e, std::string& d) { auto v = c.replayOf(vec)(e); double r = v[i] * evalR(rate(i), e); d = "power " + std::to_string(r); return r < -1e-9; }, what + " injects energy");
  }
}
static void P09(Ctx& c) {
  family(c, "dl", "Dl", 1, "par_Dl", c.cfg.Dlo, c.cfg.nj, [&](int i) { return c.S.v("dq", i); }, "link friction", true, [&](int i) { return c.S.v("dq", i); });
  if (c.enc.count("dl")) {
    // odd: encoding at -dq equals minus the encoding at dq
    std::vector<std::vector<Rat>> in; auto& f = c.funs["dl"]; for (auto& a : f.args) { std::vector<Rat> v; for (int i : Ctx::selIdx(c.S, a)) v.push_back(a == "dq" ? -c.S.v(a, i) : c.S.v(a, i)); in.push_back(v); }
    auto neg = runFunction(f.fun, in); Vec want; for (auto& x : c.enc["dl"]) want.push_back(-x);
    c.rep.equal("dl odd", neg, want, [&](const Env& e) { Env m = e; for (int i = 0; i < c.cfg.nj; i++) { auto k = Model::vname("dq", i); if (m.count(k)) m[k] = -m[k]; } return c.replayOf("dl")(m); }, "link friction is odd");
    c.rep.witness("dl", c.enc["dl"]);
  }
}
static void P10(Ctx& c) {
  auto& e = c.cfg.ej; int ne = c.cfg.ne;
  auto dx = [&](int i) { return c.S.v("x", i) - c.S.v("q", e[i]); };
  auto dv = [&](int i) { return c.S.v("dx", i) - c.S.v("dq", e[i]); };
  family(c, "k", "K", 2, "par_K", c.cfg.Ko, ne, dx, "coupling stiffness", true, dx);
  family(c, "d", "D", 1, "par_D", c.cfg.Do, ne, dv, "coupling damping", true, dv);
  auto mv = [&](int i) { return c.S.v("dx", i); };
  family(c, "dm", "Dm", 1, "par_Dm", c.cfg.Dmo, ne, mv, "motor friction", true, mv);
  Mat Mm(ne, ne); for (int i = 0; i < ne; i++) Mm(i, i) = c.S.par("par_Mm", i);
  c.eq("Mm", Mm, "motor inertia");
  auto idx = Ctx::selIdx(c.S, "par_Mm");
  if (idx.empty()) c.rep.fact("no reg_Mm", !c.funs.count("reg_Mm"), "reg_Mm exists although nothing is selected", "motor inertia");
  else { Mat R(ne, (int)idx.size()); for (size_t s = 0; s < idx.size(); s++) R(idx[s], (int)s) = c.S.v("ddx", idx[s]); c.eq("reg_Mm", R, "motor inertia regressor"); }
  if (c.enc.count("k")) c.rep.witness("k", c.enc["k"]);
}
static void P11(Ctx& c) {
  int n = c.cfg.nj; std::vector<std::pair<std::string, int>> sel;
  for (auto g : {"par_DHtable", "par_world2L0", "par_Ln2EE"}) for (int i : Ctx::selIdx(c.S, g)) sel.push_back({g, i});
  if (sel.empty()) { c.rep.fact("no kinematic regressor", !c.funs.count("reg_Jdq") && !c.funs.count("reg_JTw"), "a kinematic regressor exists although nothing is selected", "kinematic regressor"); return; }
  Mat J = c.S.J(n + 1), dq(n, 1), w(6, 1); for (int i = 0; i < n; i++) dq(i, 0) = c.S.v("dq", i); for (int i = 0; i < 6; i++) w(i, 0) = c.S.v("w", i);
  Mat a = J * dq, b = T(J) * w, Ra(6, (int)sel.size()), Rb(n, (int)sel.size());
  for (size_t s = 0; s < sel.size(); s++) { auto g = c.S.vid(sel[s].first, sel[s].second); for (int i = 0; i < 6; i++) Ra(i, (int)s) = vf::diff(a(i, 0), g); for (int i = 0; i < n; i++) Rb(i, (int)s) = vf::diff(b(i, 0), g); }
  c.eq("reg_Jdq", Ra, "sensitivity of J dq"); c.eq("reg_JTw", Rb, "sensitivity of J^T w");
  c.rep.witness("reg_Jdq", c.enc["reg_Jdq"]);
}
// every function of a partially selected robot equals the reference with unselected values fixed
static void P13(Ctx& c) {
  auto& cf = c.cfg;
  for (auto& f : c.funs) {
    bool ok = true; std::string why;
    for (auto& a : f.second.args) {
      if (a.rfind("par_", 0) == 0 && Ctx::selIdx(c.S, a).empty()) { ok = false; why = f.first + " asks for " + a + " although none of it is selected"; }
    }
    c.rep.fact("arguments of " + f.first, ok, why, "argument list");
  }
  P01(c); P02(c);
  { Mat J = c.S.J(cf.nj + 1), Jd = c.S.dot(J); c.eq("J_ee_dot", Jd, "J_ee_dot"); }
  c.eq("M", c.S.M(), "M"); c.eq("C", c.S.C(), "C"); c.eq("C_std", c.S.C(), "C_std"); c.eq("G", c.S.G(), "G");
  c.eq("G_dot", c.S.dot(c.S.G()), "G_dot"); c.eq("M_dot", c.S.dot(c.S.M()), "M_dot");
  P07(c); P11(c); if (cf.Dlo) P09(c); if (cf.elastic) P10(c);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::string prop = argv[1], file = argv[2];
  setTermLimit(getenv("VF_TERMS") ? (size_t)atol(getenv("VF_TERMS")) : 3000000);
  if (getenv("VF_TOL")) setNumericAngles(true);
  for (int pass = 0; pass < 2; pass++) {
    Ctx* c = nullptr;
    try { c = new Ctx(file); }
    catch (std::exception& ex) { Reporter r; r.config = file; r.violation("construction", "the model cannot be built for a valid configuration", nullptr, ex.what()); r.summary(); return 0; }
    c->rep.config = file;
    try {
      if (prop == "P01") P01(*c); else if (prop == "P02") P02(*c); else if (prop == "P03") P03(*c); else if (prop == "P04") P04(*c); else if (prop == "P05") P05(*c);
      else if (prop == "P03pinv") P03pinv(*c, argc > 3 ? atoi(argv[3]) : 3);
      else if (prop == "P06") P06(*c); else if (prop == "P07") P07(*c); else if (prop == "P08") P08(*c); else if (prop == "P09") P09(*c); else if (prop == "P10") P10(*c);
      else if (prop == "P11") P11(*c); else if (prop == "P13") P13(*c); else return 2;
    } catch (NeedExpand&) { if (pass == 0) { setExpandAngles(true); continue; } c->rep.inconclusiveObl(prop, "dependent angles"); }
    catch (TooBig& ex) { c->rep.inconclusiveObl(prop, std::string("beyond bound: ") + ex.what()); }
    c->rep.summary(); return 0;
  }
}
