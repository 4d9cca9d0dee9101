// Reference model: the equations of motion of the robot described by a configuration file,
// written from the definitions (poses, potential and kinetic energy), over the term algebra.
#pragma once
#include "../engine/vf.hpp"
#include <yaml-cpp/yaml.h>
#include <map>
#include <string>
#include <vector>
namespace spec {
using vf::Rat; using vf::Q;
using Vec = std::vector<Rat>;
struct Mat { int r = 0, c = 0; Vec v; Mat() {} Mat(int r_, int c_) : r(r_), c(c_), v((size_t)r_ * c_) {}
  Rat& operator()(int i, int j) { return v[i + (size_t)j * r]; } const Rat& operator()(int i, int j) const { return v[i + (size_t)j * r]; } };
inline Mat operator*(const Mat& a, const Mat& b) { Mat o(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { Rat s; for (int k = 0; k < a.c; k++) if (!a(i, k).isZero() && !b(k, j).isZero()) s += a(i, k) * b(k, j); o(i, j) = s; } return o; }
inline Mat operator+(const Mat& a, const Mat& b) { Mat o(a.r, a.c); for (size_t i = 0; i < a.v.size(); i++) o.v[i] = a.v[i] + b.v[i]; return o; }
inline Mat operator-(const Mat& a, const Mat& b) { Mat o(a.r, a.c); for (size_t i = 0; i < a.v.size(); i++) o.v[i] = a.v[i] - b.v[i]; return o; }
inline Mat operator*(const Rat& k, const Mat& a) { Mat o = a; for (auto& x : o.v) x *= k; return o; }
inline Mat T(const Mat& a) { Mat o(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o(j, i) = a(i, j); return o; }
inline Mat eye(int n) { Mat o(n, n); for (int i = 0; i < n; i++) o(i, i) = Rat(1); return o; }
inline Mat block(const Mat& a, int r0, int c0, int r, int c) { Mat o(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o(i, j) = a(r0 + i, c0 + j); return o; }

struct Cfg {
  int nj = 0, ne = 0; bool elastic = false; int Ko = 0, Do = 0, Dmo = 0, Dlo = 0;
  std::vector<std::string> types; std::vector<int> ej;     // ej: joint index of each elastic joint
  std::map<std::string, std::vector<double>> val; std::map<std::string, std::vector<int>> mask;
  bool P(int i) const { return types[i][0] == 'P'; }
  static Cfg load(const std::string& file) {
    YAML::Node y = YAML::LoadFile(file); Cfg c;
    c.nj = y["num_joints"].as<int>(); c.types = y["type_joints"].as<std::vector<std::string>>();
    for (int i = 0; i < c.nj; i++) if (c.types[i].size() > 1) c.ej.push_back(i);
    c.ne = (int)c.ej.size();
    if (y["Dl_order"]) c.Dlo = y["Dl_order"].as<int>();
    if (y["ELASTIC_MODEL"] && y["ELASTIC_MODEL"].as<bool>()) { c.elastic = true; auto e = y["elastic"]; c.Ko = e["K_order"].as<int>(); c.Do = e["D_order"].as<int>(); c.Dmo = e["Dm_order"].as<int>(); }
    auto msk = [&](const std::string& k, YAML::Node n, const char* key, int sz) { std::vector<int> m(sz, 0); if (n && n[key]) { auto v = n[key].as<std::vector<int>>(); for (int i = 0; i < sz && i < (int)v.size(); i++) m[i] = v[i] != 0; } auto& d = c.mask[k]; d.insert(d.end(), m.begin(), m.end()); };
    c.val["par_DHtable"] = y["kinematics"]["DH"].as<std::vector<double>>(); c.val["par_DHtable"].resize(4 * c.nj);
    msk("par_DHtable", y["kinematics"], "symb", 4 * c.nj);
    for (auto fr : {std::make_pair("par_world2L0", "Base_to_L0"), std::make_pair("par_Ln2EE", "Ln_to_EE")}) {
      auto n = y[fr.second]; auto t = n["tr"].as<std::vector<double>>(), r = n["ypr"].as<std::vector<double>>();
      t.insert(t.end(), r.begin(), r.end()); c.val[fr.first] = t; msk(fr.first, n, "symb", 6);
    }
    c.val["par_gravity"] = y["gravity"] ? y["gravity"]["value"].as<std::vector<double>>() : std::vector<double>{0, 0, 0};
    msk("par_gravity", y["gravity"], "symb", 3);
    int i = 0;
    static const char* keys[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
    for (auto nd : y["dynamics"]) {
      if (i++ == c.nj) break;
      auto in = nd.second["inertial"]; for (auto k : keys) c.val["par_DYN"].push_back(in[k].as<double>());
      msk("par_DYN", in, "symb", 10);
      if (c.Dlo) { auto f = nd.second["friction"]; std::vector<double> d(c.Dlo, 0.0); if (f && f["Dl"]) { auto v = f["Dl"].as<std::vector<double>>(); for (int k = 0; k < c.Dlo && k < (int)v.size(); k++) d[k] = v[k]; } auto& o = c.val["par_Dl"]; o.insert(o.end(), d.begin(), d.end()); msk("par_Dl", f, "symb", c.Dlo); }
    }
    if (c.elastic) {
      i = 0;
      for (auto nd : y["elastic"]["joints"]) {
        if (i++ == c.ne) break;
        auto put = [&](const char* k, const char* ks, const char* dst, int ord) { auto v = nd.second[k].as<std::vector<double>>(); for (int q = 0; q < ord; q++) c.val[dst].push_back(v[q]); msk(dst, nd.second, ks, ord); };
        if (c.Ko) put("K", "K_symb", "par_K", c.Ko);
        if (c.Do) put("D", "D_symb", "par_D", c.Do);
        if (c.Dmo) put("Dm", "Dm_symb", "par_Dm", c.Dmo);
        c.val["par_Mm"].push_back(nd.second["Mm"].as<double>()); c.mask["par_Mm"].push_back(nd.second["Mm_symb"] ? nd.second["Mm_symb"].as<int>() != 0 : 0);
      }
    }
    return c;
  }
};

class Model {
 public:
  Cfg c; bool allSymbolic = false;
  explicit Model(const Cfg& k) : c(k) {}
  static std::string vname(const std::string& a, int i) { return a + "[" + std::to_string(i) + "]"; }
  Rat v(const std::string& a, int i) const { return vf::var(vname(a, i)); }
  vf::GenId vid(const std::string& a, int i) const { return vf::varId(vname(a, i)); }
  bool sel(const std::string& g, int i) const { auto it = c.mask.find(g); return it == c.mask.end() || it->second.at(i); }
  // parameter i of a group: free if selected, else the configured number
  Rat par(const std::string& g, int i) const { return sel(g, i) ? v(g, i) : Rat(Q::fromDouble(c.val.at(g).at(i))); }
  int size(const std::string& a) const {
    if (a == "w") return 6;
    if (a == "x" || a == "dx" || a == "ddx" || a == "ddxr") return c.ne;
    auto it = c.val.find(a); if (it != c.val.end()) return (int)it->second.size();
    if (a == "par_REG") return 10 * c.nj;
    if (a.rfind("par_", 0) == 0) return 0;
    return c.nj;
  }
  // ---- poses
  static Mat rot(int ax, const Rat& a) { Mat m = eye(4); Rat C = vf::rcos(a), S = vf::rsin(a); int i = (ax + 1) % 3, j = (ax + 2) % 3; m(i, i) = C; m(i, j) = -S; m(j, i) = S; m(j, j) = C; return m; }
  static Mat trans(const Rat& x, const Rat& y, const Rat& z) { Mat m = eye(4); m(0, 3) = x; m(1, 3) = y; m(2, 3) = z; return m; }
  Mat frame(const std::string& g) const { return trans(par(g, 0), par(g, 1), par(g, 2)) * rot(2, par(g, 3)) * rot(1, par(g, 4)) * rot(0, par(g, 5)); }
  Mat Ti(int i) const {   // 0: base; 1..nj
    if (i == 0) return frame("par_world2L0");
    int k = i - 1; auto D = [&](int j) { return par("par_DHtable", 4 * k + j); };
    Rat d = D(2), th = D(3); if (c.P(k)) d += v("q", k); else th += v("q", k);
    return trans(D(0), Rat(0), Rat(0)) * rot(0, D(1)) * trans(Rat(0), Rat(0), d) * rot(2, th);
  }
  std::map<int, Mat> t0;
  const Mat& T0(int i) { auto it = t0.find(i); if (it != t0.end()) return it->second; Mat m = i == 0 ? Ti(0) : i <= c.nj ? T0(i - 1) * Ti(i) : T0(c.nj) * frame("par_Ln2EE"); return t0[i] = m; }
  static Mat dm(const Mat& m, vf::GenId g) { Mat o = m; for (auto& x : o.v) x = vf::diff(x, g); return o; }
  // ---- Jacobian of frame i with an optional fixed point p (homogeneous 4x1) of that frame
  Mat jac(const Mat& T0i, const Mat& p) {
    Mat J(6, c.nj), R = block(T0i, 0, 0, 3, 3), pos = T0i * p;
    for (int j = 0; j < c.nj; j++) {
      auto g = vid("q", j); Mat dp = dm(pos, g); for (int r = 0; r < 3; r++) J(r, j) = dp(r, 0);
      Mat W = dm(R, g) * T(R); J(3, j) = W(2, 1); J(4, j) = W(0, 2); J(5, j) = W(1, 0);
    }
    return J;
  }
  static Mat origin() { Mat p(4, 1); p(3, 0) = Rat(1); return p; }
  Mat J(int i) { return jac(T0(i), origin()); }     // i = 1..nj, nj+1 = end effector
  Mat com(int i) { Mat p(4, 1); for (int k = 0; k < 3; k++) p(k, 0) = par("par_DYN", 10 * i + 1 + k); p(3, 0) = Rat(1); return p; }
  Mat Jcm(int i) { return jac(T0(i), com(i - 1)); }
  // ---- inertia
  struct Body { Rat m; Mat mc; Mat IO; };            // mass, first moment, inertia about the link origin
  Body bodyDYN(int i) {
    auto D = [&](int j) { return par("par_DYN", 10 * i + j); };
    Body b; b.m = D(0); b.mc = Mat(3, 1); Mat cc(3, 1); for (int k = 0; k < 3; k++) { cc(k, 0) = D(1 + k); b.mc(k, 0) = D(0) * D(1 + k); }
    Mat I = sym6(D, 4); Rat n = cc(0, 0) * cc(0, 0) + cc(1, 0) * cc(1, 0) + cc(2, 0) * cc(2, 0);
    b.IO = I + b.m * (n * eye(3) - cc * T(cc)); return b;
  }
  template <class F> static Mat sym6(F D, int o) { Mat I(3, 3); int k = o; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { I(i, j) = D(k); I(j, i) = I(i, j); k++; } return I; }
  static Mat pseudo(const Body& b) {                  // 4x4 pseudo inertia
    Mat P(4, 4); Rat tr = (b.IO(0, 0) + b.IO(1, 1) + b.IO(2, 2)) * Rat(Q(1, 2));
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) P(i, j) = (i == j ? tr : Rat(0)) - b.IO(i, j); P(i, 3) = P(3, i) = b.mc(i, 0); }
    P(3, 3) = b.m; return P;
  }
  Mat massOf(int i, const Body& b) {                  // contribution of link i (0-based) to M
    Mat M(c.nj, c.nj), P = pseudo(b); std::vector<Mat> d; for (int j = 0; j < c.nj; j++) d.push_back(j <= i ? dm(T0(i + 1), vid("q", j)) : Mat());
    for (int j = 0; j <= i; j++) { Mat dP = d[j] * P; for (int k = j; k <= i; k++) { Rat s; for (size_t e = 0; e < 16; e++) if (!dP.v[e].isZero() && !d[k].v[e].isZero()) s += dP.v[e] * d[k].v[e]; M(j, k) = s; M(k, j) = s; } }
    return M;
  }
  Rat potOf(int i, const Body& b) {                   // - g . (m p_com)
    Rat s; const Mat& t = T0(i + 1);
    for (int r = 0; r < 3; r++) { Rat p = t(r, 3) * b.m; for (int k = 0; k < 3; k++) p += t(r, k) * b.mc(k, 0); s += par("par_gravity", r) * p; }
    return -s;
  }
  bool haveM = false; Mat M_; const Mat& M() { if (!haveM) { M_ = Mat(c.nj, c.nj); for (int i = 0; i < c.nj; i++) M_ = M_ + massOf(i, bodyDYN(i)); haveM = true; } return M_; }
  Mat christoffel(const Mat& M) {
    int n = c.nj; Mat C(n, n); std::vector<Mat> d; for (int k = 0; k < n; k++) d.push_back(dm(M, vid("q", k)));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Rat s; for (int k = 0; k < n; k++) s += (d[k](i, j) + d[j](i, k) - d[i](j, k)) * v("dq", k); C(i, j) = s * Rat(Q(1, 2)); }
    return C;
  }
  bool haveC = false; Mat C_; const Mat& C() { if (!haveC) { C_ = christoffel(M()); haveC = true; } return C_; }
  Mat gradient(const Rat& U) { Mat g(c.nj, 1); for (int j = 0; j < c.nj; j++) g(j, 0) = vf::diff(U, vid("q", j)); return g; }
  bool haveG = false; Mat G_; const Mat& G() { if (!haveG) { Rat U; for (int i = 0; i < c.nj; i++) U += potOf(i, bodyDYN(i)); G_ = gradient(U); haveG = true; } return G_; }
  // body described by unit linear parameter p (0..9): for the regressor columns
  static Body unit(int p) { Body b; b.m = Rat(p == 0 ? 1 : 0); b.mc = Mat(3, 1); if (p >= 1 && p <= 3) b.mc(p - 1, 0) = Rat(1); b.IO = sym6([&](int k) { return Rat(k == p ? 1 : 0); }, 4); return b; }
  void regressors(Mat& rM, Mat& rC, Mat& rG) {
    int n = c.nj; rM = Mat(n, 10 * n); rC = rM; rG = rM;
    for (int i = 0; i < n; i++) for (int p = 0; p < 10; p++) {
      Body b = unit(p); Mat M = massOf(i, b), C = christoffel(M), G = gradient(potOf(i, b));
      for (int r = 0; r < n; r++) { Rat a, cc; for (int k = 0; k < n; k++) { a += M(r, k) * v("ddqr", k); cc += C(r, k) * v("dqr", k); } rM(r, 10 * i + p) = a; rC(r, 10 * i + p) = cc; rG(r, 10 * i + p) = G(r, 0); }
    }
  }
  // total derivative along the motion q' = dq, dq' = ddq, ddq' = d3q
  Mat dot(const Mat& m) {
    static const char* chain[][2] = {{"q", "dq"}, {"dq", "ddq"}, {"ddq", "d3q"}};
    Mat o(m.r, m.c);
    for (size_t e = 0; e < m.v.size(); e++) { Rat s; for (auto& ch : chain) for (int j = 0; j < c.nj; j++) { Rat d = vf::diff(m.v[e], vid(ch[0], j)); if (!d.isZero()) s += d * v(ch[1], j); } o.v[e] = s; }
    return o;
  }
  // sign-preserving power: u^k for odd k, |u| u^(k-1) for even k
  static Rat spow(const Rat& u, int k) { return k % 2 ? vf::ipow(u, k) : vf::rabs(u) * vf::ipow(u, k - 1); }
};
}  // namespace spec
