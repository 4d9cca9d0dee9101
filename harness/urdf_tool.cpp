// The URDF tool as a whole (main_YAML.cpp): its main runs on an inertial.yaml of arbitrary values, the files it writes
// are read back.  The random perturbations are stand-ins with a known value.
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <yaml-cpp/yaml.h>
#include <eigen3/Eigen/Dense>
#include "../engine/scen.hpp"
namespace std {
template <class T = SC_T> struct vf_gauss {
  T mean, sd; explicit vf_gauss(T m = T(0), T s = T(1)) : mean(m), sd(s) {} template <class G> T operator()(G&) { return mean; }
};
struct vf_device { unsigned operator()() { return 4; } };
}
#define normal_distribution vf_gauss
#define random_device vf_device
#define main urdf_main
#include VF_MAIN_YAML
#undef main
#include "rigid.hpp"
namespace {
using sc::V; typedef SC_T S;
void setFlag(bool& f, bool v) { f = v; }
void setFlag(const bool&, bool) {}
const char* KD[10] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
const char* KR[10] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
bool read(const std::string& f, const char** keys, const std::string& tag, std::vector<V>& out) {
  out.clear(); std::ifstream i(f); if (!i.good()) { sc::ok(tag + " is written", false, f, "the parameter-file generator leaves a file out"); return false; }
  std::vector<std::string> names; bool good = true;
  try { YAML::Node n = YAML::LoadFile(f); for (const auto& e : n) { names.push_back(e.first.as<std::string>()); V v; for (int k = 0; k < 10; k++) v.push_back(e.second[keys[k]].as<SC_T>()); out.push_back(v); } } catch (std::exception&) { good = false; }
  sc::ok(tag + " is written", good && out.size() == 7, "", "the parameter-file generator writes an unusable file");
  for (int k = 0; good && k < (int)names.size() && k < 7; k++) good = names[k] == "link" + std::to_string(k + 1);
  sc::ok(tag + " names its links in order", good, "", "the parameter-file generator mixes up links"); return good && out.size() == 7;
}
void tool(const std::vector<std::string>& a) {
  bool grip = a.at(0) == "1", reg = a.at(1) == "reg";
  sc::fn("main_YAML"); sc::fn("fillInertialYaml"); sc::fn("perturbateLinkProp"); sc::fn("transformBodyInertial"); sc::fn("mergeBodyInertial");
  for (const char* d : {"a", "a/config", "a/b", "a/b/tool", "a/b/tool/yaml", "a/b/generatedFiles"}) mkdir(d, 0755);
  static const char* K6[6] = {"xx", "xy", "xz", "yy", "yz", "zz"};
  struct B { S m; V c, r, I; }; std::vector<B> in;
  { std::ofstream y("a/b/tool/yaml/inertial.yaml");
    for (int k = 0; k < 9; k++) {
      std::string n = k < 8 ? "link" + std::to_string(k) : "hand"; B b; b.m = sc::var("m_" + n); b.c = sc::vars("c_" + n, 3); b.I = sc::vars("I_" + n, 6);
      for (int j = 0; j < 3; j++) b.r.push_back(k % 3 == 0 ? S(0) : sc::var("r_" + n + "[" + std::to_string(j) + "]"));
      auto t3 = [](const V& v) { return sc::text(v[0]) + " " + sc::text(v[1]) + " " + sc::text(v[2]); };
      y << n << ":\n  origin:\n    xyz: " << t3(b.c) << "\n    rpy: " << t3(b.r) << "\n  mass: " << sc::text(b.m) << "\n  inertia:\n";
      for (int j : {0, 3, 5, 1, 2, 4}) y << "    " << K6[j] << ": " << sc::text(b.I[j]) << "\n";
      in.push_back(b);
    } }
  in[7].r.size();
  setFlag(use_gripper, grip); setFlag(copy_flag, true);
  if (chdir("a/b/tool")) return;
  if (grip) sc::nonzero(in[7].m + in[8].m);
  int rc = urdf_main(); sc::ok("the tool succeeds", rc == 0, "", "the parameter-file generator fails");
  std::vector<V> dyn, r0;
  if (!read("../generatedFiles/inertial_DH_DYN.yaml", KD, "standard parameters", dyn)) return;
  auto conv = [](const V& d) { V c{d[1], d[2], d[3]}, I{d[4], d[5], d[6], d[7], d[8], d[9]}, s = rigid::steiner(d[0], c); V o{d[0], d[0] * c[0], d[0] * c[1], d[0] * c[2]}; 
    V st{s[0], s[1], s[2], s[3], s[4], s[5]}; for (int k = 0; k < 6; k++) o.push_back(I[k] + st[k]); return o; };
  std::vector<V> cp;
  if (read("../generatedFiles/inertial_DH.yaml", KD, "test copy of the standard parameters", cp)) for (int k = 0; k < 7; k++) sc::eq("test copy of link " + std::to_string(k + 1), cp[k], dyn[k], "two files of the same parameters differ");
  // reference: frame i+1 of the description seen from the Denavit-Hartenberg frame of the table in the tool's header
  static const double A[7] = {0, 0, 0.0825, -0.0825, 0, 0.088, 0}; static const int AL[7] = {-1, 1, 1, -1, 1, 1, 0}; 
  if (!reg) for (int k = 0; k < (grip ? 6 : 7); k++) {
    const B& b = in[k + 1]; V Rx{S(1), S(0), S(0), S(0), S(AL[k] ? 0 : 1), S(-AL[k]), S(0), S(AL[k]), S(AL[k] ? 0 : 1)};
    V c = rigid::app(Rx, b.c), R = rigid::mul(Rx, rigid::Rspec(b.r[0], b.r[1], b.r[2])), I = rigid::pack6(rigid::mul(R, rigid::mul(rigid::sym6(b.I), rigid::tr(R))));
    c[0] = c[0] - S(A[k]); if (k == 6) c[2] = c[2] - S(0.107);
    sc::eq("mass and centre of mass of link " + std::to_string(k + 1), V{dyn[k][0], dyn[k][1], dyn[k][2], dyn[k][3]}, V{b.m, c[0], c[1], c[2]}, "moving a body to the Denavit-Hartenberg frame is wrong");
    sc::eq("inertia of link " + std::to_string(k + 1), V(dyn[k].begin() + 4, dyn[k].end()), I, "moving a body to the Denavit-Hartenberg frame is wrong");
  }
  if (!reg) { if (grip) sc::eq("mass of the merged last link", V{dyn[6][0]}, V{in[7].m + in[8].m}, "merging two bodies does not conserve mass"); return; }
  for (const char* p : {"", "_p2", "_p5", "_p10", "_p20", "copy"}) {
    std::string t = *p == 'c' ? "copied linear parameters" : std::string("linear parameters") + p;
    if (read(*p == 'c' ? std::string("../../config/inertial_DH_REG.yaml") : std::string("../generatedFiles/inertial_DH_REG") + p + ".yaml", KR, t, r0))
      for (int k = 0; k < 7; k++) sc::eq(t + " of link " + std::to_string(k + 1), r0[k], conv(dyn[k]), "the linear parameters are not those of the standard ones");
  }
}
}
int main(int argc, char** argv) { return sc::run(argc, argv, {{"tool", tool}}); }
