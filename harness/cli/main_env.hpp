// Stand-ins for the environment of thunder_main.cpp: arguments, file system, the robot and its writers.
// Everything they are given is recorded as strings; names and paths stay symbolic.
#pragma once
#include <bits/stdc++.h>
#include <casadi/casadi.hpp>
#include <eigen3/Eigen/Dense>
#include <yaml-cpp/yaml.h>
#include <argparse/argparse.hpp>
#include "utils.h"
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "userDefined.h"
#include "genYaml.h"
#include "vfstr_run.hpp"
#include "fsmodel.hpp"
namespace std {
typedef vs::S vf_string;
inline const char* vf_getenv(const char* n) { static std::string h; if (!vs::flag(std::string("unset_") + n)) { h = "/home/user"; return h.c_str(); } return nullptr; }
namespace vf_filesystem {
using vs::S; using vs::fs;
enum class copy_options { none = 0, skip_existing = 1, overwrite_existing = 2, update_existing = 4, recursive = 8 };
inline copy_options operator|(copy_options a, copy_options b) { return (copy_options)((int)a | (int)b); }
#ifdef VF_NATIVE_STR
using path = std::filesystem::path; inline S str(const path& p) { return p.string(); }
#else
struct path {
  S s; path() {} path(const S& x) : s(x) {} path(const char* x) : s(x) {} path(const std::string& x) : s(x) {}
  operator S() const { return s; } S string() const { return s; } S native() const { return s; } S generic_string() const { return s; } const char* c_str() const { return s.c_str(); } bool empty() const { return s.empty(); }
  size_t cut() const { return s.find_last_of('/'); }
  path filename() const { size_t k = cut(); return k == S::npos ? s : s.substr(k + 1); }
  path parent_path() const { size_t k = cut(); if (k == S::npos) return path(); if (k == 0) return path("/"); return s.substr(0, k); }
  size_t dot() const { S f = filename().s; if (f == "." || f == "..") return S::npos; size_t k = f.rfind('.'); return k == 0 ? S::npos : k; }
  path stem() const { S f = filename().s; size_t k = dot(); return k == S::npos ? f : f.substr(0, k); }
  path extension() const { S f = filename().s; size_t k = dot(); return k == S::npos ? S() : f.substr(k); }
  bool has_extension() const { return !extension().s.empty(); } bool has_parent_path() const { return !parent_path().s.empty(); } bool has_filename() const { return !filename().s.empty(); }
  bool is_absolute() const { return !s.empty() && s[0] == '/'; } bool is_relative() const { return !is_absolute(); }
  path& operator/=(const path& o) { if (o.is_absolute()) s = o.s; else { if (!s.empty() && s.back() != '/') s += "/"; s += o.s; } return *this; }
  path& operator+=(const path& o) { s += o.s; return *this; } path& replace_extension(const path& e = path()) { S x = extension().s; s = s.substr(0, s.size() - x.size()); if (!e.s.empty()) { if (e.s[0] != '.') s += "."; s += e.s; } return *this; }
  path& replace_filename(const path& f) { *this = parent_path() / f; return *this; } path lexically_normal() const { return fs().norm(s); }
  friend path operator/(path a, const path& b) { return a /= b; } friend bool operator==(const path& a, const path& b) { return a.s == b.s; } friend bool operator!=(const path& a, const path& b) { return !(a.s == b.s); }
  friend std::ostream& operator<<(std::ostream& o, const path& p) { return o << '"' << p.s << '"'; }
};
inline S str(const path& p) { return p.s; }
#endif
struct filesystem_error : std::runtime_error { using std::runtime_error::runtime_error; };
inline path current_path() { return path(fs().cwd); }
inline path absolute(const path& p) { S s = str(p); return s.size() && s[0] == '/' ? p : current_path() / p; }
inline path canonical(const path& p) { return path(fs().norm(str(p))); } inline path weakly_canonical(const path& p) { return vf_filesystem::canonical(p); }
inline bool is_regular_file(const path& p) { return fs().isConf(str(p)) || fs().find(str(p)); }
inline bool is_directory(const path& p) { if (fs().isConf(str(p))) return false; S n = fs().norm(str(p)); if (fs().find(n)) return false; return fs().isDir(n); }
inline bool exists(const path& p) { return vf_filesystem::is_regular_file(p) || vf_filesystem::is_directory(p); }
inline bool create_directory(const path& p) { S n = fs().norm(str(p)); for (auto& d : fs().dirs) if (d == n) return false; fs().dirs.push_back(n); return true; }
inline bool create_directories(const path& p) { return vf_filesystem::create_directory(p); }
inline bool remove(const path& p) { S n = fs().norm(str(p)); auto& f = fs().files; for (size_t i = 0; i < f.size(); i++) if (f[i].first == n) { f.erase(f.begin() + i); return true; } return false; }
inline bool copy_file(const path& a, const path& b, copy_options o = copy_options::none) {
  S* c = fs().find(str(a)); if (!c) throw filesystem_error("cannot copy file: no such file: " + vs::arg(str(a)));
  S text = *c;
  if (fs().find(str(b))) {
    if ((int)o & (int)copy_options::skip_existing) return false;
    if ((int)o & (int)copy_options::update_existing) { if (!vs::flag("source_newer")) return false; }
    else if (!((int)o & (int)copy_options::overwrite_existing)) throw filesystem_error("cannot copy file: file exists: " + vs::arg(str(b)));
  }
  if (!fs().write(str(b), text)) throw filesystem_error("cannot copy file: no such directory: " + vs::arg(str(b)));
  return true;
}
inline void copy(const path& a, const path& b, copy_options o = copy_options::none) { vf_filesystem::copy_file(a, b, o); }
inline void rename(const path& a, const path& b) { S* c = fs().find(str(a)); if (!c) throw filesystem_error("rename: no such file"); S t = *c; vf_filesystem::remove(a); if (!fs().write(str(b), t)) throw filesystem_error("rename"); }
}  // namespace vf_filesystem
}  // namespace std
namespace argparse {
class VfParser : public ArgumentParser {      // the real parser; texts become symbolic strings again
 public:
  using ArgumentParser::ArgumentParser;
  template <class T = std::string> auto get(std::string_view n) const { if constexpr (std::is_same_v<T, vs::S>) return vs::S(ArgumentParser::get<std::string>(n)); else return ArgumentParser::get<T>(n); }
  template <class T = std::string> auto present(std::string_view n) const { if constexpr (std::is_same_v<T, vs::S>) { auto p = ArgumentParser::present<std::string>(n); return p ? std::optional<vs::S>(vs::S(*p)) : std::optional<vs::S>(); } else return ArgumentParser::present<T>(n); }
};
}
namespace thunder_ns {
using vs::S; using vs::fs;
inline S num01(bool b) { return S(b ? "1" : "0"); }
struct VfRobot {
  S robotName, source; int get_numJoints() { return 2; } S get_robotName() { return robotName; }
  S state() const { return S("robot(") + source + "," + robotName + ")"; }
  static S clean(const S& p) { return p; }
  void put(const S& p, const S& c) { if (!fs().write(p, c)) throw std::runtime_error("cannot write " + vs::arg(p)); }
  void generate_library(const S& path, const S& name, const bool casadi = false) {   // as CasADi: prefix and file name are joined
    put(path + name + ".cpp", "library(" + state() + "," + name + ")"); put(path + name + ".h", "library header(" + state() + "," + name + ")");
    if (casadi) put(path + "/M.casadi", S("functions(") + state() + ")");
  }
  int save_conf(const S& p) { put(p, "conf(" + state() + ")"); return 1; }
  int save_par_REG(const S& p) { put(p, "par_REG(" + state() + ")"); return 1; }
};
inline VfRobot vf_robot_from_file(const S& name, const S& file, bool compute = 1) { VfRobot r; r.robotName = name; r.source = (fs().isConf(file) ? S("configuration") : S("another file")) + (compute ? "" : " not computed"); return r; }
inline int vf_change_to_robot(const S& from, const S& to, VfRobot& r, const S& h, const S& c, const bool py) {
  for (const S* p : {&h, &c}) { S* t = fs().find(*p); if (!t) return 0; *t = "class(" + from + "," + to + "," + r.state() + "," + num01(py && p == &c) + "," + *t + ")"; }
  return 1;
}
inline int vf_update_cmake(const S& from, const S& to, const S& p) { S* t = fs().find(p); if (!t) return 0; *t = "cmake(" + from + "," + to + "," + *t + ")"; return 1; }
inline int vf_genInertial_files(const S&, int, const S&, const S& a, const S& b) { fs().write(a, "genInertial"); fs().write(b, "genInertial"); return 1; }
}
#define string vf_string
#define filesystem vf_filesystem
#define getenv vf_getenv
#define ArgumentParser VfParser
#define Robot VfRobot
#define robot_from_file vf_robot_from_file
#define change_to_robot vf_change_to_robot
#define update_cmake vf_update_cmake
#define genInertial_files vf_genInertial_files
#define main thunder_main
