// What the configuration under check says, in the documented layout (written next to it by tools/configs.py).
#pragma once
#include "../engine/scen.hpp"
#include <fstream>
#include <sstream>
#include <yaml-cpp/yaml.h>
struct Meta {
  int n = 0, ne = 0, Dl = 0, K = 0, D = 0, Dm = 0, elastic = 0; std::vector<std::string> types; std::string prefix;
  std::vector<std::string> absent;   // groups whose section is not in the file
  bool missing(const std::string& g) const { for (auto& a : absent) if (a == g) return true; return false; }
  std::map<std::string, std::vector<int>> mask, tok; std::map<std::string, sc::V> val;
  explicit Meta(const std::string& f) {
    std::ifstream i(f); std::string l;
    while (std::getline(i, l)) {
      std::istringstream s(l); std::string k, g; s >> k;
      if (k == "robot") s >> g >> n >> ne >> Dl >> K >> D >> Dm >> elastic;
      else if (k == "prefix") s >> prefix;
      else if (k == "absent") { while (s >> g) absent.push_back(g); }
      else if (k == "types") { while (s >> g) types.push_back(g); }
      else if (k == "mask") { s >> g; int x; auto& m = mask[g]; while (s >> x) m.push_back(x); }
      else if (k == "tok") { s >> g; int x; auto& m = tok[g]; while (s >> x) m.push_back(x); }
      else if (k == "val") { s >> g; std::string x; auto& m = val[g]; while (s >> x) m.push_back(SC_T(strtod(x.c_str(), nullptr))); }
    }
  }
  std::vector<std::string> groups() const {
    std::vector<std::string> g{"par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN"};
    if (Dl > 0) g.push_back("par_Dl");
    if (elastic) for (auto s : {"par_K", "par_D", "par_Dm", "par_Mm"}) g.push_back(s);
    return g;
  }
  int size(const std::string& g) const { return (int)val.at(g).size(); }
  // the configured value of every element
  sc::V full(const std::string& g) const { sc::V v = val.at(g); for (size_t k = 0; k < v.size(); k++) if (tok.at(g)[k]) v[k] = sc::var(prefix + g + "[" + std::to_string(k) + "]"); return v; }
  sc::V select(const std::string& g, const sc::V& v) const { sc::V o; for (size_t k = 0; k < v.size(); k++) if (mask.at(g)[k]) o.push_back(v[k]); return o; }
  bool all(const std::string& g) const { for (int x : mask.at(g)) if (!x) return false; return true; }
};
// linear inertial parameters of each link: mass, mass * centre of mass, inertia about the link origin
inline sc::V dynToReg(const sc::V& d) {
  sc::V r;
  for (size_t i = 0; i + 9 < d.size(); i += 10) {
    SC_T m = d[i], x = d[i + 1], y = d[i + 2], z = d[i + 3];
    r.push_back(m); r.push_back(m * x); r.push_back(m * y); r.push_back(m * z);
    r.push_back(d[i + 4] + m * (y * y + z * z)); r.push_back(d[i + 5] - m * x * y); r.push_back(d[i + 6] - m * x * z);
    r.push_back(d[i + 7] + m * (x * x + z * z)); r.push_back(d[i + 8] - m * y * z); r.push_back(d[i + 9] + m * (x * x + y * y));
  }
  return r;
}
inline sc::V regToDyn(const sc::V& r) {
  sc::V d;
  for (size_t i = 0; i + 9 < r.size(); i += 10) {
    SC_T m = r[i], x = r[i + 1] / m, y = r[i + 2] / m, z = r[i + 3] / m;
    d.push_back(m); d.push_back(x); d.push_back(y); d.push_back(z);
    d.push_back(r[i + 4] - m * (y * y + z * z)); d.push_back(r[i + 5] + m * x * y); d.push_back(r[i + 6] + m * x * z);
    d.push_back(r[i + 7] - m * (x * x + z * z)); d.push_back(r[i + 8] + m * y * z); d.push_back(r[i + 9] - m * (x * x + y * y));
  }
  return d;
}
inline void nonzeroMasses(const sc::V& v) { for (size_t i = 0; i < v.size(); i += 10) sc::nonzero(v[i]); }
// a copy of a configuration file without one section; empty when the section is not there
inline std::string less(const std::string& conf, const std::string& sec, int n) {
  YAML::Node y = YAML::LoadFile(conf); bool had = false;
  if (sec == "friction" || sec == "last friction") { int i = 0; for (auto l : y["dynamics"]) { if (l.second["friction"] && (sec == "friction" || i == n - 1)) { l.second.remove("friction"); had = true; } i++; } }
  else if (y[sec]) { y.remove(sec); had = true; }
  if (!had) return "";
  std::string f = "without " + sec + ".yaml"; std::ofstream(f) << y << "\n"; return f;
}
inline bool gone(const std::string& sec, const std::string& g) {
  if (sec == "elastic") return g == "par_K" || g == "par_D" || g == "par_Dm" || g == "par_Mm";
  if (sec == "dynamics") return g == "par_DYN" || g == "par_REG" || g == "par_Dl";
  return g == (sec == "kinematics" ? "par_DHtable" : sec == "Base_to_L0" ? "par_world2L0" : sec == "Ln_to_EE" ? "par_Ln2EE" : sec == "gravity" ? "par_gravity" : "par_Dl");
}
