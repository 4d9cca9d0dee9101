// Native side of the scenario interface: inputs come from a file, results go to a file.
#include "scen.hpp"
#include <casadi/casadi.hpp>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <sstream>
namespace sc {
static std::map<std::string, double> env; static std::ofstream out; static std::map<std::string, int> count_;
static std::string uniq(const std::string& n) { int k = count_[n]++; return k ? n + "#" + std::to_string(k) : n; }
double var(const std::string& n) { auto i = env.find(n); if (i != env.end()) return i->second; unsigned h = 7; for (char c : n) h = h * 131 + c; return 0.3 + (h % 1000) / 1024.0; }
V vars(const std::string& b, int n) { V v; for (int i = 0; i < n; i++) v.push_back(var(b + "[" + std::to_string(i) + "]")); return v; }
void positive(const double&) {}
void nonzero(const double&) {}
void fn(const std::string&) {}
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
std::string text(const double& x) { return num(x); }
std::string data(const std::string& f) { const char* d = getenv("VF_DATA"); return std::string(d ? d : ".") + "/" + f; }
void ok(const std::string& n, bool h, const std::string& d, const std::string&) { std::string t = d; for (char& c : t) if (c == '\n') c = ' '; out << "O " << uniq(n) << "\t" << (h ? 1 : 0) << " " << t << std::endl; }
void eq(const std::string& n0, const V& g, const V& w, const std::string&) {
  std::string n = uniq(n0);
  if (g.size() != w.size()) { ok(n0 + " size", false, std::to_string(g.size()) + " elements, expected " + std::to_string(w.size())); return; } else ok(n0 + " size", true);
  out << "E " << n << "\t" << g.size(); for (double x : g) out << " " << num(x); out << " " << w.size(); for (double x : w) out << " " << num(x); out << std::endl;
}
V runModel(const std::string& file, const std::vector<V>& in) {
  static std::map<std::string, casadi::Function> cache; auto it = cache.find(file);
  if (it == cache.end()) it = cache.emplace(file, casadi::Function::load(file)).first;
  return runFunction(it->second, in);
}
V runFunction(const casadi::Function& f, const std::vector<V>& in) {
  std::vector<casadi::DM> a; for (auto& v : in) a.push_back(v.empty() ? casadi::DM::zeros(0, 1) : casadi::DM(v)); std::vector<casadi::DM> r; f.call(a, r);
  casadi::DM d = casadi::DM::densify(r[0]); return d.nonzeros();
}
void materialize(const std::string& tmpl, const std::string& o_) {
  std::ifstream f(tmpl); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(), o; size_t p = 0;
  for (;;) { size_t q = s.find("${", p); if (q == std::string::npos) { o += s.substr(p); break; } size_t e = s.find('}', q); o += s.substr(p, q - p) + num(var(s.substr(q + 2, e - q - 2))); p = e + 1; }
  std::ofstream(o_) << o;
}
int run(int argc, char** argv, const std::map<std::string, Scenario>& all) {
  std::ifstream f(getenv("VF_ENV") ? getenv("VF_ENV") : "/dev/null"); std::string n; double v; std::string w; while (f >> n >> w) env[n] = strtod(w.c_str(), nullptr);
  out.open(getenv("VF_OUT") ? getenv("VF_OUT") : "/dev/stdout");
  std::vector<std::string> args; for (int i = 2; i < argc; i++) args.push_back(argv[i]);
  try { all.at(argv[1])(args); ok("completes", true); } catch (std::exception& e) { ok("completes", false, e.what()); }
  out.close(); return 0;
}
}
