// Obligations: equality / inequality queries over encoded values, decided by an SMT solver,
// with counterexample extraction and replay against the real code.
#pragma once
#include "vf.hpp"
#include <functional>

namespace vf {
struct CE { Env env; int index = -1; double real = 0, spec = 0, impl = 0; };
// evaluates the real code at a concrete assignment; returns the flattened outputs
using Replay = std::function<std::vector<double>(const Env&)>;

class Reporter {
 public:
  std::string config;         // label of the configuration under check
  std::string known;          // "" or text
  int timeoutMs = 20000;
  unsigned seed = 1;
  Solver z3{"z3-new -in"};
  long obligations = 0, discharged = 0, violated = 0, inconclusive = 0, elements = 0, validated = 0, witnesses = 0;
  std::vector<std::string> functions;
  double tol = 1e-7;
  Reporter();
  // every element of impl equals that of spec, for all values of the variables
  bool equal(const std::string& name, const std::vector<Rat>& impl, const std::vector<Rat>& spec, const Replay& replay,
             const std::string& what = "");
  // |impl - spec| <= eps for all |var| <= box (trig atoms <= 1); linear abstraction over monomials
  bool close(const std::string& name, const std::vector<Rat>& impl, const std::vector<Rat>& spec, double box, double eps,
             const Replay& replay, const std::string& what = "");
  // assumptions (SMT) imply goal (SMT) ; exprs give the generators to declare
  bool implies(const std::string& name, const std::vector<Rat>& mentioned, const std::string& assumptions, const std::string& goal,
               const std::function<bool(const Env&, std::string&)>& replay, const std::string& what = "");
  // a fact established without a free variable (shapes, presence, names): recorded as an obligation
  // with a ground query; ok=false is a violation
  bool fact(const std::string& name, bool ok, const std::string& detail, const std::string& what = "");
  // translation check: encoding evaluated at random points against the real code
  bool validate(const std::string& name, const std::vector<Rat>& impl, const std::set<std::string>& vars, const Replay& replay, int points = 2);
  // vacuity witness: the assumptions in use are satisfiable / the comparison can fail
  bool witness(const std::string& name, const std::vector<Rat>& impl);
  void inconclusiveObl(const std::string& name, const std::string& why);
  void violation(const std::string& name, const std::string& what, const CE* ce, const std::string& detail);
  void note(const std::string& k, const std::string& v);
  void summary();
  void resetCounters() { obligations = discharged = violated = inconclusive = elements = validated = witnesses = 0; functions.clear(); }
  Env randomEnv(const std::set<GenId>& gs, unsigned salt);
 private:
  bool findCE(const Poly& num, const std::set<GenId>& gs, CE& ce, unsigned salt, const char* minAbs);
};
std::string jesc(const std::string& s);
std::set<std::string> varsOf(const std::vector<Rat>& v);   // names of VAR generators involved (also inside atoms)
double rnd(unsigned& s);                                   // deterministic in (-1,1)
}  // namespace vf
