// Scenario interface.  A scenario is compiled twice: with the prelude (values symbolic, obligations decided by
// the solver) and natively (values read from a file, results printed), so that every counterexample is replayed
// on the ordinary build of the real code.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#ifdef VF_SYM
#define SC_T vf::Sym
#else
#ifdef SC_IMPL_SYM
#define SC_T vf::Sym
#else
#define SC_T double
#endif
#endif
namespace casadi { class Function; }
namespace sc {
typedef std::vector<SC_T> V;
SC_T var(const std::string& name);                               // an arbitrary value
V vars(const std::string& base, int n);                          // base[0], base[1], ...
void positive(const SC_T& x);                                    // assumption x > 0
void nonzero(const SC_T& x);                                     // assumption x != 0
void eq(const std::string& name, const V& got, const V& want, const std::string& what = "");
void ok(const std::string& name, bool holds, const std::string& detail = "", const std::string& what = "");
void fn(const std::string& name);                                // a function of the real code is exercised
std::string text(const SC_T& x);
void materialize(const std::string& tmpl, const std::string& out);   // ${name} -> value of var(name)
V runModel(const std::string& casadiFile, const std::vector<V>& in); // reference: saved model function
V runFunction(const casadi::Function& f, const std::vector<V>& in);
std::string data(const std::string& f);                          // input file of the task
typedef std::function<void(const std::vector<std::string>&)> Scenario;
int run(int argc, char** argv, const std::map<std::string, Scenario>& all);
template <class M> V flat(const M& m) { V v; for (long j = 0; j < (long)m.cols(); j++) for (long i = 0; i < (long)m.rows(); i++) v.push_back(m(i, j)); return v; }
}
