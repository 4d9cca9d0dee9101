// Stand-in for CasADi's symbolic matrix inverse (external dependency): when armed it records the
// matrix to invert and returns the given symbols; otherwise it calls the library.
#include <casadi/casadi.hpp>
#include <dlfcn.h>
bool stubInv = false; casadi::SX stubRes; std::vector<casadi::SX> stubArg;
casadi::SX vf_inv(const casadi::SX& x) __asm__("_ZN6casadi6MatrixINS_6SXElemEE3invERKS2_");
casadi::SX vf_solve(const casadi::SX& A, const casadi::SX& b) __asm__("_ZN6casadi6MatrixINS_6SXElemEE5solveERKS2_S4_");
casadi::SX vf_inv(const casadi::SX& x) {
  if (stubInv) { stubArg.push_back(x); return stubRes; }
  using F = casadi::SX (*)(const casadi::SX&);
  static F f = (F)dlsym(RTLD_NEXT, "_ZN6casadi6MatrixINS_6SXElemEE3invERKS2_");
  return f(x);
}
casadi::SX vf_solve(const casadi::SX& A, const casadi::SX& b) {
  if (stubInv) { stubArg.push_back(A); return mtimes(stubRes, b); }
  using F = casadi::SX (*)(const casadi::SX&, const casadi::SX&);
  static F f = (F)dlsym(RTLD_NEXT, "_ZN6casadi6MatrixINS_6SXElemEE5solveERKS2_S4_");
  return f(A, b);
}
