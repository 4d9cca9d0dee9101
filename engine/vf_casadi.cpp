#include "vf_casadi.hpp"
#include <cmath>
namespace vf {
using namespace casadi;
Q snap(double v) {
  if (!std::isfinite(v)) throw Unsupported("non-finite constant");
  if (std::fabs(v) < 1e-14) return Q(0);
  double s = std::round(v * 1048576.0);
  if (std::fabs(s) < 9e15 && std::fabs(s / 1048576.0 - v) < 1e-13) return Q::fromDouble(s / 1048576.0);
  return Q::fromDouble(v);
}
static double num1(casadi_int op, double a) {
  switch (op) {
    case OP_EXP: return std::exp(a); case OP_LOG: return std::log(a); case OP_TAN: return std::tan(a);
    case OP_ASIN: return std::asin(a); case OP_ACOS: return std::acos(a); case OP_ATAN: return std::atan(a);
    case OP_SINH: return std::sinh(a); case OP_COSH: return std::cosh(a); case OP_TANH: return std::tanh(a);
    case OP_FLOOR: return std::floor(a); case OP_CEIL: return std::ceil(a); case OP_NOT: return !a;
    case OP_SIGN: return (a > 0) - (a < 0); case OP_SIN: return std::sin(a); case OP_COS: return std::cos(a);
    case OP_SQRT: return std::sqrt(a);
  }
  throw Unsupported("operation " + std::to_string((long)op));
}
static double num2(casadi_int op, double a, double b) {
  switch (op) {
    case OP_LT: return a < b; case OP_LE: return a <= b; case OP_EQ: return a == b; case OP_NE: return a != b;
    case OP_AND: return a && b; case OP_OR: return a || b; case OP_FMIN: return std::fmin(a, b); case OP_FMAX: return std::fmax(a, b);
    case OP_ATAN2: return std::atan2(a, b); case OP_FMOD: return std::fmod(a, b); case OP_COPYSIGN: return std::copysign(a, b);
    case OP_IF_ELSE_ZERO: return a ? b : 0; case OP_POW: case OP_CONSTPOW: return std::pow(a, b); case OP_HYPOT: return std::hypot(a, b);
  }
  throw Unsupported("operation " + std::to_string((long)op));
}
Rat applyOp(casadi_int op, const Rat& a, const Rat& b) {
  switch (op) {
    case OP_ASSIGN: return a; case OP_ADD: return a + b; case OP_SUB: return a - b; case OP_MUL: return a * b; case OP_DIV: return a / b;
    case OP_NEG: return -a; case OP_SQ: return a * a; case OP_TWICE: return a * Rat(2); case OP_INV: return Rat(1) / a;
    case OP_SIN: return rsin(a); case OP_COS: return rcos(a); case OP_TAN: return rsin(a) / rcos(a);
    case OP_SQRT: return rsqrt(a); case OP_FABS: return rabs(a); case OP_HYPOT: return rsqrt(a * a + b * b);
    case OP_SIGN: if (a.isConst()) return Rat(a.constVal().sign()); return a / rabs(a);
    case OP_POW: case OP_CONSTPOW: {
      if (b.isConst()) {
        double e = b.constVal().toDouble();
        if (e == std::round(e) && std::fabs(e) < 64) { int n = (int)std::lround(e); return n >= 0 ? ipow(a, n) : Rat(1) / ipow(a, -n); }
        double h = 2 * e; if (h == std::round(h) && std::fabs(h) < 64) { int n = (int)std::lround(h); Rat r = ipow(rsqrt(a), n >= 0 ? n : -n); return n >= 0 ? r : Rat(1) / r; }
      }
      break;
    }
    case OP_IF_ELSE_ZERO: if (a.isConst()) return a.isZero() ? Rat(0) : b; break;
  }
  bool unary = casadi_math<double>::ndeps(op) == 1;
  if (a.isConst() && (unary || b.isConst())) {
    double r = unary ? num1(op, a.constVal().toDouble()) : num2(op, a.constVal().toDouble(), b.constVal().toDouble());
    return Rat(snap(r));
  }
  std::vector<Rat> args{a}; if (!unary) args.push_back(b);
  return opaque("op" + std::to_string((long)op), args, [op, unary](const std::vector<double>& v) { return unary ? num1(op, v[0]) : num2(op, v[0], v[1]); });
}
std::vector<Rat> runFunction(const Function& f, const std::vector<std::vector<Rat>>& in) {
  std::vector<Rat> w(f.sz_w());
  const Sparsity& sp = f.sparsity_out(0);
  std::vector<Rat> nz(sp.nnz());
  casadi_int n = f.n_instructions();
  for (casadi_int k = 0; k < n; k++) {
    casadi_int op = f.instruction_id(k);
    std::vector<casadi_int> o = f.instruction_output(k), i = f.instruction_input(k);
    if (op == OP_CONST) w[o[0]] = Rat(snap(f.instruction_constant(k)));
    else if (op == OP_INPUT) { const Sparsity& si = f.sparsity_in(i[0]); (void)si; w[o[0]] = in.at(i[0]).at(i[1]); }
    else if (op == OP_OUTPUT) { if (o[0] == 0) nz.at(o[1]) = w[i[0]]; }
    else w[o[0]] = applyOp(op, w[i[0]], i.size() > 1 ? w[i[1]] : Rat(0));
  }
  std::vector<Rat> out((size_t)sp.numel());
  std::vector<casadi_int> row, col; sp.get_triplet(row, col);
  for (size_t k = 0; k < nz.size(); k++) out[row[k] + col[k] * sp.size1()] = nz[k];
  return out;
}
}
