// Symbolic execution of CasADi SX functions: instruction by instruction into the term algebra.
#pragma once
#include "vf.hpp"
#include <casadi/casadi.hpp>
namespace vf {
Q snap(double v);   // nearest k/2^20 within 1e-13 (float noise of literal arithmetic), else exact value
// inputs: one dense vector per function input. Returns outputs[0] dense, column order.
std::vector<Rat> runFunction(const casadi::Function& f, const std::vector<std::vector<Rat>>& in);
Rat applyOp(casadi_int op, const Rat& a, const Rat& b);
}
