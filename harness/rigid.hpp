// Rigid-body helper obligations, for any copy of the helpers visible under the names rpyRot, createI, hat,
// transformBodyInertial, mergeBodyInertial.
#pragma once
#include "../engine/scen.hpp"
namespace rigid {
using sc::V; using sc::eq; using sc::vars;
typedef SC_T S;
inline V mul(const V& a, const V& b) { V c(9, S(0)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S s(0); for (int k = 0; k < 3; k++) s = s + a[i + 3 * k] * b[k + 3 * j]; c[i + 3 * j] = s; } return c; }
inline V tr(const V& a) { V c(9, S(0)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i + 3 * j] = a[j + 3 * i]; return c; }
inline V app(const V& a, const V& x) { V y; for (int i = 0; i < 3; i++) y.push_back(a[i] * x[0] + a[i + 3] * x[1] + a[i + 6] * x[2]); return y; }
inline V Rz(S a) { S c = cos(a), s = sin(a); return V{c, s, S(0), -s, c, S(0), S(0), S(0), S(1)}; }
inline V Ry(S a) { S c = cos(a), s = sin(a); return V{c, S(0), -s, S(0), S(1), S(0), s, S(0), c}; }
inline V Rx(S a) { S c = cos(a), s = sin(a); return V{S(1), S(0), S(0), S(0), c, s, S(0), -s, c}; }
inline V Rspec(S roll, S pitch, S yaw) { return mul(Rz(yaw), mul(Ry(pitch), Rx(roll))); }
inline V sym6(const V& p) { return V{p[0], p[1], p[2], p[1], p[3], p[4], p[2], p[4], p[5]}; }
inline V pack6(const V& m) { return V{m[0], m[3], m[6], m[4], m[7], m[8]}; }
inline V steiner(S m, const V& c) { S x = c[0], y = c[1], z = c[2]; return V{m * (y * y + z * z), -(m * x * y), -(m * x * z), m * (x * x + z * z), -(m * y * z), m * (x * x + y * y)}; }
inline V add(const V& a, const V& b) { V c; for (size_t i = 0; i < a.size(); i++) c.push_back(a[i] + b[i]); return c; }
inline void rotation(const std::string& n, const V& R, S roll, S pitch, S yaw) {
  std::string W = "the helper rotation is not Rz(yaw) Ry(pitch) Rx(roll)";
  eq(n, R, Rspec(roll, pitch, yaw), W);
  eq(n + " is orthonormal", mul(tr(R), R), V{S(1), S(0), S(0), S(0), S(1), S(0), S(0), S(0), S(1)}, W);
  S det = R[0] * (R[4] * R[8] - R[7] * R[5]) - R[3] * (R[1] * R[8] - R[7] * R[2]) + R[6] * (R[1] * R[5] - R[4] * R[2]);
  eq(n + " has determinant one", V{det}, V{S(1)}, W);
}
#ifndef RIGID_NO_BODY
inline void all() {
  using namespace thunder_ns;
  sc::fn("rpyRot"); sc::fn("createI"); sc::fn("hat"); sc::fn("transformBodyInertial"); sc::fn("mergeBodyInertial");
  V a = vars("rpy", 3), p = vars("par", 6), v = vars("v", 3);
  rotation("rpyRot", sc::flat(rpyRot(a)), a[0], a[1], a[2]);
  eq("createI", sc::flat(createI(p)), sym6(p), "the inertia matrix is not the one of its six elements");
  Eigen::Vector3d ev; ev << v[0], v[1], v[2];
  eq("hat", sc::flat(hat(ev)), V{S(0), v[2], -v[1], -v[2], S(0), v[0], v[1], -v[0], S(0)}, "hat is not the cross-product matrix");
  // transform
  LinkProp b, o; b.mass = sc::var("m1"); b.xyz = vars("c1", 3); b.rpy = vars("r1", 3); b.parI = vars("I1", 6); b.name = "b"; V d = vars("d", 3);
  transformBodyInertial(d, a, b, o);
  std::string W = "moving a body to another frame is wrong";
  V R = Rspec(a[0], a[1], a[2]), RB = mul(R, Rspec(b.rpy[0], b.rpy[1], b.rpy[2])), c = app(R, b.xyz); for (int i = 0; i < 3; i++) c[i] = c[i] + d[i];
  eq("transform: mass", V{o.mass}, V{b.mass}, W); eq("transform: centre of mass", o.xyz, c, W);
  eq("transform: inertia", o.parI, pack6(mul(RB, mul(sym6(b.parI), tr(RB)))), W);
  LinkProp bb = b; transformBodyInertial(d, a, bb, bb); eq("transform in place: centre of mass", bb.xyz, c, W); eq("transform in place: inertia", bb.parI, o.parI, W);
  // merge
  LinkProp x, y, z; x.mass = sc::var("m1"); y.mass = sc::var("m2"); x.xyz = vars("c1", 3); y.xyz = vars("c2", 3); x.parI = vars("I1", 6); y.parI = vars("I2", 6);
  sc::nonzero(x.mass + y.mass);
  auto merged = [&](const LinkProp& z, const std::string& n) {
    std::string W = "merging two bodies does not conserve mass, first moment and inertia"; V f, w;
    eq(n + ": mass", V{z.mass}, V{x.mass + y.mass}, W);
    for (int i = 0; i < 3; i++) { f.push_back(z.mass * z.xyz[i]); w.push_back(x.mass * x.xyz[i] + y.mass * y.xyz[i]); } eq(n + ": first moment", f, w, W);
    eq(n + ": inertia about the origin", add(z.parI, steiner(z.mass, z.xyz)), add(add(x.parI, steiner(x.mass, x.xyz)), add(y.parI, steiner(y.mass, y.xyz))), W);
  };
  LinkProp x0 = x, y0 = y;
  mergeBodyInertial(x, y, z); merged(z, "merge");
  mergeBodyInertial(x0, y0, x0); merged(x0, "merge into the first"); x0 = x; mergeBodyInertial(x0, y0, y0); merged(y0, "merge into the second");
}
#endif
}
