// Included before every real source compiled for symbolic execution: all outside headers first, then `double`
// is replaced by the symbolic scalar.
#pragma once
#include <bits/stdc++.h>
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Geometry>
#define private public
#include <yaml-cpp/emitter.h>
#undef private
#include <yaml-cpp/yaml.h>
#include <casadi/casadi.hpp>
#include "sym.hpp"
namespace Eigen {
template <> struct NumTraits<vf::Sym> : NumTraits<double> {
  typedef vf::Sym Real; typedef vf::Sym NonInteger; typedef vf::Sym Nested; typedef vf::Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static Real epsilon() { return NumTraits<double>::epsilon(); } static Real dummy_precision() { return NumTraits<double>::dummy_precision(); }
  static Real highest() { return NumTraits<double>::highest(); } static Real lowest() { return NumTraits<double>::lowest(); } static int digits10() { return 15; }
};
#define VF_T(N, S) typedef Matrix<vf::Sym, S, S> Matrix##N##S; typedef Matrix<vf::Sym, S, 1> Vector##N##S; typedef Matrix<vf::Sym, 1, S> RowVector##N##S;
typedef Matrix<vf::Sym, 2, 2> Matrix2S; typedef Matrix<vf::Sym, 3, 3> Matrix3S; typedef Matrix<vf::Sym, 4, 4> Matrix4S; typedef Matrix<vf::Sym, Dynamic, Dynamic> MatrixXS;
typedef Matrix<vf::Sym, 2, 1> Vector2S; typedef Matrix<vf::Sym, 3, 1> Vector3S; typedef Matrix<vf::Sym, 4, 1> Vector4S; typedef Matrix<vf::Sym, Dynamic, 1> VectorXS;
typedef Matrix<vf::Sym, 1, 2> RowVector2S; typedef Matrix<vf::Sym, 1, 3> RowVector3S; typedef Matrix<vf::Sym, 1, 4> RowVector4S; typedef Matrix<vf::Sym, 1, Dynamic> RowVectorXS;
typedef Matrix<vf::Sym, 3, Dynamic> Matrix3XS; typedef Matrix<vf::Sym, Dynamic, 3> MatrixX3S;
typedef Array<vf::Sym, Dynamic, 1> ArrayXS; typedef Array<vf::Sym, Dynamic, Dynamic> ArrayXXS; typedef Array<vf::Sym, 3, 1> Array3S;
typedef Quaternion<vf::Sym> QuaternionS; typedef AngleAxis<vf::Sym> AngleAxisS; typedef Transform<vf::Sym, 3, Isometry> Isometry3S; typedef Transform<vf::Sym, 3, Affine> Affine3S; typedef Translation<vf::Sym, 3> Translation3S;
}
namespace YAML {
template <> struct convert<vf::Sym> {
  static Node encode(const vf::Sym& s) { return Node(vf::symText(s, 17)); }
  static bool decode(const Node& n, vf::Sym& s) { if (!n.IsScalar()) return false; return vf::symParse(n.Scalar(), s); }
};
template <> struct convert<vf::SymF> {
  static Node encode(const vf::SymF& s) { return Node(vf::symText(s.v, 9)); }
  static bool decode(const Node& n, vf::SymF& s) { vf::Sym t; if (!n.IsScalar() || !vf::symParse(n.Scalar(), t)) return false; s = vf::SymF(t); return true; }
};
inline Emitter& operator<<(Emitter& e, const vf::Sym& s) { return e << vf::symText(s, (int)e.GetDoublePrecision()); }
inline Emitter& operator<<(Emitter& e, const std::vector<vf::Sym>& v) { e << BeginSeq; for (auto& x : v) e << x; return e << EndSeq; }
}
#define MatrixXd MatrixXS
#define Matrix2d Matrix2S
#define Matrix3d Matrix3S
#define Matrix4d Matrix4S
#define VectorXd VectorXS
#define Vector2d Vector2S
#define Vector3d Vector3S
#define Vector4d Vector4S
#define RowVectorXd RowVectorXS
#define RowVector2d RowVector2S
#define RowVector3d RowVector3S
#define RowVector4d RowVector4S
#define Matrix3Xd Matrix3XS
#define MatrixX3d MatrixX3S
#define ArrayXd ArrayXS
#define ArrayXXd ArrayXXS
#define Array3d Array3S
#define Quaterniond QuaternionS
#define AngleAxisd AngleAxisS
#define Isometry3d Isometry3S
#define Affine3d Affine3S
#define Translation3d Translation3S
#define DM SX
#define DMVector SXVector
#define double vf::Sym
#define float vf::SymF
#define VF_SYM 1
