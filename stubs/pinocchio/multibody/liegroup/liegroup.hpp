#ifndef VERIF_PINOCCHIO_LG
#define VERIF_PINOCCHIO_LG
#include <pinocchio/fwd.hpp>
namespace pinocchio {
// Tangent-space operations are declared with executable definitions for R3xSO(3); SE(3) uses the same interface.
namespace verif_lg {
inline Eigen::Vector3d log3(const Eigen::Quaterniond &q0) { Eigen::AngleAxisd a(q0); double t = a.angle(); if (t > M_PI) t -= 2 * M_PI; return t * a.axis(); }
inline Eigen::Matrix3d skew(const Eigen::Vector3d &v) { Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
inline Eigen::Matrix3d jlog3(const Eigen::Vector3d &w) { double t = w.norm(); Eigen::Matrix3d S = skew(w), I = Eigen::Matrix3d::Identity(); if (t < 1e-8) return I + 0.5 * S; return I + 0.5 * S + (1 / (t * t) - (1 + cos(t)) / (2 * t * sin(t))) * S * S; }
}
template <int D, typename S> struct VectorSpaceOperationTpl {};
template <int D, typename S> struct SpecialOrthogonalOperationTpl {};
template <typename A, typename B> struct CartesianProductOperation {
  template <class Q0, class Q1, class TT> void difference(const Q0 &q0, const Q1 &q1, TT &d) const {
    Eigen::Quaterniond a(q0(6), q0(3), q0(4), q0(5)), b(q1(6), q1(3), q1(4), q1(5));
    for (int i = 0; i < 3; ++i) d(i) = q1(i) - q0(i);
    Eigen::Vector3d w = verif_lg::log3(a.conjugate() * b); for (int i = 0; i < 3; ++i) d(3 + i) = w(i);
  }
  template <ArgumentPosition P, class Q0, class Q1, class J> void dDifference(const Q0 &q0, const Q1 &q1, J &j) const {
    Eigen::Matrix<double, 6, 1> d; difference(q0, q1, d);
    Eigen::Quaterniond a(q0(6), q0(3), q0(4), q0(5)), b(q1(6), q1(3), q1(4), q1(5));
    Eigen::Matrix3d L = verif_lg::jlog3(d.template tail<3>());
    j.setZero();
    for (int i = 0; i < 3; ++i) j(i, i) = (P == ARG1) ? 1 : -1;
    if (P == ARG0) L = -L * (b.conjugate() * a).toRotationMatrix();
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) j(3 + r, 3 + c) = L(r, c);
  }
  template <class Q, class V, class R> void integrate(const Q &q, const V &v, R &&r) const { (void)q; (void)v; (void)r; }
};
template <int D, typename S> struct SpecialEuclideanOperationTpl : CartesianProductOperation<int, int> {
  template <class Q, class VV, class R> void integrate(const Q &q, const VV &v, R &r) const {
    Eigen::Vector3d t(q(0), q(1), q(2)), l(v(0), v(1), v(2)), w(v(3), v(4), v(5));
    Eigen::Quaterniond a(q(6), q(3), q(4), q(5));
    double th = w.norm(); Eigen::Matrix3d Sw = verif_lg::skew(w), V = Eigen::Matrix3d::Identity(), E = V;
    if (th > 1e-12) { V += (1 - cos(th)) / (th * th) * Sw + (th - sin(th)) / (th * th * th) * Sw * Sw; E += sin(th) / th * Sw + (1 - cos(th)) / (th * th) * Sw * Sw; }
    Eigen::Vector3d n = t + a.toRotationMatrix() * V * l; Eigen::Quaterniond b(a.toRotationMatrix() * E);
    for (int i = 0; i < 3; ++i) r(i) = n(i);
    r(3) = b.x(); r(4) = b.y(); r(5) = b.z(); r(6) = b.w();
  }
  // log6 of q0^-1 q1, as (linear, angular)
  template <class Q0, class Q1, class TT> void difference(const Q0 &q0, const Q1 &q1, TT &d) const {
    Eigen::Quaterniond a(q0(6), q0(3), q0(4), q0(5)), b(q1(6), q1(3), q1(4), q1(5));
    Eigen::Vector3d t(q1(0) - q0(0), q1(1) - q0(1), q1(2) - q0(2)), w = verif_lg::log3(a.conjugate() * b);
    t = a.toRotationMatrix().transpose() * t;
    double th = w.norm(); Eigen::Matrix3d Sw = verif_lg::skew(w), V = Eigen::Matrix3d::Identity();
    if (th > 1e-6) V += (1 - cos(th)) / (th * th) * Sw + (th - sin(th)) / (th * th * th) * Sw * Sw; else V += .5 * Sw;
    Eigen::Vector3d l = V.inverse() * t;
    for (int i = 0; i < 3; ++i) { d(i) = l(i); d(3 + i) = w(i); }
  }
  template <ArgumentPosition P, class Q0, class Q1, class J> void dDifference(const Q0 &q0, const Q1 &q1, J &j) const {
    Eigen::Matrix<double, 6, 1> d; difference(q0, q1, d);
    Eigen::Matrix<double, 6, 6> ad = Eigen::Matrix<double, 6, 6>::Zero(), E = Eigen::Matrix<double, 6, 6>::Identity(), T = E, X = Eigen::Matrix<double, 6, 6>::Zero();
    ad.topLeftCorner<3, 3>() = ad.bottomRightCorner<3, 3>() = verif_lg::skew(d.template tail<3>());
    ad.topRightCorner<3, 3>() = verif_lg::skew(d.template head<3>());
    for (int k = 1; k < 60; ++k) { T = -T * ad / (k + 1.); E += T; }   // right Jacobian of the exponential
    Eigen::Matrix<double, 6, 6> L = E.inverse();
    if (P == ARG0) {   // minus the same, seen through the action of (q0^-1 q1)^-1
      Eigen::Quaterniond a(q0(6), q0(3), q0(4), q0(5)), b(q1(6), q1(3), q1(4), q1(5));
      Eigen::Matrix3d R = (a.conjugate() * b).toRotationMatrix();
      Eigen::Vector3d t = a.toRotationMatrix().transpose() * Eigen::Vector3d(q1(0) - q0(0), q1(1) - q0(1), q1(2) - q0(2));
      X.topLeftCorner<3, 3>() = X.bottomRightCorner<3, 3>() = R.transpose();
      X.topRightCorner<3, 3>() = -R.transpose() * verif_lg::skew(t);
      L = -L * X;
    }
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) j(r, c) = L(r, c);
  }
};
}
#endif
