#ifndef VERIF_PINOCCHIO_STUB
#define VERIF_PINOCCHIO_STUB
// Interface stub of the parts of pinocchio that sot-core names; the package is absent from this sandbox.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <string>
#include <vector>
namespace pinocchio {
typedef Eigen::Matrix<double, 6, 1> V6;
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
struct Motion { V6 d; explicit Motion(const V6 &v) : d(v) {} template <class D> explicit Motion(const Eigen::MatrixBase<D> &v) : d(v) {} const V6 &toVector() const { return d; } };
struct Force { V6 d; explicit Force(const V6 &v) : d(v) {} template <class D> explicit Force(const Eigen::MatrixBase<D> &v) : d(v) {} const V6 &toVector() const { return d; } };
struct SE3 {
  Eigen::Matrix3d R; Eigen::Vector3d p;
  SE3() : R(Eigen::Matrix3d::Identity()), p(Eigen::Vector3d::Zero()) {}
  SE3(const Eigen::Matrix3d &r, const Eigen::Vector3d &t) : R(r), p(t) {}
  explicit SE3(const Eigen::Matrix4d &m) : R(m.topLeftCorner<3, 3>()), p(m.topRightCorner<3, 1>()) {}
  const Eigen::Matrix3d &rotation() const { return R; }
  const Eigen::Vector3d &translation() const { return p; }
  // spatial convention: (linear, angular)
  Motion act(const Motion &m) const { V6 r; r.tail<3>() = R * m.d.tail<3>(); r.head<3>() = R * m.d.head<3>() + p.cross(Eigen::Vector3d(r.tail<3>())); return Motion(r); }
  Motion actInv(const Motion &m) const { V6 r; Eigen::Vector3d w = m.d.tail<3>(); r.tail<3>() = R.transpose() * w; r.head<3>() = R.transpose() * (m.d.head<3>() - p.cross(w)); return Motion(r); }
  Force act(const Force &f) const { V6 r; Eigen::Vector3d l = R * f.d.head<3>(); r.head<3>() = l; r.tail<3>() = R * f.d.tail<3>() + p.cross(l); return Force(r); }
  Force actInv(const Force &f) const { V6 r; Eigen::Vector3d l = f.d.head<3>(); r.head<3>() = R.transpose() * l; r.tail<3>() = R.transpose() * (f.d.tail<3>() - p.cross(l)); return Force(r); }
};
struct Model { int nq, nv; };
struct Data {};
}
#endif
