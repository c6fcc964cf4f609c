#ifndef VERIF_DG_EIGENIO_H
#define VERIF_DG_EIGENIO_H
#include <dynamic-graph/linear-algebra.h>
#include <iostream>
#include <sstream>
namespace Eigen {
inline std::istringstream &operator>>(std::istringstream &is, Eigen::VectorXd &) { return is; }
inline std::istringstream &operator>>(std::istringstream &is, Eigen::MatrixXd &) { return is; }
template <typename D> inline std::ostream &operator<<(std::ostream &os, const Transform<double, 3, Affine> &m) { return os << m.matrix(); }
}
namespace Eigen { 
inline std::ostream &operator<<(std::ostream &os, const Transform<double, 3, Affine> &m) { return os << m.matrix(); }
inline std::ostream &operator<<(std::ostream &os, const AngleAxisd &q) { return os << q.angle() << q.axis(); }
}
#endif
