#ifndef VERIF_DG_LINALG_H
#define VERIF_DG_LINALG_H
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace dynamicgraph {
typedef Eigen::MatrixXd Matrix;
typedef Eigen::VectorXd Vector;
typedef Eigen::Transform<double, 3, Eigen::Affine> MatrixHomogeneousUnaligned;
}
#endif
