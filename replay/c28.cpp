#include "common.hpp"
#include <dynamic-graph/all-commands.h>
#define private public
#define protected public
#include <sot/core/op-point-modifier.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
static int cnt = 0;
static Eigen::Vector3d v3(Gen &G) { return Eigen::Vector3d(G.unif(-2, 2), G.u(4) ? G.unif(-2, 2) : 0, G.unif(-2, 2)); }
void run(Gen &G) {
  while (G.more()) {
    std::string id = std::to_string(++cnt); std::ostringstream h; h.precision(17);
    OpPointModifier f("op" + id);
    CHECK(f.isEndEffector, "a new modifier is not in end-effector mode");
    Matrix res = G.mat(G.n(0, 4), G.n(0, 4)); MatrixHomogeneous rp; rp.setIdentity();
    for (int k = 0; k < 4; ++k) {
      Eigen::Matrix3d R = G.rot(), A = G.rot(); Eigen::Vector3d x = v3(G), p = v3(G); Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.block<3, 3>(0, 0) = R; T.block<3, 1>(0, 3) = x;
      f.setTransformation(T); CHECK(f.getTransformation() == T, "setTransformation: " << S(Matrix(f.getTransformation())) << " not " << S(Matrix(T)));
      MatrixHomogeneous P; P.setIdentity(); P.linear() = A; P.translation() = p;
      int n = G.n(0, 7); Matrix J = G.mat(6, n); f.jacobianSIN = J; f.positionSIN = P; f.isEndEffector = G.b();
      h.str(""); h << (f.isEndEffector ? "end effector" : "world") << " T " << S(Matrix(T)) << " P " << S(Matrix(P.matrix())) << " J " << S(J);
      if (G.b()) f.positionSOUT_function(rp, k); else rp = f.positionSOUT.access(k);
      Eigen::Matrix3d AR = A * R; Eigen::Vector3d q = p + A * x;
      CHECK(nearm(Matrix(rp.linear()), Matrix(AR), 1e-8) && nearm(Matrix(rp.translation()), Matrix(q), 1e-8), h.str() << ": position " << S(Matrix(rp.matrix())));
      if (G.b()) f.jacobianSOUT_function(res, k); else res = f.jacobianSOUT.access(k);
      CHECK(res.rows() == 6 && res.cols() == n, h.str() << ": shape " << res.rows() << "x" << res.cols());
      for (int j = 0; j < n; ++j) {
        Eigen::Vector3d l = J.block(0, j, 3, 1), w = J.block(3, j, 3, 1), el, ew;
        if (f.isEndEffector) { el = R.transpose() * (l + w.cross(x)); ew = R.transpose() * w; } else { el = l + w.cross(A * x); ew = w; }
        CHECK(nearm(Matrix(res.block(0, j, 3, 1)), Matrix(el), 1e-8) && nearm(Matrix(res.block(3, j, 3, 1)), Matrix(ew), 1e-8), h.str() << ": column " << j << " of " << S(res));
      }
    }
    G.count(h.str());
  }
}
