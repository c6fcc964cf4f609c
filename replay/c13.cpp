#include "common.hpp"
#include "matrix/operator.hh"
using namespace dynamicgraph; using namespace dynamicgraph::sot;
typedef Eigen::Matrix3d R3; typedef Eigen::Vector3d V3;
static R3 rpym(const V3 &r) {
  double a = r[0], b = r[1], c = r[2]; R3 X, Y, Z;
  X << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); Y << cos(b), 0, sin(b), 0, 1, 0, -sin(b), 0, cos(b); Z << cos(c), -sin(c), 0, sin(c), cos(c), 0, 0, 0, 1;
  return Z * Y * X;
}
static R3 hat(const V3 &v) { R3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static R3 expm(const V3 &w) {
  double n = w.norm(); R3 H = hat(w), H2 = H * H; R3 I = R3::Identity();
  if (n < 1e-12) return I;
  return I + sin(n) / n * H + (1 - cos(n)) / (n * n) * H2;
}
template <class A, class B> static bool nm(const A &a, const B &b, double e = 1e-7) { return nearm(Matrix(a), Matrix(b), e); }
void run(Gen &G) {
  const double PI = M_PI;
  while (G.more()) {
    std::ostringstream h; h.precision(17);
    V3 t(G.d(), G.d(), G.d()), r, w; R3 R;
    double sp[] = {0, PI / 2, -PI / 2, PI, -PI, PI / 4, 1e-4, -1e-4, PI - 1e-4};
    for (int k = 0; k < 3; ++k) r[k] = G.u(4) ? G.unif(-3.2, 3.2) : sp[G.u(9)];
    w = V3(G.unif(-1, 1), G.unif(-1, 1), G.unif(-1, 1)); w *= G.u(3) ? 1. : G.u(2) ? 0. : 2.5;
    switch (G.u(3)) { case 0: R = rpym(r); break; case 1: R = G.rot(); break; default: R = expm(w); }
    MatrixHomogeneous M; M.setIdentity(); M.linear() = R; M.translation() = t;
    h << "t " << S(Matrix(t)) << " R " << S(Matrix(R)) << " rpy " << S(Matrix(r)) << " w " << S(Matrix(w));
    MatrixHomogeneous P; P.setIdentity(); Vector v;
    auto same = [&](const char *nm_) { CHECK(nm(P.linear(), R) && nm(P.translation(), t), h.str() << ": " << nm_ << " gives " << S(Matrix(P.matrix())) << " through " << S(v)); };
    { v = G.vec(G.i(0, 3)); MatrixHomoToSE3Vector a; a(M, v); SE3VectorToMatrixHomo b; CHECK(v.size() == 12 && nm(v.head(3), t, 0), h.str() << ": 12 numbers " << S(v)); b(v, P); same("12 numbers"); Vector x = G.vec(12); b(x, P); a(P, v); CHECK(nm(x, v, 0), "12 numbers " << S(x) << " come back as " << S(v)); }
    { v = G.vec(G.i(0, 3)); MatrixHomoToPoseQuaternion a; a(M, v); CHECK(v.size() == 7 && near(v.tail(4).norm(), 1, 1e-8), h.str() << ": translation and quaternion " << S(v)); PoseQuaternionToMatrixHomo b; b(v, P); same("translation and quaternion"); }
    { v = G.vec(G.i(0, 3)); MatrixHomoToPoseRollPitchYaw a; a(M, v); CHECK(v.size() == 6, h.str()); PoseRollPitchYawToMatrixHomo b; b(v, P); same("roll, pitch, yaw"); Vector x(6); x << t, r; b(x, P); CHECK(nm(P.linear(), rpym(r)) && nm(P.translation(), t), h.str() << ": roll, pitch, yaw to " << S(Matrix(P.matrix()))); }
    { v = G.vec(G.i(0, 3)); MatrixHomoToPoseUTheta a; a(M, v); CHECK(v.size() == 6, h.str()); PoseUThetaToMatrixHomo b; b(v, P); CHECK(nm(P.linear(), R, 1e-6) && nm(P.translation(), t), h.str() << ": rotation vector gives " << S(Matrix(P.matrix())) << " through " << S(v)); Vector x(6); x << t, w; b(x, P); CHECK(nm(P.linear(), expm(w)) && nm(P.translation(), t), h.str() << ": rotation vector to " << S(Matrix(P.matrix())));
      PoseRollPitchYawToPoseUTheta c; x << t, r; c(x, v); b(v, P); CHECK(v.size() == 6 && nm(P.linear(), rpym(r), 1e-6) && nm(P.translation(), t), h.str() << ": roll, pitch, yaw to rotation vector " << S(v)); }
    { MatrixRotation m; RPYToMatrix a; a(r, m); CHECK(nm(m, rpym(r)), h.str() << ": RPYToMatrix " << S(Matrix(m)));
      VectorRollPitchYaw y; MatrixToRPY b; b(R, y); CHECK(nm(rpym(y), R), h.str() << ": MatrixToRPY " << S(Matrix(y)));
      VectorQuaternion q; RPYToQuaternion c; c(r, q); CHECK(nm(q.toRotationMatrix(), rpym(r)) && near(q.norm(), 1, 1e-8), h.str() << ": RPYToQuaternion");
      MatrixToQuaternion d; d(R, q); CHECK(nm(q.toRotationMatrix(), R), h.str() << ": MatrixToQuaternion");
      QuaternionToRPY e; e(q, y); CHECK(nm(rpym(y), R), h.str() << ": QuaternionToRPY " << S(Matrix(y)));
      QuaternionToMatrix f; f(q, m); CHECK(nm(m, R), h.str() << ": QuaternionToMatrix");
      VectorUTheta u(0, V3::UnitX()); MatrixToUTheta g; g(R, u); V3 au = u.angle() * u.axis(); CHECK(nm(expm(au), R, 1e-6), h.str() << ": MatrixToUTheta");
      VectorQuaternion p; UThetaToQuaternion k; k(u, p); CHECK(nm(p.toRotationMatrix(), R, 1e-6), h.str() << ": UThetaToQuaternion");
      InverserQuaternion l; l(q, p); R3 I = q.toRotationMatrix() * p.toRotationMatrix(); CHECK(nm(I, R3::Identity()), h.str() << ": InverserQuaternion");
      InverserRotation n; n(R, m); I = R * m; CHECK(nm(I, R3::Identity()), h.str() << ": InverserRotation"); }
    { Inverser<MatrixHomogeneous> a; a(M, P); Eigen::Matrix4d I = M.matrix() * P.matrix(); CHECK(nm(I, Eigen::Matrix4d::Identity(), 1e-6), h.str() << ": Inverser " << S(Matrix(P.matrix()))); }
    { Matrix m = G.mat(2, 3); HomoToMatrix a; a(M, m); CHECK(m.rows() == 4 && m.cols() == 4 && nm(m, M.matrix(), 0), h.str() << ": HomoToMatrix " << S(m)); MatrixToHomo b; b(Eigen::Matrix4d(m), P); CHECK(nm(P.matrix(), M.matrix(), 0), h.str() << ": MatrixToHomo");
      MatrixRotation x; HomoToRotation c; c(M, x); CHECK(nm(x, R, 0), h.str() << ": HomoToRotation"); v = G.vec(5); MatrixHomoToPose d; d(M, v); CHECK(v.size() == 3 && nm(v, t, 0), h.str() << ": MatrixHomoToPose " << S(v)); }
    { MatrixTwist a, b, W = MatrixTwist::Zero(); HomoToTwist f; f(M, a); buildFrom(M, b); R3 X = hat(t) * R; W.block(0, 0, 3, 3) = R; W.block(3, 3, 3, 3) = R; W.block(0, 3, 3, 3) = X;
      CHECK(nm(a, W) && nm(b, W), h.str() << ": twist matrices " << S(Matrix(a)) << " and " << S(Matrix(b))); }
    { Matrix m = hat(t); v = G.vec(2); SkewSymToVector f; f(m, v); CHECK(v.size() == 3 && nm(v, t, 0), h.str() << ": SkewSymToVector " << S(v)); }
    G.count(h.str());
  }
}
