#include "common.hpp"
#define private public
#define protected public
#include <sot/core/feature-abstract.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-pose.hh>
#undef private
#undef protected
#include <sot/core/pool.hh>
#include <sot/core/exception-feature.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3;
static MatrixHomogeneous pose(const M3 &R, const V3 &x) { MatrixHomogeneous m; m.linear() = R; m.translation() = x; return m; }
static M3 hat(const V3 &u) { M3 K; K << 0, -u(2), u(1), u(2), 0, -u(0), -u(1), u(0), 0; return K; }
static M3 expo(const V3 &u) {
  double n = u.norm();
  if (n < 1e-12) return M3::Identity() + hat(u);
  return M3::Identity() + std::sin(n) / n * hat(u) + (1 - std::cos(n)) / (n * n) * hat(u) * hat(u);
}
static M3 jac(const V3 &u) {   // right Jacobian of the exponential
  double n = u.norm();
  if (n < 1e-4) return M3::Identity() - .5 * hat(u) + hat(u) * hat(u) / 6;
  return M3::Identity() - (1 - std::cos(n)) / (n * n) * hat(u) + (n - std::sin(n)) / (n * n * n) * hat(u) * hat(u);
}
typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;
static MatrixHomogeneous exp6(const V6 &x) {
  V3 l = x.head<3>(), w = x.tail<3>(); double th = w.norm(); M3 V = M3::Identity() + .5 * hat(w);
  if (th > 1e-6) V = M3::Identity() + (1 - std::cos(th)) / (th * th) * hat(w) + (th - std::sin(th)) / (th * th * th) * hat(w) * hat(w);
  return pose(expo(w), V * l);
}
static V3 log3(const M3 &R) { Eigen::AngleAxisd a(R); return a.angle() * a.axis(); }
static V6 minus(bool se3, const MatrixHomogeneous &a, const MatrixHomogeneous &b) {   // b - a
  M3 R = a.linear().transpose() * b.linear(); V3 w = log3(R), t = b.translation() - a.translation();
  V6 d;
  if (se3) {
    double th = w.norm(); M3 V = M3::Identity() + .5 * hat(w);
    if (th > 1e-6) V = M3::Identity() + (1 - std::cos(th)) / (th * th) * hat(w) + (th - std::sin(th)) / (th * th * th) * hat(w) * hat(w);
    t = V.inverse() * (a.linear().transpose() * t);
  }
  d << t, w;
  return d;
}
template <Representation_t rep> static void runPose(Gen &G, const std::string &id) {
  const bool se3 = rep == SE3Representation;
  FeaturePose<rep> f("p" + id);
  MatrixHomogeneous Id(MatrixHomogeneous::Identity());
  for (int k = G.i(1, 2); k > 0; --k) {
    int t = G.i(0, 5);
    auto small = [&] { V3 u(G.unif(-1, 1), G.unif(-1, 1), G.unif(-1, 1)); return pose(expo(u), V3(G.unif(-2, 2), G.unif(-2, 2), G.unif(-2, 2))); };
    MatrixHomogeneous A = small(), FA = G.b() ? small() : Id, FB = G.b() ? small() : Id, C = small(), D = small(), B;
    B = A * FA * C * FB.inverse();      // the pose of frame b in frame a is C
    int n = G.n(1, 6);
    bool two = G.b();
    Matrix Jb = G.mat(6, n), Ja = G.mat(6, n); Vector nu = G.vec(6);
    unsigned bits = G.u(64); if (G.u(4) == 0) bits = 63;
    Flags fl(false); std::string s;
    for (int i = 0; i < 6; ++i) { fl.add((bits >> i) & 1); s += ((bits >> i) & 1) ? '1' : '0'; }
    f.selectionSIN = fl; f.oMja = A; f.jaMfa = FA; f.oMjb = B; f.jbMfb = FB; f.jbJjb = Jb; f.faMfbDes = D;
    SignalTimeDependent<Matrix, int> ja(sotNOSIGNAL, "ja"); ja.setConstant(Ja);
    if (two) f.jaJja.plug(&ja); else { f.jaJja.unplug(); f.jaJja.constant = false; }
    bool rate = G.b();
    if (rate) f.faNufafbDes = nu; else { f.faNufafbDes.unplug(); f.faNufafbDes.constant = false; }
    std::string h = std::string(se3 ? "SE3" : "R3xSO3") + " selection " + s + " current " + S(C.matrix()) + " desired " + S(D.matrix());
    std::vector<int> sel; for (int i = 0; i < 6; ++i) if ((bits >> i) & 1) sel.push_back(i);
    MatrixHomogeneous M; f.computefaMfb(M, t);
    CHECK(nearm(M.matrix(), C.matrix(), 1e-8), h << ": pose " << S(M.matrix()));
    V6 d = minus(se3, D, C);
    unsigned dim = 77; f.getDimension(dim, t);
    CHECK(dim == sel.size(), h << ": dimension " << dim);
    Vector y = G.vec(G.i(0, 7)); f.computeError(y, t);
    CHECK(y.size() == (int)sel.size(), h << ": error of size " << y.size());
    bool far = d.tail<3>().norm() > 2.8;
    for (size_t i = 0; i < sel.size(); ++i) CHECK(far || near(y(i), d(sel[i]), 1e-6), h << ": error component " << i << " is " << y(i) << ", not " << d(sel[i]));
    Matrix Y = G.mat(G.i(0, 7), G.i(0, 7)); f.computeJacobian(Y, t);
    CHECK(Y.rows() == (int)sel.size() && Y.cols() == n, h << ": Jacobian " << Y.rows() << "x" << Y.cols());
    if (!far) for (int j = 0; j < n; ++j) {
      double e = 1e-5; V6 dif[2];
      for (int q = 0; q < 2; ++q) {
        double x = q ? e : -e;
        MatrixHomogeneous A2; A2 = A * (two ? exp6(x * Ja.col(j)) : Id);
        MatrixHomogeneous C2; C2 = (A2 * FA).inverse() * B * exp6(x * Jb.col(j)) * FB;
        dif[q] = minus(se3, D, C2);
      }
      V6 w = (dif[1] - dif[0]) / (2 * e);
      double sc = 1 + Jb.col(j).norm() + Ja.col(j).norm();
      if (sc > 20) continue;
      for (size_t i = 0; i < sel.size(); ++i) CHECK(std::fabs(Y(i, j) - w(sel[i])) < 1e-4 * sc * sc * sc, h << ": Jacobian entry " << i << "," << j << " is " << Y(i, j) << ", the error moves by " << w(sel[i]));
    }
    Vector ed = G.vec(G.i(0, 7)); f.computeErrorDot(ed, t);
    CHECK(ed.size() == (int)sel.size(), h << ": error rate of size " << ed.size());
    if (!rate) CHECK(ed.isZero(0), h << ": error rate without a desired velocity is " << S(ed));
    else if (!far && nu.norm() < 20) {
      // by finite differences for SE(3); the documented formula otherwise
      V6 w;
      V6 tw; V3 v = nu.head<3>(), om = nu.tail<3>();
      if (se3) {
        double e = 1e-5; V6 dif[2];
        for (int q = 0; q < 2; ++q) { MatrixHomogeneous D2; D2 = exp6((q ? e : -e) * nu) * D; dif[q] = minus(true, D2, C); }
        w = (dif[1] - dif[0]) / (2 * e);
      } else {
        w.head<3>() = -(v - V3(C.translation()).cross(om));
        double e = 1e-5; V3 dif[2];
        for (int q = 0; q < 2; ++q) dif[q] = log3(M3((expo(V3((q ? e : -e) * om)) * D.linear()).transpose() * C.linear()));
        w.tail<3>() = (dif[1] - dif[0]) / (2 * e);
      }
      double sc = 1 + nu.norm();
      for (size_t i = 0; i < sel.size(); ++i) CHECK(std::fabs(ed(i) - w(sel[i])) < 1e-4 * sc * sc * sc, h << " velocity " << S(nu) << ": error rate component " << i << " is " << ed(i) << ", not " << w(sel[i]));
    }
    if (G.u(3) == 0) {
      f.servoCurrentPosition(t);
      CHECK(nearm(f.faMfbDes(t).matrix(), C.matrix(), 1e-8), h << ": keep made the desired pose " << S(f.faMfbDes(t).matrix()));
      f.computeError(y, t);
      CHECK(y.norm() < 1e-6, h << ": after keep the error is " << S(y));
    }
    G.count(h);
  }
}
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    FeaturePoint6d f("f" + id), r("r" + id);
    CHECK(f.computationFrame() == "desired" && !f.isReferenceSet(), "a new feature: frame " << f.computationFrame());
    for (int k = G.i(1, 3); k > 0; --k) {
      int t = G.i(0, 5);
      bool ref = G.b(), cur = G.b();
      unsigned bits = G.u(64); std::string s, names;
      Flags fl(false);
      for (int i = 0; i < 6; ++i) { fl.add((bits >> i) & 1); s += ((bits >> i) & 1) ? '1' : '0'; }
      f.selectionSIN = fl;
      M3 R = G.rot(), Rd = G.rot();
      if (G.u(4) == 0) R.setIdentity();
      if (ref && G.u(6) == 0) Rd = R;
      if (ref && G.u(6) == 0) Rd = R * expo(V3(G.unif(-1, 1), G.unif(-1, 1), G.unif(-1, 1)) * 1e-3);
      V3 x = G.vec(3), xd = G.vec(3);
      int n = G.n(0, 7);
      Matrix Jq = G.mat(6, n); Vector vel = G.vec(6);
      f.positionSIN = pose(R, x); r.positionSIN = pose(Rd, xd); f.articularJacobianSIN = Jq; r.velocitySIN = vel;
      f.setReference(ref ? &r : NULL);
      if (G.u(4) == 0) {
        bool th = false; std::string was = f.computationFrame();
        try { f.computationFrame(G.b() ? "Current" : G.str(8)); } catch (ExceptionFeature &) { th = true; }
        CHECK(th && f.computationFrame() == was, "unknown frame accepted");
      }
      f.computationFrame(cur ? "current" : "desired");
      CHECK(f.computationFrame() == (cur ? "current" : "desired"), "frame reported as " << f.computationFrame());
      if (!ref) { Rd.setIdentity(); xd.setZero(); vel.setZero(); }
      std::string h = std::string(cur ? "current" : "desired") + " frame, selection " + s + (ref ? " with reference" : " without reference") +
                      " R " + S(R) + " x " + S(x) + " Rd " + S(Rd) + " xd " + S(xd);
      M3 D = cur ? M3(R.transpose() * Rd) : M3(Rd.transpose() * R);
      V3 tl = cur ? V3(R.transpose() * (xd - x)) : V3(Rd.transpose() * (x - xd));
      Eigen::AngleAxisd aa(D); V3 th = aa.angle() * aa.axis();
      bool steep = aa.angle() > 3;   // the logarithm is not continuous at half a turn
      V3 v = vel.head<3>(), w = vel.tail<3>();
      V3 ld = cur ? V3(R.transpose() * v) : V3(Rd.transpose() * (w.cross(xd - x) - v));
      V3 ad = cur ? V3(Rd.transpose() * w) : V3(-(R.transpose() * w));
      Eigen::Matrix<double, 6, 6> L = Eigen::Matrix<double, 6, 6>::Zero();
      M3 H = Rd.transpose() * R;
      if (cur) { L.topLeftCorner<3, 3>() = -M3::Identity(); L.topRightCorner<3, 3>() = hat(V3(R.transpose() * (xd - x))); L.bottomRightCorner<3, 3>() = -H; }
      else { L.topLeftCorner<3, 3>() = H; L.bottomRightCorner<3, 3>() = H; }
      Matrix LJ = L * Jq;
      std::vector<int> sel; for (int i = 0; i < 6; ++i) if ((bits >> i) & 1) sel.push_back(i);
      unsigned dim = 77; f.getDimension(dim, t);
      CHECK(dim == sel.size(), h << ": dimension " << dim);
      Vector y = G.vec(G.i(0, 7)); f.computeError(y, t);
      CHECK(y.size() == (int)sel.size(), h << ": error of size " << y.size());
      for (size_t k = 0; k < sel.size(); ++k) {
        double want = sel[k] < 3 ? tl(sel[k]) : th(sel[k] - 3);
        CHECK(near(y(k), want, 1e-6) || (steep && sel[k] > 2), h << ": error component " << k << " is " << y(k) << ", not " << want);
      }
      Matrix Y = G.mat(G.i(0, 7), G.i(0, 7)); f.computeJacobian(Y, t);
      CHECK(Y.rows() == (int)sel.size() && Y.cols() == n, h << ": Jacobian " << Y.rows() << "x" << Y.cols());
      for (size_t k = 0; k < sel.size(); ++k) for (int j = 0; j < n; ++j)
        CHECK(near(Y(k, j), LJ(sel[k], j), 1e-7), h << ": Jacobian entry " << k << "," << j << " is " << Y(k, j) << ", not " << LJ(sel[k], j));
      Vector e = G.vec(G.i(0, 7)); f.computeErrordot(e, t);
      CHECK(e.size() == (int)sel.size(), h << ": error rate of size " << e.size());
      V3 u = f.error_th_.angle() * f.error_th_.axis();
      bool rot = (bits >> 3) != 0;
      for (size_t k = 0; k < sel.size(); ++k) {
        double want, eps = 1e-6;
        if (sel[k] < 3) want = ld(sel[k]);
        else { if (!rot || steep || u.norm() > 2.9) continue; want = (jac(u).inverse() * ad)(sel[k] - 3); eps = u.norm() < 1e-2 ? 1e-3 : 1e-5; }
        CHECK(near(e(k), want, eps), h << " velocity " << S(vel) << ": error rate component " << k << " is " << e(k) << ", not " << want);
      }
      if (G.u(3) == 0) {
        bool refused = false;
        try { f.servoCurrentPosition(); } catch (ExceptionFeature &) { refused = true; }
        CHECK(refused == !ref, h << ": keep " << (refused ? "refused" : "accepted"));
        if (ref) {
          CHECK(nearm(r.positionSIN(t).matrix(), pose(R, x).matrix()) && nearm(f.positionSIN(t).matrix(), pose(R, x).matrix()), h << ": keep changed the reference to " << S(r.positionSIN(t).matrix()));
          f.computeError(y, t);
          CHECK(y.norm() < 1e-6, h << ": after keep the error is " << S(y));
        }
      }
      G.count(h);
    }
    if (G.b()) runPose<R3xSO3Representation>(G, id); else runPose<SE3Representation>(G, id);
    dynamicgraph::sot::PoolStorage::destroy();
  }
}
