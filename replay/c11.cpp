#include <dynamic-graph/all-signals.h>
#include "common.hpp"
#include <dynamic-graph/pool.h>
#include <dynamic-graph/entity.h>
#include <sot/core/pool.hh>
#define private public
#define protected public
#include <sot/core/device.hh>
#undef private
#undef protected
#include <unsupported/Eigen/MatrixFunctions>
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
typedef Eigen::VectorXd Vec;
static std::string S(const Vec &v) { std::ostringstream o; o.precision(17); o << "[" << v.transpose() << "]"; return o.str(); }
static Eigen::Matrix3d rpy(const Vec &s) {
  double a = s(3), b = s(4), c = s(5);
  Eigen::Matrix3d X, Y, Z;
  X << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a);
  Y << cos(b), 0, sin(b), 0, 1, 0, -sin(b), 0, cos(b);
  Z << cos(c), -sin(c), 0, sin(c), cos(c), 0, 0, 0, 1;
  return Z * Y * X;
}
static bool same(const Vec &a, const Vec &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!near(a(i), b(i), 1e-9)) return false; return true; }
struct Model { Vec q, v, lp, up, lv, uv, lt, ut; bool sane = true; int mode = 1; };
static double cl(double x, double l, double u) { return x < l ? l : x > u ? u : x; }
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::ostringstream h; h.precision(17);
    Device d("dev" + std::to_string(++cnt));
    Model m;
    int n = 6 + (int)G.u(5);
    bool ff = G.u(3) != 0;
    if (G.u(8) == 0 && !ff) n = 1 + (int)G.u(7);
    CHECK(d.state_.size() == 6 && d.velocity_.size() == 6 && d.state_.isZero(0) && d.velocity_.isZero(0) && d.sanityCheck_ && d.controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION, "a new device is not at rest under checked velocity control");
    d.setStateSize((unsigned)n);
    m.q = m.v = Vec::Zero(n);
    h << "size " << n;
    for (int step = 0, ns = G.n(1, 14); step < ns; ++step) {
      int op = (int)G.u(14);
      h << "; op" << op;
      bool pb = m.lp.size() == n, vb = m.lv.size() == n, tb = m.lt.size() == n;
      if (op == 0) {
        const char *nm[] = {"noInteg", "oneInteg", "twoInteg", "threeInteg", ""};
        int k = (int)G.u(5); h << " mode " << nm[k];
        d.setControlInputType(nm[k]); if (k < 3) m.mode = k;
      } else if (op == 1) { d.setNoIntegration(); m.mode = 0; m.v.setZero(); }
      else if (op == 2) { d.setSecondOrderIntegration(); m.mode = 2; m.v.setZero(); }
      else if (op == 3) {
        bool on = G.b(), thrown = false; h << " " << on;
        try { d.setSanityCheck(on); } catch (const std::invalid_argument &) { thrown = true; }
        bool want = on && ((m.mode == 2 && !tb) || (m.mode >= 1 && !vb) || !pb);
        CHECK(thrown == want, h.str() << ": switching the checks " << (thrown ? "refused" : "accepted"));
        if (!thrown) m.sane = on;
      } else if (op <= 6) {
        int k = G.u(4) ? n : (int)G.u(n + 3), k2 = G.u(6) ? k : (int)G.u(n + 3);
        Vec lo = G.vec(k), hi = G.vec(k2);
        for (int i = 0; i < std::min(k, k2); ++i) if (lo(i) > hi(i)) std::swap(lo(i), hi(i));
        if (n >= 6 && op == 4) for (int i = 3; i < 6; ++i) { if (i < k) lo(i) = -1e9; if (i < k2) hi(i) = 1e9; }
        bool thrown = false; h << " bounds " << S(lo) << S(hi);
        try { if (op == 4) d.setPositionBounds(lo, hi); else if (op == 5) d.setVelocityBounds(lo, hi); else d.setTorqueBounds(lo, hi); } catch (const std::invalid_argument &) { thrown = true; }
        CHECK(thrown == (k != n || k2 != n), h.str() << ": bounds " << (thrown ? "refused" : "accepted"));
        if (!thrown) { (op == 4 ? m.lp : op == 5 ? m.lv : m.lt) = lo; (op == 4 ? m.up : op == 5 ? m.uv : m.ut) = hi; }
      } else if (op == 7) {
        Vec q = G.vec(n); bool thrown = false;
        h << " state " << S(q);
        try { d.setState(q); } catch (const std::invalid_argument &) { thrown = true; }
        bool want = m.sane && ((m.mode == 2 && !tb) || (m.mode >= 1 && !vb));
        CHECK(thrown == want, h.str() << ": state " << (thrown ? "refused" : "accepted"));
        if (!thrown) { m.q = q; CHECK(same(d.stateSOUT.accessCopy(), q) && same(d.motorcontrolSOUT.accessCopy(), q), h.str() << ": another state is reported"); }
      } else if (op == 8) { Vec v = G.vec(n); h << " velocity " << S(v); d.setVelocity(v); m.v = v; }
      else if (op == 9 && n >= 6) {
        Eigen::Matrix4d M = Eigen::Matrix4d::Identity(); M.topLeftCorner<3, 3>() = G.rot(); M.topRightCorner<3, 1>() = G.vec(3);
        h << " root " << M;
        if (G.b()) { Matrix D(M); d.setRoot(D); } else { MatrixHomogeneous D; D.matrix() = M; d.setRoot(D); }
        Vec y = d.state_;
        CHECK(y.size() == n, h.str() << ": the root changed the size of the state");
        for (int i = 0; i < 3; ++i) CHECK(near(y(i), M(i, 3)), h.str() << ": the root is at " << S(y.head(3)));
        CHECK((rpy(y) - M.topLeftCorner<3, 3>()).norm() < 1e-6, h.str() << ": the root has angles " << S(y.segment(3, 3)));
        for (int i = 6; i < n; ++i) CHECK(y(i) == m.q(i), h.str() << ": setting the root moved a joint");
        CHECK(same(d.stateSOUT.accessCopy(), y), h.str() << ": the new root is not reported");
        m.q = y;
      } else {
        bool full = ff && m.mode != 0 && n >= 6 && G.u(3) != 0;
        int k = full ? n : m.mode == 0 ? (int)G.u(n + 1) : (int)G.u(n);
        if (!full && m.mode != 0 && n > 6 && G.b()) k = n - 6;
        Vec u = G.vec(k); double dt = G.u(6) ? G.unif(0, .1) : G.pos();
        bool nan = k && G.u(12) == 0;
        if (nan && !m.sane) nan = false;
        if (nan) u((int)G.u(k)) = NAN;
        h << " control " << S(u) << " dt " << dt;
        d.controlSIN = u;
        int t = d.stateSOUT.getTime();
        Vec cur = m.q, reported = d.velocitySOUT.accessCopy();
        d.increment(dt);
        CHECK(d.stateSOUT.getTime() == t + 1, h.str() << ": time went from " << t << " to " << d.stateSOUT.getTime());
        Vec q = m.q, v = m.v, w = u; int o = n - k;
        bool pbk = m.sane && pb, vbk = m.sane && vb;
        if (!nan) {
          if (m.mode == 0) for (int i = 0; i < k; ++i) q(o + i) = u(i);
          else {
            if (m.mode == 2) for (int i = 0; i < k; ++i) { w(i) = v(o + i) + dt / 2 * u(i); v(o + i) += dt * u(i); }
            if (m.mode == 2 && vbk) for (int i = 0; i < n; ++i) v(i) = cl(v(i), m.lv(i), m.uv(i));
            if (m.mode == 1 && vbk) for (int i = 0; i < k; ++i) w(i) = cl(w(i), m.lv(o + i), m.uv(o + i));
            for (int i = full ? 6 : 0; i < k; ++i) q(o + i) += w(i) * dt;
            if (full) {
              Eigen::Matrix4d X = Eigen::Matrix4d::Zero(), M = Eigen::Matrix4d::Identity();
              X << 0, -w(5), w(4), w(0), w(5), 0, -w(3), w(1), -w(4), w(3), 0, w(2), 0, 0, 0, 0;
              M.topLeftCorner<3, 3>() = rpy(cur); M.topRightCorner<3, 1>() = cur.head(3);
              Eigen::Matrix4d R; Eigen::MatrixXd Xd = X * dt, Rd; Rd = Xd.exp(); R = M * Rd;
              for (int i = 0; i < 3; ++i) q(i) = R(i, 3);
              Eigen::Matrix3d E = R.topLeftCorner<3, 3>();
              CHECK((rpy(d.state_) - E).norm() < 1e-5 * (1 + w.head(6).norm() * dt), h.str() << ": the free flyer turned to angles " << S(d.state_.segment(3, 3)));
              q.segment(3, 3) = d.state_.segment(3, 3);
            }
          }
          if (pbk) for (int i = 0; i < n; ++i) q(i) = cl(q(i), m.lp(i), m.up(i));
        }
        double sc = 1 + (full ? w.head(6).norm() * dt : 0);
        CHECK(d.state_.size() == n && d.velocity_.size() == n, h.str() << ": sizes changed");
        for (int i = 0; i < n; ++i) CHECK(near(d.state_(i), q(i), (full && i < 3 ? 1e-6 : 1e-9) * sc), h.str() << ": state " << S(d.state_) << " instead of " << S(q));
        CHECK(same(d.velocity_, v), h.str() << ": velocity " << S(d.velocity_) << " instead of " << S(v));
        m.q = d.state_; m.v = d.velocity_;
        CHECK(same(d.stateSOUT.accessCopy(), m.q) && same(d.motorcontrolSOUT.accessCopy(), m.q), h.str() << ": another state is reported");
        CHECK(same(d.velocitySOUT.accessCopy(), m.mode == 0 ? reported : m.mode == 1 ? u : m.v), h.str() << ": another velocity is reported");
      }
      CHECK(same(d.state_, m.q), h.str() << ": state " << S(d.state_) << " instead of " << S(m.q));
      CHECK(same(d.velocity_, m.v), h.str() << ": velocity " << S(d.velocity_) << " instead of " << S(m.v));
      CHECK(same(d.lowerPosition_, m.lp) && same(d.upperPosition_, m.up) && same(d.lowerVelocity_, m.lv) && same(d.upperVelocity_, m.uv) && same(d.lowerTorque_, m.lt) && same(d.upperTorque_, m.ut), h.str() << ": bounds changed");
      CHECK(d.sanityCheck_ == m.sane && (int)d.controlInputType_ == m.mode, h.str() << ": mode changed");
    }
    sot::PoolStorage::destroy();
    G.count(h.str());
  }
}
