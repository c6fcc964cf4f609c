#include "common.hpp"
#include <boost/function.hpp>
#include <dynamic-graph/all-commands.h>
#include <pinocchio/fwd.hpp>
#define private public
#define protected public
#include <sot/core/admittance-control-op-point.hh>
#include <sot/core/control-gr.hh>
#include <sot/core/control-pd.hh>
#include <sot/core/gradient-ascent.hh>
#include <sot/core/stop-watch.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
static int cnt = 0;
static Vector v6(Gen &G, double a) { Vector v(6); for (int i = 0; i < 6; ++i) v(i) = G.u(5) ? G.unif(-a, a) : 0; return v; }
void run(Gen &G) {
  while (G.more()) {
    std::string id = std::to_string(++cnt); std::ostringstream h; h.precision(17);
    {
      ControlPD f("pd" + id); f.init(G.pos());
      for (int k = 0; k < 3; ++k) {
        int n = G.n(0, 7); Vector kp = G.vec(n), kd = G.vec(n), p = G.vec(n), dp = G.vec(n), v = G.vec(n), dv = G.vec(n), r = G.vec(G.n(0, 4));
        f.KpSIN = kp; f.KdSIN = kd; f.positionSIN = p; f.desiredpositionSIN = dp; f.velocitySIN = v; f.desiredvelocitySIN = dv;
        h << " pd " << S(kp) << S(kd) << S(p) << S(dp) << S(v) << S(dv);
        if (G.b()) f.computeControl(r, k); else r = f.controlSOUT.access(k);
        Vector w(n); for (int i = 0; i < n; ++i) w(i) = kp(i) * (dp(i) - p(i)) + kd(i) * (dv(i) - v(i));
        CHECK(nearm(r, w), h.str() << ": " << S(r) << " not " << S(w));
        Vector e; f.getPositionError(e, k); CHECK(nearm(e, dp - p), h.str() << ": position error " << S(e)); f.getVelocityError(e, k); CHECK(nearm(e, dv - v), h.str() << ": velocity error " << S(e));
      }
    }
    {
      ControlGR f("gr" + id); int n = G.n(1, 6), m = G.b() ? n : G.n(1, 6); Matrix A = G.mat(m, n); Vector q = G.vec(n), g = G.vec(m), r; f.matrixASIN = A; f.accelerationSIN = q; f.gravitySIN = g;
      if (G.b()) f.computeControl(r, 1); else r = f.controlSOUT.access(1);
      Vector w = g; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) w(i) += A(i, j) * q(j);
      CHECK(nearm(r, w, 1e-8), "gravity " << S(A) << S(q) << S(g) << ": " << S(r));
    }
    {
      GradientAscent f("ga" + id); int n = G.n(1, 5); Vector acc = Vector::Zero(n), r = G.vec(G.n(0, 3)); h << " ascent";
      for (int k = 0; k < 6; ++k) { Vector g = G.vec(n); double a = G.d(); f.gradientSIN = g; f.learningRateSIN = a; acc += a * g; h << S(g) << a; if (G.b()) f.update(r, k); else r = f.valueSOUT.access(k); CHECK(nearm(r, acc), h.str() << ": " << S(r) << " not " << S(acc)); }
    }
    {
      core::AdmittanceControlOpPoint f("ad" + id); double dt = G.pos(); Vector vel = Vector::Zero(6); h << " admittance dt " << dt;
      Vector un = G.vec(3), r = un; f.w_dqSINNER_function(r, 0); CHECK(r == un, h.str() << ": computed before initialisation");
      int skip = G.u(4) ? 7 : (int)G.u(7); Vector kp, kd, sat, fo, de; MatrixHomogeneous P, O;
      auto plug = [&](int only) {
        kp = v6(G, 5); kd = v6(G, 1); sat = v6(G, 2).cwiseAbs(); fo = v6(G, 5); de = v6(G, 5); P.setIdentity(); P.linear() = G.rot(); P.translation() = v6(G, 2).head<3>(); O.setIdentity(); O.linear() = G.rot(); O.translation() = v6(G, 2).head<3>();
        if (only != 0) f.m_KpSIN = kp; if (only != 1) f.m_KdSIN = kd; if (only != 2) f.m_dqSaturationSIN = sat; if (only != 3) f.m_forceSIN = fo; if (only != 4) f.m_w_forceDesSIN = de; if (only != 5) f.m_opPoseSIN = O; if (only != 6) f.m_sensorPoseSIN = P;
      };
      plug(skip); f.init(dt);
      CHECK(f.m_initSucceeded == (skip == 7), h.str() << ": initialisation with input " << skip << " missing");
      if (skip != 7) { plug(7); f.init(dt); }
      for (int k = 0; k < 8; ++k) {
        if (!G.u(6)) { f.resetDq(); vel.setZero(); h << " reset"; }
        plug(7); h << " Kp " << S(kp) << " Kd " << S(kd) << " sat " << S(sat) << " f " << S(fo) << " des " << S(de);
        Eigen::Vector3d l = P.linear() * fo.head<3>(), t = P.linear() * fo.tail<3>() + Eigen::Vector3d(P.translation()).cross(l);
        Vector wf(6); wf << l, t; Vector g;
        f.w_forceSINNER_function(g, k); CHECK(nearm(g, wf, 1e-8), h.str() << ": force " << S(g) << " not " << S(wf));
        vel = vel + dt * kp.cwiseProduct(de - wf) - kd.cwiseProduct(vel); for (int i = 0; i < 6; ++i) vel(i) = std::max(-sat(i), std::min(sat(i), vel(i)));
        Vector s; if (G.b()) f.w_dqSINNER_function(s, k); else s = f.m_w_dqSINNER.access(k);
        CHECK(nearm(s, vel, 1e-7), h.str() << ": velocity " << S(s) << " not " << S(vel));
        for (int i = 0; i < 6; ++i) CHECK(std::fabs(s(i)) <= sat(i), h.str() << ": saturation exceeded");
        f.m_w_dqSINNER.setConstant(s); Vector d; f.dqSOUT_function(d, k); f.m_w_dqSINNER.setFunction(boost::bind(&core::AdmittanceControlOpPoint::w_dqSINNER_function, &f, _1, _2));
        Vector w(6); w << O.linear().transpose() * (vel.head<3>() - Eigen::Vector3d(O.translation()).cross(Eigen::Vector3d(vel.tail<3>()))), O.linear().transpose() * vel.tail<3>();
        CHECK(nearm(d, w, 1e-7), h.str() << ": local velocity " << S(d) << " not " << S(w));
      }
    }
    G.count(h.str());
  }
}
