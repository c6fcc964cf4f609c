#include "common.hpp"
#include <Eigen/LU>
#include <dynamic-graph/all-commands.h>
#define private public
#define protected public
#include <sot/core/kalman.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
static int cnt = 0;
static Matrix um(Gen &G, int r, int c) { Matrix m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = G.u(6) ? G.unif(-1.5, 1.5) : 0; return m; }
void run(Gen &G) {
  while (G.more()) {
    std::ostringstream h; h.precision(17);
    Kalman f("kf" + std::to_string(++cnt));
    int n = G.n(1, 5), m = G.n(1, 4);
    Vector x0 = um(G, n, 1), e, x; Matrix P0 = um(G, n, n), v, P; P0 = Matrix(P0 * P0.transpose());
    f.stateEstimation_ = x0; f.stateVariance_ = P0; if (G.b()) { f.setStateEstimation(x0); f.setStateVariance(P0); }
    h << " x0 " << S(x0) << " P0 " << S(P0);
    f.computeVarianceUpdate(v, 0); f.computeStateUpdate(e, 0); CHECK(v == P0 && e == x0, h.str() << ": at the initial instant " << S(e) << S(v));
    CHECK(f.stateEstimation_ == x0 && f.stateVariance_ == P0, h.str() << ": the initial state changed at the initial instant");
    P = P0; int steps = G.n(1, 5);
    for (int k = 1; k <= steps; ++k) {
      Matrix F = um(G, n, n), H = um(G, m, n), Q = um(G, n, n), R = um(G, m, m); R = Matrix(R * R.transpose() + Matrix::Identity(m, m)); if (G.b()) Q = Matrix(Q * Q.transpose());
      Vector xp = um(G, n, 1), yp = um(G, m, 1), y = um(G, m, 1);
      f.modelTransitionSIN = F; f.modelMeasureSIN = H; f.noiseTransitionSIN = Q; f.noiseMeasureSIN = R; f.statePredictedSIN = xp; f.observationPredictedSIN = yp; f.measureSIN = y;
      h << " F " << S(F) << " H " << S(H) << " Q " << S(Q) << " R " << S(R) << " xp " << S(xp) << " yp " << S(yp) << " y " << S(y);
      Matrix Pp = F * P * F.transpose() + Q, Sv = H * Pp * H.transpose() + R;
      if (std::fabs(Sv.determinant()) < 1e-3) break;
      Matrix K = Pp * H.transpose() * Sv.fullPivLu().inverse(), Pn = (Matrix::Identity(n, n) - K * H) * Pp;
      Vector w = xp + K * (y - yp);
      if (G.b()) { f.computeStateUpdate(e, k); CHECK(nearm(e, w, 1e-5), h.str() << ": estimate " << S(e) << " not " << S(w)); CHECK(nearm(f.stateEstimation_, e), h.str() << ": estimate not kept"); }
      else { Vector keep = f.stateEstimation_; f.computeVarianceUpdate(v, k); CHECK(nearm(v, Pn, 1e-5), h.str() << ": variance " << S(v) << " not " << S(Pn)); CHECK(f.stateEstimation_ == keep, h.str() << ": the estimate changed"); }
      CHECK(nearm(f.stateVariance_, Pn, 1e-5), h.str() << ": carried variance " << S(f.stateVariance_) << " not " << S(Pn));
      P = f.stateVariance_; if (P.cwiseAbs().maxCoeff() > 1e4) break;
    }
    G.count(h.str());
  }
}
