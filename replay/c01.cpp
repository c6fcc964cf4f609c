#define NO_DG
#include "common.hpp"
#include <deque>
#include <sot/core/causal-filter.hh>
using dynamicgraph::sot::CausalFilter;
typedef Eigen::VectorXd V;
static V coef(Gen &G, int n, bool lead) {
  V v(n);
  do { for (int i = 0; i < n; ++i) v(i) = G.i(-8, 8) / 4. + (G.b() ? 0.1 : 0); if (lead) v(0) = G.b() ? 1. : 2.; } while (std::fabs(v.sum()) < 0.2 || (lead && n > 1 && v.tail(n - 1).cwiseAbs().sum() > 1.9));
  return v;
}
void run(Gen &G) {
  while (G.more()) {
    int d = G.n(1, 4), m = G.n(1, 6), n = G.n(1, 6);
    double dt = G.b() ? 1e-3 : G.pos();
    auto den = [&](int k) { V v; int t = 0; do { v = coef(G, k, true); } while (++t < 50 && std::fabs(v.sum()) < 0.2); return v; };
    auto aden = [&](int k) { V v = V::Zero(k); v(0) = G.b() ? 1 : -2; for (int i = 1; i < k; ++i) v(i) = G.unif(-1, 1) * 1.5 / k; return v; };
    V b = coef(G, m, false), a = aden(n);
    std::ostringstream h; h << "dim " << d << " dt " << dt << " b " << S(b) << " a " << S(a);
    CausalFilter f(dt, d, b, a);
    std::deque<V> u, y;  // most recent first
    bool first = true;
    auto steady = [&](const V &x) {
      u.clear(); y.clear();
      V s = x * b.sum() / a.sum();
      for (int i = 0; i < b.size() + 1; ++i) u.push_back(x);
      for (int i = 0; i < a.size() + 2; ++i) y.push_back(s);
    };
    for (int k = G.i(1, 25); k > 0; --k) {
      if (G.u(8) == 0) {
        V b2 = coef(G, G.n(1, 6), false), a2 = aden(G.n(1, 6));
        f.switch_filter(b2, a2); b = b2; a = a2;
        h << "; switch " << S(b) << " " << S(a);
        if (!first) { V x = u[0]; steady(x); }
        continue;
      }
      V x = G.vec(d);
      h << "; " << S(x);
      if (first) { steady(x); first = false; }
      u.push_front(x); 
      V want = V::Zero(d);
      for (int i = 0; i < b.size(); ++i) want += b(i) * u[i];
      for (int j = 1; j < a.size(); ++j) want -= a(j) * y[j - 1];
      want /= a(0);
      V out(3 * d); out.setConstant(1234.5);
      f.get_x_dx_ddx(x, out);
      CHECK(out.size() == 3 * d, h.str() << ": size of the result");
      V dx = (want - y[0]) / dt, ddx = (want - 2 * y[0] + y[1]) / dt / dt;
      double sc = 1 + want.cwiseAbs().maxCoeff() + y[0].cwiseAbs().maxCoeff() + y[1].cwiseAbs().maxCoeff() + u[0].cwiseAbs().maxCoeff();
      for (int r = 0; r < d; ++r) {
        CHECK(std::fabs(out(r) - want(r)) <= 1e-8 * sc * 100, h.str() << ": output " << out(r) << " expected " << want(r));
        CHECK(std::fabs(out(d + r) - dx(r)) <= 1e-7 * sc * 100 / dt, h.str() << ": first derivative " << out(d + r) << " expected " << dx(r));
        CHECK(std::fabs(out(2 * d + r) - ddx(r)) <= 1e-7 * sc * 100 / dt / dt, h.str() << ": second derivative " << out(2 * d + r) << " expected " << ddx(r));
      }
      y.push_front(out.head(d));
    }
    G.count(h.str());
  }
}
