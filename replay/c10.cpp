#include "common.hpp"
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
static int cnt = 0, tick = 0;
template <class X> double at(X &g, const Vector &e) { g.errorSIN = e; return g.gainSOUT.access(++tick); }
static Vector dir(Gen &G, double n) { Vector v = Vector::Random(G.n(1, 7)); if (v.norm() < 1e-3) v(0) = 1; return v * (n / v.norm()); }
template <class X> void limits(Gen &G, X &g, const std::string &h, double v0, double vi, bool dec) {
  double lo = std::min(v0, vi), hi = std::max(v0, vi), eps = 1e-9 * (1 + std::fabs(v0) + std::fabs(vi));
  double n1 = G.unif(0, 4), n2 = n1 + G.unif(0, 4), a = at(g, dir(G, n1)), b = at(g, dir(G, n2));
  if (!dec) return;
  CHECK(a >= lo - eps && a <= hi + eps, h << ": gain " << a << " at error " << n1 << " outside its limits");
  CHECK(v0 >= vi ? a >= b - eps : a <= b + eps, h << ": gain " << a << " at " << n1 << ", " << b << " at " << n2);
}
void run(Gen &G) {
  while (G.more()) {
    std::string id = std::to_string(++cnt); std::ostringstream h; h.precision(17);
    double v0 = G.d(), vi = G.u(6) ? G.d() : v0, tg = G.d(), n = G.u(4) ? std::fabs(G.unif(0, 3)) : 0; Vector e = dir(G, n);
    auto base = G.u(3);
    {
      GainAdaptive *g;
      if (base == 0) g = new GainAdaptive("a" + id, v0, vi, tg); else { g = new GainAdaptive("a" + id); if (base == 1) g->init(G.d(), G.d(), G.d()); g->init(v0, vi, tg); }
      h.str(""); h << "adaptive " << v0 << " " << vi << " slope " << tg;
      double b = v0 == vi ? 0 : tg / (v0 - vi), w = (v0 - vi) * std::exp(-b * n) + vi, r = at(*g, e);
      CHECK(near(r, w, 1e-7), h.str() << ": " << r << " at error norm " << n << " not " << w);
      CHECK(near(at(*g, Vector::Zero(3)), v0), h.str() << ": not the prescribed value at zero");
      if (v0 != vi && std::fabs(b) < 100) { double s = (at(*g, dir(G, 1e-6)) - at(*g, Vector::Zero(2))) / 1e-6; CHECK(std::fabs(s + tg) < 1e-3 * (1 + std::fabs(tg) * (1 + std::fabs(b)) + std::fabs(v0) + std::fabs(vi)), h.str() << ": slope at zero " << s); }
      limits(G, *g, h.str(), v0, vi, tg * (v0 - vi) >= 0);
      if (v0 != vi && b > 1e-3 && b < 1e6) CHECK(near(at(*g, dir(G, 60 / b)), vi, 1e-7 * (1 + std::fabs(v0))), h.str() << ": not the prescribed value at infinity");
      double xr = G.pos(), p = G.unif(0.01, 0.99); if (G.b()) xr = G.unif(0.05, 3);
      g->initFromPassingPoint(v0, vi, xr, p); h.str(""); h << "adaptive " << v0 << " " << vi << " at " << xr << " percentage " << p;
      CHECK(near(at(*g, dir(G, xr)), vi + p * (v0 - vi), 1e-7 * (1 + std::fabs(v0) + std::fabs(vi))), h.str() << ": does not pass through the point");
      CHECK(near(at(*g, Vector::Zero(3)), v0), h.str() << ": not the prescribed value at zero");
      limits(G, *g, h.str(), v0, vi, true);
      g->forceConstant(); CHECK(near(at(*g, e), vi), h.str() << ": forced constant");
      g->init(v0); CHECK(near(at(*g, e), v0), "adaptive gain of value " << v0 << " is " << at(*g, e));
      g->init(); CHECK(near(at(*g, e), 0.1), "default gain");
      G.count(h.str()); delete g;
    }
    {
      GainHyperbolic *g; double d = G.unif(-1, 3);
      if (base == 0) g = new GainHyperbolic("h" + id, v0, vi, tg, d); else { g = new GainHyperbolic("h" + id); if (base == 1) g->init(G.d(), G.d(), G.d(), G.d()); g->init(v0, vi, tg, d); }
      h.str(""); h << "hyperbolic " << v0 << " " << vi << " slope " << tg << " shift " << d;
      double b = v0 == vi ? 0 : tg / (v0 - vi) / 2, w = (v0 - vi) * (std::tanh(-b * (n - d)) + 1) / 2 + vi, r = at(*g, e);
      CHECK(near(r, w, 1e-7), h.str() << ": " << r << " at error norm " << n << " not " << w);
      limits(G, *g, h.str(), v0, vi, tg * (v0 - vi) >= 0);
      g->forceConstant(); CHECK(near(at(*g, e), vi), h.str() << ": forced constant");
      g->init(v0); CHECK(near(at(*g, e), v0), "hyperbolic gain of value " << v0 << " is " << at(*g, e));
      g->init(); CHECK(near(at(*g, e), 0.1), "default gain");
      G.count(h.str()); delete g;
    }
  }
}
