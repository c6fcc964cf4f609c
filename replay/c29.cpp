#include "common.hpp"
#include <list>
#include <dynamic-graph/all-commands.h>
#include <boost/function.hpp>
#define private public
#define protected public
#include "matrix/integrator-euler.cpp"
#undef private
#undef protected
static int cnt = 0;
template <class T> struct K;
template <> struct K<double> { static double in(Gen &G, int, int) { return G.unif(-3, 3); } static double one(int) { return 1; } static bool same(double a, double b) { return near(a, b, 1e-7); } static std::string s(double a) { return std::to_string(a); } };
template <> struct K<Vector> { static Vector in(Gen &G, int n, int) { Vector v(n); for (int i = 0; i < n; ++i) v[i] = G.unif(-3, 3); return v; } static bool same(const Vector &a, const Vector &b) { return nearm(a, b, 1e-7); } static std::string s(const Vector &a) { return S(a); } };
template <> struct K<Matrix> { static Matrix in(Gen &G, int n, int m) { Matrix v(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = G.unif(-2, 2); return v; } static Matrix one(int n) { return Matrix::Identity(n, n); } static std::string s(const Matrix &a) { return S(a); } };
template <class S_, class C_> void integ(Gen &G, const char *nm) {
  IntegratorEuler<S_, C_> f(nm + std::to_string(++cnt)); int d = G.n(1, 4); std::ostringstream h; h.precision(17); h << nm;
  int p = G.n(0, 4), m = G.n(0, 4); double dt = G.b() ? 0.005 : G.unif(0.01, 1.5);
  if (G.b() || dt != 0.005) f.setSamplingPeriod(dt);
  h << " dt " << dt;
  CHECK(f.getSamplingPeriod() == dt, h.str() << ": period " << f.getSamplingPeriod());
  std::vector<C_> num, den;
  for (int i = 0; i < m; ++i) { num.push_back(K<C_>::in(G, d, d)); f.pushNumCoef(num.back()); h << " b " << K<C_>::s(num.back()); }
  for (int i = 0; i + 1 < p; ++i) { den.push_back(K<C_>::in(G, d, d)); f.pushDenomCoef(den.back()); h << " a " << K<C_>::s(den.back()); }
  bool id = G.u(6) != 0;
  if (p) { C_ x = K<C_>::one(d); if (!id) { if (G.b()) x *= G.b() ? 2 : -1; else x = K<C_>::in(G, d, d); } den.push_back(x); f.pushDenomCoef(x); h << " a " << K<C_>::s(x); }
  S_ x0 = K<S_>::in(G, d, 1), r; f.SIN = x0; h << " x " << K<S_>::s(x0);
  bool thrown = false;
  try { f.initialize(); } catch (const dynamicgraph::ExceptionSignal &) { thrown = true; }
  CHECK(thrown == (!p || !m || !id), h.str() << (thrown ? ": initialisation refused" : ": initialisation accepted"));
  G.count(h.str());
  if (thrown) return;
  if (p > 1 && G.b()) { // the derivative signal before any step
  }
  std::vector<S_> dx(m, x0), y(p, x0);
  for (int k = 0; k < 12; ++k) {
    S_ x = K<S_>::in(G, d, 1); f.SIN = x; h << " x " << K<S_>::s(x);
    std::vector<S_> nd(m, x);
    for (int i = 1; i < m; ++i) nd[i] = (nd[i - 1] - dx[i - 1]) * (1 / dt);
    dx = nd;
    S_ top = num[0] * dx[0];
    for (int i = 1; i < m; ++i) top += num[i] * dx[i];
    for (int i = 0; i + 1 < p; ++i) top -= den[i] * y[i];
    y[p - 1] = top;
    for (int i = p - 2; i >= 0; --i) y[i] = y[i] + dt * y[i + 1];
    int how = G.u(3);
    if (how == 0) f.integrate(r, k);
    else if (how == 1 || p < 2) r = f.SOUT.access(k);
    else {
      S_ dd; f.derivative(dd, k); r = f.outputMemory[0];
      CHECK(K<S_>::same(dd, y[1]), h.str() << ": derivative " << K<S_>::s(dd) << " not " << K<S_>::s(y[1]));
    }
    CHECK(K<S_>::same(r, y[0]), h.str() << ": output " << K<S_>::s(r) << " not " << K<S_>::s(y[0]));
    if (p < 2) {
      bool t = false; S_ dd; try { f.derivative(dd, k); } catch (const dynamicgraph::ExceptionSignal &) { t = true; }
      CHECK(t, h.str() << ": derivative accepted without one");
    }
  }
}
void run(Gen &G) {
  while (G.more()) { integ<double, double>(G, "d"); integ<Vector, double>(G, "v"); integ<Vector, Matrix>(G, "m"); }
}
