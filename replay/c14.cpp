#include "common.hpp"
#include <list>
#include <dynamic-graph/all-commands.h>
#include <boost/function.hpp>
#define private public
#define protected public
#include <sot/core/exp-moving-avg.hh>
#include "matrix/fir-filter.cpp"
#undef SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN
#undef DECLARE_SPECIFICATION
#include "matrix/derivator.cpp"
#undef private
#undef protected
static int cnt = 0;
template <class T> struct K;
template <> struct K<double> { static double in(Gen &G, int, int) { return G.d(); } static double zero(int, int) { return 0; } static bool same(double a, double b) { return near(a, b); } static std::string s(double a) { return std::to_string(a); } };
template <> struct K<Vector> { static Vector in(Gen &G, int n, int) { return G.vec(n); } static Vector zero(int n, int) { return Vector::Zero(n); } static bool same(const Vector &a, const Vector &b) { return nearm(a, b); } static std::string s(const Vector &a) { return S(a); } };
template <> struct K<Matrix> { static Matrix in(Gen &G, int n, int m) { return G.mat(n, m); } static Matrix zero(int n, int m) { return Matrix::Zero(n, m); } static bool same(const Matrix &a, const Matrix &b) { return nearm(a, b); } static std::string s(const Matrix &a) { return S(a); } };
template <class S_, class C_> void fir(Gen &G, const char *nm) {
  FIRFilter<S_, C_> f(nm + std::to_string(++cnt)); int d = G.n(1, 4), n = 0; std::vector<C_> co; std::list<S_> past; S_ r = K<S_>::in(G, d, 1);
  std::ostringstream h; h << nm;
  for (int k = G.n(0, 25); k >= 0; --k) {
    if (!n || !G.u(12)) {
      n = G.n(1, 8); f.resizeBuffer(n); co.assign(n, C_()); past.clear(); h << " size " << n;
      CHECK((int)f.getBufferSize() == n, h.str() << ": reported size " << f.getBufferSize());
      for (int i = 0; i < n; ++i) { co[i] = K<C_>::in(G, d, d); f.setElement(i, co[i]); }
    } else if (!G.u(8)) { int i = G.i(0, n - 1); co[i] = K<C_>::in(G, d, d); f.setElement(i, co[i]); h << " set " << i; }
    for (int i = 0; i < n; ++i) CHECK(K<C_>::same(f.getElement(i), co[i]), h.str() << ": coefficient " << i);
    S_ x = K<S_>::in(G, d, 1); past.push_front(x); if ((int)past.size() > n) past.pop_back();
    h << " in " << K<S_>::s(x);
    S_ want = K<S_>::zero(d, 1); int i = 0; for (auto &p : past) want += co[i++] * p;
    f.SIN = x;
    if (G.b()) f.compute(r, k); else r = f.SOUT.access(1000 - k);
    CHECK(K<S_>::same(r, want), h.str() << ": output " << K<S_>::s(r) << " not " << K<S_>::s(want));
  }
  G.count(h.str());
}
template <class T> void der(Gen &G, const char *nm) {
  Derivator<T> f(nm + std::to_string(++cnt)); int d = G.n(1, 4), e = G.n(1, 4); T last, r = K<T>::in(G, 2, 2); double dt = 1; std::ostringstream h; h << nm;
  for (int k = 0; k < 6; ++k) {
    if (!G.u(3)) { dt = G.pos(); if (G.b()) f.timestepSIN = dt; else f.timestep = dt; h << " dt " << dt; }
    T x = K<T>::in(G, d, e), want = K<T>::zero(d, e); if (k) { want = x; want -= last; want *= 1 / dt; } last = x; f.SIN = x;
    h << " in " << K<T>::s(x);
    if (G.b()) f.computeDerivation(r, k); else r = f.SOUT.access(k);
    CHECK(K<T>::same(r, want), h.str() << ": output " << K<T>::s(r) << " not " << K<T>::s(want));
  }
  G.count(h.str());
}
void run(Gen &G) {
  while (G.more()) {
    fir<double, double>(G, "d"); fir<Vector, double>(G, "v"); fir<Vector, Matrix>(G, "m");
    der<double>(G, "dd"); der<Vector>(G, "dv"); der<Matrix>(G, "dm");
    {
      Derivator<VectorQuaternion> f("q" + std::to_string(++cnt)); VectorQuaternion last, r; double dt = G.b() ? 1 : G.pos(); f.timestep = dt;
      for (int k = 0; k < 4; ++k) {
        VectorQuaternion x(G.quat()); f.SIN = x; f.computeDerivation(r, k); Eigen::Vector4d w(0, 0, 0, 0); if (k) w = (x.coeffs() - last.coeffs()) / dt; last = x;
        CHECK(nearm(r.coeffs(), w), "derivative of quaternions " << S(r.coeffs()) << " not " << S(w));
      }
    }
    {
      detail::circular_buffer<double> b; std::list<double> l; size_t cap = 1; std::ostringstream h; h << "buffer";
      for (int k = G.n(0, 40); k >= 0; --k) {
        if (!G.u(10)) { cap = G.n(1, 7); b.reset_capacity(cap); l.clear(); h << " capacity " << cap; }
        else { double x = G.d(); b.push_front(x); l.push_front(x); if (l.size() > cap) l.pop_back(); h << " " << x; }
        CHECK(b.size() == l.size(), h.str() << ": size " << b.size()); size_t i = 0;
        for (double x : l) { CHECK(b[i] == x, h.str() << ": element " << i << " is " << b[i]); ++i; }
      }
      G.count(h.str());
    }
    {
      ExpMovingAvg f("e" + std::to_string(++cnt)); double a = 0; int d = G.n(1, 4); Vector av = Vector::Zero(d), r; std::ostringstream h; h << "average";
      for (int k = 0; k < 8; ++k) {
        if (!G.u(3)) { a = G.u(4) ? G.unif(0, 1) : G.i(0, 1); f.setAlpha(a); h << " alpha " << a; }
        Vector x = G.vec(d); f.updateSIN = x; av = a * av + (1 - a) * x; h << " in " << S(x);
        if (G.b()) f.update(r, k); else r = f.averageSOUT.access(k);
        CHECK(nearm(r, av), h.str() << ": " << S(r) << " not " << S(av));
      }
      G.count(h.str());
    }
  }
}
