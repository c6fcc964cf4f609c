#include "common.hpp"
#include "matrix/operator.hh"
using namespace dynamicgraph; using namespace dynamicgraph::sot;
static int cnt = 0;
template <class T> T gen(Gen &G, int r, int c);
template <> double gen<double>(Gen &G, int, int) { return G.d(); }
template <> Vector gen<Vector>(Gen &G, int r, int) { return G.vec(r); }
template <> Matrix gen<Matrix>(Gen &G, int r, int c) { return G.mat(r, c); }
static Matrix M_(double x) { Matrix m(1, 1); m(0, 0) = x; return m; }
static Matrix M_(const Matrix &m) { return m; }
static Matrix M_(const MatrixHomogeneous &m) { return m.matrix(); }
static Matrix M_(const VectorQuaternion &q) { return q.coeffs(); }
template <class T> void linear(Gen &G) {
  int r = G.n(1, 7), c = G.n(1, 7);
  T a = gen<T>(G, r, c), b = gen<T>(G, r, c), w = gen<T>(G, G.i(0, 3), 2);
  Substraction<T> s; s(a, b, w);
  CHECK(nearm(M_(w), M_(a) - M_(b)), S(M_(a)) << " minus " << S(M_(b)) << " is " << S(M_(w)));
  { T x = a; s(x, b, x); CHECK(nearm(M_(x), M_(a) - M_(b)), "in place difference"); }
  {
    BinaryOp<Substraction<T> > e("b" + std::to_string(++cnt)); e.SIN1 = a; e.SIN2 = b;
    CHECK(nearm(M_(e.SOUT.access(1)), M_(a) - M_(b)), "difference entity of " << S(M_(a)) << " and " << S(M_(b)) << " gives " << S(M_(e.SOUT.access(1))));
  }
  WeightedAdder<T> wa; wa.gain1 = G.d(); wa.gain2 = G.d(); w = gen<T>(G, G.i(0, 3), 2); wa(a, b, w);
  CHECK(nearm(M_(w), wa.gain1 * M_(a) + wa.gain2 * M_(b)), wa.gain1 << " " << S(M_(a)) << " + " << wa.gain2 << " " << S(M_(b)) << " is " << S(M_(w)));
  int n = G.n(1, 6);
  VariadicOp<AdderVariadic<T> > e("a" + std::to_string(cnt)); std::vector<T> in;
  e.setSignalNumber(G.i(0, 6)); if (G.b()) { Vector k = G.vec(e.getSignalNumber()); e.op.setCoeffs(k); } e.setSignalNumber(n);
  Vector k = Vector::Ones(n);
  bool bad = false;
  if (G.b()) { Vector q = G.vec(G.u(3) ? n : G.i(0, 7)); try { e.op.setCoeffs(q); k = q; } catch (const std::invalid_argument &) { bad = true; } CHECK(bad == (q.size() != n), q.size() << " coefficients for " << n << " operands " << (bad ? "refused" : "accepted")); }
  if (!bad || k.size() == n) {
    Matrix want = Matrix::Zero(M_(a).rows(), M_(a).cols()); std::ostringstream h; h << "sum";
    for (int i = 0; i < n; ++i) { in.push_back(gen<T>(G, r, c)); *e.getSignalIn(i) = in[i]; want += k(i) * M_(in[i]); h << " " << k(i) << "*" << S(M_(in[i])); }
    Matrix got = M_(e.SOUT.access(1));
    CHECK(nearm(got, want), h.str() << " is " << S(got));
    G.count(h.str());
  }
}
template <class T> void prod(Gen &G, std::vector<T> in, T r, Matrix want) {
  Multiplier<T> m; std::vector<const T *> ps; std::ostringstream h; h << "product";
  for (auto &x : in) { ps.push_back(&x); h << " " << S(M_(x)); }
  m(ps, r);
  double sc = 1 + want.cwiseAbs().maxCoeff();
  CHECK(M_(r).rows() == want.rows() && M_(r).cols() == want.cols() && nearm(M_(r) / sc, want / sc), h.str() << " is " << S(M_(r)));
  G.count(h.str());
}
template <class T, class F> void fxe(Gen &G, const F &f, const Vector &e, const Vector &want) {
  Multiplier_FxE__E<F, Vector> m; Vector r = G.vec(G.i(0, 3)); m(f, e, r);
  CHECK(nearm(r, want), S(M_(f)) << " times " << S(e) << " is " << S(r));
}
void run(Gen &G) {
  while (G.more()) {
    linear<double>(G); linear<Vector>(G); linear<Matrix>(G);
    int n = G.i(0, 6);
    { std::vector<double> v; double w = 1; for (int i = 0; i < n; ++i) { v.push_back(G.d()); w *= v[i]; } prod<double>(G, v, G.d(), M_(w)); }
    if (n) { int m = G.n(1, 6); std::vector<Vector> v; Vector w = Vector::Ones(m); for (int i = 0; i < n; ++i) { v.push_back(G.vec(m)); w = w.cwiseProduct(v[i]); } prod<Vector>(G, v, G.vec(G.i(0, 3)), w); }
    { std::vector<Matrix> v; int a = G.n(1, 5); Matrix w = Matrix::Identity(a, a), r0 = n ? G.mat(2, 1) : G.mat(a, a); int p = a; for (int i = 0; i < n; ++i) { int q = G.n(1, 5); v.push_back(G.mat(p, q)); w = (i ? Matrix(w * v[i]) : v[i]); p = q; } prod<Matrix>(G, v, r0, w); }
    { std::vector<MatrixRotation> v; Matrix w = Matrix::Identity(3, 3); for (int i = 0; i < n; ++i) { v.push_back(G.rot()); w = w * v[i]; } prod<MatrixRotation>(G, v, MatrixRotation(G.rot()), w); }
    { std::vector<MatrixTwist> v; Matrix w = Matrix::Identity(6, 6); for (int i = 0; i < n; ++i) { v.push_back(G.mat(6, 6)); w = w * v[i]; } prod<MatrixTwist>(G, v, MatrixTwist(G.mat(6, 6)), w); }
    { std::vector<MatrixHomogeneous, Eigen::aligned_allocator<MatrixHomogeneous> > v; Matrix w = Matrix::Identity(4, 4);
      std::vector<MatrixHomogeneous> u; for (int i = 0; i < n; ++i) { MatrixHomogeneous h; h.linear() = G.rot(); h.translation() = G.vec(3); h.makeAffine(); u.push_back(h); w = w * h.matrix(); }
      MatrixHomogeneous r; r.linear() = G.rot(); r.translation() = G.vec(3); r.makeAffine(); prod<MatrixHomogeneous>(G, u, r, w); }
    { std::vector<VectorQuaternion> v; Eigen::Quaterniond w(1, 0, 0, 0); for (int i = 0; i < n; ++i) { v.push_back(VectorQuaternion(G.quat())); const VectorQuaternion &b = v[i];
        w = Eigen::Quaterniond(w.w() * b.w() - w.x() * b.x() - w.y() * b.y() - w.z() * b.z(), w.w() * b.x() + w.x() * b.w() + w.y() * b.z() - w.z() * b.y(),
                               w.w() * b.y() + w.y() * b.w() + w.z() * b.x() - w.x() * b.z(), w.w() * b.z() + w.z() * b.w() + w.x() * b.y() - w.y() * b.x()); }
      prod<VectorQuaternion>(G, v, VectorQuaternion(G.quat()), w.coeffs()); }
    {
      int r = G.n(1, 6), c = G.n(1, 6); Vector e = G.vec(c), w(r); Matrix m = G.mat(r, c);
      for (int i = 0; i < r; ++i) { w(i) = 0; for (int j = 0; j < c; ++j) w(i) += m(i, j) * e(j); }
      fxe<int, Matrix>(G, m, e, w);
      double x = G.d(); fxe<int, double>(G, x, e, x * e);
      Vector e6 = G.vec(6); MatrixTwist t(G.mat(6, 6)); fxe<int, MatrixTwist>(G, t, e6, Matrix(t) * e6);
      Vector e4 = G.vec(4); MatrixHomogeneous h; h.linear() = G.rot(); h.translation() = G.vec(3); h.makeAffine(); fxe<int, MatrixHomogeneous>(G, h, e4, h.matrix() * e4);
      Normalize nn; double q = 0, s = 0; nn(e, q); for (int j = 0; j < c; ++j) s += e(j) * e(j);
      CHECK(near(q, std::sqrt(s)), "norm of " << S(e) << " is " << q);
      Composer k; MatrixHomogeneous o; o.setIdentity(); Matrix R = G.rot(); Vector tt = G.vec(3); k(R, tt, o);
      Matrix W = Matrix::Identity(4, 4); W.topLeftCorner(3, 3) = R; W.topRightCorner(3, 1) = tt;
      CHECK(nearm(o.matrix(), W, 0), "composition of " << S(R) << " and " << S(tt) << " is " << S(o.matrix()));
      G.count(S(m));
    }
    {
      ConvolutionTemporal t; int d = G.n(1, 5); std::vector<Vector> hist; std::ostringstream h; h << "convolution of " << d << " signals";
      int fixed = G.b() ? G.n(1, 6) : 0;
      for (int s = G.n(1, 12); s > 0; --s) {
        Vector v = G.vec(d); int w = fixed ? fixed : G.n(1, 6); Matrix m = G.mat(d, w); hist.insert(hist.begin(), v);
        while ((int)hist.size() > w) hist.pop_back();  // a narrower kernel shortens the memory for good
        Vector r = G.vec(G.i(0, 3)), want = Vector::Zero(d); t(v, m, r);
        for (int j = 0; j < (int)hist.size(); ++j) for (int i = 0; i < d; ++i) want(i) += m(i, j) * hist[j](i);
        h << " | " << S(v) << " kernel " << S(m);
        CHECK(nearm(r, want), h.str() << " gives " << S(r) << " not " << S(want));
      }
      G.count(h.str());
    }
  }
}
