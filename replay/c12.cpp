#include "common.hpp"
#include "matrix/operator.hh"
#include <sot/core/matrix-constant.hh>
#include <sot/core/vector-constant.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
void run(Gen &G) {
  int cnt = 0;
  while (G.more()) {
    std::ostringstream h;
    int n = G.n(1, 9);
    Vector v = G.vec(n);
    auto rg = [&](int m, int &a, int &b) { a = G.i(0, m); b = G.i(a, m); };
    {
      VectorSelecter s; std::vector<double> w; h << "select";
      for (int k = 0, m = G.i(0, 4); k < m; ++k) {
        int a, b; rg(n, a, b);
        if (G.u(4) == 0) { s.setBounds(a, b); w.clear(); h << " set"; } else { s.addBounds(a, b); h << " add"; }
        for (int i = a; i < b; ++i) w.push_back(v(i));
        h << " [" << a << "," << b << "[";
      }
      Vector r = G.vec(G.i(0, 3)); s(v, r);
      CHECK(r.size() == (long)w.size(), h.str() << " of " << S(v) << " has length " << r.size());
      for (int i = 0; i < r.size(); ++i) CHECK(r(i) == w[i], h.str() << " of " << S(v) << " is " << S(r));
      G.count(h.str());
    }
    { VectorComponent c; int i = G.i(0, n - 1); double r = 0; c.setIndex(i); c(v, r); CHECK(r == v(i), "component " << i << " of " << S(v) << " is " << r); }
    int nr = G.n(1, 7), nc = G.n(1, 7);
    Matrix m = G.mat(nr, nc);
    {
      int a, b, c, d; rg(nr, a, b); rg(nc, c, d);
      MatrixSelector s; s.setBoundsRow(a, b); s.setBoundsCol(c, d);
      Matrix r = G.mat(G.i(0, 3), 2); s(m, r);
      CHECK(nearm(r, m.block(a, c, b - a, d - c), 0), "block [" << a << "," << b << "[x[" << c << "," << d << "[ of " << S(m) << " is " << S(r));
      MatrixColumnSelector k; int j = G.i(0, nc - 1); k.setBoundsRow(a, b); k.selectCol(j);
      Vector w; k(m, w);
      CHECK(nearm(w, m.block(a, j, b - a, 1), 0), "rows [" << a << "," << b << "[ of column " << j << " of " << S(m) << " is " << S(w));
      MatrixTranspose t; t(m, r); CHECK(nearm(r, m.transpose(), 0), "transpose of " << S(m) << " is " << S(r));
      Diagonalizer g; g(v, r);
      CHECK(r.rows() == n && r.cols() == n, "diagonal of " << S(v) << " is " << S(r));
      for (int i = 0; i < n; ++i) for (int l = 0; l < n; ++l) CHECK(r(i, l) == (i == l ? v(i) : 0), "diagonal of " << S(v) << " is " << S(r));
      { MatrixConstant k("k" + std::to_string(++cnt)); Matrix x = G.mat(nc, nr); k.setValue(m); CHECK(nearm(k.SOUT.access(1), m, 0), "matrix constant " << S(m)); k.setValue(x); CHECK(nearm(k.SOUT.access(2), x, 0), "matrix constant " << S(x)); }
      { VectorConstant k("l" + std::to_string(cnt)); k.setValue(v); CHECK(nearm(k.SOUT.access(1), v, 0), "vector constant " << S(v)); }
      G.count(S(m));
    }
    {
      Vector w = G.vec(G.n(1, 6)), r = G.vec(G.i(0, 3)), e; int a, b, c, d; rg(n, a, b); rg((int)w.size(), c, d);
      VectorStack s; s.selec1(a, b); s.selec2(c, d); s(v, w, r);
      e.resize(b - a + d - c); for (int i = 0; i < b - a; ++i) e(i) = v(a + i); for (int i = 0; i < d - c; ++i) e(b - a + i) = w(c + i);
      CHECK(nearm(r, e, 0), "stack [" << a << "," << b << "[ of " << S(v) << ", [" << c << "," << d << "[ of " << S(w) << " is " << S(r));
      G.count(S(w));
    }
    {
      VectorMix x; std::vector<Vector> in; std::vector<const Vector *> ps; in.push_back(v); Vector e = v; bool bad = false; h.str(""); h << "mix of " << S(v);
      std::vector<int> A, B;
      for (int k = 0, q = G.i(0, 4); k < q; ++k) {
        int a, b; rg(n, a, b); in.push_back(G.vec(b - a));
        if (G.u(12) == 0) { x.addSelec(20, a, b - a); bad = true; h << " unknown"; }
        else { x.addSelec(k + 1, a, b - a); if (!bad) for (int i = a; i < b; ++i) e(i) = in.back()(i - a); h << " [" << a << "," << b << "[ " << S(in.back()); }
      }
      for (size_t k = 0; k < in.size(); ++k) ps.push_back(&in[k]);
      Vector r = G.vec(G.i(0, 3)); bool thrown = false;
      try { x(ps, r); } catch (const std::invalid_argument &) { thrown = true; }
      CHECK(thrown == bad, h.str() << (thrown ? " refused" : " accepted"));
      if (!bad) CHECK(nearm(r, e, 0), h.str() << " is " << S(r));
      G.count(h.str());
    }
  }
}
