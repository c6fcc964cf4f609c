#include "common.hpp"
#define private public
#define protected public
#include <sot/core/feature-abstract.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/feature-joint-limits.hh>
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-vector3.hh>
#undef private
#undef protected
#include <sot/core/pool.hh>
#include <sot/core/exception-feature.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
static Flags flags(Gen &G, int n, std::string &h) {
  Flags f(G.b());
  if (G.u(4) == 0) f = Flags(true);
  else for (int k = G.i(0, n + 2); k > 0; --k) f.add(G.b());
  std::ostringstream os; os << f << (f(100000) ? "1*" : "0*");
  h += " flags " + os.str();
  return f;
}
static std::vector<int> chosen(const Flags &f, int n) { std::vector<int> s; for (int i = 0; i < n; ++i) if (f(i)) s.push_back(i); return s; }
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    int n = G.n(0, 9), m = G.n(1, 6), t = G.i(0, 5);
    {
      std::string h = "generic n " + std::to_string(n);
      FeatureGeneric f("f" + id), r("r" + id);
      Flags fl = flags(G, n, h); std::vector<int> s = chosen(fl, n);
      f.selectionSIN = fl;
      Vector e = G.vec(n); Matrix J = G.mat(n, m);
      f.errorSIN = e; f.jacobianSIN = J;
      bool ref = G.b(), rate = G.b();
      int nd = G.u(3) ? n : G.i(0, n + 2), nr = G.u(3) ? n : G.i(0, n + 3);
      Vector d = G.vec(nd), dd = G.vec(nr);
      r.errorSIN = d; if (rate) r.errordotSIN = dd;
      if (ref) f.setReference(&r);
      h += " error " + S(e) + (ref ? " reference " + S(d) + (rate ? " rate " + S(dd) : "") : "");
      unsigned dim = 77; f.getDimension(dim, t);
      CHECK(dim == s.size(), h << ": dimension " << dim);
      bool bad = false, badr = false;
      for (int i : s) { if (i >= nd) bad = true; if (i >= nr) badr = true; }
      Vector y = G.vec(G.i(0, 3)); bool th = false;
      try { f.computeError(y, t); } catch (ExceptionFeature &) { th = true; }
      CHECK(th == (ref && bad), h << ": error " << (th ? "refused" : "accepted"));
      if (!th) {
        CHECK(y.size() == (int)s.size(), h << ": error of size " << y.size());
        for (size_t k = 0; k < s.size(); ++k) CHECK(near(y(k), e(s[k]) - (ref ? d(s[k]) : 0)), h << ": component " << k << " is " << y(k));
      }
      Matrix Y = G.mat(G.i(0, 2), G.i(0, 2));
      f.computeJacobian(Y, t);
      CHECK(Y.rows() == (int)s.size() && Y.cols() == m, h << ": Jacobian " << Y.rows() << "x" << Y.cols());
      for (size_t k = 0; k < s.size(); ++k) for (int j = 0; j < m; ++j) CHECK(near(Y(k, j), J(s[k], j)), h << ": Jacobian row " << k);
      y = G.vec(G.i(0, 3)); th = false;
      try { f.FeatureAbstract::computeErrorDot(y, t); } catch (ExceptionFeature &) { th = true; }
      CHECK(th == (ref && rate && badr), h << ": rate " << (th ? "refused" : "accepted"));
      if (!th) {
        CHECK(y.size() == (int)s.size(), h << ": rate of size " << y.size());
        for (size_t k = 0; k < s.size(); ++k) CHECK(near(y(k), ref && rate ? -dd(s[k]) : 0), h << ": rate component " << k << " is " << y(k));
      }
      f.getDimension(dim, t + 1);
      CHECK(dim == s.size(), h << ": later dimension " << dim);
      G.count(h);
    }
    {
      FeaturePosture f("p" + id); std::string h = "posture";
      std::vector<bool> act; int jr = 0, jc = 0;
      for (int k = G.i(1, 8), q = G.n(1, 8); k > 0; --k) {
        if (G.u(8) == 0) q = G.n(1, 8);
        int p = G.u(8) ? q : G.n(1, 8);
        Vector s = G.vec(q), po = G.vec(p), v = G.vec(p);
        f.state_ = s; f.posture_ = po; f.postureDot_ = v;
        unsigned dof = G.i(0, q); bool c = G.b(); if (G.u(3)) c = true;
        h += " sizes " + std::to_string(q) + "," + std::to_string(p) + (c ? " select " : " deselect ") + std::to_string(dof);
        bool th = false;
        try { f.selectDof(dof, c); } catch (std::exception &) { th = true; }
        CHECK(th == (p != q || (int)dof >= q), h << ": " << (th ? "refused" : "accepted"));
        if (!th) { if ((int)act.size() != q) act.assign(q, false); act[dof] = c; jc = q; }
        std::vector<int> sl; for (size_t i = 0; i < act.size(); ++i) if (act[i]) sl.push_back(i);
        unsigned dim = 77; f.getDimension(dim, t);
        CHECK(dim == sl.size(), h << ": dimension " << dim << " for " << sl.size() << " selected joints");
        const Matrix &J = f.jacobianSOUT.accessCopy();
        CHECK(J.rows() == (int)sl.size() && J.cols() == jc, h << ": Jacobian " << J.rows() << "x" << J.cols());
        for (size_t k = 0; k < sl.size(); ++k) for (int j = 0; j < jc; ++j) CHECK(J(k, j) == (j == sl[k] ? 1 : 0), h << ": Jacobian row " << k);
        if ((int)act.size() == q && p == q) {
          Vector y = G.vec(G.i(0, 3)); f.computeError(y, t);
          CHECK(y.size() == (int)sl.size(), h << ": error size " << y.size());
          for (size_t k = 0; k < sl.size(); ++k) CHECK(near(y(k), s(sl[k]) - po(sl[k])), h << ": error " << S(y));
          y = G.vec(G.i(0, 3)); f.computeErrorDot(y, t);
          CHECK(y.size() == (int)sl.size(), h << ": rate size " << y.size());
          for (size_t k = 0; k < sl.size(); ++k) CHECK(near(y(k), -v(sl[k])), h << ": rate " << S(y));
        }
      }
      (void)jr;
      G.count(h);
    }
    {
      std::string h = "joint limits n " + std::to_string(n);
      FeatureJointLimits f("l" + id);
      Flags fl = flags(G, n, h); std::vector<int> s = chosen(fl, n);
      Vector q = G.vec(n), u = G.vec(n), l = G.vec(n), w, y; Matrix J;
      for (int i = 0; i < n; ++i) if (G.u(3) == 0) u(i) = l(i) + (G.b() ? 1 : -1) * (G.b() ? 0.0005 : 0.002); else if (std::fabs(u(i) - l(i)) < 1e-9) u(i) = l(i) + 1;
      f.selectionSIN = fl; f.jointSIN = q; f.upperJlSIN = u; f.lowerJlSIN = l;
      h += " q " + S(q) + " upper " + S(u) + " lower " + S(l);
      unsigned dim = 77; f.getDimension(dim, t);
      CHECK(dim == s.size(), h << ": dimension " << dim);
      f.computeWidthJl(w, t);
      CHECK(nearm(w, Vector(u - l)), h << ": widths " << S(w));
      f.computeError(y, t); f.computeJacobian(J, t);
      CHECK(y.size() == (int)s.size() && J.rows() == (int)s.size() && J.cols() == n, h << ": sizes");
      for (size_t k = 0; k < s.size(); ++k) {
        int i = s[k]; double W = u(i) - l(i), e = 2 * (q(i) - l(i)) / W - 1;
        CHECK(std::fabs(y(k) - e) <= 1e-6 * (1 + std::fabs(e)), h << ": component " << k << " is " << y(k) << " expected " << e);
        for (int j = 0; j < n; ++j) { double v = j != i ? 0 : std::fabs(W) > 1e-3 ? 1 / W : 1; CHECK(std::fabs(J(k, j) - v) <= 1e-6 * (1 + std::fabs(v)), h << ": Jacobian(" << k << "," << j << ") is " << J(k, j)); }
      }
      G.count(h);
    }
    {
      Feature1D f("d" + id); Vector e = G.vec(n), y; Matrix J = G.mat(n, m), Y;
      f.errorSIN = e; f.jacobianSIN = J;
      unsigned dim = 77; f.getDimension(dim, t); f.computeError(y, t); f.computeJacobian(Y, t);
      std::string h = "scalar error " + S(e);
      CHECK(dim == 1 && y.size() == 1 && Y.rows() == 1 && Y.cols() == m, h << ": sizes");
      CHECK(near(y(0), e.squaredNorm() / 2), h << ": " << y(0));
      CHECK(nearm(Y, Matrix(e.transpose() * J)), h << ": Jacobian");
      G.count(h);
    }
    {
      FeatureVector3 f("v" + id); Vector v = G.vec(3), d = G.vec(3), y = G.vec(G.i(0, 4)); Matrix J = G.mat(6, m), Y;
      Eigen::Matrix3d R = G.rot(); MatrixHomogeneous M; M.setIdentity(); M.linear() = R; M.translation() = G.vec(3);
      f.vectorSIN = v; f.positionSIN = M; f.positionRefSIN = d; f.articularJacobianSIN = J;
      unsigned dim = 77; f.getDimension(dim, t); f.computeError(y, t); f.computeJacobian(Y, t);
      std::string h = "vector3 v " + S(v) + " ref " + S(d);
      CHECK(dim == 3 && Y.rows() == 3 && Y.cols() == m, h << ": sizes");
      CHECK(nearm(y, Vector(R * v - d)), h << ": error " << S(y));
      for (int j = 0; j < m; ++j) { Eigen::Vector3d w = J.col(j).tail<3>(); CHECK(nearm(Matrix(Y.col(j)), Matrix(R * w.cross(Eigen::Vector3d(v)))), h << ": Jacobian column " << j); }
      G.count(h);
    }
    sot::PoolStorage::destroy();
  }
}
