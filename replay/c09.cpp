#include <dynamic-graph/all-signals.h>
#include "common.hpp"
#include <dynamic-graph/pool.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <sot/core/pool.hh>
#include <sot/core/task.hh>
#include <Eigen/SVD>
#include <list>
#include <map>
#define private public
#define protected public
#include <sot/core/sot.hh>
#include <sot/core/feature-posture.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
struct FakeTask : TaskAbstract {
  FakeTask(const std::string &n) : TaskAbstract(n) {}
};
static Matrix rnd(Gen &G, int r, int c) {
  Matrix m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = G.i(-4, 4) / 2.;
  return m;
}
static Vector rv(Gen &G, int r) { return rnd(G, r, 1); }
// projection on the null space left, and the increment, from an independent decomposition; false when the rank is not clear-cut
static bool reference(const Matrix &J, const Vector &e, double th, Matrix &P, const Vector &x, Vector &dx) {
  Eigen::JacobiSVD<Matrix> s(Matrix(J * P), Eigen::ComputeFullU | Eigen::ComputeFullV);
  Matrix pinv = Matrix::Zero(J.cols(), J.rows());
  for (int i = 0; i < s.singularValues().size(); ++i) {
    double v = s.singularValues()(i);
    if (v > 1e-9 && v < 1e-2) return false;
    if (v > th) pinv += s.matrixV().col(i) * s.matrixU().col(i).transpose() / v;
  }
  dx = P * (pinv * (e - J * x));
  P = P - pinv * (J * P);
  return true;
}
static bool close(const Vector &a, const Vector &b) { return a.size() == b.size() && (a - b).norm() <= 1e-6 * (1 + b.norm()); }
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt), h;
    {
      // references
      int n = G.i(0, 9), dbl = 0;
      VectorMultiBound v;
      for (int i = 0; i < n; ++i) { if (G.u(8) == 0) { v.push_back(MultiBound(G.d(), MultiBound::BOUND_SUP)); ++dbl; } else v.push_back(MultiBound(G.d())); }
      Vector r = G.vec(G.i(0, 12));
      bool thrown = false;
      try { Sot::taskVectorToMlVector(v, r); } catch (const ExceptionTask &) { thrown = true; }
      CHECK(thrown == (dbl > 0), "reference of " << n << " components, " << dbl << " double: " << (thrown ? "refused" : "accepted"));
      if (!thrown) {
        CHECK(r.size() == n, "reference of length " << n << " gives a vector of length " << r.size());
        for (int i = 0; i < n; ++i) CHECK(r(i) == v[i].getSingleBound(), "component " << i << " is " << r(i));
      }
    }
    {
      int nj = G.n(1, 8), nt = G.i(0, 4);
      Sot st("s" + id);
      std::vector<std::unique_ptr<TaskAbstract>> ts;
      st.defineNbDof(nj);
      for (int i = 0; i < nt; ++i) {
        std::string nm = "t" + id + "_" + std::to_string(i);
        ts.emplace_back(G.u(3) ? (TaskAbstract *)new FakeTask(nm) : new Task(nm));
        st.push(*ts.back());
      }
      Vector u = G.vec(G.i(0, 9));
      for (int step = 1, ns = G.i(1, 4); step <= ns; ++step) {
        if (G.u(6) == 0) { nj = G.n(1, 8); st.defineNbDof(nj); }
        h += " | joints " + std::to_string(nj);
        bool q0 = G.b(), wrong = q0 && G.u(10) == 0;
        Vector x = Vector::Zero(nj);
        st.q0SIN.unplug(); st.q0SIN.constant = false;
        if (q0) { x = rv(G, wrong ? nj + 1 : nj); st.q0SIN = x; h += " q0 " + S(x); }
        double lim = G.u(3) ? std::numeric_limits<double>::max() : G.i(0, 6) / 2.;
        st.maxControlIncrementSquaredNorm = lim;
        h += " limit " + std::to_string(lim);
        Matrix P = Matrix::Identity(nj, nj);
        bool clear = true; std::vector<Vector> want(1, x);
        for (auto &t : ts) {
          int d = G.n(1, 6);
          Matrix J = rnd(G, d, nj); Vector e = rv(G, d);
          VectorMultiBound v;
          for (int i = 0; i < d; ++i) v.push_back(MultiBound(e(i)));
          t->taskSOUT.setConstant(v); t->jacobianSOUT.setConstant(J);
          h += " task " + S(e) + " J " + S(Vector(Eigen::Map<Vector>(J.data(), J.size())));
          if (Task *tk = dynamic_cast<Task *>(t.get())) {
            // only some joints
            if (G.b()) tk->controlSelectionSIN = Flags(true);
            else {
              std::vector<bool> sel;
              for (int i = G.i(0, 9); i > 0; --i) sel.push_back(G.u(3) != 0);
              tk->controlSelectionSIN = Flags(sel);
              h += " selecting ";
              for (bool s : sel) h += s ? "1" : "0";
              for (int i = 0; i < nj; ++i) if (i >= (int)sel.size() || !sel[i]) J.col(i).setZero();
            }
          }
          if (wrong || !clear) continue;
          if (P.norm() < 1e-9) continue;
          Matrix P2 = P; Vector dx;
          clear = reference(J, e, 1e-4, P2, x, dx);
          if (clear && std::abs(dx.squaredNorm() - lim) < 1e-6) clear = false;
          if (clear && dx.squaredNorm() <= lim) { x += dx; P = P2; }
        }
        bool thrown = false;
        try { st.computeControlLaw(u, step); } catch (const std::logic_error &) { thrown = true; }
        CHECK(thrown == (wrong || (!q0 && nt == 0)), h << ": " << (thrown ? "refused" : "accepted") << " with " << nt << " tasks");
        if (!thrown && clear) CHECK(close(u, x), h << ": control " << S(u) << " expected " << S(x));
        G.count(h);
      }
    }
    {
      // a posture task on the last level, with the decomposition bypassed
      int m = G.n(1, 4), nj = 6 + m, nt = G.i(0, 2);
      Sot st("p" + id);
      st.defineNbDof(nj);
      st.enablePostureTaskAcceleration = G.b();
      std::vector<std::unique_ptr<FakeTask>> ts;
      Task po("q" + id);
      FeaturePosture fp("f" + id);
      po.addFeature(fp);
      Matrix P = Matrix::Identity(nj, nj), P2;
      Vector x = Vector::Zero(nj), dx, u = G.vec(G.i(0, 9));
      bool clear = true;
      h = "posture on " + std::to_string(m) + " joints";
      for (int i = 0; i < nt; ++i) {
        ts.emplace_back(new FakeTask("r" + id + "_" + std::to_string(i)));
        st.push(*ts.back());
        int d = G.n(1, 3);
        Matrix J = rnd(G, d, nj); Vector e = rv(G, d);
        VectorMultiBound v;
        for (int k = 0; k < d; ++k) v.push_back(MultiBound(e(k)));
        ts.back()->taskSOUT.setConstant(v); ts.back()->jacobianSOUT.setConstant(J);
        h += " task " + S(e) + " J " + S(Vector(Eigen::Map<Vector>(J.data(), J.size())));
        if (clear) { P2 = P; clear = reference(J, e, 1e-4, P2, x, dx); if (clear) { x += dx; P = P2; } }
      }
      st.push(po);
      Vector e = rv(G, m);
      VectorMultiBound v;
      for (int k = 0; k < m; ++k) v.push_back(MultiBound(e(k)));
      Matrix J = Matrix::Zero(m, nj); J.rightCols(m).setIdentity();
      po.taskSOUT.setConstant(v); po.jacobianSOUT.setConstant(J); fp.dimensionSOUT.setConstant((unsigned)m);
      h += " posture reference " + S(e) + (st.enablePostureTaskAcceleration ? " accelerated" : "");
      if (clear && st.enablePostureTaskAcceleration && nt) x += P * J.transpose() * (e - J * x);
      else if (clear) { P2 = P; clear = reference(J, e, 1e-4, P2, x, dx); if (clear) x += dx; }
      st.computeControlLaw(u, 1);
      if (clear) CHECK(close(u, x), h << ": control " << S(u) << " expected " << S(x));
      G.count(h);
    }
    sot::PoolStorage::destroy();
  }
}
