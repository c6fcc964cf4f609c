#include "common.hpp"
#include <sot/core/task.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-pd.hh>
#include <sot/core/task-unilateral.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
struct F : FeatureAbstract {
  Vector e, de; Matrix J;
  F(const std::string &n) : FeatureAbstract(n) {}
  unsigned int &getDimension(unsigned int &d, int) { return d = (unsigned)e.size(); }
  Vector &computeError(Vector &r, int) { return r = e; }
  Matrix &computeJacobian(Matrix &r, int) { return r = J; }
  Vector &computeErrorDot(Vector &r, int) { return r = de; }
  void setReference(FeatureAbstract *) {}
  const FeatureAbstract *getReferenceAbstract() const { return NULL; }
  FeatureAbstract *getReferenceAbstract() { return NULL; }
  void addDependenciesFromReference() {}
  void removeDependenciesFromReference() {}
};
static VectorMultiBound old(Gen &G) {
  VectorMultiBound v;
  for (int k = G.i(0, 4); k > 0; --k) v.push_back(G.b() ? MultiBound(G.d()) : MultiBound(G.d(), G.d()));
  return v;
}
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    int n = G.n(1, 9);
    {
      bool pd = G.b();
      F f("f" + id); Task t0("a" + id); TaskPD t1("b" + id); Task &t = pd ? (Task &)t1 : t0;
      t.addFeature(f);
      bool wd = G.b(); t.setWithDerivative(wd);
      VectorMultiBound r = old(G);
      Vector prev(0), fd(G.i(0, 3)); double beta = G.d();
      if (pd && G.u(4)) { t1.beta = beta; } else beta = 1;
      std::string h = std::string(pd ? "TaskPD" : "Task") + (wd ? " with derivative" : "") + " beta " + std::to_string(beta);
      for (int k = 1; k <= G.i(1, 4); ++k) {
        if (G.u(5) == 0) n = G.n(1, 9);
        f.e = G.vec(n); f.de = G.vec(n);
        double g = G.d(); t.controlGainSIN = g;
        Vector ed = prev.size() == n ? Vector(f.e - prev) : Vector(Vector::Zero(n));
        h += " e " + S(f.e) + " de " + S(f.de) + " gain " + std::to_string(g);
        if (pd) {
          t1.errorSOUT.setConstant(f.e); t1.errorTimeDerivativeSOUT.setConstant(f.de);
          t1.computeErrorDot(fd, k);
          CHECK(nearm(fd, ed), h << ": error rate " << S(fd) << " expected " << S(ed));
          t1.errorDotSOUT.setConstant(fd);
          t1.computeTaskModif(r, k);
        } else {
          t.errorSOUT.setConstant(f.e); t.errorTimeDerivativeSOUT.setConstant(f.de);
          t.computeTaskExponentialDecrease(r, k);
        }
        CHECK((int)r.size() == n, h << ": length " << r.size());
        for (int i = 0; i < n; ++i) {
          double w = -g * f.e(i) - (wd ? f.de(i) : 0) - (pd ? beta * ed(i) : 0);
          CHECK(r[i].getMode() == MultiBound::MODE_SINGLE && near(r[i].getSingleBound(), w), h << ": component " << i << " is " << r[i] << " expected " << w);
        }
        prev = f.e;
      }
      G.count(h);
    }
    {
      TaskUnilateral u("u" + id);
      Vector p = G.vec(n), lo = G.vec(n), hi = G.vec(n); double dt = G.pos();
      u.positionSIN = p; u.referenceInfSIN = lo; u.referenceSupSIN = hi; u.dtSIN = dt;
      VectorMultiBound r = old(G);
      u.computeTaskUnilateral(r, 1);
      std::string h = "TaskUnilateral p " + S(p) + " inf " + S(lo) + " sup " + S(hi) + " dt " + std::to_string(dt);
      CHECK((int)r.size() == n, h << ": length " << r.size());
      for (int i = 0; i < n; ++i)
        CHECK(r[i].getMode() == MultiBound::MODE_DOUBLE && near(r[i].getDoubleBound(MultiBound::BOUND_INF), (lo(i) - p(i)) / dt) && near(r[i].getDoubleBound(MultiBound::BOUND_SUP), (hi(i) - p(i)) / dt),
              h << ": component " << i << " is " << r[i]);
      G.count(h);
    }
    sot::PoolStorage::destroy();
  }
}
