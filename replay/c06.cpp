#include "common.hpp"
#include <sot/core/task.hh>
#include <sot/core/pool.hh>
#include <sot/core/exception-task.hh>
using namespace dynamicgraph; using namespace dynamicgraph::sot;
struct F : FeatureAbstract {
  Vector e, de; Matrix J;
  F(const std::string &n) : FeatureAbstract(n) {}
  unsigned int &getDimension(unsigned int &d, int) { return d = (unsigned)e.size(); }
  Vector &computeError(Vector &r, int) { return r = e; }
  Matrix &computeJacobian(Matrix &r, int) { return r = J; }
  Vector &computeErrorDot(Vector &r, int) { return r = de; }
  void setReference(FeatureAbstract *) {}
  const FeatureAbstract *getReferenceAbstract() const { return NULL; }
  FeatureAbstract *getReferenceAbstract() { return NULL; }
  void addDependenciesFromReference() {}
  void removeDependenciesFromReference() {}
};
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    Task t("t" + id);
    std::vector<std::unique_ptr<F>> fs;
    Vector re = G.b() ? Vector(0) : G.vec(G.i(0, 30)), rd = G.vec(G.i(0, 9));
    Matrix rj = Matrix::Random(G.i(0, 20), G.i(0, 6));
    std::string h = "buffers " + std::to_string(re.size()) + " " + std::to_string(rd.size()) + " " + std::to_string(rj.rows()) + "x" + std::to_string(rj.cols());
    for (int step = G.i(1, 5); step > 0; --step) {
      if (G.u(6) == 0) { t.clearFeatureList(); fs.clear(); h += " clear"; }
      else for (int k = G.i(0, 3); k > 0; --k) {
        fs.emplace_back(new F("f" + id + "_" + std::to_string(step) + "_" + std::to_string(k)));
        t.addFeature(*fs.back());
      }
      int cols = G.n(1, 6), off = 0, rows = 0; bool same = true;
      for (auto &f : fs) {
        int n = G.u(6) == 0 ? G.i(0, 40) : G.i(0, 6), c = G.u(12) == 0 ? G.n(1, 6) : cols;
        f->e = G.vec(n); f->de = G.vec(n); f->J = Matrix(n, c);
        for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) f->J(i, j) = G.d();
        if (c != fs[0]->J.cols()) same = false;
        rows += n;
        f->errorSOUT.setConstant(f->e); f->errordotSOUT.setConstant(f->de); f->jacobianSOUT.setConstant(f->J);
        h += " feature " + std::to_string(n) + "x" + std::to_string(c);
      }
      bool thrown = false;
      try { t.computeError(re, 1); } catch (const sot::ExceptionAbstract &) { thrown = true; }
      CHECK(thrown == fs.empty(), h << ": error " << (thrown ? "refused" : "accepted"));
      bool thrownj = false;
      try { t.computeJacobian(rj, 1); } catch (const sot::ExceptionAbstract &) { thrownj = true; }
      CHECK(thrownj == (fs.empty() || !same), h << ": Jacobian " << (thrownj ? "refused" : "accepted"));
      if (thrown) continue;
      CHECK(re.size() == rows, h << ": error of length " << re.size() << " expected " << rows);
      t.errorSOUT.setConstant(re);
      t.computeErrorTimeDerivative(rd, 1);
      CHECK(rd.size() == rows, h << ": rate of length " << rd.size() << " expected " << rows);
      if (!thrownj) CHECK(rj.rows() == rows && rj.cols() == fs[0]->J.cols(), h << ": Jacobian " << rj.rows() << "x" << rj.cols());
      for (auto &f : fs) {
        int n = (int)f->e.size();
        CHECK(Vector(re.segment(off, n)) == f->e, h << ": error at " << off << " is " << S(Vector(re.segment(off, n))) << " expected " << S(f->e));
        CHECK(Vector(rd.segment(off, n)) == f->de, h << ": rate at " << off << " is " << S(Vector(rd.segment(off, n))) << " expected " << S(f->de));
        if (!thrownj) CHECK(Matrix(rj.middleRows(off, n)) == f->J, h << ": Jacobian rows at " << off);
        off += n;
      }
      G.count(h);
    }
    t.clearFeatureList();
    sot::PoolStorage::destroy();
  }
}
