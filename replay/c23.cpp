#include "common.hpp"
#include <map>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-abstract.hh>
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
struct Tk : TaskAbstract {
  dynamicgraph::SignalTimeDependent<Vector, int> c;
  Tk(const std::string &n) : TaskAbstract(n) {}
  void display(std::ostream &) const {}
};
struct Ft : FeatureAbstract {
  Ft(const std::string &n) : FeatureAbstract(n) {}
  unsigned int &getDimension(unsigned int &d, int) { return d = 0; }
  Vector &computeError(Vector &r, int) { return r; }
  Matrix &computeJacobian(Matrix &r, int) { return r; }
  void addDependenciesFromReference() {}
  void removeDependenciesFromReference() {}
  void setReference(FeatureAbstract *) {}
  void unsetReference() {}
  const FeatureAbstract *getReferenceAbstract() const { return 0; }
  FeatureAbstract *getReferenceAbstract() { return 0; }
  bool isReferenceSet() const { return false; }
};
void run(Gen &G) {
  while (G.more()) {
    sot::PoolStorage::destroy();
    sot::PoolStorage *P = sot::PoolStorage::getInstance();
    CHECK(P && P == sot::PoolStorage::getInstance(), "the instance changes between two calls");
    std::map<std::string, TaskAbstract *> ts; std::map<std::string, FeatureAbstract *> fs;
    std::vector<TaskAbstract *> at; std::vector<FeatureAbstract *> af;
    std::vector<std::string> names; for (int i = G.n(1, 6); i > 0; --i) names.push_back(G.u(4) ? G.str(4) : G.str(60));
    std::ostringstream h;
    for (int k = G.n(1, 30); k > 0; --k) {
      const std::string &n = names[G.u(names.size())];
      int op = G.u(6); h << " " << op << ":" << n;
      if (op == 0) { bool dup = ts.count(n), th = false; Tk *t = 0; try { t = new Tk(n); ts[n] = t; at.push_back(t); } catch (sot::ExceptionFactory &e) { th = true; CHECK(e.getCode() == sot::ExceptionFactory::OBJECT_CONFLICT, h.str() << ": code " << e.getCode()); }
        CHECK(th == dup, h.str() << ": a task named twice"); }
      if (op == 1) { bool dup = fs.count(n), th = false; Ft *t = 0; try { t = new Ft(n); fs[n] = t; af.push_back(t); } catch (sot::ExceptionFactory &e) { th = true; CHECK(e.getCode() == sot::ExceptionFactory::OBJECT_CONFLICT, h.str() << ": code " << e.getCode()); }
        CHECK(th == dup, h.str() << ": a feature named twice"); }
      if (op == 2 && !at.empty()) { TaskAbstract *t = at[G.u(at.size())]; bool dup = ts.count(n), th = false; try { P->registerTask(n, t); ts[n] = t; } catch (sot::ExceptionFactory &e) { th = true; }
        CHECK(th == dup, h.str() << ": registerTask"); }
      if (op == 3 && !af.empty()) { FeatureAbstract *t = af[G.u(af.size())]; bool dup = fs.count(n), th = false; try { P->registerFeature(n, t); fs[n] = t; } catch (sot::ExceptionFactory &e) { th = true; }
        CHECK(th == dup, h.str() << ": registerFeature"); }
      for (auto &m : names) {
        TaskAbstract *t = 0; try { t = &P->getTask(m); } catch (sot::ExceptionFactory &e) { CHECK(e.getCode() == sot::ExceptionFactory::UNREFERED_OBJECT, h.str() << ": code " << e.getCode()); }
        CHECK(t == (ts.count(m) ? ts[m] : 0), h.str() << ": task " << m);
        FeatureAbstract *f = 0; try { f = &P->getFeature(m); } catch (sot::ExceptionFactory &e) { CHECK(e.getCode() == sot::ExceptionFactory::UNREFERED_OBJECT, h.str() << ": code " << e.getCode()); }
        CHECK(f == (fs.count(m) ? fs[m] : 0), h.str() << ": feature " << m);
      }
    }
    G.count(h.str());
    for (auto t : at) delete t;
    for (auto t : af) delete t;
  }
}
