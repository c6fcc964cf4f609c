#include <dynamic-graph/all-signals.h>
#include "common.hpp"
#include <dynamic-graph/pool.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <sot/core/pool.hh>
#include <sot/core/task.hh>
#include <list>
#include <map>
#define private public
#define protected public
#include <sot/core/sot.hh>
#include "sot/sot-command.h"
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
struct FakeTask : TaskAbstract {
  FakeTask(const std::string &n) : TaskAbstract(n) {}
};
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::ostringstream h;
    ++cnt;
    {
      Sot st("sot" + std::to_string(cnt));
      std::vector<FakeTask *> tasks;
      for (int i = 0, n = G.n(1, 6); i < n; ++i) tasks.push_back(new FakeTask("t" + std::to_string(cnt) + "_" + std::to_string(i)));
      std::vector<TaskAbstract *> ref;
      std::map<TaskAbstract *, bool> dup;
      unsigned nb = 0;
      for (int step = 0, ns = G.n(1, 24); step < ns; ++step) {
        FakeTask &t = *tasks[G.u(tasks.size())];
        std::string nm = t.getName();
        long at = -1;
        for (size_t i = 0; i < ref.size() && at < 0; ++i) if (ref[i] == &t) at = (long)i;
        int op = (int)G.u(12);
        bool cmd = G.b();
        std::vector<dynamicgraph::command::Value> pv(1, dynamicgraph::command::Value(nm));
        h << " ;" << op << (cmd ? "c " : " ") << nm;
        if (op < 5) {
          bool thrown = false;
          if (op > 2 && at >= 0) continue;
          try {
            if (cmd) { sot::command::classSot::Push c(st, ""); c.setParameterValues(pv); c.execute(); } else st.push(t);
          } catch (const std::logic_error &) { thrown = true; }
          CHECK(thrown == (nb == 0), h.str() << ": push " << (thrown ? "refused" : "accepted") << " with size " << nb);
          if (!thrown) { if (at >= 0) dup[&t] = true; ref.push_back(&t); }
        } else if (op == 5) {
          if (ref.empty()) continue;
          TaskAbstract *w = ref.back();
          TaskAbstract &r = st.pop();
          CHECK(&r == w, h.str() << ": pop returned another task");
          ref.pop_back();
        } else if (op == 6) {
          bool r = st.exist(t);
          CHECK(r == (at >= 0), h.str() << ": membership answered " << r);
        } else if (op == 7) {
          if (cmd) { sot::command::classSot::Remove c(st, ""); c.setParameterValues(pv); c.execute(); } else st.remove(t);
          if (at >= 0) ref.erase(ref.begin() + at);
        } else if (op == 8) {
          if (cmd) { sot::command::classSot::Up c(st, ""); c.setParameterValues(pv); c.execute(); } else st.up(t);
          if (at > 0) std::swap(ref[(size_t)at], ref[(size_t)at - 1]);
        } else if (op == 9) {
          if (cmd) { sot::command::classSot::Down c(st, ""); c.setParameterValues(pv); c.execute(); } else st.down(t);
          if (at >= 0 && (size_t)at + 1 < ref.size()) std::swap(ref[(size_t)at], ref[(size_t)at + 1]);
        } else if (op == 10 && G.u(4) == 0) {
          if (cmd) { sot::command::classSot::Clear c(st, ""); c.execute(); } else st.clear();
          ref.clear(); dup.clear();
        } else if (op == 11) { nb = (unsigned)G.u(3) * 3; if (G.u(3)) nb = 6; st.defineNbDof(nb); }
        std::vector<TaskAbstract *> got(st.stack.begin(), st.stack.end());
        CHECK(got == ref, h.str() << ": the stack has " << got.size() << " tasks, " << ref.size() << " expected, or another order");
        CHECK(st.getNbDof() == nb && st.nbJoints == nb, h.str() << ": size " << st.getNbDof() << " instead of " << nb);
        for (FakeTask *x : tasks) {
          if (dup[x]) continue;
          bool in = false;
          for (TaskAbstract *y : ref) if (y == x) in = true;
          CHECK((st.controlSOUT.deps.count(&x->taskSOUT) > 0) == in && (st.controlSOUT.deps.count(&x->jacobianSOUT) > 0) == in, h.str() << ": the control " << (in ? "does not depend" : "depends") << " on the signals of " << x->getName());
        }
        if (G.u(4) == 0) {
          sot::command::classSot::List c(st, "");
          std::string want = "( ", s = c.execute().value();
          for (TaskAbstract *y : ref) want += "\"" + y->getName() + "\", ";
          want += ")";
          CHECK(s == want, h.str() << ": listed as " << s);
        }
      }
      for (FakeTask *x : tasks) delete x;
    }
    sot::PoolStorage::destroy();
    G.count(h.str());
  }
}
