#include <dynamic-graph/all-signals.h>
#include "common.hpp"
#include <dynamic-graph/pool.h>
#include <dynamic-graph/entity.h>
#include <sot/core/pool.hh>
#include <list>
#include <map>
#define private public
#define protected public
#include "tools/sequencer.cpp"
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
struct Ev : Sequencer::sotEventAbstract {
  int id; std::vector<int> *log; std::vector<int> *dead; Sot **seen;
  Ev(const std::string &n, int ty, int i, std::vector<int> *l, std::vector<int> *d, Sot **s) : sotEventAbstract(n), id(i), log(l), dead(d), seen(s) { eventType = ty; }
  ~Ev() { dead->push_back(id); }
  virtual void operator()(Sot *s) { log->push_back(id); *seen = s; }
};
struct FakeTask : TaskAbstract {
  std::string nm;
  FakeTask(const std::string &n) : TaskAbstract(n), nm(n) {}
  virtual VectorMultiBound &dummy(VectorMultiBound &v, int) { return v; }
};
void run(Gen &G) {
  static int cnt = 0;
  while (G.more()) {
    std::ostringstream h;
    void *mem = ::operator new(sizeof(Sequencer));
    memset(mem, 0x5a, sizeof(Sequencer));
    Sequencer *q = new (mem) Sequencer("seq" + std::to_string(++cnt));
    std::vector<int> log, dead;
    Sot *seen = NULL, *sot = NULL;
    CHECK(q->sotPtr == NULL, "the stack pointer of a new sequencer is not null");
    std::map<unsigned, std::vector<Ev *> > ref;
    std::vector<Ev *> all;
    int start = -1; bool play = false, dup = false;
    for (int step = 0, ns = G.n(1, 16); step < ns; ++step) {
      unsigned t = (unsigned)G.n(0, 5);
      int op = (int)G.u(10), ty = (int)G.u(3);
      std::string nm = std::string("e") + char('a' + G.u(2));
      h << " ;" << op << " t" << t << " " << ty << nm;
      if (op < 4) {
        Ev *e;
        if (!all.empty() && G.u(5) == 0) { e = all[G.u(all.size())]; dup = true; h << " again " << e->id; }
        else { e = new Ev(nm, ty, (int)all.size(), &log, &dead, &seen); all.push_back(e); }
        q->addTask(e, t); ref[t].push_back(e);
      } else if (op == 4 || op == 5) {
        if (!all.empty() && G.b()) { Ev *e = all[G.u(all.size())]; nm = e->getName(); ty = e->getEventType(); h << " -> " << ty << nm; }
        q->rmTask(ty, nm, t);
        if (ref.count(t)) {
          std::vector<Ev *> &v = ref[t];
          for (size_t i = 0; i < v.size(); ++i) if (v[i]->getEventType() == ty && v[i]->getName() == nm) { v.erase(v.begin() + (long)i); break; }
          if (v.empty()) ref.erase(t);
        }
      } else if (op == 6 && !dup && G.u(3) == 0) {
        size_t nref = 0, d0 = dead.size();
        for (auto &x : ref) nref += x.second.size();
        q->clearAll();
        CHECK(dead.size() - d0 == nref, h.str() << ": clearing deleted " << dead.size() - d0 << " events of " << nref);
        ref.clear(); all.clear();
      } else if (op == 7) { play = G.b(); q->playMode = play; h << " play " << play; }
      else if (op == 8) { sot = G.b() ? reinterpret_cast<Sot *>(0x1000) : NULL; q->setSotRef(sot); }
      else {
        int now = G.n(0, 12);
        h << " now " << now;
        log.clear(); seen = sot;
        q->triggerSOUT.access(now);
        std::vector<int> want;
        if (play) {
          if (start == -1) start = now;
          if (now >= start && ref.count((unsigned)(now - start))) for (Ev *e : ref[(unsigned)(now - start)]) want.push_back(e->id);
        }
        CHECK(log == want, h.str() << ": " << log.size() << " events fired instead of " << want.size() << ", or in another order");
        CHECK(seen == sot, h.str() << ": fired on another stack");
      }
      CHECK(q->timeInit == start, h.str() << ": start " << q->timeInit << " instead of " << start);
      CHECK(q->taskMap.size() == ref.size(), h.str() << ": " << q->taskMap.size() << " instants instead of " << ref.size());
      for (auto &x : ref) {
        auto i = q->taskMap.find(x.first);
        CHECK(i != q->taskMap.end() && i->second.size() == x.second.size(), h.str() << ": instant " << x.first << " has other events");
        size_t k = 0;
        for (auto *e : i->second) CHECK(e == x.second[k++], h.str() << ": instant " << x.first << " has other events");
      }
    }
    q->taskMap.clear();
    q->~Sequencer(); ::operator delete(mem);
    { // the events that act on the stack
      FakeTask t1("tk" + std::to_string(cnt)), t2("tl" + std::to_string(cnt));
      Sot st("sot" + std::to_string(cnt));
      st.defineNbDof(3);
      FakeTask *tp = G.u(4) ? (G.b() ? &t1 : &t2) : NULL;
      Sot *s = G.u(4) ? &st : NULL;
      sotEventAddATask a("n", tp); sotEventRemoveATask r("n", tp);
      std::vector<TaskAbstract *> ref;
      if (G.b()) { st.push(t1); ref.push_back(&t1); }
      if (G.b()) { st.push(t2); ref.push_back(&t2); }
      bool add = G.b();
      if (add) { a(s); if (tp && s) ref.push_back(tp); }
      else { r(s); if (tp && s) for (size_t i = 0; i < ref.size(); ++i) if (ref[i] == tp) { ref.erase(ref.begin() + (long)i); break; } }
      CHECK(std::vector<TaskAbstract *>(st.stack.begin(), st.stack.end()) == ref, (add ? "the add event does not push its task" : "the removal event does not remove its task"));
    }
    sot::PoolStorage::destroy();
    G.count(h.str());
  }
}
