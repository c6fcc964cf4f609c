#include <dynamic-graph/all-signals.h>
#include "common.hpp"
#include <dynamic-graph/pool.h>
#include <dynamic-graph/entity.h>
#define private public
#define protected public
#include <sot/core/periodic-call.hh>
#include <sot/core/periodic-call-entity.hh>
#include <sot/core/exception-tools.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
struct Counted : SignalBase<int> {
  std::vector<int> at;
  virtual void recompute(const int &t) { at.push_back(t); }
};
void run(Gen &G) {
  static int cnt = 0;
  dynamicgraph::PoolStorage *pool = dynamicgraph::PoolStorage::getInstance();
  while (G.more()) {
    std::ostringstream h;
    PeriodicCallEntity e("pce" + std::to_string(++cnt));
    PeriodicCall plain, *p = G.b() ? &plain : static_cast<PeriodicCall *>(&e);
    bool ent = p != &plain;
    std::vector<Counted> sig(G.n(1, 5));
    std::map<std::string, std::pair<int, unsigned> > ref;   // name -> signal, factor
    pool->knownSignals.clear();
    for (int step = 0, ns = G.n(1, 14); step < ns; ++step) {
      std::string nm = std::string("s") + char('a' + G.u(5));
      int k = (int)G.u(sig.size());
      unsigned f = G.u(5) ? (unsigned)G.n(0, 6) : (G.b() ? 4294967295u : 2147483648u);
      std::map<std::string, PeriodicCall::SignalToCall> before = p->signalMap;
      pool->knownSignals[nm] = &sig[k];
      int op = (int)G.u(8);
      h << " ;" << op << " " << nm << " " << k << " " << f;
      if (op == 0) { p->addSignal(nm, sig[k]); ref[nm] = std::make_pair(k, 1u); }
      else if (op == 1) { p->addSignal(nm); ref[nm] = std::make_pair(k, 1u); }
      else if (op == 2 || op == 3) {
        bool threw = false;
        try { if (op == 2) p->addDownsampledSignal(nm, sig[k], f); else p->addDownsampledSignal(nm, f); }
        catch (const ExceptionTools &) { threw = true; }
        CHECK(threw == (f == 0), h.str() << ": factor " << f << (threw ? " refused" : " accepted"));
        if (!threw) ref[nm] = std::make_pair(k, f);
      }
      else if (op == 4) { p->rmSignal(nm); ref.erase(nm); }
      else if (op == 5 && G.u(3) == 0) { p->clear(); ref.clear(); }
      else {
        int t = G.u(4) ? G.n(0, 24) : (G.b() ? 2147483647 : G.i(0, 1000000)), way = (int)G.u(ent ? 4 : 2), d = 3;
        h << " t=" << t << " way " << way;
        for (size_t i = 0; i < sig.size(); ++i) sig[i].at.clear();
        if (way == 0) p->runSignals(t); else if (way == 1) p->run(t); else if (way == 2) e.triger.access(t); else e.trigerOnce.access(t);
        (void)d;
        std::vector<int> want(sig.size(), 0);
        for (auto &x : ref) if ((unsigned)t % x.second.second == 0) ++want[x.second.first];
        for (size_t i = 0; i < sig.size(); ++i) {
          CHECK((int)sig[i].at.size() == want[i], h.str() << ": signal " << i << " refreshed " << sig[i].at.size() << " times instead of " << want[i]);
          for (int x : sig[i].at) CHECK(x == t, h.str() << ": refreshed at " << x);
        }
        if (way == 3) ref.clear();
      }
      CHECK(p->signalMap.size() == ref.size(), h.str() << ": " << p->signalMap.size() << " entries instead of " << ref.size());
      for (auto &x : ref) {
        auto i = p->signalMap.find(x.first);
        CHECK(i != p->signalMap.end() && i->second.signal == &sig[x.second.first] && i->second.downsamplingFactor == x.second.second, h.str() << ": entry " << x.first << " is wrong");
      }
    }
    pool->knownSignals.clear();
    G.count(h.str());
  }
}
