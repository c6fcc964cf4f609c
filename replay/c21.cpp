#include "common.hpp"
#include <boost/function.hpp>
#include <dynamic-graph/all-commands.h>
#define private public
#define protected public
#include <sot/core/flags.hh>
#include <sot/core/gripper-control.hh>
#include <sot/core/joint-limitator.hh>
#include <sot/core/neck-limitation.hh>
#undef private
#undef protected
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
static int cnt = 0;
void run(Gen &G) {
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    {
      JointLimitator f("jl" + id); int n = G.n(0, 12), nq = n + (G.b() ? 0 : G.n(0, 8)); Vector q = G.vec(nq), u = G.vec(n), up(nq), lo(nq);
      for (int i = 0; i < nq; ++i) {
        double w = std::fabs(G.d()); lo(i) = q(i) - w; up(i) = q(i) + std::fabs(G.d());
        int k = i - (nq - n); if (k < 0) continue;
        switch (G.u(5)) { case 0: up(i) = q(i) + u(k) * 0.005; break; case 1: lo(i) = q(i) + u(k) * 0.005; break; case 2: up(i) = q(i) + u(k) * 0.005 * G.unif(0.9, 1.1); break; case 3: u(k) = (G.b() ? up(i) - q(i) : lo(i) - q(i)) / 0.005 * G.unif(0.9, 1.1); }
      }
      f.jointSIN = q; f.controlSIN = u; f.upperJlSIN = up; f.lowerJlSIN = lo;
      Vector y = G.vec(G.n(0, 5)); if (G.b()) f.computeControl(y, 1); else y = f.controlSOUT.access(1);
      std::ostringstream h; h.precision(17); h << "limitator q " << S(q) << " u " << S(u) << " up " << S(up) << " lo " << S(lo);
      CHECK(y.size() == n, h.str() << ": size " << y.size());
      for (int i = 0; i < n; ++i) { int k = i + nq - n; double nx = q(k) + u(i) * 0.005; bool ok = k < 6 || (nx < up(k) && nx > lo(k)); CHECK(y(i) == (ok ? u(i) : 0), h.str() << ": joint " << i << " gives " << y(i)); }
      Vector w; f.computeWidthJl(w, 1); CHECK(nearm(w, up - lo), h.str() << ": width " << S(w));
      G.count(h.str());
    }
    {
      NeckLimitation f("nl" + id); int n = G.n(16, 20); Vector q = G.vec(n), y;
      const double L = -25. / 42., B = 0.6981;
      q(14) = G.u(5) ? G.unif(-1.5, 1.5) : (G.b() ? 1 : -1) * G.unif(0, 2e-3); double l0 = std::fabs(q(14)) < 1e-3 ? B : B + L * std::fabs(q(14)); q(15) = G.b() ? G.unif(-1, 1) : l0 + (G.u(4) ? G.unif(-1e-3, 1e-3) : 0);
      f.jointSIN = q; if (G.b()) f.computeJointLimitation(y, 1); else y = f.jointSOUT.access(1);
      Vector w = q; w(15) = std::min(q(15), l0);
      CHECK(nearm(y, w), "neck " << S(q) << ": " << S(y) << " not " << S(w));
      G.count("neck " + S(q));
    }
    {
      GripperControlPlugin f("gc" + id); double off = 0.9; Vector fac; std::ostringstream h; h.precision(17); h << "gripper"; int n = G.n(0, 6);
      CHECK(f.factor.size() == 0 && f.offset > 0 && f.offset < 1, h.str() << ": initial state");
      for (int k = 0; k < 10; ++k) {
        if (!G.u(4)) { double x = G.u(3) ? G.unif(0, 1) : G.unif(-1, 3); bool th = false; try { f.setOffset(x); } catch (const std::invalid_argument &) { th = true; } CHECK(th == !(x > 0 && x < 1), h.str() << ": offset " << x); if (!th) off = x; h << " offset " << x; }
        if (!G.u(6)) n = G.n(0, 6);
        Vector q = G.vec(n), d = q, tq, tl(n), r = G.vec(G.n(0, 4));
        for (int i = 0; i < n; ++i) { d(i) += G.u(4) ? G.unif(-1, 1) : 0; tl(i) = G.u(5) ? std::fabs(G.d()) : -1; }
        if (G.u(5)) { tq.resize(n); for (int i = 0; i < n; ++i) switch (G.u(4)) { case 0: tq(i) = tl(i); break; case 1: tq(i) = -tl(i); break; case 2: tq(i) = tl(i) * G.unif(-1.2, 1.2); break; default: tq(i) = G.d(); } }
        Vector v = (d - q) * (1. / 0.005);
        if (fac.size() != n) fac = Vector::Ones(n);
        if (tq.size()) for (int i = 0; i < n; ++i) { bool over = (tq(i) > tl(i) && v(i) > 0) || (tq(i) < -tl(i) && v(i) < 0); fac(i) = over ? fac(i) * off : std::min(1., fac(i) / off); }
        h << " q " << S(q) << " d " << S(d) << " tq " << S(tq) << " tl " << S(tl);
        f.computeDesiredPosition(q, d, tq, tl, r);
        CHECK(nearm(f.factor, fac), h.str() << ": factors " << S(f.factor) << " not " << S(fac));
        Vector want(n); for (int i = 0; i < n; ++i) want(i) = q(i) + fac(i) * (d(i) - q(i));
        CHECK(nearm(r, want), h.str() << ": position " << S(r) << " not " << S(want));
      }
      G.count(h.str());
    }
    {
      int n = G.n(0, 12); Vector v = G.vec(n), r = G.vec(G.n(0, 4)); Flags fl(G.b()); std::vector<double> w; std::ostringstream h; h << "selector " << S(v);
      for (int i = 0; i < n; ++i) if (G.b()) { if (G.b()) fl.set(i); else fl.unset(i); }
      for (int i = 0; i < n; ++i) if (fl(i)) { w.push_back(v(i)); h << " " << i; }
      GripperControl::selector(v, fl, r);
      CHECK(nearm(r, Eigen::Map<Vector>(w.data(), w.size())), h.str() << ": " << S(r));
      G.count(h.str());
    }
  }
}
