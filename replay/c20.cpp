#include "common.hpp"
#include <sot/core/multi-bound.hh>
using namespace dynamicgraph::sot;
struct M { bool d; double s; bool is, ss; double i, u; };
static std::string show(const M &m) {
  std::ostringstream os; os.precision(17);
  if (!m.d) os << "single " << m.s; else { os << "double "; if (m.is) os << m.i; else os << "--"; os << ","; if (m.ss) os << m.u; else os << "--"; }
  return os.str();
}
template <class F> static bool throws(F f) { try { f(); } catch (const ExceptionTask &) { return true; } return false; }
static void same(const MultiBound &b, const M &m, const std::string &w) {
  CHECK(b.getMode() == (m.d ? MultiBound::MODE_DOUBLE : MultiBound::MODE_SINGLE), w << ": mode is wrong, expected " << show(m));
  if (!m.d) {
    CHECK(b.getSingleBound() == m.s, w << ": single bound " << b.getSingleBound() << " expected " << show(m));
    CHECK(throws([&] { b.getDoubleBound(MultiBound::BOUND_INF); }), w << ": lower bound of a single bound");
    CHECK(throws([&] { b.getDoubleBound(MultiBound::BOUND_SUP); }), w << ": upper bound of a single bound");
    CHECK(throws([&] { b.getDoubleBoundSetup(MultiBound::BOUND_INF); }), w << ": setup query of a single bound");
    CHECK(throws([&] { b.getDoubleBoundSetup(MultiBound::BOUND_SUP); }), w << ": setup query of a single bound");
  } else {
    CHECK(throws([&] { b.getSingleBound(); }), w << ": single value of a double bound");
    CHECK(b.getDoubleBoundSetup(MultiBound::BOUND_INF) == m.is, w << ": lower setup, expected " << show(m));
    CHECK(b.getDoubleBoundSetup(MultiBound::BOUND_SUP) == m.ss, w << ": upper setup, expected " << show(m));
    if (m.is) CHECK(b.getDoubleBound(MultiBound::BOUND_INF) == m.i, w << ": lower is " << b.getDoubleBound(MultiBound::BOUND_INF) << " expected " << show(m));
    else CHECK(throws([&] { b.getDoubleBound(MultiBound::BOUND_INF); }), w << ": unset lower bound returned");
    if (m.ss) CHECK(b.getDoubleBound(MultiBound::BOUND_SUP) == m.u, w << ": upper is " << b.getDoubleBound(MultiBound::BOUND_SUP) << " expected " << show(m));
    else CHECK(throws([&] { b.getDoubleBound(MultiBound::BOUND_SUP); }), w << ": unset upper bound returned");
  }
}
static MultiBound mk(Gen &G, M &m) {
  double x = G.d(), y = G.d();
  switch (G.u(5)) {
    case 0: m = M{false, x, false, false, 0, 0}; return MultiBound(x);
    case 1: m = M{true, 0, true, true, x, y}; return MultiBound(x, y);
    case 2: m = M{true, 0, true, false, x, 0}; return MultiBound(x, MultiBound::BOUND_INF);
    case 3: m = M{true, 0, false, true, 0, x}; return MultiBound(x, MultiBound::BOUND_SUP);
    default: m = M{false, 0, false, false, 0, 0}; return MultiBound();
  }
}
void run(Gen &G) {
  while (G.more()) {
    M m; MultiBound b = mk(G, m);
    std::string h = show(m);
    same(b, m, h);
    for (int k = G.i(0, 8); k > 0; --k) {
      double x = G.d();
      auto fresh = [&] { if (!m.d) m = M{true, 0, false, false, 0, 0}; };
      switch (G.u(6)) {
        case 0: b.setSingleBound(x); m = M{false, x, false, false, 0, 0}; h += "; setSingle " + std::to_string(x); break;
        case 1: b.setDoubleBound(MultiBound::BOUND_INF, x); fresh(); m.is = true; m.i = x; h += "; setInf " + std::to_string(x); break;
        case 2: b.setDoubleBound(MultiBound::BOUND_SUP, x); fresh(); m.ss = true; m.u = x; h += "; setSup " + std::to_string(x); break;
        case 3: b.unsetDoubleBound(MultiBound::BOUND_INF); fresh(); m.is = false; h += "; unsetInf"; break;
        case 4: b.unsetDoubleBound(MultiBound::BOUND_SUP); fresh(); m.ss = false; h += "; unsetSup"; break;
        default: { MultiBound c(b); same(c, m, h + "; copy"); b = c; }
      }
      same(b, m, h);
    }
    G.count(h);
    // text round trip (values printed by the stream's precision)
    std::ostringstream os; os.precision(17); os << b;
    { std::istringstream is(os.str()); M q; MultiBound c = mk(G, q); is >> c; same(c, m, "read back of '" + os.str() + "'"); }
    // malformed text of a double bound raises the task exception
    if (m.d) {
      std::string s = os.str(); size_t p = G.b() ? s.find(',') : s.size() - 1; s[p] = ';';
      std::istringstream is(s); MultiBound c;
      CHECK(throws([&] { is >> c; }), "malformed text '" << s << "' accepted");
    }
    VectorMultiBound v; std::vector<M> vm;
    for (int k = G.i(1, 5); k > 0; --k) { M q; v.push_back(mk(G, q)); vm.push_back(q); }
    std::ostringstream ov; ov.precision(17); ov << v;
    { std::istringstream is(ov.str()); VectorMultiBound w(G.i(0, 3)); is >> w;
      CHECK(w.size() == v.size(), "vector size after reading back " << ov.str());
      for (size_t k = 0; k < w.size(); ++k) same(w[k], vm[k], "read back of " + ov.str()); }
  }
}
