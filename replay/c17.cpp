#include "common.hpp"
#define protected public
#include <sot/core/latch.hh>
#undef protected
#include <sot/core/switch.hh>
#include <sot/core/binary-int-to-uint.hh>
#include "matrix/operator.hh"
using namespace dynamicgraph; using namespace dynamicgraph::sot;
template <class V> void sw(Gen &G, const std::string &id, std::vector<V> vals) {
  Switch<V, int> s("s" + id);
  int n = (int)vals.size();
  s.setSignalNumber(n);
  for (int i = 0; i < n; ++i) *s.getSignalIn(i) = vals[i];
  bool usesel = G.b(); int sel = G.i(-2, n + 2); bool b = G.b();
  if (usesel) s.selectionSIN = sel;
  if (!usesel || G.b()) s.boolSelectionSIN = b;
  int want = usesel ? sel : (b ? 1 : 0);
  std::ostringstream h; h << "switch of " << n << " inputs, " << (usesel ? "index " : "boolean ") << want;
  bool thrown = false; V r = V();
  try { r = s.SOUT.access(1); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown == (want < 0 || want >= n), h.str() << (thrown ? ": refused" : ": accepted"));
  if (!thrown) CHECK(r == vals[want], h.str() << ": wrong input");
  G.count(h.str());
}
template <int K> void boolop(Gen &G) {
  BoolOp<K> op;
  int n = G.n(1, 7); bool v[8]; std::vector<const bool *> in; std::string h = K ? "Or" : "And"; bool want = !K;
  for (int i = 0; i < n; ++i) { v[i] = K ? !G.u(4) : (bool)G.u(4); in.push_back(&v[i]); h += v[i] ? " 1" : " 0"; want = K ? (want || v[i]) : (want && v[i]); }
  bool r = G.b(); op(in, r);
  CHECK(r == want, h << " is " << r);
  G.count(h);
}
template <int K> void boolent(Gen &G, const std::string &id) {
  VariadicOp<BoolOp<K> > e("v" + id);
  int n = G.n(1, 5); bool want = !K; std::string h = K ? "Or entity" : "And entity";
  e.setSignalNumber(G.i(0, 5)); e.setSignalNumber(n);
  for (int i = 0; i < n; ++i) { bool v = K ? !G.u(4) : (bool)G.u(4); *e.getSignalIn(i) = v; h += v ? " 1" : " 0"; want = K ? (want || v) : (want && v); }
  bool r = e.SOUT.access(1);
  CHECK(r == want, h << " is " << r);
  G.count(h);
}
void run(Gen &G) {
  int cnt = 0;
  while (G.more()) {
    std::string id = std::to_string(++cnt);
    {
      Latch l("l" + id); bool st = false, r; std::string h = "latch";
      for (int k = G.i(0, 8); k >= 0; --k) {
        switch (G.u(4)) {
          case 0: l.turnOn(); st = true; h += " on"; break;
          case 1: l.turnOff(); st = false; h += " off"; break;
          case 2: r = G.b(); l.turnOnLatch(r, k); st = true; h += " onsig"; CHECK(r, h); break;
          case 3: r = G.b(); l.turnOffLatch(r, k); st = false; h += " offsig"; CHECK(!r, h); break;
        }
        if (G.b()) { r = G.b(); l.latchOutput(r, k); CHECK(r == st, h << ": output " << r); }
      }
      r = l.outSOUT.access(1); CHECK(r == st, h << ": output signal " << r);
      G.count(h);
    }
    {
      BinaryIntToUint b("b" + id); int x = G.u(3) ? G.i(-3, 3) : (int)G.g(); b.binaryIntSIN = x;
      unsigned r = (unsigned)G.u(5); b.computeOutput(r, 1);
      CHECK(r == (x < 0 ? 0u : 1u), "sign of " << x << " is " << r);
    }
    { std::vector<Vector> v; for (int k = G.n(0, 5); k > 0; --k) v.push_back(G.vec(G.i(0, 3))); sw<Vector>(G, id + "v", v); }
    { std::vector<bool> v; for (int k = G.n(0, 5); k > 0; --k) v.push_back(G.b()); sw<bool>(G, id + "b", v); }
    boolop<0>(G); boolop<1>(G);
    boolent<0>(G, id + "0"); boolent<1>(G, id + "1");
    {
      Comparison<double> c; double x = G.d(), y = G.u(3) ? G.d() : x; bool r = G.b(); c(x, y, r);
      CHECK(r == (x < y), x << " < " << y << " is " << r);
      MatrixComparison<Vector> m; CHECK(m.any && !m.equal, "default comparison");
      m.any = G.b(); m.equal = G.b(); int n = G.n(0, 5);
      Vector a = G.vec(n), b = G.vec(n); for (int i = 0; i < n; ++i) { int q = (int)G.u(4); if (q == 0) b(i) = a(i); else if (q == 1) a(i) = b(i) - 1; }
      bool w = !m.any;
      for (int i = 0; i < n; ++i) { bool p = m.equal ? a(i) <= b(i) : a(i) < b(i); w = m.any ? (w || p) : (w && p); }
      r = G.b(); m(a, b, r);
      CHECK(r == w, "comparison any " << m.any << " equal " << m.equal << " of " << S(a) << " and " << S(b) << " is " << r);
      G.count(S(a) + S(b));
    }
    sot::PoolStorage::destroy();
  }
}
