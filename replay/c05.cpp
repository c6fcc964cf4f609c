#include "common.hpp"
#include <sot/core/flags.hh>
using dynamicgraph::sot::Flags;
typedef std::vector<bool> VB;
struct M { VB p; bool t; bool at(int i) const { return i < (int)p.size() ? p[i] : t; } };
static std::string show(const M &m) { std::string s; for (bool b : m.p) s += b ? '1' : '0'; return s + (m.t ? "(1)" : "(0)"); }
// build the flag set through the public operations only
static Flags mk(const M &m) {
  Flags f(m.t);
  for (bool b : m.p) f.add(b);
  return f;
}
static void same(const Flags &f, const M &m, const std::string &what) {
  int n = (int)m.p.size() + 3;
  for (int i = 0; i < n + 70; ++i) CHECK(f(i) == m.at(i), what << ": index " << i << " is " << f(i) << " expected " << m.at(i));
  bool any = m.t; for (bool b : m.p) any = any || b;
  CHECK((bool)f == any, what << ": operator bool is " << (bool)f << " expected " << any);
}
void run(Gen &G) {
  while (G.more()) {
    M a, b;
    int na = G.n(0, G.b() ? 5 : 140), nb = G.p(0.3) ? na : G.n(0, G.b() ? 5 : 140);
    double pa = G.p(0.2) ? 0 : G.p(0.2) ? 1 : 0.5, pb = G.p(0.2) ? 0 : G.p(0.2) ? 1 : 0.5;
    for (int i = 0; i < na; ++i) a.p.push_back(G.p(pa));
    for (int i = 0; i < nb; ++i) b.p.push_back(G.p(pb));
    a.t = G.b(); b.t = G.b();
    std::string in = show(a) + " " + show(b);
    G.count(in);
    Flags fa = mk(a), fb = mk(b);
    same(fa, a, in + " add"); same(fb, b, in + " add");
    int n = std::max(na, nb) + 2;
    M c; 
    c.p.clear(); for (int i = 0; i < n; ++i) c.p.push_back(a.at(i) && b.at(i)); c.t = a.t && b.t;
    same(fa & fb, c, in + " &");
    { Flags f(fa); Flags &r = (f &= fb); same(f, c, in + " &="); CHECK(&r == &f, in << " &= returns another object"); }
    c.p.clear(); for (int i = 0; i < n; ++i) c.p.push_back(a.at(i) || b.at(i)); c.t = a.t || b.t;
    same(fa | fb, c, in + " |");
    { Flags f(fa); f |= fb; same(f, c, in + " |="); }
    c.p.clear(); for (int i = 0; i < n; ++i) c.p.push_back(!a.at(i)); c.t = !a.t;
    same(!fa, c, in + " !");
    { Flags f(fa); f &= f; same(f, a, in + " &= itself"); f |= f; same(f, a, in + " |= itself"); }
    for (int k = 0; k < 6; ++k) {
      M d = a; Flags f(fa); unsigned idx = G.n(0, na + 2);
      bool v = G.b();
      if (v) f.set(idx); else f.unset(idx);
      if (idx < d.p.size()) d.p[idx] = v;
      same(f, d, in + (v ? " set " : " unset ") + std::to_string(idx));
    }
    same(fa, a, in + " operand after"); same(fb, b, in + " operand after");
    { VB v = a.p; Flags f(v); M d = a; d.t = false; same(f, d, in + " from vector"); }
    { std::string s; for (bool x : a.p) s += x ? '1' : '0'; Flags f(s.c_str()); M d = a; d.t = false; same(f, d, in + " from text");
      std::ostringstream os; os << f; CHECK(os.str() == s, in << " printed as " << os.str());
      std::string sp; for (char ch : s) { sp += ch; while (G.p(0.2)) sp += ' '; }
      std::istringstream is(sp); Flags g(G.b()); bool t0 = g(1000); g.add(true); is >> g;
      for (int i = 0; i < (int)s.size(); ++i) CHECK(g(i) == (s[i] == '1'), "read back '" << sp << "' index " << i);
      CHECK(g(1000) == t0, "reading changed the value beyond the prefix");
      char bad = "2ax-\t"[G.u(5)]; std::string sb = s; sb.insert(G.u(sb.size() + 1), 1, bad);
      bool th = false; try { Flags q(sb.c_str()); } catch (const std::invalid_argument &) { th = true; }
      CHECK(th, "text '" << sb << "' accepted"); }
  }
}
