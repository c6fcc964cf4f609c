// Shared by the replay drivers: seeded generation, oracles report with FAIL.
#ifndef VERIF_REPLAY_COMMON
#define VERIF_REPLAY_COMMON
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>
#ifndef NO_DG
#include <dynamic-graph/linear-algebra.h>
#endif

struct Fail { std::string msg; };
struct Gen {
  std::mt19937_64 g;
  std::vector<double> dict;
  std::vector<long> idict;
  long evals = 0, distinct = 0;
  std::set<size_t> seen;
  std::vector<std::string> samples;
  std::set<std::string> known, hit;
  std::chrono::steady_clock::time_point end;
  bool more() { return std::chrono::steady_clock::now() < end; }
  unsigned long u(unsigned long n) { return n ? g() % n : 0; }
  int i(int a, int b) { return a + (int)u((unsigned long)(b - a + 1)); }
  bool b() { return g() & 1; }
  bool p(double x) { return std::uniform_real_distribution<double>(0, 1)(g) < x; }
  double unif(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
  // mixture: source literals, small integers, dyadic numbers, uniform
  double d() {
    switch (u(6)) {
      case 0: if (!dict.empty()) return dict[u(dict.size())] * (b() ? 1 : -1);  // fallthrough
      case 1: return (double)i(-4, 4);
      case 2: return (double)i(-64, 64) / 16.;
      case 3: return unif(-1e3, 1e3);
      default: return unif(-3, 3);
    }
  }
  double pos() { double x; do x = std::fabs(d()); while (x < 1e-3); return x; }
  int n(int lo, int hi) {
    if (!idict.empty() && u(5) == 0) { long x = idict[u(idict.size())] + i(-1, 1); if (x >= lo && x <= hi) return (int)x; }
    return i(lo, hi);
  }
  Eigen::VectorXd vec(int m) { Eigen::VectorXd v(m); for (int k = 0; k < m; ++k) v(k) = d(); return v; }
  Eigen::MatrixXd mat(int r, int c) { Eigen::MatrixXd v(r, c); for (int k = 0; k < r; ++k) for (int l = 0; l < c; ++l) v(k, l) = d(); return v; }
  Eigen::Quaterniond quat() {
    Eigen::Quaterniond q(unif(-1, 1), unif(-1, 1), unif(-1, 1), unif(-1, 1));
    if (q.norm() < 1e-2) q = Eigen::Quaterniond(1, 0, 0, 0);
    q.normalize();
    return q;
  }
  Eigen::Matrix3d rot() { return quat().toRotationMatrix(); }
  std::string str(int maxlen = 12) {
    int m = (int)u(maxlen + 1); std::string s;
    for (int k = 0; k < m; ++k) s += (char)i(33, 126);
    return s;
  }
  void count(const std::string &sample) {
    ++evals;
    size_t h = std::hash<std::string>()(sample);
    if (seen.size() < 200000 && seen.insert(h).second) { ++distinct; if (samples.size() < 3) samples.push_back(sample); }
  }
};
#define FAIL(x) do { std::ostringstream os_; os_.precision(17); os_ << x; throw Fail{os_.str()}; } while (0)
#define CHECK(c, x) do { if (!(c)) FAIL(x); } while (0)
// a failure belonging to a recorded finding (tag) is reported as known and does not stop the run
#define CHECKT(tag, c, x) do { if (!(c)) { if (G.known.count(tag)) G.hit.insert(tag); else FAIL("[" << tag << "] " << x); } } while (0)
inline bool near(double a, double b, double eps = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= eps * (1 + std::fabs(a) + std::fabs(b));
}
template <class A, class B> bool nearm(const A &a, const B &b, double eps = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!near(a(i, j), b(i, j), eps)) return false;
  return true;
}
template <class A> std::string S(const A &m) {
  std::ostringstream os; os.precision(17); Eigen::IOFormat f(17, Eigen::DontAlignCols, ",", ";", "", "", "[", "]"); os << m.format(f); return os.str();
}
void run(Gen &G);
int main(int argc, char **argv) {
  Gen G;
  unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
  double budget = argc > 2 ? atof(argv[2]) : 5;
  if (argc > 3) { std::ifstream f(argv[3]); std::string l; while (f >> l) { double x = atof(l.c_str()); G.dict.push_back(x); if (x == (long)x && std::fabs(x) < 1e6) G.idict.push_back((long)std::fabs(x)); } }
  for (int a = 4; a < argc; ++a) G.known.insert(argv[a]);
  G.g.seed(seed);
  G.end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(budget * 1000));
  try {
    run(G);
  } catch (const Fail &f) {
    std::cout << "FAIL " << f.msg << std::endl;
    return 1;
  } catch (const std::exception &e) {
    std::cout << "FAIL unexpected exception: " << e.what() << std::endl;
    return 1;
  } catch (...) {
    std::cout << "FAIL unexpected exception" << std::endl;
    return 1;
  }
  for (const std::string &t : G.hit) std::cout << "KNOWN " << t << std::endl;
  for (const std::string &t : G.samples) { std::string s = t.substr(0, 300); for (char &c : s) if (c == '\n') c = ' '; std::cout << "SAMPLE " << s << std::endl; }
  std::cout << "OK evaluations=" << G.evals << " distinct=" << G.distinct << std::endl;
  return 0;
}
#endif
