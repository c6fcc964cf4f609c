#include "common.hpp"
#include <sot/core/robot-utils.hh>
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
typedef Eigen::VectorXd VX;
// defined in robot-utils.cpp, not all declared in its header
namespace dynamicgraph { namespace sot {
bool base_se3_to_sot(ConstRefVector pos, ConstRefMatrix R, RefVector q_sot);
bool base_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot);
bool base_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf);
} }
static Eigen::Matrix3d rpy(double r, double p, double y) {
  return (Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX())).toRotationMatrix();
}
static Eigen::Matrix3d rq(const VX &q) { return Eigen::Quaterniond(q[6], q[3], q[4], q[5]).toRotationMatrix(); }
static int cnt = 0;
static void tables(Gen &G) {
  RobotUtil u; std::ostringstream h; std::map<std::string, Index> nm; std::map<Index, JointLimits> lim; std::map<Index, ForceLimits> fl; std::map<std::string, Index> fm;
  const char *names[] = {"rf", "lf", "lh", "rh", "a", "b", "", "waist"};
  for (int k = 0; k < 14; ++k) {
    std::string s = names[G.u(8)]; Index i = G.i(-2, 5);
    switch (G.u(4)) {
      case 0: u.set_name_to_id(s, i); nm[s] = i; h << "name " << s << "->" << i << "; "; break;
      case 1: u.m_force_util.set_name_to_force_id(s, i); fm[s] = i; h << "force " << s << "->" << i << "; ";
        if (s == "rf") CHECK(u.m_force_util.get_force_id_right_foot() == i, h.str() << "right foot index");
        if (s == "lf") CHECK(u.m_force_util.get_force_id_left_foot() == i, h.str() << "left foot index");
        if (s == "lh") CHECK(u.m_force_util.get_force_id_left_hand() == i, h.str() << "left hand index");
        if (s == "rh") CHECK(u.m_force_util.get_force_id_right_hand() == i, h.str() << "right hand index"); break;
      case 2: { double l = G.d(), p = G.d(); u.set_joint_limits_for_id(i, l, p); lim[i] = JointLimits(l, p); h << "limits " << i << "; "; break; }
      default: { VX l = G.vec(6), p = G.vec(6); u.m_force_util.set_force_id_to_limits(i, l, p); ForceLimits f; f.lower = l; f.upper = p; fl[i] = f; h << "force limits " << i << "; "; }
    }
    for (int x = 0; x < 8; ++x) {
      std::string q = names[x];
      CHECK(u.get_id_from_name(q) == (nm.count(q) ? nm[q] : -1), h.str() << "index of \"" << q << "\" is " << u.get_id_from_name(q));
      CHECK(u.m_force_util.get_id_from_name(q) == (fm.count(q) ? fm[q] : -1), h.str() << "force index of \"" << q << "\"");
    }
    for (Index x = -3; x < 7; ++x) {
      auto rev = [&](const std::map<std::string, Index> &m, const std::string &got, const std::string &dflt, const char *w) {
        bool any = false; for (auto &e : m) any |= e.second == x;
        if (!any) { CHECK(got == dflt, h.str() << w << " name of the index " << x << ", which has none, is \"" << got << "\""); }
        else { auto it = m.find(got); CHECK(it != m.end() && it->second == x, h.str() << w << " name of the index " << x << " is \"" << got << "\""); }
      };
      rev(nm, u.get_name_from_id(x), "Joint name not found", "joint");
      rev(fm, u.m_force_util.get_name_from_id(x), "Force name not found", "force"); rev(fm, u.m_force_util.cp_get_name_from_id(x), "Force name not found", "force");
      JointLimits a = u.get_joint_limits_from_id(x), b = u.cp_get_joint_limits_from_id(x), w = lim.count(x) ? lim[x] : JointLimits(0, 0);
      CHECK(a.lower == w.lower && a.upper == w.upper && b.lower == w.lower && b.upper == w.upper, h.str() << "joint limits of " << x << ": " << a.lower << " " << a.upper);
      ForceLimits c = u.m_force_util.get_limits_from_id(x), d = u.m_force_util.cp_get_limits_from_id(x), e = fl.count(x) ? fl[x] : ForceLimits();
      CHECK(c.lower == e.lower && c.upper == e.upper && d.lower == e.lower && d.upper == e.upper, h.str() << "force limits of " << x);
    }
    CHECK(u.m_name_to_id.size() == nm.size() && u.m_limits_map.size() == lim.size() && u.m_force_util.m_force_id_to_limits.size() == fl.size() && u.m_force_util.m_name_to_force_id.size() == fm.size(), h.str() << "a look-up created an entry");
  }
  G.count(h.str());
}
static void orders(Gen &G) {
  RobotUtil u; int n = G.n(1, 9); std::vector<Index> m(n); for (int k = 0; k < n; ++k) m[k] = k;
  for (int k = n - 1; k > 0; --k) std::swap(m[k], m[G.u(k + 1)]);
  std::ostringstream h; h << "order"; for (Index x : m) h << " " << x;
  VX q0 = G.vec(n), r0 = G.vec(n), r = r0;
  CHECK(!u.joints_urdf_to_sot(q0, r) && r == r0 && !u.joints_sot_to_urdf(q0, r) && r == r0, "joints converted before an order is set");
  if (G.b()) u.set_urdf_to_sot(m); else { VX d(n); for (int k = 0; k < n; ++k) d[k] = (double)m[k]; u.set_urdf_to_sot(d); }
  CHECK((int)u.m_nbJoints == n && u.m_urdf_to_sot == m && u.m_dgv_urdf_to_sot.size() == n, h.str() << ": not stored");
  for (int k = 0; k < n; ++k) CHECK(u.m_dgv_urdf_to_sot[k] == (double)m[k], h.str() << ": copy of the order");
  VX s(n), b(n); CHECK(u.joints_urdf_to_sot(q0, s), h.str() << ": refused");
  for (int k = 0; k < n; ++k) CHECK(s[m[k]] == q0[k], h.str() << ": joint " << k << " went elsewhere");
  CHECK(u.joints_sot_to_urdf(s, b) && b == q0, h.str() << ": round trip " << S(b) << " of " << S(q0));
  CHECK(u.joints_sot_to_urdf(q0, b), h.str() << ": refused"); for (int k = 0; k < n; ++k) CHECK(b[k] == q0[m[k]], h.str() << ": model joint " << k);
  CHECK(u.joints_urdf_to_sot(b, s) && s == q0, h.str() << ": round trip (controller)");
  // configurations and velocities
  double ro = G.unif(-3.1, 3.1), pi = G.unif(-1.5, 1.5), ya = G.unif(-3.1, 3.1);
  VX c(n + 6), C(n + 7), v = G.vec(n + 6), V(n + 6), W(n + 6); c << G.vec(3), ro, pi, ya, G.vec(n);
  CHECK(u.config_sot_to_urdf(c, C), h.str() << ": configuration refused");
  h << " rpy " << ro << " " << pi << " " << ya;
  Eigen::Matrix3d R = rpy(ro, pi, ya);
  CHECK(nearm(Matrix(rq(C)), Matrix(R), 1e-9) && C.head(3) == c.head(3), h.str() << ": base of the configuration " << S(C));
  for (int k = 0; k < n; ++k) CHECK(C[7 + k] == c[6 + m[k]], h.str() << ": configuration, joint " << k);
  VX e(n + 6); CHECK(u.config_urdf_to_sot(C, e), h.str() << ": configuration refused");
  CHECK(nearm(Matrix(e), Matrix(c), 1e-8), h.str() << ": configuration round trip " << S(e) << " of " << S(c));
  CHECK(u.velocity_urdf_to_sot(C, v, V), h.str() << ": velocity refused");
  Eigen::Vector3d l = R * v.head(3), a = R * v.segment(3, 3);
  CHECK(nearm(Matrix(V.head(3)), Matrix(l), 1e-8) && nearm(Matrix(V.segment(3, 3)), Matrix(a), 1e-8), h.str() << ": base velocity " << S(V) << " of " << S(v));
  for (int k = 0; k < n; ++k) CHECK(V[6 + m[k]] == v[6 + k], h.str() << ": velocity, joint " << k);
  CHECK(u.velocity_sot_to_urdf(C, V, W) && nearm(Matrix(W), Matrix(v), 1e-8), h.str() << ": velocity round trip " << S(W) << " of " << S(v));
  // free functions agree with the members
  VX q7 = C.head(7), q6(6), p6(6), q7b(7), q7c(7); 
  base_urdf_to_sot(q7, q6); u.base_urdf_to_sot(q7, p6); CHECK(nearm(Matrix(q6), Matrix(p6), 1e-12) && nearm(Matrix(q6), Matrix(c.head(6)), 1e-8), h.str() << ": base " << S(q6));
  base_sot_to_urdf(q6, q7b); u.base_sot_to_urdf(q6, q7c); CHECK(nearm(Matrix(q7b), Matrix(q7c), 1e-12) && nearm(Matrix(rq(q7b)), Matrix(R), 1e-8), h.str() << ": base " << S(q7b));
  base_se3_to_sot(c.head(3), R, p6); CHECK(nearm(Matrix(p6), Matrix(c.head(6)), 1e-8), h.str() << ": base_se3_to_sot " << S(p6));
  G.count(h.str());
}
static void registry(Gen &G) {
  std::string n = "robot" + std::to_string(++cnt), o = n + "b"; std::ostringstream h; h << n;
  std::size_t before = getListOfRobots()->size();
  CHECK(!isNameInRobotUtil(n) && !getRobotUtil(n) && !isNameInRobotUtil(n), h.str() << ": known before its creation");
  RobotUtilShrPtr a = createRobotUtil(n); CHECK(a && getRobotUtil(n) == a && isNameInRobotUtil(n) && !isNameInRobotUtil(o), h.str() << ": not registered");
  CHECK(!createRobotUtil(n) && getRobotUtil(n) == a, h.str() << ": replaced");
  CHECK(getListOfRobots()->size() == before + 1, h.str() << ": the list of robots");
}
void run(Gen &G) {
  while (G.more()) { tables(G); orders(G); if (cnt < 40) registry(G); }
}
