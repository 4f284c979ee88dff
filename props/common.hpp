// Glue between abstract robots and the tinyfk C++ API.
#pragma once
#include "robot.hpp"
#include "tinyfk.hpp"
#include <memory>

namespace rb {
using tinyfk::KinematicModel;
using tinyfk::RotationType;
using tinyfk::Transform;

inline Transform mk_tf(const A3 &xyz, const A3 &rpy) {
  Transform t;
  t.position.x = xyz[0];
  t.position.y = xyz[1];
  t.position.z = xyz[2];
  t.rotation.setFromRPY(rpy[0], rpy[1], rpy[2]);
  return t;
}

// library ids of a robot's links and joints
struct Ids {
  vector<size_t> link;  // by robot link index, then added links
  vector<size_t> joint; // by robot joint index (SIZE_MAX for fixed)
};
inline Ids lookup(KinematicModel &kin, const Robot &r, const State &s) {
  Ids ids;
  for (auto &l : r.links)
    ids.link.push_back(kin.get_link_ids({l.name})[0]);
  for (auto &a : s.added)
    ids.link.push_back(kin.get_link_ids({a.name})[0]);
  for (auto &j : r.joints)
    ids.joint.push_back(j.moving() ? kin.get_joint_ids({j.name})[0] : SIZE_MAX);
  return ids;
}
inline void apply_state(KinematicModel &kin, const Robot &r, const State &s, const Ids &ids) {
  vector<size_t> jid;
  vector<double> q;
  for (size_t i = 0; i < r.joints.size(); i++)
    if (r.joints[i].moving()) {
      jid.push_back(ids.joint[i]);
      q.push_back(s.q[i]);
    }
  kin.set_joint_angles(jid, q);
  kin.set_base_pose(mk_tf(s.bxyz, s.brpy));
}
inline string parent_name(const Robot &r, const State &s, const Added &a) {
  return a.com ? r.links[a.parent].name + "_com" : a.parent < (int)r.links.size() ? r.links[a.parent].name : s.added[a.parent - r.links.size()].name;
}
inline void add_links(KinematicModel &kin, const Robot &r, const State &s) {
  for (auto &a : s.added)
    kin.add_new_link(a.name, kin.get_link_ids({parent_name(r, s, a)})[0], a.xyz, a.rpy);
}
inline Added gen_added(Case &c, const Robot &r, const State &s, int idx, bool com_ok = true) {
  Added a;
  a.name = "added_" + std::to_string(idx);
  int total = (int)(r.links.size() + s.added.size());
  // bias towards the most recent link so that deep run-time chains appear
  a.parent = c.chance(40) && total ? total - 1 : (int)c.below(total);
  a.xyz = gen_vec(c, 2);
  a.rpy = gen_rpy(c);
  if (com_ok && c.chance(15) && a.parent < (int)r.links.size() && r.links[a.parent].inertial)
    a.com = true;
  return a;
}
inline void note_state(Case &c, const Robot &r, const State &s) {
  if (!c.verbose)
    return;
  for (size_t i = 0; i < r.joints.size(); i++)
    if (r.joints[i].moving())
      c.note("q[", r.joints[i].name, "] = ", num(s.q[i]));
  c.note("base xyz = ", v3(s.bxyz), "  rpy = ", v3(s.brpy));
  for (auto &a : s.added)
    c.note("added link ", a.name, " parent ", parent_name(r, s, a), " xyz=", v3(a.xyz), " rpy=", v3(a.rpy));
}

inline void quat_mat(const urdf::Rotation &q, double R[3][3]) {
  double n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
  double s = 2.0 / n, x = q.x, y = q.y, z = q.z, w = q.w;
  R[0][0] = 1 - s * (y * y + z * z); R[0][1] = s * (x * y - z * w); R[0][2] = s * (x * z + y * w);
  R[1][0] = s * (x * y + z * w); R[1][1] = 1 - s * (x * x + z * z); R[1][2] = s * (y * z - x * w);
  R[2][0] = s * (x * z - y * w); R[2][1] = s * (y * z + x * w); R[2][2] = 1 - s * (x * x + y * y);
}
inline void check_pose(Case &c, const Transform &t, const P<double> &ref, double ptol, double rtol, const string &what) {
  const double p[3] = {t.position.x, t.position.y, t.position.z};
  for (int k = 0; k < 3; k++)
    c.near(p[k], ref.p[k], ptol, (what + ": position " + "xyz"[k]).c_str());
  const auto &q = t.rotation;
  c.near(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1.0, std::max(rtol, 1e-9), (what + ": quaternion squared norm").c_str());
  double R[3][3];
  quat_mat(q, R);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c.near(R[i][j], ref.R.m[i][j], rtol, (what + ": rotation matrix entry").c_str());
}
inline void same_pose(Case &c, const Transform &a, const Transform &b, double ptol, double rtol, const string &what) {
  c.near(a.position.x, b.position.x, ptol, (what + ": position x").c_str());
  c.near(a.position.y, b.position.y, ptol, (what + ": position y").c_str());
  c.near(a.position.z, b.position.z, ptol, (what + ": position z").c_str());
  double A[3][3], B[3][3];
  quat_mat(a.rotation, A);
  quat_mat(b.rotation, B);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c.near(A[i][j], B[i][j], rtol, (what + ": rotation").c_str());
}
// joint ids list: permutation / subset / possibly with one repeated entry
inline vector<int> pick_joints(Case &c, const Robot &r, bool dup_ok = false) {
  vector<int> mv = r.moving();
  c.shuffle(mv);
  if (!mv.empty() && c.chance(40))
    mv.resize(c.range(0, (int)mv.size()));
  if (dup_ok && !mv.empty() && c.chance(8))
    mv.push_back(mv[c.below(mv.size())]);
  return mv;
}
} // namespace rb

namespace rb {
inline bool same_num(double a, double b, double tol) {
  return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol;
}
inline void same_mat(Case &c, const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, double tol, const string &what) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    c.fail(what + ": shape " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " instead of " +
           std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++)
      if (!same_num(a(i, j), b(i, j), tol))
        c.fail(what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(a(i, j)) + ", expected " + num(b(i, j)));
}
inline RotationType rot_of(int k) {
  return k == 0 ? RotationType::IGNORE : k == 1 ? RotationType::RPY : RotationType::XYZW;
}
// cosine of the pitch of a rotation matrix: distance from gimbal lock
inline double cos_pitch(const M<double> &R) { return std::sqrt(std::max(0.0, 1 - R.m[2][0] * R.m[2][0])); }
// a base orientation whose pitch stays away from the poles
inline void tame_base(Case &c, State &s) {
  s.brpy[1] = std::fmod(s.brpy[1], 1.45);
  if (c.chance(15)) { // roll / yaw at or next to half a turn
    int k = c.chance(50) ? 0 : 2;
    double d = c.chance(40) ? 0.0 : c.chance(50) ? 3e-8 : c.real(1e-7);
    s.brpy[k] = (c.chance(50) ? PI : -PI) + d;
  }
}
struct RefJac {
  V<double> dp, drpy;
  double dq[4];
};
// exact derivative of a link's pose; q is the quaternion the library reports
inline RefJac ref_jac(const Robot &r, const State &s, int link, Seed sd, const urdf::Rotation &q) {
  P<Dual> X = ref_pose<Dual>(r, s, link, sd);
  RefJac o;
  double dR[3][3], R[3][3];
  for (int i = 0; i < 3; i++) {
    o.dp[i] = X.p[i].d;
    for (int j = 0; j < 3; j++) {
      R[i][j] = X.R.m[i][j].v;
      dR[i][j] = X.R.m[i][j].d;
    }
  }
  double W[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      W[i][j] = dR[i][0] * R[j][0] + dR[i][1] * R[j][1] + dR[i][2] * R[j][2];
  double w[3] = {(W[2][1] - W[1][2]) / 2, (W[0][2] - W[2][0]) / 2, (W[1][0] - W[0][1]) / 2};
  // dq = 1/2 (w,0) * q
  o.dq[0] = 0.5 * (w[0] * q.w + w[1] * q.z - w[2] * q.y);
  o.dq[1] = 0.5 * (w[1] * q.w + w[2] * q.x - w[0] * q.z);
  o.dq[2] = 0.5 * (w[2] * q.w + w[0] * q.y - w[1] * q.x);
  o.dq[3] = 0.5 * (-w[0] * q.x - w[1] * q.y - w[2] * q.z);
  V<Dual> e = to_rpy(X.R);
  for (int i = 0; i < 3; i++)
    o.drpy[i] = e[i].d;
  return o;
}
inline string robot_and_state(Case &c, const Robot &r, const State &s) {
  c.note(to_urdf(r));
  note_state(c, r, s);
  return "";
}
} // namespace rb
