// C04: floating-base columns of the Jacobian.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 3;
  o.huge_links = 200;
  o.big_pct = 2;
  o.big_links = 40;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  if (c.chance(60) && s.bxyz[0] == 0) {
    s.bxyz = gen_vec(c, 5);
    s.brpy = gen_rpy(c);
  }
  tame_base(c, s);
  int na = c.chance(25) ? c.range(1, 3) : 0;
  for (int i = 0; i < na; i++)
    s.added.push_back(gen_added(c, r, s, i));
  robot_and_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  add_links(kin, r, s);
  Ids ids = lookup(kin, r, s);
  apply_state(kin, r, s, ids);
  double sc = ref_scale(r, s), asc = ang_scale(r, s);
  for (int rep = 0, n = c.range(1, 3); rep < n; rep++) {
    int l = c.chance(50) ? (int)(r.links.size() + s.added.size()) - 1 : (int)c.below(r.links.size() + s.added.size());
    vector<int> js = pick_joints(c, r, true);
    vector<size_t> jid;
    for (int j : js)
      jid.push_back(ids.joint[j]);
    P<double> X = ref_pose<double>(r, s, l);
    double cp = cos_pitch(X.R);
    int rt = c.range(0, 2);
    if (rt == 1 && cp < 0.1)
      rt = 2;
    c.note("jacobian with base of link #", l, " rotation mode ", rt);
    bool touch = c.chance(50);
    Transform t;
    if (touch)
      kin.get_link_pose(ids.link[l], t);
    auto J = kin.get_jacobian(ids.link[l], jid, rot_of(rt), true);
    auto J0 = kin.get_jacobian(ids.link[l], jid, rot_of(rt), false);
    kin.get_link_pose(ids.link[l], t);
    int nj = (int)js.size();
    c.check(J.rows() == J0.rows() && J.cols() == nj + 6 && J0.cols() == nj, "jacobian with base has the wrong shape");
    same_mat(c, J.leftCols(nj), J0, 0, "joint columns with and without base");
    for (int k = 0; k < 6; k++) {
      Seed sd;
      (k < 3 ? sd.bpos : sd.brot) = k % 3;
      RefJac e = ref_jac(r, s, l, sd, t.rotation);
      double tol = k < 3 ? 1e-12 : 3e-6 * sc * (1 + 0.02 * asc);
      string w = string("d(link)/d(base ") + (k < 3 ? "xyz" : "rpy") + "[" + std::to_string(k % 3) + "])";
      for (int i = 0; i < 3; i++)
        c.near(J(i, nj + k), e.dp[i], tol, (w + ": position row").c_str());
      for (int i = 0; rt == 1 && i < 3; i++)
        c.near(J(3 + i, nj + k), e.drpy[i], k < 3 ? 0 : 1e-5 / (cp * cp * cp), (w + ": rpy row").c_str());
      for (int i = 0; rt == 2 && i < 4; i++)
        c.near(J(3 + i, nj + k), e.dq[i], k < 3 ? 0 : 3e-6, (w + ": quaternion row").c_str());
    }
    c.label(rt == 0 ? "mode position" : rt == 1 ? "mode rpy" : "mode quaternion");
  }
  c.nontrivial = s.brpy[0] != 0 || s.brpy[1] != 0 || s.brpy[2] != 0;
  if (std::fabs(std::fabs(s.brpy[0]) - PI) < 1e-6 || std::fabs(std::fabs(s.brpy[2]) - PI) < 1e-6)
    c.label("base roll or yaw at half a turn");
  if (std::fabs(s.brpy[0]) > PI + 1e-6 || std::fabs(s.brpy[2]) > PI + 1e-6)
    c.label("base roll or yaw beyond half a turn");
}
VP_PROP("C04", "random robot, configuration, base pose (|pitch| < 1.45, any roll/yaw incl. exactly +-pi), links, joint lists and rotation modes; non-trivial = rotated base",
        prop, 60000, 1500000, 20)
