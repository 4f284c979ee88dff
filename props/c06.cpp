// C06: total inertia.
#include "common.hpp"
#include <Eigen/Dense>
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.need_mass = true;
  o.counter_pct = 8;
  o.inertial_pct = (int)c.pick(vector<int>{60, 100, 25});
  o.max_links = 10;
  o.big_pct = 3;
  o.big_links = 40;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  robot_and_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  Ids ids = lookup(kin, r, s);
  apply_state(kin, r, s, ids);
  double sc = ref_scale(r, s) + 1, asc = ang_scale(r, s), w = 0;
  for (auto &l : r.links) {
    if (!l.inertial)
      continue;
    w += std::fabs(l.mass) * sc * sc;
    for (double x : l.I)
      w += std::fabs(x);
  }
  auto I = kin.get_total_inertia_matrix();
  M<double> e = ref_inertia(r, s);
  double tol = 1e-10 * w * asc;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      c.near(I(i, j), e.m[i][j], tol, ("inertia (" + std::to_string(i) + "," + std::to_string(j) + ")").c_str());
      c.near(I(i, j), I(j, i), tol, "inertia symmetry");
    }
  // metamorphic: translate the base; rotate the base (no reference model involved)
  State s2 = s;
  s2.bxyz = gen_vec(c, 5);
  kin.set_base_pose(mk_tf(s2.bxyz, s2.brpy));
  same_mat(c, kin.get_total_inertia_matrix(), I, tol * 5, "inertia after translating the base");
  A3 rpy = gen_rpy(c);
  kin.set_base_pose(mk_tf(s2.bxyz, A3{{0, 0, 0}}));
  Eigen::Matrix3d I0 = kin.get_total_inertia_matrix(), R;
  kin.set_base_pose(mk_tf(s2.bxyz, rpy));
  M<double> Rr = rot_rpy<double>(rpy[0], rpy[1], rpy[2]);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      R(i, j) = Rr.m[i][j];
  same_mat(c, kin.get_total_inertia_matrix(), R * I0 * R.transpose(), tol * 10 * (1 + std::fabs(rpy[0]) + std::fabs(rpy[1]) + std::fabs(rpy[2])), "inertia after rotating the base");
  int ni = 0;
  bool irot = false;
  for (auto &l : r.links)
    if (l.inertial && l.mass > 0) {
      ni++;
      irot |= l.irpy[0] != 0 || l.irpy[1] != 0 || l.irpy[2] != 0;
    }
  c.nontrivial = ni >= 2;
  if (irot)
    c.label("rotated inertial frame");
  c.label(ni < 2 ? "1 massive link" : ni < 5 ? "2-4 massive links" : ">=5 massive links");
}
VP_PROP("C06", "random robot with positive mass (inertial frames translated and rotated, physically valid tensors), configuration, base pose; non-trivial = at least two massive links",
        prop, 80000, 1500000, 20)
