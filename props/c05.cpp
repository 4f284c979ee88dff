// C05: centre of mass and its Jacobian.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 2;
  o.huge_links = 120;
  o.need_mass = true;
  o.counter_pct = 8;
  o.inertial_pct = (int)c.pick(vector<int>{60, 100, 25});
  o.max_links = 10;
  o.big_pct = 3;
  o.big_links = 40;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  tame_base(c, s);
  int na = c.chance(20) ? c.range(1, 3) : 0; // massless links attached at run time
  for (int i = 0; i < na; i++)
    s.added.push_back(gen_added(c, r, s, i));
  robot_and_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  add_links(kin, r, s);
  Ids ids = lookup(kin, r, s);
  apply_state(kin, r, s, ids);
  double sc = ref_scale(r, s) + 1, asc = ang_scale(r, s);
  c.near(kin.total_mass_, r.mass(), 1e-12 * r.mass(), "total mass");
  if (c.chance(50)) {
    auto com = kin.get_com();
    V<double> e = ref_com<double>(r, s);
    for (int k = 0; k < 3; k++)
      c.near(com[k], e[k], 1e-10 * sc * asc, "centre of mass");
  }
  vector<int> js = pick_joints(c, r, true);
  vector<size_t> jid;
  for (int j : js)
    jid.push_back(ids.joint[j]);
  bool wb = c.chance(50);
  c.note("com jacobian base=", wb, " joints=", js.size());
  auto J = kin.get_com_jacobian(jid, wb);
  int nj = (int)js.size();
  c.check(J.rows() == 3 && J.cols() == nj + (wb ? 6 : 0), "com jacobian has the wrong shape");
  int moving = 0;
  for (int k = 0; k < nj; k++) {
    Seed sd;
    sd.joint = js[k];
    V<Dual> e = ref_com<Dual>(r, s, sd);
    for (int i = 0; i < 3; i++) {
      c.near(J(i, k), e[i].d, 1e-9 * sc * asc, ("d(com)/d(" + r.joints[js[k]].name + ")").c_str());
      moving += std::fabs(e[i].d) > 1e-6;
    }
  }
  for (int k = 0; wb && k < 6; k++) {
    Seed sd;
    (k < 3 ? sd.bpos : sd.brot) = k % 3;
    V<Dual> e = ref_com<Dual>(r, s, sd);
    for (int i = 0; i < 3; i++)
      c.near(J(i, nj + k), e[i].d, k < 3 ? 1e-12 : 3e-6 * sc * (1 + 0.02 * asc), "d(com)/d(base)");
  }
  auto com = kin.get_com();
  V<double> e = ref_com<double>(r, s);
  for (int k = 0; k < 3; k++)
    c.near(com[k], e[k], 1e-10 * sc * asc, "centre of mass");
  int ni = 0;
  bool zero = false;
  for (auto &l : r.links) {
    ni += l.inertial && l.mass > 0;
    zero |= l.inertial && l.mass == 0;
  }
  c.nontrivial = ni >= 2 && moving > 0;
  if (zero)
    c.label("has zero-mass inertial");
  if (wb)
    c.label("with base");
  c.label(ni < 2 ? "1 massive link" : ni < 5 ? "2-4 massive links" : ">=5 massive links");
}
VP_PROP("C05", "random robot with positive mass, configuration, base pose, joint list; non-trivial = at least two massive links and a joint that moves the centre of mass",
        prop, 60000, 1500000, 20)
