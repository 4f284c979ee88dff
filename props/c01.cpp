// C01: link poses equal the kinematic-chain product.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 4;
  o.big_links = 140;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  c.note(to_urdf(r));
  note_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  Ids ids = lookup(kin, r, s);
  apply_state(kin, r, s, ids);
  double pt = 1e-10 * ref_scale(r, s) * ang_scale(r, s), rt = 1e-10 * ang_scale(r, s);
  vector<int> order;
  for (size_t i = 0; i < r.links.size(); i++)
    order.push_back((int)i);
  c.shuffle(order);
  int depth = 0;
  for (int l : order) {
    Transform t;
    kin.get_link_pose(ids.link[l], t);
    check_pose(c, t, ref_pose<double>(r, s, l), pt, rt, "pose of link '" + r.links[l].name + "'");
    int d = 0;
    for (int k = l; r.links[k].parent >= 0; k = r.links[k].parent)
      d += r.joints[r.links[k].joint].moving();
    depth = std::max(depth, d);
  }
  c.nontrivial = depth >= 2;
  c.label(depth == 0 ? "moving depth 0" : depth == 1 ? "moving depth 1" : depth < 6 ? "moving depth 2-5" : "moving depth >=6");
  for (auto &j : r.joints)
    if (j.moving()) {
      c.label(string("has ") + jtype_name(j.type));
      if (!j.has_axis) c.label("default axis");
      if (!j.has_origin) c.label("no origin");
    }
}
VP_PROP("C01", "random URDF tree + joint values + base pose, every link queried in random order; non-trivial = some link has at least 2 moving joints above it",
        prop, 60000, 1500000, 20)
