// C18: configurations read back as they were set.
#include "common.hpp"
using namespace rb;
static double any_value(Case &c) {
  switch (c.weighted({50, 20, 20, 10})) {
  case 0: return c.angle();
  case 1: return c.real(1e6);
  case 2: return 0.0;
  default: return c.pick(vector<double>{1e-300, -1e300, 123456789.123456789, -0.0, 4.9e-324, 1e308, PI});
  }
}
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 3;
  o.max_links = 12;
  o.big_pct = 4;
  Robot r = gen_robot(c, o);
  c.note(to_urdf(r));
  KinematicModel kin(to_urdf(r));
  State s;
  s.q.assign(r.joints.size(), 0.0);
  vector<int> mv = r.moving();
  auto jid = [&](int j) { return kin.get_joint_ids({r.joints[j].name})[0]; };
  A3 bx{{0, 0, 0}}, br{{0, 0, 0}};
  int reads = 0, writes = 0, nadd = 0;
  for (int st = c.range(1, 30); st > 0; st--) {
    switch (c.weighted({22, 10, 10, 5, 10, 4, 5, 34})) {
    case 0: case 1: { // full or partial update, through either setter
      bool raw = c.chance(30);
      vector<int> js = pick_joints(c, r, true);
      vector<size_t> id;
      vector<double> q;
      for (int j : js) {
        id.push_back(jid(j));
        q.push_back(any_value(c));
        s.q[j] = q.back();
      }
      c.note(raw ? "_set_joint_angles" : "set_joint_angles", " on ", js.size(), " joints");
      if (raw)
        kin._set_joint_angles(id, q);
      else
        kin.set_joint_angles(id, q);
      writes += !js.empty();
      break;
    }
    case 2: {
      if (mv.empty())
        break;
      int j = c.pick(mv);
      s.q[j] = any_value(c);
      kin.set_joint_angle(jid(j), s.q[j]);
      c.note("set_joint_angle ", r.joints[j].name, " ", num(s.q[j]));
      writes++;
      break;
    }
    case 3:
      kin.set_init_angles();
      s.q.assign(r.joints.size(), 0.0);
      c.note("set_init_angles");
      break;
    case 4: {
      bx = gen_vec(c, 5);
      br = gen_rpy(c);
      bool raw = c.chance(30);
      if (raw)
        kin._set_base_pose(mk_tf(bx, br));
      else
        kin.set_base_pose(mk_tf(bx, br));
      c.note("base pose ", v3(bx), " ", v3(br));
      break;
    }
    case 5: {
      kin.add_new_link("new" + std::to_string(nadd++), c.below(kin.get_link_names().size()), {{1, 2, 3}}, {{0, 0, 1}});
      c.note("add_new_link");
      break;
    }
    case 6: { // queries in between
      kin.clear_cache();
      Transform t;
      kin.get_link_pose(c.below(kin.get_link_names().size()), t);
      if (!mv.empty())
        kin.get_jacobian(c.below(kin.get_link_names().size()), {jid(c.pick(mv))}, rot_of(c.range(0, 2)), c.chance(50));
      c.note("queries");
      break;
    }
    default: {
      vector<int> js = pick_joints(c, r, true);
      vector<size_t> id;
      for (int j : js)
        id.push_back(jid(j));
      auto q = kin.get_joint_angles(id);
      c.check(q.size() == js.size(), "as many values as joints");
      for (size_t i = 0; i < js.size(); i++)
        c.check(memcmp(&q[i], &s.q[js[i]], sizeof(double)) == 0, "joint " + r.joints[js[i]].name + " reads " + num(q[i]) + ", was set to " + num(s.q[js[i]]));
      reads += (int)js.size();
    }
    }
  }
  // every joint and the base at the end
  for (int j : mv) {
    double q = kin.get_joint_angles({jid(j)})[0];
    c.check(memcmp(&q, &s.q[j], sizeof(double)) == 0, "joint " + r.joints[j].name + " reads " + num(q) + ", was set to " + num(s.q[j]));
  }
  kin.clear_cache();
  Transform t;
  kin.get_link_pose(kin.get_link_ids({r.links[r.root].name})[0], t);
  State b;
  b.bxyz = bx;
  b.brpy = br;
  b.q = s.q;
  check_pose(c, t, from_xyzrpy<double>(bx, br), 1e-9, 1e-9 * ang_scale(r, State{vector<double>(r.joints.size(), 0.0), bx, br, {}}), "base pose in force");
  c.nontrivial = writes >= 1 && mv.size() >= 2 && reads >= 1;
  c.label(writes > 5 ? ">5 updates" : "0-5 updates");
}
VP_PROP("C18", "random robot and 1-30 updates, resets, base changes, additions and reads; every read compared bit for bit with a map of the last values; non-trivial = at least two movable joints, one update and one read",
        prop, 60000, 1500000, 20)
