// C09: limits.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 3;
  o.max_links = 14;
  Robot r = gen_robot(c, o);
  c.note(to_urdf(r));
  KinematicModel kin(to_urdf(r));
  State s = gen_state(c, r);
  Ids ids = lookup(kin, r, s);
  if (c.chance(50))
    apply_state(kin, r, s, ids);
  int checked = 0, nolimit = 0;
  for (int rep = 0; rep < 3; rep++) {
    vector<int> js = pick_joints(c, r, true);
    vector<size_t> jid;
    for (int j : js)
      jid.push_back(ids.joint[j]);
    int which = c.range(0, 2);
    if (which == 0) {
      auto L = kin.get_joint_position_limits(jid);
      c.check(L.size() == js.size(), "position limit list has the wrong length");
      for (size_t i = 0; i < js.size(); i++) {
        const Joint &j = r.joints[js[i]];
        double inf = std::numeric_limits<double>::infinity();
        double lo = j.type == CONTINUOUS ? -inf : j.lower, hi = j.type == CONTINUOUS ? inf : j.upper;
        c.check(L[i].first == lo && L[i].second == hi, "position limits of " + j.name + ": " + num(L[i].first) + ".." + num(L[i].second) +
                                                           ", declared " + num(lo) + ".." + num(hi));
        checked++;
      }
    } else {
      auto L = which == 1 ? kin.get_joint_velocity_limits(jid) : kin.get_joint_effort_limits(jid);
      c.check(L.size() == js.size(), "limit list has the wrong length");
      for (size_t i = 0; i < js.size(); i++) {
        const Joint &j = r.joints[js[i]];
        double e = !j.has_limit ? std::numeric_limits<double>::infinity() : which == 1 ? j.velocity : j.effort;
        nolimit += !j.has_limit;
        c.check(L[i] == e, string(which == 1 ? "velocity" : "effort") + " limit of " + j.name + ": " + num(L[i]) + ", declared " + num(e));
        checked++;
      }
    }
  }
  if (!s.q.empty()) { // reading limits leaves the configuration alone
    vector<int> mv = r.moving();
    vector<size_t> jid;
    for (int j : mv)
      jid.push_back(ids.joint[j]);
    auto q1 = kin.get_joint_angles(jid);
    kin.get_joint_position_limits(jid);
    kin.get_joint_velocity_limits(jid);
    kin.get_joint_effort_limits(jid);
    c.check(kin.get_joint_angles(jid) == q1, "reading limits changed joint values");
  }
  c.nontrivial = checked >= 2;
  if (nolimit)
    c.label("velocity/effort of continuous joint without limit element");
}
VP_PROP("C09", "random robot with any presence pattern of limit elements/attributes and random joint lists; non-trivial = at least two limits compared",
        prop, 60000, 2000000, 20)
