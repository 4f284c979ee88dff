// C03: joint Jacobian = derivative of the pose.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 5;
  o.big_pct = 3;
  o.big_links = 60;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  int na = c.chance(30) ? c.range(1, 4) : 0;
  for (int i = 0; i < na; i++)
    s.added.push_back(gen_added(c, r, s, i));
  int tilted = -1; // a link turned until its pitch is next to a pole
  if (c.chance(12)) {
    tilted = c.chance(30) ? (int)c.below(r.links.size() + s.added.size()) : (int)(r.links.size() + s.added.size()) - 1;
    s.brpy = A3{{0, 0, 0}};
    M<double> R = ref_pose<double>(r, s, tilted).R, W;
    double off = 0.008 * std::pow(12.0, c.unit());
    W = rot_rpy<double>(c.real(3), (c.chance(50) ? 1 : -1) * (PI / 2 - off), c.real(3));
    V<double> e = to_rpy<double>(W * tr(R));
    for (int k = 0; k < 3; k++)
      s.brpy[k] = e[k];
    c.label("pitch next to a pole");
  }
  robot_and_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  if (c.chance(50)) { // run-time links before or after the configuration
    add_links(kin, r, s);
    apply_state(kin, r, s, lookup(kin, r, s));
  } else {
    State s0 = s;
    s0.added.clear();
    apply_state(kin, r, s0, lookup(kin, r, s0));
    add_links(kin, r, s);
  }
  Ids ids = lookup(kin, r, s);
  double sc = ref_scale(r, s), asc = ang_scale(r, s);
  int rel = 0, unrel = 0;
  for (int rep = 0, n = c.range(1, 4); rep < n; rep++) {
    int l = (int)c.below(r.links.size() + s.added.size());
    if (c.chance(50)) { // deep link
      l = (int)r.links.size() - 1;
      if (!s.added.empty() && c.chance(50))
        l += (int)s.added.size();
    }
    if (tilted >= 0 && c.chance(70))
      l = tilted;
    vector<int> js = pick_joints(c, r, true);
    vector<size_t> jid;
    for (int j : js)
      jid.push_back(ids.joint[j]);
    P<double> X = ref_pose<double>(r, s, l);
    double cp = cos_pitch(X.R);
    int rt = l == tilted ? 1 : c.range(0, 2);
    if (rt == 1 && cp < 0.007) // getRPY takes the pitch as a pole from 0.0045 on
      rt = 2;
    c.note("jacobian of link #", l, " rotation mode ", rt);
    auto J = kin.get_jacobian(ids.link[l], jid, rot_of(rt), false);
    int rows = 3 + (rt == 1 ? 3 : rt == 2 ? 4 : 0);
    c.check(J.rows() == rows && J.cols() == (int)js.size(), "jacobian has the wrong shape");
    Transform t;
    kin.get_link_pose(ids.link[l], t);
    for (size_t k = 0; k < js.size(); k++) {
      Seed sd;
      sd.joint = js[k];
      RefJac e = ref_jac(r, s, l, sd, t.rotation);
      string w = "d(link " + std::to_string(l) + ")/d(" + r.joints[js[k]].name + ")";
      bool on_chain = false;
      for (int a = l >= (int)r.links.size() ? -1 : l; a >= 0; a = r.links[a].parent)
        on_chain |= r.links[a].joint == js[k];
      if (l >= (int)r.links.size()) {
        int a = l;
        while (a >= (int)r.links.size())
          a = s.added[a - r.links.size()].parent;
        for (; a >= 0; a = r.links[a].parent)
          on_chain |= r.links[a].joint == js[k];
      }
      (on_chain ? rel : unrel)++;
      for (int i = 0; i < 3; i++)
        c.near(J(i, k), e.dp[i], on_chain ? 1e-9 * sc * asc : 0, (w + ": position row").c_str());
      for (int i = 0; rt == 1 && i < 3; i++)
        c.near(J(3 + i, k), e.drpy[i], on_chain ? 1e-12 * asc / (cp * cp * cp) + 1e-9 * asc / cp : 0, (w + ": rpy row").c_str());
      for (int i = 0; rt == 2 && i < 4; i++)
        c.near(J(3 + i, k), e.dq[i], on_chain ? 1e-9 * asc : 0, (w + ": quaternion row").c_str());
    }
    c.label(rt == 0 ? "mode position" : rt == 1 ? "mode rpy" : "mode quaternion");
  }
  c.nontrivial = rel >= 1 && rel + unrel >= 2;
  if (unrel)
    c.label("has unrelated joint in list");
  if (na)
    c.label("with run-time links");
}
VP_PROP("C03", "random robot, configuration, links, joint lists (permuted, partial, with repeats) and rotation modes; non-trivial = at least two columns, one of them for a joint that moves the link",
        prop, 60000, 1500000, 20)
