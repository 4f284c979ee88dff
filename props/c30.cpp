// C30: moving one joint moves exactly its subtree, rigidly and additively.
// Relations between answers of the library only; no reference model of poses.
#include "common.hpp"
using namespace rb;

typedef P<double> Pd;
static Pd pose(KinematicModel &k, size_t id) {
  Transform t;
  k.get_link_pose(id, t);
  Pd p;
  quat_mat(t.rotation, p.R.m);
  p.p = V<double>(t.position.x, t.position.y, t.position.z);
  return p;
}
static Pd inv(const Pd &a) {
  Pd r;
  r.R = tr(a.R);
  V<double> x = r.R * a.p;
  r.p = V<double>(-x[0], -x[1], -x[2]);
  return r;
}
static void same(Case &c, const Pd &a, const Pd &b, double ptol, double rtol, const char *what) {
  for (int i = 0; i < 3; i++) {
    c.near(a.p[i], b.p[i], ptol, what);
    for (int j = 0; j < 3; j++)
      c.near(a.R.m[i][j], b.R.m[i][j], rtol, what);
  }
}

static void prop(Case &c) {
  GenOpt o;
  o.max_links = 14;
  o.big_pct = 4;
  o.big_links = 60;
  Robot r = gen_robot(c, o);
  vector<int> mv = r.moving();
  if (mv.empty())
    throw vp::Discard();
  c.note(to_urdf(r));
  State s = gen_state(c, r);
  int nadd = c.chance(30) ? c.range(1, 4) : 0;
  for (int i = 0; i < nadd; i++)
    s.added.push_back(gen_added(c, r, s, i));
  note_state(c, r, s);
  KinematicModel kin(to_urdf(r));
  add_links(kin, r, s);
  Ids id = lookup(kin, r, s);
  apply_state(kin, r, s, id);
  int j = c.pick(mv);
  const Joint &J = r.joints[j];
  bool pris = J.type == PRISMATIC;
  c.note("moving joint ", J.name);
  int nl = (int)(r.links.size() + s.added.size());
  vector<char> below(nl, 0); // links carried by the joint, from the tree alone
  int carried = 0;
  for (int l = 0; l < nl; l++) {
    int k = l;
    while (k >= (int)r.links.size())
      k = s.added[k - r.links.size()].parent;
    for (; k >= 0; k = r.links[k].parent)
      if (k == J.child)
        below[l] = 1;
    carried += below[l];
  }
  double q1 = pris ? c.real(3) : c.chance(3) ? c.real(1) * std::pow(10.0, c.range(3, 6)) : c.angle(), q2 = pris ? c.real(3) : c.angle();
  auto at = [&](double q) {
    if (c.chance(50))
      kin.set_joint_angles({id.joint[j]}, {q});
    else { // the low-level way
      kin.set_joint_angle(id.joint[j], q);
      kin.clear_cache();
    }
    vector<Pd> v(nl);
    vector<int> ord(nl);
    for (int i = 0; i < nl; i++)
      ord[i] = i;
    c.shuffle(ord);
    for (int i : ord)
      v[i] = pose(kin, id.link[i]);
    return v;
  };
  auto X0 = at(0), X1 = at(q1), X2 = at(q2), X12 = at(q1 + q2), Xn = at(-q1);
  double big = 1 + std::fabs(q1) + std::fabs(q2);
  double sc = ref_scale(r, s) + (pris ? 2 * big : 0), asc = ang_scale(r, s) + 2 * big;
  double pt = 1e-11 * sc * asc, rt = 1e-11 * asc;
  c.note("q1=", num(q1), " q2=", num(q2));
  const int ch = J.child;
  for (int l = 0; l < nl; l++) {
    if (!below[l]) {
      same(c, X1[l], X0[l], pt, rt, "a link that the joint does not carry moved");
      same(c, X2[l], X0[l], pt, rt, "a link that the joint does not carry moved");
    } else {
      same(c, inv(X1[ch]) * X1[l], inv(X0[ch]) * X0[l], pt, rt, "links carried by the joint moved relative to one another");
      same(c, inv(X2[ch]) * X2[l], inv(X0[ch]) * X0[l], pt, rt, "links carried by the joint moved relative to one another");
    }
  }
  // the motion itself, in the frame the joint has at value zero
  auto rel = [&](const vector<Pd> &X) { return inv(X0[ch]) * X[ch]; };
  auto motion = [&](double q) {
    Pd m;
    if (pris)
      m.p = V<double>(J.axis[0] * q, J.axis[1] * q, J.axis[2] * q);
    else
      m.R = rot_axis<double>(J.axis, q);
    return m;
  };
  same(c, rel(X1), motion(q1), pt, rt, pris ? "relative motion is not the translation along the axis" : "relative motion is not the rotation about the axis");
  same(c, rel(X1) * rel(X2), rel(X12), pt, rt, "motions of one joint do not add up");
  same(c, rel(X1) * rel(Xn), Pd(), pt, rt, "the negated value is not the inverse motion");
  // value zero: the child sits at the joint's origin on its parent
  same(c, inv(X0[J.parent]) * X0[ch], from_xyzrpy<double>(J.xyz, J.rpy), pt, rt, "at value zero the child is not at the joint's origin");
  if (!pris) {
    int turns = c.range(1, 5) * (c.chance(50) ? -1 : 1);
    auto Xt = at(q1 + 2 * PI * turns);
    for (int l = 0; l < nl; l++)
      same(c, Xt[l], X1[l], 1e-10 * sc * asc, 1e-10 * asc, "a full turn changed a pose");
  }
  { // the joint's own motion and its quaternion derivative
    const auto &uj = kin.joints_[id.joint[j]];
    Transform t = uj->transform(q1);
    Pd p;
    quat_mat(t.rotation, p.R.m);
    p.p = V<double>(t.position.x, t.position.y, t.position.z);
    same(c, p, motion(q1), 1e-12 * big, 1e-12 * big, "the joint's own transform is not its motion");
    if (!pris) {
      const auto d = uj->joint_quaternion_derivative(q1);
      // derivative of (axis sin(q/2), cos(q/2)), up to the sign common to a quaternion
      double hc = std::cos(q1 / 2), hs = std::sin(q1 / 2);
      double want[4] = {J.axis[0] * hc / 2, J.axis[1] * hc / 2, J.axis[2] * hc / 2, -hs / 2};
      double dot = t.rotation.x * J.axis[0] * hs + t.rotation.y * J.axis[1] * hs + t.rotation.z * J.axis[2] * hs + t.rotation.w * hc;
      double sg = dot < 0 ? -1 : 1, got[4] = {d.x, d.y, d.z, d.w};
      for (int k = 0; k < 4; k++)
        c.near(got[k], sg * want[k], 1e-12 * big, "angle derivative of the joint's quaternion");
    }
  }
  { // mass moves along: only what the joint carries contributes
    if (r.mass() > 0) {
      kin.set_joint_angles({id.joint[j]}, {0});
      auto c0 = kin.get_com();
      kin.set_joint_angles({id.joint[j]}, {q1});
      auto c1 = kin.get_com();
      V<double> d;
      for (size_t l = 0; l < r.links.size(); l++)
        if (below[l] && r.links[l].inertial) {
          V<double> off(r.links[l].ixyz);
          V<double> a = X1[l].R * off + X1[l].p, b = X0[l].R * off + X0[l].p;
          for (int k = 0; k < 3; k++)
            d[k] += r.links[l].mass * (a[k] - b[k]) / r.mass();
        }
      double got[3] = {c1.x - c0.x, c1.y - c0.y, c1.z - c0.z};
      for (int k = 0; k < 3; k++)
        c.near(got[k], d[k], pt, "the centre of mass did not follow the carried links");
    }
  }
  // the other joints' values are as set
  for (int m : mv)
    if (m != j)
      c.check(kin.get_joint_angles({id.joint[m]})[0] == s.q[m], "moving one joint changed another joint's value");
  c.nontrivial = std::fabs(q1) > 1e-9 && carried < nl && carried >= 1;
  c.label(carried >= 3 ? "joint carries three or more links" : carried == 2 ? "joint carries two links" : "joint carries one link");
  c.label(pris ? "prismatic" : "revolute or continuous");
}
VP_PROP("C30", "random robot, configuration, run-time links, one movable joint and two values; relations between the library's answers at 0, q1, q2, q1+q2, -q1 and after full turns; non-trivial = q1 not zero and the joint carries some but not all links",
        prop, 60000, 3000000, 20)
