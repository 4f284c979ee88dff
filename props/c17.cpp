// C17: queries are read-only and repeatable.
#include "common.hpp"
using namespace rb;

struct Query {
  int kind = 0;
  size_t link = 0;
  vector<size_t> joints;
  RotationType rt = RotationType::IGNORE;
  bool base = false;
  vector<string> names;
  double tol = 0;
  string text;
};
struct Answer {
  vector<double> v;
  string s;
};
static Answer run(KinematicModel &k, const Query &q) {
  Answer a;
  auto mat = [&](const Eigen::MatrixXd &m) {
    a.v.push_back(m.rows());
    a.v.push_back(m.cols());
    for (int i = 0; i < m.rows(); i++)
      for (int j = 0; j < m.cols(); j++)
        a.v.push_back(m(i, j));
  };
  switch (q.kind) {
  case 0: {
    Transform t;
    t.position.x = 77; // the result object may hold anything
    t.rotation.setFromRPY(1, 1, 1);
    k.get_link_pose(q.link, t);
    a.v = {t.position.x, t.position.y, t.position.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w};
    break;
  }
  case 1: mat(k.get_jacobian(q.link, q.joints, q.rt, q.base)); break;
  case 2: {
    auto p = k.get_com();
    a.v = {p.x, p.y, p.z};
    break;
  }
  case 3: mat(k.get_com_jacobian(q.joints, q.base)); break;
  case 4: mat(k.get_total_inertia_matrix()); break;
  case 5: a.v = k.get_joint_angles(q.joints); break;
  case 6:
    for (auto &b : k.get_joint_position_limits(q.joints)) {
      a.v.push_back(b.first);
      a.v.push_back(b.second);
    }
    for (double x : k.get_joint_velocity_limits(q.joints))
      a.v.push_back(x);
    for (double x : k.get_joint_effort_limits(q.joints))
      a.v.push_back(x);
    break;
  case 7:
    for (auto &n : k.get_link_names())
      a.s += n + "\n";
    for (auto &n : k.get_joint_names())
      a.s += n + "\n";
    a.v = {(double)k.total_mass_, (double)k.root_link_id_, (double)k.num_dof_};
    break;
  case 8: // may throw
    try {
      for (size_t i : k.get_link_ids(q.names))
        a.v.push_back((double)i);
    } catch (const std::exception &) {
      a.s = "link lookup refused";
    }
    break;
  case 9:
    try {
      for (size_t i : k.get_joint_ids(q.names))
        a.v.push_back((double)i);
    } catch (const std::exception &) {
      a.s = "joint lookup refused";
    }
    break;
  }
  return a;
}
static void same(Case &c, const Answer &a, const Answer &b, const Query &q, const char *what) {
  bool ok = a.s == b.s && a.v.size() == b.v.size();
  for (size_t i = 0; ok && i < a.v.size(); i++)
    ok = same_num(a.v[i], b.v[i], q.tol);
  if (ok)
    return;
  string m = string(what) + " (" + q.text + ")";
  for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); i++)
    if (!same_num(a.v[i], b.v[i], q.tol)) {
      m += ": element " + std::to_string(i) + " is " + num(a.v[i]) + ", expected " + num(b.v[i]);
      break;
    }
  c.fail(m);
}

static void prop(Case &c) {
  GenOpt o;
  o.max_links = 9;
  o.big_pct = 2;
  o.big_links = 30;
  Robot r = gen_robot(c, o);
  string urdf = to_urdf(r);
  c.note(urdf);
  State s = gen_state(c, r);
  tame_base(c, s);
  int nadd = c.chance(40) ? c.range(1, 5) : 0;
  for (int i = 0; i < nadd; i++)
    s.added.push_back(gen_added(c, r, s, i));
  note_state(c, r, s);
  // a base orientation typed in by hand: not quite of unit length, or the other sign
  double qk = c.chance(20) ? (c.chance(30) ? -1.0 : c.chance(50) ? 1 + c.real(1e-3) : 0.8 + 0.4 * c.unit()) : 1.0;
  if (qk != 1)
    c.note("base quaternion scaled by ", num(qk));
  auto fresh = [&](std::unique_ptr<KinematicModel> &k) {
    k.reset(new KinematicModel(urdf));
    add_links(*k, r, s);
    apply_state(*k, r, s, lookup(*k, r, s));
    if (qk != 1) {
      Transform b = mk_tf(s.bxyz, s.brpy);
      b.rotation.x *= qk;
      b.rotation.y *= qk;
      b.rotation.z *= qk;
      b.rotation.w *= qk;
      k->set_base_pose(b);
    }
  };
  std::unique_ptr<KinematicModel> kin, other;
  fresh(kin);
  Ids id = lookup(*kin, r, s);
  double sc = ref_scale(r, s), asc = ang_scale(r, s), mt = r.mass() + 1;
  for (auto &l : r.links)
    for (double x : l.I)
      mt += std::fabs(x);
  size_t total = kin->get_link_names().size(); // hidden frames included
  vector<Query> qs(c.range(2, 9));
  int heavy = 0, throwing = 0;
  for (auto &q : qs) {
    q.kind = (int)c.weighted({26, 26, 8, 10, 8, 4, 4, 3, 4, 4});
    if (r.mass() <= 0 && q.kind >= 2 && q.kind <= 4)
      q.kind = 0;
    heavy += q.kind <= 4;
    q.text = "query kind " + std::to_string(q.kind);
    if (q.kind == 0 || q.kind == 1) {
      q.link = c.below(total);
      q.text += " of link id " + std::to_string(q.link);
    }
    if (q.kind == 0)
      q.tol = 1e-12 * sc * asc;
    if (q.kind == 1 || q.kind == 3 || q.kind == 5 || q.kind == 6)
      for (int j : pick_joints(c, r, true))
        q.joints.push_back(id.joint[j]);
    if (q.kind == 1 || q.kind == 3) {
      q.base = c.chance(50);
      q.tol = q.base ? 1e-6 * sc * asc : 1e-10 * sc * asc;
      q.text += q.base ? " with base" : " without base";
    }
    if (q.kind == 1) {
      q.rt = rot_of(c.range(0, 2));
      if (q.rt != RotationType::IGNORE) { // away from gimbal lock
        Transform t;
        kin->get_link_pose(q.link, t);
        kin->clear_cache();
        double R[3][3];
        quat_mat(t.rotation, R);
        if (1 - R[2][0] * R[2][0] < 0.01)
          q.rt = RotationType::IGNORE;
      }
    }
    if (q.kind == 2)
      q.tol = 1e-12 * sc * asc;
    if (q.kind == 4)
      q.tol = 1e-11 * sc * sc * asc * mt;
    if (q.kind == 8 || q.kind == 9)
      for (int k = c.range(0, 4); k > 0; k--) {
        switch (c.below(3)) {
        case 0: q.names.push_back(c.pick(r.links).name); break;
        case 1:
          if (!r.joints.empty())
            q.names.push_back(c.pick(r.joints).name);
          break;
        default: q.names.push_back("no such thing " + std::to_string(c.below(3))); break;
        }
      }
  }
  vector<Answer> want(qs.size());
  for (size_t i = 0; i < qs.size(); i++) { // each asked alone, of a model of its own
    fresh(other);
    want[i] = run(*other, qs[i]);
    throwing += (qs[i].kind == 8 || qs[i].kind == 9) && !want[i].s.empty();
  }
  int asks = c.range(2, 40);
  for (int k = 0; k < asks; k++) {
    size_t i = c.below(qs.size());
    c.note("ask ", qs[i].text);
    same(c, run(*kin, qs[i]), want[i], qs[i], "a query gives another answer after other queries");
    if (c.chance(6)) {
      kin->clear_cache();
      c.note("clear_cache");
    }
  }
  // nothing changed
  for (size_t i = 0; i < r.joints.size(); i++)
    if (r.joints[i].moving())
      c.check(kin->get_joint_angles({id.joint[i]})[0] == s.q[i], "a query changed a stored joint value");
  Ids id2 = lookup(*kin, r, s);
  c.check(id2.link == id.link && id2.joint == id.joint, "a query changed an id");
  c.check(kin->get_link_names().size() == total, "a query changed the number of links");
  c.check(kin->total_mass_ == other->total_mass_, "a query changed the total mass");
  kin->clear_cache(); // the configuration itself, not remembered poses
  for (size_t l = 0; l < total; l++) {
    Query q;
    q.link = l;
    q.tol = 1e-12 * sc * asc;
    q.text = "pose of link id " + std::to_string(l) + " after a cache clear";
    std::unique_ptr<KinematicModel> &f = other;
    if (l == 0)
      fresh(f);
    same(c, run(*kin, q), run(*f, q), q, "queries changed the configuration");
  }
  c.nontrivial = heavy >= 2 && asks >= 4 && r.moving().size() > 0;
  if (qk != 1)
    c.label("base quaternion not normalised");
  if (throwing)
    c.label("with refused queries");
  if (nadd)
    c.label("with run-time links");
}
VP_PROP("C17", "random robot, configuration and run-time links; 2-9 random queries (poses, Jacobians, centre of mass, inertia, limits, names, lookups that may be refused), each asked alone of its own fresh model, then 2-40 times in random order of one model; non-trivial = at least two computing queries, four asks and one movable joint",
        prop, 25000, 900000, 20)
