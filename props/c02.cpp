// C02: answers never depend on the history (no stale results).
#include "common.hpp"
using namespace rb;

// a whole new base pose, or one that differs from the present one in a detail
static void change_base(Case &c, State &s) {
  switch (c.weighted({50, 10, 12, 12, 8, 8})) {
  case 0:
    s.bxyz = gen_vec(c, 5);
    s.brpy = gen_rpy(c);
    break;
  case 1:
    s.bxyz = s.brpy = A3{{0, 0, 0}};
    break;
  case 2: // one number
    (c.chance(50) ? s.bxyz : s.brpy)[c.below(3)] = c.chance(50) ? c.angle() : 0.0;
    break;
  case 3: // a small step
    (c.chance(50) ? s.bxyz : s.brpy)[c.below(3)] += c.chance(50) ? 1e-4 : -3e-3;
    break;
  case 4: // the same axis, the rotation completed to a full turn: (v, w) -> (v, -w)
    s.brpy = A3{{0, 0, 0}};
    s.brpy[c.below(3)] = c.angle();
    break;
  default: // sign flips
    for (auto &x : s.bxyz)
      if (c.chance(50))
        x = -x;
    for (auto &x : s.brpy)
      x = c.chance(50) ? 2 * PI - x : x;
  }
}
// sets of values that tend to agree with the present ones in part
static double change_q(Case &c, const Robot &r, const State &s, int j) {
  if (c.chance(15))
    return s.q[j]; // unchanged
  if (c.chance(6))
    return -s.q[j];
  if (c.chance(6))
    return s.q[j] + (c.chance(50) ? 1e-4 : -3e-3);
  if (c.chance(5) && r.joints[j].type != PRISMATIC)
    return s.q[j] + 2 * PI; // the same pose, another value
  return r.joints[j].type == PRISMATIC ? c.real(3) : c.angle();
}
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 3;
  o.huge_links = 330;
  o.max_links = 8;
  o.big_pct = 2;
  o.big_links = 30;
  Robot r = gen_robot(c, o);
  string urdf = to_urdf(r);
  c.note(urdf);
  State s;
  s.q.assign(r.joints.size(), 0.0);
  KinematicModel kin(urdf);
  vector<int> mv = r.moving();
  int steps = c.range(2, 40);
  int queries = 0, updates_after_query = 0, stale_chance = 0;
  bool pending = false; // low-level writes since the last invalidation
  std::unique_ptr<KinematicModel> fresh;
  bool dirty = true;
  int burst_left = 0;
  auto ids = [&](KinematicModel &k) { return lookup(k, r, s); };
  auto get_fresh = [&]() -> KinematicModel & {
    if (dirty) {
      fresh.reset(new KinematicModel(urdf));
      add_links(*fresh, r, s);
      apply_state(*fresh, r, s, ids(*fresh));
      dirty = false;
    }
    return *fresh;
  };
  auto invalidated = [&] {
    pending = false;
    dirty = true;
    if (queries)
      updates_after_query++;
  };
  for (int st = 0; st < steps; st++) {
    int op = (int)c.weighted({12, 8, 10, 4, 5, 5, 5, 5, 20, 12, 6, 6, 6, 4, 5});
    if (!burst_left && !pending && c.one_in(250)) { // a control loop ran for a while without a query
      int k = c.chance(60) ? c.pick(vector<int>{255, 256, 257}) : c.chance(80) ? c.range(40, 700) : c.pick(vector<int>{65535, 65536, 65537});
      c.note("the next update ", k, " times");
      burst_left = 1;
      Ids id = ids(kin);
      switch (mv.empty() ? 1 : c.below(3)) {
      case 0: {
        int j = c.pick(mv);
        double q0 = s.q[j];
        for (int i = 1; i <= k; i++)
          kin.set_joint_angles({id.joint[j]}, {s.q[j] = q0 + 1e-3 * i});
        c.note("set ", r.joints[j].name, " = ", num(q0), " + 0.001 i");
        break;
      }
      case 1: {
        double x0 = s.bxyz[0];
        for (int i = 1; i <= k; i++) {
          s.bxyz[0] = x0 + 1e-3 * i;
          kin.set_base_pose(mk_tf(s.bxyz, s.brpy));
        }
        c.note("base x = ", num(x0), " + 0.001 i");
        break;
      }
      default: {
        int j = c.pick(mv);
        double q0 = s.q[j];
        kin._set_joint_angles({id.joint[j]}, {s.q[j] = q0 + 0.5});
        for (int i = 1; i <= k; i++)
          kin.clear_cache();
        c.note("low-level ", r.joints[j].name, " = ", num(s.q[j]), ", then clear_cache");
      }
      }
      invalidated();
      c.label("burst of updates");
    }
    if (pending && op >= 8) // answers are only promised after an invalidation
      op = 7;
    Ids id = ids(kin);
    switch (op) {
    case 0: { // ordinary joint update, any subset, any order
      vector<int> js = pick_joints(c, r, true);
      vector<size_t> jid;
      vector<double> q;
      for (int j : js) {
        jid.push_back(id.joint[j]);
        q.push_back(change_q(c, r, s, j));
        s.q[j] = q.back();
      }
      kin.set_joint_angles(jid, q);
      c.note("set_joint_angles on ", js.size(), " joints");
      for (size_t i = 0; i < js.size(); i++)
        c.note("   ", r.joints[js[i]].name, " = ", num(q[i]));
      invalidated();
      break;
    }
    case 1: { // one joint through the ordinary setter
      if (mv.empty())
        break;
      int j = c.pick(mv);
      s.q[j] = c.chance(20) ? 0.0 : r.joints[j].type == PRISMATIC ? c.real(3) : c.angle();
      kin.set_joint_angles({id.joint[j]}, {s.q[j]});
      c.note("set ", r.joints[j].name, " = ", num(s.q[j]));
      invalidated();
      break;
    }
    case 2: {
      change_base(c, s);
      kin.set_base_pose(mk_tf(s.bxyz, s.brpy));
      c.note("set_base_pose ", v3(s.bxyz), " ", v3(s.brpy));
      invalidated();
      break;
    }
    case 3:
      kin.set_init_angles();
      s.q.assign(r.joints.size(), 0.0);
      c.note("set_init_angles");
      invalidated();
      break;
    case 4: {
      if (s.added.size() >= 12)
        break;
      Added a = gen_added(c, r, s, (int)s.added.size());
      s.added.push_back(a);
      const string pn = parent_name(r, s, a);
      kin.add_new_link(a.name, kin.get_link_ids({pn})[0], a.xyz, a.rpy);
      c.note("add_new_link ", a.name, " under ", pn, " ", v3(a.xyz), " ", v3(a.rpy));
      invalidated();
      break;
    }
    case 5: { // low-level joint writes
      if (mv.empty())
        break;
      vector<int> js = pick_joints(c, r);
      vector<size_t> jid;
      vector<double> q;
      for (int j : js) {
        jid.push_back(id.joint[j]);
        q.push_back(change_q(c, r, s, j));
        s.q[j] = q.back();
      }
      if (c.chance(50))
        kin._set_joint_angles(jid, q);
      else
        for (size_t i = 0; i < jid.size(); i++)
          kin.set_joint_angle(jid[i], q[i]);
      c.note("low-level joint write on ", js.size(), " joints");
      pending = true;
      dirty = true;
      break;
    }
    case 6:
      change_base(c, s);
      kin._set_base_pose(mk_tf(s.bxyz, s.brpy));
      c.note("low-level base write ", v3(s.bxyz), " ", v3(s.brpy));
      pending = true;
      dirty = true;
      break;
    case 7:
      kin.clear_cache();
      c.note("clear_cache");
      invalidated();
      break;
    default: {
      KinematicModel &f = get_fresh();
      Ids fid = ids(f);
      double sc = ref_scale(r, s), asc = ang_scale(r, s), tol = 1e-11 * sc * asc;
      int nl = (int)(r.links.size() + s.added.size());
      queries++;
      if (op == 8) {
        int l = (int)c.below(nl);
        Transform a, b;
        kin.get_link_pose(id.link[l], a);
        f.get_link_pose(fid.link[l], b);
        c.note("query pose of link #", l);
        same_pose(c, a, b, tol, 1e-11 * asc, "pose after this history differs from a fresh model's");
      } else if (op == 9) {
        int l = (int)c.below(nl);
        int rt = c.range(0, 2);
        bool wb = c.chance(50);
        vector<int> js = pick_joints(c, r, true);
        vector<size_t> ja, jb;
        for (int j : js) {
          ja.push_back(id.joint[j]);
          jb.push_back(fid.joint[j]);
        }
        if (cos_pitch(ref_pose<double>(r, s, l).R) < 0.05 || cos_pitch(ref_pose<double>(r, s, 0).R) < 0.05)
          rt = 0;
        c.note("query jacobian of link #", l, " rot=", rt, " base=", wb);
        auto A = kin.get_jacobian(id.link[l], ja, rot_of(rt), wb), B = f.get_jacobian(fid.link[l], jb, rot_of(rt), wb);
        int nj = (int)js.size();
        c.check(A.rows() == B.rows() && A.cols() == B.cols(), "jacobian shape differs from a fresh model's");
        same_mat(c, A.leftCols(nj), B.leftCols(nj), 1e-9 * sc * asc, "jacobian after this history differs from a fresh model's");
        if (wb)
          same_mat(c, A.rightCols(6), B.rightCols(6), 1e-5 * sc * asc, "base jacobian after this history differs from a fresh model's");
      } else if (op == 10) {
        auto a = kin.get_com(), b = f.get_com();
        c.note("query com");
        for (int k = 0; k < 3; k++)
          if (!same_num(a[k], b[k], tol))
            c.fail("centre of mass after this history differs from a fresh model's: " + num(a[k]) + " vs " + num(b[k]));
      } else if (op == 11) {
        vector<int> js = pick_joints(c, r);
        vector<size_t> ja, jb;
        for (int j : js) {
          ja.push_back(id.joint[j]);
          jb.push_back(fid.joint[j]);
        }
        bool wb = c.chance(50);
        c.note("query com jacobian base=", wb);
        same_mat(c, kin.get_com_jacobian(ja, wb), f.get_com_jacobian(jb, wb), 1e-5 * sc * asc, "com jacobian after this history differs from a fresh model's");
      } else if (op == 14) { // every link, COM frames included, by id
        c.note("query every pose");
        auto names = kin.get_link_names();
        for (size_t i = names.size(); i-- > 0;) {
          Transform a, b;
          kin.get_link_pose(i, a);
          f.get_link_pose(f.get_link_ids({names[i]})[0], b);
          same_pose(c, a, b, tol, 1e-11 * asc, "pose after this history differs from a fresh model's");
        }
      } else if (op == 12) {
        c.note("query inertia");
        double mt = r.mass() + 1;
        for (auto &l : r.links)
          for (double x : l.I)
            mt += std::fabs(x);
        same_mat(c, kin.get_total_inertia_matrix(), f.get_total_inertia_matrix(), 1e-10 * sc * sc * asc * mt, "total inertia after this history differs from a fresh model's");
      } else {
        vector<size_t> ja;
        for (int j : mv)
          ja.push_back(id.joint[j]);
        auto q = kin.get_joint_angles(ja);
        for (size_t i = 0; i < mv.size(); i++)
          c.check(q[i] == s.q[mv[i]], "stored joint value is not the one last set");
      }
      stale_chance += updates_after_query > 0;
    }
    }
  }
  c.nontrivial = stale_chance >= 2 && !mv.empty();
  c.label(stale_chance == 0 ? "no query after query+update" : stale_chance < 5 ? "1-4 queries after query+update" : ">=5 queries after query+update");
  if (!s.added.empty())
    c.label("with run-time links");
}
VP_PROP("C02", "random robot (up to 30 links) and a history of 2-40 operations, each query compared with a fresh model; non-trivial = at least two queries come after an earlier query and a later update, on a robot with movable joints",
        prop, 32000, 800000, 20)
