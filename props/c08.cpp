// C08: links attached at run time.
#include "common.hpp"
using namespace rb;
static void prop(Case &c) {
  GenOpt o;
  o.max_links = 6;
  o.big_pct = 2;
  o.big_links = 25;
  Robot r = gen_robot(c, o);
  State s = gen_state(c, r);
  bool tame = c.chance(60);
  if (tame)
    tame_base(c, s);
  c.note(to_urdf(r));
  KinematicModel kin(to_urdf(r));
  {
    Ids id0 = lookup(kin, r, s);
    if (c.chance(50))
      apply_state(kin, r, s, id0); // configuration before or after the additions
  }
  int n = c.chance(8) ? c.range(8, 60) : c.range(1, 8), refused = 0, deep = 0;
  int hub = n >= 8 && c.chance(40) ? (int)c.below(r.links.size()) : -1; // many links on one parent
  double mass0 = kin.total_mass_;
  Robot full = r; // the same robot with the links declared statically
  for (int i = 0; i < n; i++) {
    if (c.chance(20)) { // a refused duplicate must change nothing
      auto names = kin.get_link_names();
      string dup = c.pick(names);
      auto jn = kin.get_joint_names();
      bool threw = false;
      size_t par = c.below(names.size());
      try {
        kin.add_new_link(dup, par, gen_vec(c, 1), gen_rpy(c));
      } catch (const std::exception &) {
        threw = true;
      }
      c.note("duplicate '", dup, "'");
      c.check(threw, "adding a link under a taken name did not throw");
      c.check(kin.get_link_names() == names && kin.get_joint_names() == jn, "a refused addition changed the name lists");
      refused++;
    }
    if (c.chance(25)) { // queries in between (fill caches)
      Transform t;
      for (size_t k = 0, m = kin.get_link_names().size(); k < m; k++)
        if (c.chance(50))
          kin.get_link_pose(k, t);
    }
    Added a = gen_added(c, r, s, i);
    if (hub >= 0 && c.chance(85))
      a.parent = hub, a.com = false;
    if (c.chance(10))
      a.name = "n " + std::to_string(i) + "&<";
    const string pn = parent_name(r, s, a);
    auto names = kin.get_link_names();
    size_t pid = kin.get_link_ids({pn})[0];
    if (c.chance(50))
      kin.add_new_link(a.name, pid, a.xyz, a.rpy);
    else
      kin.add_new_link(a.name, pid, mk_tf(a.xyz, a.rpy));
    auto now = kin.get_link_names();
    c.check(now.size() == names.size() + 1 && std::equal(names.begin(), names.end(), now.begin()) && now.back() == a.name,
            "adding a link does not append exactly its name");
    c.check(kin.get_link_ids({a.name})[0] == names.size(), "the new link's id is not the next one");
    s.added.push_back(a);
    c.note("add '", a.name, "' under '", pn, "' ", v3(a.xyz), " / ", v3(a.rpy));
    Link fl;
    fl.name = a.name;
    fl.parent = a.parent;
    Joint fj;
    fj.name = "fix_" + std::to_string(i) + "_for_added";
    fj.xyz = a.xyz;
    fj.rpy = a.rpy;
    fj.parent = a.parent;
    fj.child = (int)full.links.size();
    fl.joint = (int)full.joints.size();
    full.links.push_back(fl);
    full.joints.push_back(fj);
    deep += a.parent >= (int)r.links.size();
  }
  for (int i = 0; i < n; i++) { // a centre-of-mass frame is one more declared link
    const Added &a = s.added[i];
    if (!a.com)
      continue;
    Link fl;
    fl.name = "mid_" + std::to_string(i) + "_for_added";
    fl.parent = a.parent;
    Joint fj;
    fj.name = "mfix_" + std::to_string(i) + "_for_added";
    fj.xyz = r.links[a.parent].ixyz;
    fj.rpy = r.links[a.parent].irpy;
    fj.parent = a.parent;
    fj.child = (int)full.links.size();
    fl.joint = (int)full.joints.size();
    full.joints[full.links[r.links.size() + i].joint].parent = fj.child;
    full.links[r.links.size() + i].parent = fj.child;
    full.links.push_back(fl);
    full.joints.push_back(fj);
  }
  // a configuration change after the additions
  State s2 = gen_state(c, r);
  if (tame)
    tame_base(c, s2);
  if (c.chance(50)) {
    s.q = s2.q;
    s.bxyz = s2.bxyz;
    s.brpy = s2.brpy;
  }
  note_state(c, r, s);
  Ids ids = lookup(kin, r, s);
  apply_state(kin, r, s, ids);
  State sf;
  sf.q = s.q;
  sf.q.resize(full.joints.size(), 0.0);
  sf.bxyz = s.bxyz;
  sf.brpy = s.brpy;
  KinematicModel stat(to_urdf(full));
  Ids fid = lookup(stat, full, sf);
  apply_state(stat, full, sf, fid);
  double sc = ref_scale(r, s), asc = ang_scale(full, sf);
  vector<int> order;
  for (size_t i = 0; i < r.links.size() + s.added.size(); i++)
    order.push_back((int)i);
  c.shuffle(order);
  for (int l : order) {
    Transform a, b;
    kin.get_link_pose(ids.link[l], a);
    stat.get_link_pose(fid.link[l], b);
    same_pose(c, a, b, 1e-10 * sc * asc, 1e-10 * asc, "link '" + full.links[l].name + "' attached at run time / declared");
    check_pose(c, a, ref_pose<double>(r, s, l), 1e-10 * sc * asc, 1e-10 * asc, "link '" + full.links[l].name + "'");
  }
  bool base_ok = std::fabs(s.brpy[1]) < 1.5;
  for (int k = 0; k < 3; k++) {
    int l = order[c.below(order.size())];
    vector<int> js = pick_joints(c, r);
    vector<size_t> ja, jb;
    for (int j : js) {
      ja.push_back(ids.joint[j]);
      jb.push_back(fid.joint[j]);
    }
    int rt = c.range(0, 2);
    bool wb = base_ok && c.chance(50);
    if (rt == 1 && cos_pitch(ref_pose<double>(r, s, l).R) < 0.1)
      rt = 0;
    auto A = kin.get_jacobian(ids.link[l], ja, rot_of(rt), wb), B = stat.get_jacobian(fid.link[l], jb, rot_of(rt), wb);
    int nj = (int)js.size();
    c.check(A.rows() == B.rows() && A.cols() == B.cols(), "jacobian shape");
    same_mat(c, A.leftCols(nj), B.leftCols(nj), 1e-7 * sc * asc, "jacobian of a link attached at run time / declared");
    if (wb)
      same_mat(c, A.rightCols(6), B.rightCols(6), 1e-4 * sc * asc, "base jacobian of a link attached at run time / declared");
  }
  c.check(kin.total_mass_ == mass0, "adding links changed the total mass");
  if (r.mass() > 0) {
    auto a = kin.get_com(), b = stat.get_com();
    for (int k = 0; k < 3; k++)
      c.near(a[k], b[k], 1e-10 * sc * asc, "centre of mass with run-time links");
    double w = r.mass() * sc * sc;
    for (auto &l : r.links)
      for (double x : l.I)
        w += std::fabs(x);
    same_mat(c, kin.get_total_inertia_matrix(), stat.get_total_inertia_matrix(), 1e-10 * w * asc, "total inertia with run-time links");
  }
  c.nontrivial = deep > 0 && !r.moving().empty();
  if (refused)
    c.label("refused duplicate");
  for (auto &a : s.added)
    if (a.com) {
      c.label("under a centre-of-mass frame");
      break;
    }
  if (hub >= 0)
    c.label("8+ additions mostly on one parent");
  c.label(n > 7 ? "8-60 additions" : n > 2 ? "3-7 additions" : "1-2 additions");
}
VP_PROP("C08", "random robot, 1-60 run-time additions (chains on added links, refused duplicates, queries and configuration changes in between) compared with the same robot declared statically; non-trivial = a link attached to a run-time link on a robot with movable joints",
        prop, 32000, 700000, 20)
