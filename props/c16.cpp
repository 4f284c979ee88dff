// C16: models are independent of each other.
#include "common.hpp"
using namespace rb;

struct Live {
  std::unique_ptr<KinematicModel> kin;
  Robot r;
  string urdf;
  State s;
  Ids ids;
  bool touched_others = false; // another model was operated on since its last update
};

static void query(Case &c, Live &m, int kind) {
  double sc = ref_scale(m.r, m.s), asc = ang_scale(m.r, m.s), tol = 1e-11 * sc * asc;
  int nl = (int)(m.r.links.size() + m.s.added.size());
  switch (kind) {
  case 0: {
    int l = (int)c.below(nl);
    Transform t;
    m.kin->get_link_pose(m.ids.link[l], t);
    check_pose(c, t, ref_pose<double>(m.r, m.s, l), tol, 1e-11 * asc, "pose of a model living beside others");
    break;
  }
  case 1: {
    int l = (int)c.below(nl);
    vector<int> js = pick_joints(c, m.r);
    vector<size_t> id;
    for (int j : js)
      id.push_back(m.ids.joint[j]);
    auto J = m.kin->get_jacobian(m.ids.link[l], id, RotationType::IGNORE, false);
    c.check(J.rows() == 3 && J.cols() == (int)js.size(), "jacobian shape");
    for (size_t k = 0; k < js.size(); k++) {
      Seed sd;
      sd.joint = js[k];
      P<Dual> X = ref_pose<Dual>(m.r, m.s, l, sd);
      for (int i = 0; i < 3; i++)
        c.near(J(i, k), X.p[i].d, 1e-10 * sc * asc, "jacobian of a model living beside others");
    }
    break;
  }
  case 2: {
    if (m.r.mass() <= 0)
      return;
    auto a = m.kin->get_com();
    V<double> b = ref_com<double>(m.r, m.s);
    for (int i = 0; i < 3; i++)
      c.near(a[i], b[i], tol, "centre of mass of a model living beside others");
    break;
  }
  case 3: {
    if (m.r.mass() <= 0)
      return;
    double mt = m.r.mass() + 1;
    for (auto &l : m.r.links)
      for (double x : l.I)
        mt += std::fabs(x);
    Eigen::Matrix3d I = m.kin->get_total_inertia_matrix();
    M<double> R = ref_inertia(m.r, m.s);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        c.near(I(i, j), R.m[i][j], 1e-10 * sc * sc * asc * mt, "inertia of a model living beside others");
    break;
  }
  case 4: {
    vector<size_t> id;
    vector<double> want;
    for (int j : m.r.moving()) {
      id.push_back(m.ids.joint[j]);
      want.push_back(m.s.q[j]);
    }
    c.check(m.kin->get_joint_angles(id) == want, "stored joint values of a model living beside others");
    auto lim = m.kin->get_joint_position_limits(id);
    size_t k = 0;
    for (int j : m.r.moving()) {
      const Joint &J = m.r.joints[j];
      double inf = std::numeric_limits<double>::infinity();
      double lo = J.type == CONTINUOUS ? -inf : J.lower, hi = J.type == CONTINUOUS ? inf : J.upper;
      c.check(lim[k].first == lo && lim[k].second == hi, "limits of a model living beside others");
      k++;
    }
    c.near(m.kin->total_mass_, m.r.mass(), 1e-9 * (1 + m.r.mass()), "total mass of a model living beside others");
    break;
  }
  default: {
    Ids again = lookup(*m.kin, m.r, m.s);
    c.check(again.link == m.ids.link && again.joint == m.ids.joint, "ids of a model living beside others");
    auto nm = m.kin->get_link_names();
    for (size_t i = 0; i < m.r.links.size(); i++)
      c.check(nm[m.ids.link[i]] == m.r.links[i].name, "link name of a model living beside others");
    auto jn = m.kin->get_joint_names();
    c.check(jn.size() == m.r.moving().size(), "number of joint names of a model living beside others");
    for (int j : m.r.moving())
      c.check(jn[m.ids.joint[j]] == m.r.joints[j].name, "joint name of a model living beside others");
    break;
  }
  }
}

static void prop(Case &c) {
  GenOpt o;
  o.max_links = 7;
  o.big_pct = 2;
  o.big_links = 24;
  vector<Live> v;
  vector<std::pair<Robot, string>> seen;
  int steps = c.range(4, 40), crossed = 0, destroyed = 0, fresh_id = 0, copies = 0;
  size_t max_live = 0;
  int last_op = -1; // model operated on last
  for (int st = 0; st < steps; st++) {
    int op = v.empty() ? 0 : (int)c.weighted({14, 6, 4, 16, 8, 7, 5, 40, 4, 5, 3});
    switch (op) {
    case 0: { // load
      if (v.size() >= 5)
        break;
      Live m;
      if (!seen.empty() && c.chance(50)) {
        auto &x = c.pick(seen);
        m.r = x.first;
        m.urdf = x.second;
        c.label("same description loaded again");
      } else {
        m.r = gen_robot(c, o);
        m.urdf = to_urdf(m.r);
        seen.push_back({m.r, m.urdf});
      }
      m.s.q.assign(m.r.joints.size(), 0.0);
      m.kin.reset(new KinematicModel(m.urdf));
      m.ids = lookup(*m.kin, m.r, m.s);
      c.note("load model ", v.size(), ":\n", m.urdf);
      v.push_back(std::move(m));
      last_op = (int)v.size() - 1;
      break;
    }
    case 1: { // destroy
      size_t k = c.below(v.size());
      c.note("destroy model ", k, " (last one takes its place)");
      if (k + 1 != v.size())
        std::swap(v[k], v.back());
      v.pop_back();
      destroyed++;
      last_op = -1;
      break;
    }
    case 2: { // a refused load in between
      string bad = v[c.below(v.size())].urdf;
      bad.resize(c.below(bad.size()));
      c.note("refused load of a truncated text (", bad.size(), " bytes)");
      try {
        KinematicModel k(bad);
      } catch (const std::exception &) {
      }
      last_op = -1;
      break;
    }
    case 9: { // a copy: from now on a model of its own
      if (v.size() >= 5)
        break;
      size_t k = c.below(v.size());
      Live m;
      m.r = v[k].r;
      m.urdf = v[k].urdf;
      m.s = v[k].s;
      m.ids = v[k].ids;
      m.kin.reset(new KinematicModel(*v[k].kin));
      c.note("copy model ", k, " to model ", v.size());
      v.push_back(std::move(m));
      last_op = (int)v.size() - 1;
      copies++;
      break;
    }
    case 10: { // one model takes over another one's state
      size_t a = c.below(v.size()), b = c.below(v.size());
      *v[a].kin = *v[b].kin;
      if (a != b) {
        v[a].r = v[b].r;
        v[a].urdf = v[b].urdf;
        v[a].s = v[b].s;
        v[a].ids = v[b].ids;
        copies++;
      }
      c.note("model ", a, " = model ", b);
      last_op = (int)a;
      break;
    }
    default: {
      int k = (int)c.below(v.size());
      Live &m = v[k];
      if (last_op != k && last_op >= 0)
        crossed++;
      last_op = k;
      if (op == 3) {
        vector<int> js = pick_joints(c, m.r);
        vector<size_t> id;
        vector<double> q;
        for (int j : js) {
          id.push_back(m.ids.joint[j]);
          q.push_back(m.r.joints[j].type == PRISMATIC ? c.real(3) : c.angle());
          m.s.q[j] = q.back();
        }
        m.kin->set_joint_angles(id, q);
        c.note("model ", k, ": set ", js.size(), " joints");
      } else if (op == 4) {
        m.s.bxyz = gen_vec(c, 5);
        m.s.brpy = gen_rpy(c);
        m.kin->set_base_pose(mk_tf(m.s.bxyz, m.s.brpy));
        c.note("model ", k, ": base ", v3(m.s.bxyz), " ", v3(m.s.brpy));
      } else if (op == 5) {
        if (m.s.added.size() >= 6)
          break;
        Added a = gen_added(c, m.r, m.s, (int)m.s.added.size());
        if (c.chance(30))
          a.name += "_" + std::to_string(fresh_id++);
        m.s.added.push_back(a);
        m.kin->add_new_link(a.name, m.kin->get_link_ids({parent_name(m.r, m.s, a)})[0], a.xyz, a.rpy);
        m.ids.link.push_back(m.kin->get_link_ids({a.name})[0]);
        c.note("model ", k, ": add link ", a.name, " parent#", a.parent);
      } else if (op == 6) {
        m.kin->set_init_angles();
        m.s.q.assign(m.r.joints.size(), 0.0);
        c.note("model ", k, ": set_init_angles");
      } else {
        int kind = (int)c.weighted({40, 20, 10, 10, 10, 10});
        c.note("model ", k, ": query kind ", kind);
        query(c, m, kind);
      }
    }
    }
    max_live = std::max(max_live, v.size());
  }
  c.note("final check of every live model");
  for (auto &m : v)
    for (int kind = 0; kind < 6; kind++)
      query(c, m, kind);
  c.nontrivial = max_live >= 2 && crossed >= 3;
  c.label(max_live == 1 ? "one live model" : max_live == 2 ? "two live models" : "three to five live models");
  if (copies)
    c.label("models copied");
  if (destroyed)
    c.label("models destroyed");
}
VP_PROP("C16", "history of 4-40 operations (load, reload of the same description, copy, assignment, destroy, refused load, joint/base updates, link additions, queries) over up to 5 live models, every answer compared with the model's own reference state; non-trivial = at least two models live together and at least three switches between them",
        prop, 50000, 900000, 20)
