// C36: malformed content inside a link or material stays there.
#include "common.hpp"
#include "damage.hpp"
#include "flat.hpp"
using namespace rb;

struct Damage {
  int link = -1;   // -1: a robot-level material
  string part;     // inertial / visual / collision
  int index = 0;   // which visual / collision
  bool only_color = false; // the visual itself is well formed
};
using namespace rb::dmg;
static vector<El *> kids_of(El &e, const string &tag) {
  vector<El *> v;
  for (auto &k : e.kids)
    if (k.tag == tag)
      v.push_back(&k);
  return v;
}
// the entries of one visual / collision, keyed without its number
static Flat part(const Flat &f, const string &prefix, bool with_material) {
  Flat o;
  for (auto it = f.lower_bound(prefix + "."); it != f.end() && it->first.compare(0, prefix.size() + 1, prefix + ".") == 0; ++it) {
    string k = it->first.substr(prefix.size());
    if (!with_material && (k == ".material" || k.compare(0, 10, ".material.") == 0))
      continue;
    o[k] = it->second;
  }
  return o;
}
static bool equal(const Flat &a, const Flat &b) {
  if (a.size() != b.size())
    return false;
  for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y)
    if (x->first != y->first || x->second.s != y->second.s || !same_num(x->second.v, y->second.v, 0))
      return false;
  return true;
}
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 7;
  o.g.big_pct = 2;
  o.g.big_links = 25;
  o.g.inertial_pct = (int)c.pick(vector<int>{60, 100});
  Desc d = gen_desc(c, o);
  const Robot &r = d.r;
  El good = el_robot(d), bad = good;
  auto links = kids_of(bad, "link");
  vector<Damage> dmg;
  std::set<string> mats; // materials whose content may be affected
  string what;
  int want = c.chance(30) ? 2 : 1;
  for (int k = 0; k < want; k++) {
    if (c.chance(12)) {
      auto ms = kids_of(bad, "material");
      if (!ms.empty()) {
        El *m = c.pick(ms);
        mats.insert(m->at.empty() ? "" : m->at[0].second);
        if (c.chance(30) && !mats.count("")) {
          m->drop_attr("name");
          mats.insert("");
        } else
          break_color(c, *m);
        dmg.emplace_back();
        what += " a material of the robot;";
        continue;
      }
    }
    struct Place {
      int link;
      El *e;
      int index;
    };
    vector<Place> pl;
    int only = c.range(0, 3); // favour no kind of part
    for (size_t l = 0; l < links.size(); l++)
      for (const char *t : {"inertial", "visual", "collision"}) {
        if ((only == 1 && string(t) != "inertial") || (only == 2 && string(t) != "visual") || (only == 3 && string(t) != "collision"))
          continue;
        auto v = kids_of(*links[l], t);
        for (size_t i = 0; i < v.size(); i++) {
          bool used = false;
          for (auto &x : dmg)
            used |= x.link == (int)l && x.part == t && x.index == (int)i;
          if (!used)
            pl.push_back({(int)l, v[i], (int)i});
        }
      }
    if (pl.empty())
      continue;
    Place p = c.pick(pl);
    Damage x;
    x.link = p.link;
    x.part = p.e->tag;
    x.index = p.index;
    if (x.part == "inertial")
      break_inertial(c, *p.e);
    else
      x.only_color = !break_vis(c, *p.e);
    what += " " + x.part + " " + std::to_string(x.index) + " of " + r.links[(size_t)x.link].name + ";";
    dmg.push_back(x);
  }
  if (dmg.empty())
    throw vp::Discard();
  for (auto &x : dmg)
    if (x.link >= 0)
      for (auto &v : d.rl[(size_t)x.link].vis)
        if (v.has_mat)
          mats.insert(v.m.name);
  for (auto &x : dmg)
    if (x.link >= 0 && x.part == "visual")
      mats.insert(""); // it may have lost the name of its material
  string good_text = to_text(good), text = to_text(bad);
  if (c.chance(25)) {
    Style st = gen_style(c);
    st.order_kids = false; // the first definition of a material counts
    text = to_styled(c, bad, st);
  }
  c.note("malformed:", what, "\n", text);
  auto g = urdf::parseURDF(good_text);
  c.check((bool)g, "a valid description was refused");
  Flat fg = flatten(c, *g);
  urdf::ModelInterfaceSharedPtr b;
  try {
    b = urdf::parseURDF(text);
  } catch (const std::exception &e) {
    c.fail(string("the parser threw: ") + e.what());
  }
  c.nontrivial = true;
  bool inertial_hit = false;
  for (auto &x : dmg) {
    inertial_hit |= x.part == "inertial";
    c.label(x.link < 0 ? "robot-level material" : x.only_color ? "colour inside a visual" : x.part);
  }
  if (!b) { // refused as a whole
    bool loaded = true;
    try {
      KinematicModel k(text);
    } catch (const std::exception &) {
      loaded = false;
    }
    c.check(!loaded, "the model loads what the parser refuses");
    c.label("refused");
    return;
  }
  Flat fb = flatten(c, *b, true);
  // ---- outside the damaged places: exactly as written --------------------
  vector<string> own; // keys that may differ
  std::set<int> dl, di;
  for (auto &x : dmg)
    if (x.link >= 0) {
      string k = "link/" + r.links[(size_t)x.link].name;
      dl.insert(x.link);
      if (x.part == "inertial")
        di.insert(x.link);
    }
  for (int l : dl) {
    string k = "link/" + r.links[(size_t)l].name;
    if (di.count(l))
      own.push_back(k + ".inertial");
    for (const char *t : {".n_visual", ".n_collision", ".visual", ".collision"})
      own.push_back(k + t);
  }
  for (auto &m : mats)
    own.push_back("material/" + m + ".");
  for (size_t l = 0; l < r.links.size(); l++)
    for (size_t i = 0; i < d.rl[l].vis.size(); i++) {
      auto &v = d.rl[l].vis[i];
      if (mats.count(v.has_mat ? v.m.name : ""))
        own.push_back("link/" + r.links[l].name + ".visual" + std::to_string(i) + ".material");
    }
  auto skip = [&](const string &k) {
    if (k == "n_materials" && !mats.empty())
      return true;
    if (k.size() > 14 && k.compare(k.size() - 14, 14, ".material_name") == 0) { // never affected, except in a damaged link
      for (int l : dl) {
        string p = "link/" + r.links[(size_t)l].name + ".visual";
        if (k.compare(0, p.size(), p) == 0)
          return true;
      }
      return false;
    }
    for (auto &p : own)
      if (k.compare(0, p.size(), p) == 0)
        return true;
    return false;
  };
  same_flat(c, fb, fg, 0, 0, 0, "description with malformed" + what, skip);
  // ---- inside a damaged link ---------------------------------------------
  Robot r2 = r; // the masses as understood
  for (int l : dl) {
    const string k = "link/" + r.links[(size_t)l].name;
    Link &x = r2.links[(size_t)l];
    if (di.count(l)) {
      if (fb[k + ".inertial"].s == "yes") {
        double m = fb[k + ".inertial.mass"].v;
        c.check(m == 0 || m == x.mass, k + ": mass " + num(m) + " is neither the written one nor absent");
        x.mass = m;
        bool zero = true, same = true;
        for (int q = 0; q < 6; q++) {
          double v = fb[k + ".inertial.I" + std::to_string(q)].v;
          zero &= v == 0;
          same &= v == x.I[q];
        }
        c.check(zero || same, k + ": inertia is neither the written one nor absent");
        for (int q = 0; q < 3; q++)
          x.ixyz[q] = fb[k + ".inertial.origin." + "xyz"[q]].v;
        x.has_iorigin = true;
      } else {
        x.inertial = false;
        x.mass = 0;
      }
    }
    for (int vis = 0; vis < 2; vis++) { // what is kept is what was written, in order
      const string t = vis ? ".visual" : ".collision", nk = vis ? ".n_visual" : ".n_collision";
      size_t n = (size_t)fb[k + nk].v, all = (size_t)fg[k + nk].v, from = 0;
      c.check(n <= all, k + ": more" + t + " elements than written");
      for (size_t i = 0; i < n; i++) {
        Flat got = part(fb, k + t + std::to_string(i), false);
        size_t j = from;
        while (j < all && !equal(part(fg, k + t + std::to_string(j), false), got))
          j++;
        if (j >= all)
          c.fail(k + t + std::to_string(i) + " is none of the written ones");
        from = j + 1;
      }
    }
  }
  // ---- the kinematic model ------------------------------------------------
  std::unique_ptr<KinematicModel> kb;
  try {
    kb.reset(new KinematicModel(text));
  } catch (const std::exception &e) {
    c.label("refused by the model only");
    return;
  }
  KinematicModel kg(good_text);
  auto jn = kg.get_joint_names();
  c.check(kb->get_joint_names() == jn, "joint names or ids changed");
  auto ja = kg.get_joint_ids(jn);
  c.check(kb->get_joint_ids(jn) == ja, "joint ids changed");
  c.check(kb->num_dof_ == kg.num_dof_, "degrees of freedom changed");
  c.check(kb->get_joint_position_limits(ja) == kg.get_joint_position_limits(ja) && kb->get_joint_velocity_limits(ja) == kg.get_joint_velocity_limits(ja) &&
              kb->get_joint_effort_limits(ja) == kg.get_joint_effort_limits(ja),
          "joint limits changed");
  State s = gen_state(c, r);
  note_state(c, r, s);
  Ids ib = lookup(*kb, r, s), ig = lookup(kg, r, s);
  apply_state(*kb, r, s, ib);
  apply_state(kg, r, s, ig);
  double sc = ref_scale(r, s) + 1, asc = ang_scale(r, s), tol = 1e-10 * sc * asc;
  for (size_t l = 0; l < r.links.size(); l++) {
    Transform x;
    kb->get_link_pose(ib.link[l], x);
    check_pose(c, x, ref_pose<double>(r, s, (int)l), tol, 1e-10 * asc, "pose of " + r.links[l].name);
  }
  size_t probe = c.below(r.links.size());
  same_mat(c, kb->get_jacobian(ib.link[probe], ja, RotationType::XYZW, false), kg.get_jacobian(ig.link[probe], ja, RotationType::XYZW, false), 1e-12 * sc * asc,
           "jacobian of " + r.links[probe].name);
  double m2 = r2.mass();
  c.near(kb->total_mass_, m2, 1e-12 * (m2 + 1), "total mass");
  if (m2 > 0) {
    auto com = kb->get_com();
    V<double> e = ref_com<double>(r2, s);
    for (int k = 0; k < 3; k++)
      c.near(com[k], e[k], tol, "centre of mass");
    if (!inertial_hit)
      same_mat(c, kb->get_total_inertia_matrix(), kg.get_total_inertia_matrix(), 0, "total inertia");
  }
  // ---- and the next description is read as if nothing had happened --------
  if (c.chance(20)) {
    auto again = urdf::parseURDF(good_text);
    c.check((bool)again, "a valid description was refused afterwards");
    same_flat(c, flatten(c, *again), fg, 0, 0, 0, "valid description afterwards");
  }
}
VP_PROP("C36", "random valid description with one or two malformed places inside links (inertial, visual, collision) or materials; either refused as a whole or everything else, poses, Jacobians, limits and (unless an inertial is hit) all masses as in the description without the damage; every case is non-trivial",
        prop, 16000, 500000, 20)
