// C11: how a description is written does not change what it means.
#include "common.hpp"
#include "flat.hpp"
using namespace rb;
static void compare_models(Case &c, KinematicModel &a, KinematicModel &b, const Robot &r) {
  c.check(a.get_link_names() == b.get_link_names(), "link names or their ids differ between two spellings");
  c.check(a.get_joint_names() == b.get_joint_names(), "joint names or their ids differ between two spellings");
  c.check(a.num_dof_ == b.num_dof_ && a.root_link_id_ == b.root_link_id_, "dof or root differs between two spellings");
  c.check(a.total_mass_ == b.total_mass_, "total mass differs between two spellings");
  auto jn = a.get_joint_names();
  auto ja = a.get_joint_ids(jn), jb = b.get_joint_ids(jn);
  c.check(ja == jb, "joint ids differ between two spellings");
  c.check(a.get_joint_position_limits(ja) == b.get_joint_position_limits(jb), "position limits differ between two spellings");
  c.check(a.get_joint_velocity_limits(ja) == b.get_joint_velocity_limits(jb), "velocity limits differ between two spellings");
  c.check(a.get_joint_effort_limits(ja) == b.get_joint_effort_limits(jb), "effort limits differ between two spellings");
  State s = gen_state(c, r);
  note_state(c, r, s);
  Ids ia = lookup(a, r, s), ib = lookup(b, r, s);
  apply_state(a, r, s, ia);
  apply_state(b, r, s, ib);
  double tol = 1e-12 * ref_scale(r, s) * ang_scale(r, s);
  for (auto &nm : a.get_link_names()) {
    Transform x, y;
    a.get_link_pose(a.get_link_ids({nm})[0], x);
    b.get_link_pose(b.get_link_ids({nm})[0], y);
    same_pose(c, x, y, tol, tol, "pose of " + nm + " between two spellings");
  }
  if (r.mass() > 0) {
    same_mat(c, a.get_com_jacobian(ja, false), b.get_com_jacobian(jb, false), 100 * tol, "com jacobian between two spellings");
    double mt = r.mass() + 1;
    for (auto &l : r.links)
      for (double x : l.I)
        mt += std::fabs(x);
    same_mat(c, a.get_total_inertia_matrix(), b.get_total_inertia_matrix(), 100 * tol * ref_scale(r, s) * mt, "inertia between two spellings");
  }
}
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 6;
  o.g.big_pct = 2;
  o.g.big_links = 25;
  Desc d = gen_desc(c, o);
  El e = el_robot(d);
  string plain = to_text(e);
  Style st = gen_style(c);
  string styled = to_styled(c, e, st);
  c.note("plain:\n", plain);
  c.note("rewritten:\n", styled);
  auto ma = urdf::parseURDF(plain), mb = urdf::parseURDF(styled);
  c.check((bool)ma, "a valid description was refused");
  c.check((bool)mb, "another spelling of a valid description was refused");
  // which definition of a repeated in-place material comes first depends on order
  auto skip = [&](const string &k) { return st.order_kids && (k.compare(0, 9, "material/") == 0 || (k.find(".visual") != string::npos && k.find(".material.") != string::npos)); };
  same_flat(c, flatten(c, *mb), flatten(c, *ma), 0, 0, 0, "parsed model of another spelling", skip);
  KinematicModel a(plain), b(styled);
  compare_models(c, a, b, d.r);
  int n = st.order_attr + st.order_kids + st.space + st.quotes + st.closing + st.numbers + st.comments + st.unknown + st.entities + st.pi + st.bulk + (st.decl != 0);
  c.nontrivial = n >= 1 && styled != plain && d.r.links.size() >= 2;
  if (st.bulk)
    c.label("long runs of comments, blanks or unknown elements");
  c.label(n == 0 ? "no rewrite" : n <= 3 ? "1-3 rewrite classes" : n <= 7 ? "4-7 rewrite classes" : ">7 rewrite classes");
}
VP_PROP("C11", "random description written twice, plainly and with a random set of meaning-preserving rewrites (order of attributes/elements, whitespace, quotes, closing form, number spelling, comments, PIs, unknown elements, character references, declaration/BOM, long runs of ignorable content); parsed models and kinematic models compared; non-trivial = at least one rewrite class active and at least two links",
        prop, 9000, 500000, 20)
