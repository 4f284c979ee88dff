// C10: parsing preserves everything the description states.
#include "common.hpp"
#include "flat.hpp"
using namespace rb;
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 7;
  o.g.big_pct = 3;
  o.g.big_links = 40;
  o.odd_joints = true;
  Desc d = gen_desc(c, o);
  string text = to_text(el_robot(d));
  c.note(text);
  auto m = urdf::parseURDF(text);
  c.check((bool)m, "a valid description was refused");
  Flat want = expect(d);
  same_flat(c, flatten(c, *m), want, 0, 1e-12, 1e-12, "parsed model");
  // lookups
  for (auto &l : d.r.links) {
    auto p = m->getLink(l.name);
    c.check(p && p->name == l.name, "getLink does not find " + l.name);
  }
  for (auto &j : d.r.joints) {
    auto p = m->getJoint(j.name);
    c.check(p && p->name == j.name, "getJoint does not find " + j.name);
  }
  vector<urdf::LinkSharedPtr> all;
  m->getLinks(all);
  c.check(all.size() == d.r.links.size(), "getLinks does not return every link");
  size_t extras = 0;
  for (auto &l : d.rl)
    extras += l.vis.size() + l.col.size();
  for (auto &j : d.rj)
    extras += j.safety + j.calib + j.mimic + j.dyn;
  c.nontrivial = d.r.links.size() >= 2 && extras >= 1;
  c.label(extras == 0 ? "kinematics only" : extras < 5 ? "1-4 optional parts" : ">=5 optional parts");
  if (!d.mats.empty())
    c.label("with global materials");
}
VP_PROP("C10", "random description over the whole supported vocabulary, any presence pattern of optional parts, numbers written with 17 digits; every field of the parsed model compared with the generated structure; non-trivial = at least two links and one optional part (visual, collision, safety, calibration, mimic, dynamics)",
        prop, 32000, 800000, 20)
