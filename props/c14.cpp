// C14: export followed by parse gives the same robot back.
#include "common.hpp"
#include "flat.hpp"
#include "tinyxml.h"
using namespace rb;
static string export_text(urdf::ModelInterfaceSharedPtr &m) {
  std::unique_ptr<TiXmlDocument> doc(urdf::exportURDF(m));
  TiXmlPrinter pr;
  doc->Accept(&pr);
  return pr.CStr();
}
static urdf::Pose new_pose(Case &c) {
  urdf::Pose p;
  A3 x = gen_vec(c, 2), r = gen_vec(c, 1.4);
  p.position = urdf::Vector3(x[0], x[1], x[2]);
  p.rotation.setFromRPY(r[0], r[1], r[2]);
  return p;
}
static urdf::GeometrySharedPtr new_shape(Case &c) {
  switch (c.below(4)) {
  case 0: {
    auto s = std::make_shared<urdf::Sphere>();
    s->radius = gen_pos(c);
    return s;
  }
  case 1: {
    auto b = std::make_shared<urdf::Box>();
    b->dim = urdf::Vector3(gen_pos(c), gen_pos(c), gen_pos(c));
    return b;
  }
  case 2: {
    auto y = std::make_shared<urdf::Cylinder>();
    y->radius = gen_pos(c);
    y->length = gen_pos(c);
    return y;
  }
  default: {
    auto m = std::make_shared<urdf::Mesh>();
    m->filename = c.pick(vector<string>{"package://a/b.dae", "x.stl", "a & b.obj"});
    m->scale = urdf::Vector3(c.real(2), c.real(2), c.real(2));
    return m;
  }
  }
}
// change a parsed model by hand; what it then holds has to be exported
static void edit(Case &c, urdf::ModelInterface &m) {
  vector<urdf::LinkSharedPtr> ls;
  vector<urdf::JointSharedPtr> js;
  vector<urdf::MaterialSharedPtr> ms;
  for (auto &kv : m.links_)
    ls.push_back(kv.second);
  for (auto &kv : m.joints_)
    js.push_back(kv.second);
  for (auto &kv : m.materials_)
    ms.push_back(kv.second);
  urdf::Link &l = *c.pick(ls);
  switch (c.below(15)) {
  case 0:
    m.name_ += "_changed";
    return;
  case 1:
    if (!l.inertial)
      l.inertial.reset(new urdf::Inertial);
    l.inertial->mass = gen_pos(c);
    l.inertial->origin = new_pose(c);
    l.inertial->ixx = c.real(2);
    l.inertial->ixy = c.real(2);
    l.inertial->ixz = c.real(2);
    l.inertial->iyy = c.real(2);
    l.inertial->iyz = c.real(2);
    l.inertial->izz = c.real(2);
    return;
  case 2:
    l.inertial.reset();
    return;
  case 3: {
    auto v = std::make_shared<urdf::Visual>();
    v->origin = new_pose(c);
    v->geometry = new_shape(c);
    if (c.chance(50))
      v->name = "new_shape";
    if (!ms.empty() && c.chance(50)) {
      v->material = c.pick(ms);
      v->material_name = v->material->name;
    }
    l.visual_array.insert(l.visual_array.begin() + c.below(l.visual_array.size() + 1), v);
    l.visual = l.visual_array[0];
    return;
  }
  case 4: {
    auto v = std::make_shared<urdf::Collision>();
    v->origin = new_pose(c);
    v->geometry = new_shape(c);
    if (c.chance(50))
      v->name = "new_shape";
    l.collision_array.insert(l.collision_array.begin() + c.below(l.collision_array.size() + 1), v);
    l.collision = l.collision_array[0];
    return;
  }
  case 5:
    if (!l.visual_array.empty()) {
      l.visual_array.erase(l.visual_array.begin() + c.below(l.visual_array.size()));
      l.visual = l.visual_array.empty() ? nullptr : l.visual_array[0];
    }
    return;
  case 6:
    if (!l.collision_array.empty())
      c.pick(l.collision_array)->geometry = new_shape(c);
    if (!l.visual_array.empty())
      c.pick(l.visual_array)->geometry = new_shape(c);
    return;
  case 7:
    if (!ms.empty()) {
      urdf::Material &x = *c.pick(ms);
      for (float *f : {&x.color.r, &x.color.g, &x.color.b, &x.color.a})
        *f = (float)c.below(101) / 100;
      x.texture_filename = c.pick(vector<string>{"", "file.png", "a/b<c>.png"});
    }
    return;
  }
  if (js.empty())
    return;
  urdf::Joint &j = *c.pick(js);
  switch (c.below(7)) {
  case 0:
    j.parent_to_joint_origin_transform = new_pose(c);
    break;
  case 1:
    if (j.type != urdf::Joint::FIXED && j.type != urdf::Joint::FLOATING) {
      double v[3] = {0, 0, 0};
      v[c.below(3)] = c.chance(50) ? 1 : -1;
      j.axis = urdf::Vector3(v[0], v[1], v[2]);
    }
    break;
  case 2:
    if (!j.limits)
      j.limits.reset(new urdf::JointLimits);
    j.limits->lower = c.real(3);
    j.limits->upper = c.real(3);
    j.limits->effort = gen_pos(c);
    j.limits->velocity = gen_pos(c);
    break;
  case 3:
    j.dynamics.reset(c.chance(30) ? nullptr : new urdf::JointDynamics);
    if (j.dynamics) {
      j.dynamics->damping = c.real(2);
      j.dynamics->friction = c.real(2);
    }
    break;
  case 4:
    j.safety.reset(c.chance(30) ? nullptr : new urdf::JointSafety);
    if (j.safety) {
      j.safety->soft_lower_limit = c.real(2);
      j.safety->soft_upper_limit = c.real(2);
      j.safety->k_position = c.real(2);
      j.safety->k_velocity = c.real(2);
    }
    break;
  case 5:
    j.calibration.reset(c.chance(30) ? nullptr : new urdf::JointCalibration);
    if (j.calibration) {
      j.calibration->rising.reset(c.chance(70) ? new double(c.real(2)) : nullptr);
      j.calibration->falling.reset(c.chance(70) || !j.calibration->rising ? new double(c.real(2)) : nullptr);
    }
    break;
  default:
    j.mimic.reset(c.chance(30) ? nullptr : new urdf::JointMimic);
    if (j.mimic) {
      j.mimic->joint_name = c.pick(js)->name;
      j.mimic->multiplier = c.real(2);
      j.mimic->offset = c.real(2);
    }
  }
}
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 7;
  o.g.big_pct = 3;
  o.g.big_links = 40;
  o.odd_joints = true;
  Desc d = gen_desc(c, o);
  string text = to_text(el_robot(d));
  c.note(text);
  auto a = urdf::parseURDF(text);
  c.check((bool)a, "a valid description was refused");
  const int edits = c.chance(40) ? c.range(1, 6) : 0;
  for (int i = 0; i < edits; i++)
    edit(c, *a);
  c.note(edits, " changes made to the parsed model");
  Flat fa = flatten(c, *a);
  string out = export_text(a);
  c.note("exported:\n", out);
  same_flat(c, flatten(c, *a), fa, 0, 0, 0, "model after it was exported");
  auto b = urdf::parseURDF(out);
  c.check((bool)b, "the exported description was refused");
  Flat fb = flatten(c, *b);
  same_flat(c, fb, fa, 1e-5, 2e-5, 0.01, "re-parsed export");
  if (!edits)
    same_flat(c, fb, expect(d), 1e-5, 2e-5, 0.01, "re-parsed export against the original description");
  // and again: nothing drifts
  string out2 = export_text(b);
  auto b2 = urdf::parseURDF(out2);
  c.check((bool)b2, "the second export was refused");
  same_flat(c, flatten(c, *b2), fb, 2e-6, 2e-5, 0.01, "second export");
  size_t extras = 0;
  for (auto &l : d.rl)
    extras += l.vis.size() + l.col.size();
  for (auto &j : d.rj)
    extras += j.safety + j.calib + j.mimic + j.dyn;
  c.nontrivial = d.r.links.size() >= 2 && extras >= 1;
  if (edits)
    c.label("model changed by hand before the export");
  c.label(extras == 0 ? "kinematics only" : extras < 5 ? "1-4 optional parts" : ">=5 optional parts");
}
VP_PROP("C14", "random description over the whole supported vocabulary is parsed, in 40% changed by hand in 1-6 places, exported, parsed and exported again; all fields of the models compared; non-trivial = at least two links and one optional part",
        prop, 18000, 500000, 20)
