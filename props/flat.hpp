// A parsed model and a description flattened into the same key -> value map.
#pragma once
#include "desc.hpp"
#include "urdf_parser/urdf_parser.h"

namespace rb {
struct Val {
  bool is_num = false, is_rot = false, lock = false;
  double v = 0;
  string s;
  Val() {}
  Val(double x) : is_num(true), v(x) {}
  Val(const string &x) : s(x) {}
  Val(const char *x) : s(x) {}
};
typedef std::map<string, Val> Flat;

inline void put3(Flat &f, const string &k, double x, double y, double z) {
  f[k + ".x"] = Val(x);
  f[k + ".y"] = Val(y);
  f[k + ".z"] = Val(z);
}
inline void put_rot(Flat &f, const string &k, const double R[3][3]) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      Val v(R[i][j]);
      v.is_rot = true;
      v.lock = std::fabs(R[2][0]) > 0.9999;
      f[k + ".R" + std::to_string(i) + std::to_string(j)] = v;
    }
}
inline void put_pose(Flat &f, const string &k, const urdf::Pose &p) {
  put3(f, k, p.position.x, p.position.y, p.position.z);
  const auto &q = p.rotation;
  double n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, s = 2 / n;
  double R[3][3] = {{1 - s * (q.y * q.y + q.z * q.z), s * (q.x * q.y - q.z * q.w), s * (q.x * q.z + q.y * q.w)},
                    {s * (q.x * q.y + q.z * q.w), 1 - s * (q.x * q.x + q.z * q.z), s * (q.y * q.z - q.x * q.w)},
                    {s * (q.x * q.z - q.y * q.w), s * (q.y * q.z + q.x * q.w), 1 - s * (q.x * q.x + q.y * q.y)}};
  put_rot(f, k, R);
}
inline void put_pose(Flat &f, const string &k, const A3 &xyz, const A3 &rpy) {
  put3(f, k, xyz[0], xyz[1], xyz[2]);
  M<double> R = rot_rpy(rpy[0], rpy[1], rpy[2]);
  put_rot(f, k, R.m);
}
inline string joined(std::set<string> s) {
  string o;
  for (auto &x : s)
    o += std::to_string(x.size()) + ":" + x + ",";
  return o;
}
inline const char *utype(int t) {
  switch (t) {
  case urdf::Joint::REVOLUTE: return "revolute";
  case urdf::Joint::CONTINUOUS: return "continuous";
  case urdf::Joint::PRISMATIC: return "prismatic";
  case urdf::Joint::FLOATING: return "floating";
  case urdf::Joint::PLANAR: return "planar";
  case urdf::Joint::FIXED: return "fixed";
  default: return "unknown";
  }
}
inline void flat_mat(Flat &f, const string &k, const string &name, const float rgba[4], const string &tex) {
  f[k + ".name"] = name;
  f[k + ".texture"] = tex;
  for (int i = 0; i < 4; i++)
    f[k + ".rgba" + std::to_string(i)] = Val((double)rgba[i]);
}
inline void flat_mat(Flat &f, const string &k, const urdf::Material &m) {
  float c[4] = {m.color.r, m.color.g, m.color.b, m.color.a};
  flat_mat(f, k, m.name, c, m.texture_filename);
}
inline void flat_mat(Flat &f, const string &k, const Mat &m) {
  float c[4] = {0, 0, 0, 1};
  if (m.color)
    for (int i = 0; i < 4; i++)
      c[i] = (float)m.rgba[i];
  flat_mat(f, k, m.name, c, m.texture ? m.tex : "");
}
inline void flat_geo(Case &c, Flat &f, const string &k, const urdf::GeometrySharedPtr &g) {
  if (!g)
    c.fail(k + ": no geometry");
  if (auto *s = dynamic_cast<urdf::Sphere *>(g.get())) {
    c.check(g->type == urdf::Geometry::SPHERE, k + ": geometry type tag");
    f[k] = "sphere";
    f[k + ".radius"] = Val(s->radius);
  } else if (auto *b = dynamic_cast<urdf::Box *>(g.get())) {
    c.check(g->type == urdf::Geometry::BOX, k + ": geometry type tag");
    f[k] = "box";
    put3(f, k + ".size", b->dim.x, b->dim.y, b->dim.z);
  } else if (auto *y = dynamic_cast<urdf::Cylinder *>(g.get())) {
    c.check(g->type == urdf::Geometry::CYLINDER, k + ": geometry type tag");
    f[k] = "cylinder";
    f[k + ".radius"] = Val(y->radius);
    f[k + ".length"] = Val(y->length);
  } else if (auto *m = dynamic_cast<urdf::Mesh *>(g.get())) {
    c.check(g->type == urdf::Geometry::MESH, k + ": geometry type tag");
    f[k] = "mesh";
    f[k + ".file"] = m->filename;
    put3(f, k + ".scale", m->scale.x, m->scale.y, m->scale.z);
  } else
    c.fail(k + ": unknown geometry class");
}
// partial: a link may have been given up half-way
inline Flat flatten(Case &c, const urdf::ModelInterface &m, bool partial = false) {
  Flat f;
  f["robot"] = m.getName();
  c.check((bool)m.getRoot(), "parsed model has no root");
  f["root"] = m.getRoot()->name;
  f["n_links"] = Val((double)m.links_.size());
  f["n_joints"] = Val((double)m.joints_.size());
  f["n_materials"] = Val((double)m.materials_.size());
  for (auto &kv : m.materials_) {
    c.check(kv.first == kv.second->name, "material stored under another name");
    flat_mat(f, "material/" + kv.first, *kv.second);
  }
  for (auto &kv : m.links_) {
    const urdf::Link &l = *kv.second;
    string k = "link/" + kv.first;
    c.check(l.name == kv.first, k + " stored under another name");
    f[k] = "present";
    f[k + ".parent"] = l.getParent() ? "link " + l.getParent()->name : "none";
    f[k + ".parent_joint"] = l.parent_joint ? "joint " + l.parent_joint->name : "none";
    std::set<string> cl, cj;
    for (auto &x : l.child_links)
      c.check(cl.insert(x->name).second, k + ": child link listed twice");
    for (auto &x : l.child_joints)
      c.check(cj.insert(x->name).second, k + ": child joint listed twice");
    f[k + ".child_links"] = joined(cl);
    f[k + ".child_joints"] = joined(cj);
    f[k + ".inertial"] = l.inertial ? "yes" : "no";
    if (l.inertial) {
      put_pose(f, k + ".inertial.origin", l.inertial->origin);
      f[k + ".inertial.mass"] = Val(l.inertial->mass);
      const double I[6] = {l.inertial->ixx, l.inertial->ixy, l.inertial->ixz, l.inertial->iyy, l.inertial->iyz, l.inertial->izz};
      for (int i = 0; i < 6; i++)
        f[k + ".inertial.I" + std::to_string(i)] = Val(I[i]);
    }
    f[k + ".n_visual"] = Val((double)l.visual_array.size());
    f[k + ".n_collision"] = Val((double)l.collision_array.size());
    c.check((partial && !l.visual) || l.visual == (l.visual_array.empty() ? nullptr : l.visual_array[0]), k + ": visual is not the first of the visuals");
    c.check((partial && !l.collision) || l.collision == (l.collision_array.empty() ? nullptr : l.collision_array[0]), k + ": collision is not the first of the collisions");
    for (size_t i = 0; i < l.visual_array.size(); i++) {
      const urdf::Visual &v = *l.visual_array[i];
      string kk = k + ".visual" + std::to_string(i);
      f[kk + ".name"] = v.name;
      put_pose(f, kk + ".origin", v.origin);
      flat_geo(c, f, kk + ".geometry", v.geometry);
      f[kk + ".material_name"] = v.material_name;
      auto mat = v.material ? v.material : m.getMaterial(v.material_name);
      f[kk + ".material"] = mat ? "yes" : "no";
      if (mat)
        flat_mat(f, kk + ".material", *mat);
    }
    for (size_t i = 0; i < l.collision_array.size(); i++) {
      const urdf::Collision &v = *l.collision_array[i];
      string kk = k + ".collision" + std::to_string(i);
      f[kk + ".name"] = v.name;
      put_pose(f, kk + ".origin", v.origin);
      flat_geo(c, f, kk + ".geometry", v.geometry);
    }
  }
  for (auto &kv : m.joints_) {
    const urdf::Joint &j = *kv.second;
    string k = "joint/" + kv.first;
    c.check(j.name == kv.first, k + " stored under another name");
    f[k] = "present";
    f[k + ".type"] = utype(j.type);
    f[k + ".parent"] = j.parent_link_name;
    f[k + ".child"] = j.child_link_name;
    put_pose(f, k + ".origin", j.parent_to_joint_origin_transform);
    put3(f, k + ".axis", j.axis.x, j.axis.y, j.axis.z);
    f[k + ".limits"] = j.limits ? "yes" : "no";
    if (j.limits) {
      f[k + ".lower"] = Val(j.limits->lower);
      f[k + ".upper"] = Val(j.limits->upper);
      f[k + ".effort"] = Val(j.limits->effort);
      f[k + ".velocity"] = Val(j.limits->velocity);
    }
    f[k + ".safety"] = j.safety ? "yes" : "no";
    if (j.safety) {
      f[k + ".soft_lower_limit"] = Val(j.safety->soft_lower_limit);
      f[k + ".soft_upper_limit"] = Val(j.safety->soft_upper_limit);
      f[k + ".k_position"] = Val(j.safety->k_position);
      f[k + ".k_velocity"] = Val(j.safety->k_velocity);
    }
    // a calibration without any edge says nothing
    f[k + ".rising"] = j.calibration && j.calibration->rising ? "yes" : "no";
    f[k + ".falling"] = j.calibration && j.calibration->falling ? "yes" : "no";
    if (j.calibration && j.calibration->rising)
      f[k + ".rising.value"] = Val(*j.calibration->rising);
    if (j.calibration && j.calibration->falling)
      f[k + ".falling.value"] = Val(*j.calibration->falling);
    f[k + ".mimic"] = j.mimic ? "yes" : "no";
    if (j.mimic) {
      f[k + ".mimic.joint"] = j.mimic->joint_name;
      f[k + ".mimic.multiplier"] = Val(j.mimic->multiplier);
      f[k + ".mimic.offset"] = Val(j.mimic->offset);
    }
    f[k + ".dynamics"] = j.dynamics ? "yes" : "no";
    if (j.dynamics) {
      f[k + ".damping"] = Val(j.dynamics->damping);
      f[k + ".friction"] = Val(j.dynamics->friction);
    }
  }
  return f;
}
inline void expect_vis(Flat &f, const string &kk, const Vis &v, bool visual, std::map<string, Mat> &mats) {
  f[kk + ".name"] = v.has_name ? v.name : "";
  put_pose(f, kk + ".origin", v.o.xyz, v.o.rpy);
  static const char *gn[] = {"sphere", "box", "cylinder", "mesh"};
  f[kk + ".geometry"] = gn[v.g.kind];
  switch (v.g.kind) {
  case 0: f[kk + ".geometry.radius"] = Val(v.g.radius); break;
  case 1: put3(f, kk + ".geometry.size", v.g.v[0], v.g.v[1], v.g.v[2]); break;
  case 2:
    f[kk + ".geometry.radius"] = Val(v.g.radius);
    f[kk + ".geometry.length"] = Val(v.g.length);
    break;
  default:
    f[kk + ".geometry.file"] = v.g.file;
    put3(f, kk + ".geometry.scale", v.g.has_scale ? v.g.v[0] : 1, v.g.has_scale ? v.g.v[1] : 1, v.g.has_scale ? v.g.v[2] : 1);
  }
  if (!visual)
    return;
  f[kk + ".material_name"] = v.has_mat ? v.m.name : "";
  auto it = v.has_mat ? mats.find(v.m.name) : mats.end();
  f[kk + ".material"] = it != mats.end() ? "yes" : "no";
  if (it != mats.end())
    flat_mat(f, kk + ".material", it->second);
}
inline Flat expect(const Desc &d) {
  Flat f;
  const Robot &r = d.r;
  f["robot"] = r.name;
  f["root"] = r.links[r.root].name;
  f["n_links"] = Val((double)r.links.size());
  f["n_joints"] = Val((double)r.joints.size());
  std::map<string, Mat> mats;
  for (auto &m : d.mats)
    mats.emplace(m.name, m);
  for (auto &l : d.rl)
    for (auto &v : l.vis)
      if (v.has_mat && (v.m.color || v.m.texture))
        mats.emplace(v.m.name, v.m); // defined in place; an earlier definition wins
  f["n_materials"] = Val((double)mats.size());
  for (auto &kv : mats)
    flat_mat(f, "material/" + kv.first, kv.second);
  vector<std::set<string>> cl(r.links.size()), cj(r.links.size());
  for (auto &j : r.joints) {
    cl[j.parent].insert(r.links[j.child].name);
    cj[j.parent].insert(j.name);
  }
  for (size_t i = 0; i < r.links.size(); i++) {
    const Link &l = r.links[i];
    string k = "link/" + l.name;
    f[k] = "present";
    f[k + ".parent"] = l.parent >= 0 ? "link " + r.links[l.parent].name : "none";
    f[k + ".parent_joint"] = l.parent >= 0 ? "joint " + r.joints[l.joint].name : "none";
    f[k + ".child_links"] = joined(cl[i]);
    f[k + ".child_joints"] = joined(cj[i]);
    f[k + ".inertial"] = l.inertial ? "yes" : "no";
    if (l.inertial) {
      put_pose(f, k + ".inertial.origin", l.ixyz, l.irpy);
      f[k + ".inertial.mass"] = Val(l.mass);
      for (int q = 0; q < 6; q++)
        f[k + ".inertial.I" + std::to_string(q)] = Val(l.I[q]);
    }
    f[k + ".n_visual"] = Val((double)d.rl[i].vis.size());
    f[k + ".n_collision"] = Val((double)d.rl[i].col.size());
    for (size_t n = 0; n < d.rl[i].vis.size(); n++)
      expect_vis(f, k + ".visual" + std::to_string(n), d.rl[i].vis[n], true, mats);
    for (size_t n = 0; n < d.rl[i].col.size(); n++)
      expect_vis(f, k + ".collision" + std::to_string(n), d.rl[i].col[n], false, mats);
  }
  for (size_t i = 0; i < r.joints.size(); i++) {
    const Joint &j = r.joints[i];
    const RJoint &x = d.rj[i];
    string k = "joint/" + j.name;
    f[k] = "present";
    string t = x.odd == 1 ? "planar" : x.odd == 2 ? "floating" : jtype_name(j.type);
    f[k + ".type"] = t;
    f[k + ".parent"] = r.links[j.parent].name;
    f[k + ".child"] = r.links[j.child].name;
    put_pose(f, k + ".origin", j.xyz, j.rpy);
    if (t == "fixed" || t == "floating")
      put3(f, k + ".axis", 0, 0, 0);
    else
      put3(f, k + ".axis", j.axis[0], j.axis[1], j.axis[2]);
    f[k + ".limits"] = j.has_limit ? "yes" : "no";
    if (j.has_limit) {
      f[k + ".lower"] = Val(j.lower);
      f[k + ".upper"] = Val(j.upper);
      f[k + ".effort"] = Val(j.effort);
      f[k + ".velocity"] = Val(j.velocity);
    }
    auto ov = [](const Opt &o, double dflt) { return Val(o.has ? o.v : dflt); };
    f[k + ".safety"] = x.safety ? "yes" : "no";
    if (x.safety) {
      f[k + ".soft_lower_limit"] = ov(x.soft_lo, 0);
      f[k + ".soft_upper_limit"] = ov(x.soft_up, 0);
      f[k + ".k_position"] = ov(x.kpos, 0);
      f[k + ".k_velocity"] = Val(x.kvel);
    }
    f[k + ".rising"] = x.calib && x.rising.has ? "yes" : "no";
    f[k + ".falling"] = x.calib && x.falling.has ? "yes" : "no";
    if (x.calib && x.rising.has)
      f[k + ".rising.value"] = Val(x.rising.v);
    if (x.calib && x.falling.has)
      f[k + ".falling.value"] = Val(x.falling.v);
    f[k + ".mimic"] = x.mimic ? "yes" : "no";
    if (x.mimic) {
      f[k + ".mimic.joint"] = x.mimic_joint;
      f[k + ".mimic.multiplier"] = ov(x.mult, 1);
      f[k + ".mimic.offset"] = ov(x.off, 0);
    }
    f[k + ".dynamics"] = x.dyn ? "yes" : "no";
    if (x.dyn) {
      f[k + ".damping"] = ov(x.damping, 0);
      f[k + ".friction"] = ov(x.friction, 0);
    }
  }
  return f;
}
// rel: relative tolerance of numbers, rtol: absolute one of rotation entries
inline void same_flat(Case &c, const Flat &got, const Flat &want, double rel, double rtol, double lock_tol, const string &what,
                      const std::function<bool(const string &)> &skip = nullptr) {
  for (auto &kv : want) {
    if (skip && skip(kv.first))
      continue;
    auto it = got.find(kv.first);
    if (it == got.end())
      c.fail(what + ": " + kv.first + " is missing (expected " + (kv.second.is_num ? num(kv.second.v) : "\"" + kv.second.s + "\"") + ")");
    const Val &g = it->second, &w = kv.second;
    bool ok = w.is_num ? (w.is_rot ? std::fabs(g.v - w.v) <= (w.lock ? lock_tol : rtol)
                                   : g.v == w.v || (std::isnan(g.v) && std::isnan(w.v)) || std::fabs(g.v - w.v) <= rel * std::fabs(w.v))
                       : g.s == w.s;
    if (!ok)
      c.fail(what + ": " + kv.first + " is " + (w.is_num ? num(g.v) : "\"" + g.s + "\"") + ", expected " + (w.is_num ? num(w.v) : "\"" + w.s + "\""));
  }
  for (auto &kv : got)
    if (!(skip && skip(kv.first)) && !want.count(kv.first))
      c.fail(what + ": unexpected " + kv.first);
}
} // namespace rb
