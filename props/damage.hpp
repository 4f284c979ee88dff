// Malformed content for links and materials (shared by C36 and C37).
#pragma once
#include "desc.hpp"

namespace rb {
namespace dmg {
inline string bad_scalar(Case &c) {
  return c.pick(vector<string>{"abc", "", "1.0.0", "1,5", "1e", "--1", "1 2", "1.5m", "one", "0,1", " ", "1;", "+-2", "1f", "1e400x", "\xEF\xBB\xBF" "1"});
}
inline string bad_vector(Case &c) {
  return c.pick(vector<string>{"1 2", "1 2 3 4", "", "a b c", "1 2 x", "1,2,3", "1 2 3,", "0.1.2 0 0", "1", " ", "1 2 --3", "x 0 0", "7 x 9", "7 8", "1 2 3 4 5 6 7 8 9"});
}
inline string bad_color(Case &c) {
  return c.pick(vector<string>{"1 0 0", "", "red", "1 0 0 x", "1 2 0 1", "0 0 0 -1", "0 0 0 1 1", "#ff0000", "1,0,0,1", "0.5 0.5 0.5 1.5", "nan 0 0 1", "0 0 0 1e9", "0.1.1 0 0 0"});
}
inline bool drop_kid(El &e, const string &tag) {
  for (size_t i = 0; i < e.kids.size(); i++)
    if (e.kids[i].tag == tag) {
      e.kids.erase(e.kids.begin() + (long)i);
      return true;
    }
  return false;
}
inline bool bad_origin(Case &c, El &e) {
  El *o = e.find("origin");
  if (!o)
    o = &e.add(El("origin"));
  o->set(c.chance(50) ? "xyz" : "rpy", bad_vector(c));
  return true;
}
inline void break_inertial(Case &c, El &i) {
  const char *nm[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  El *m = i.find("mass"), *t = i.find("inertia");
  switch (c.range(0, 6)) {
  case 0: bad_origin(c, i); break;
  case 1: m->set("value", bad_scalar(c)); break;
  case 2: m->drop_attr("value"); break;
  case 3: drop_kid(i, "mass"); break;
  case 4: t->set(nm[c.range(0, 5)], bad_scalar(c)); break;
  case 5: t->drop_attr(nm[c.range(0, 5)]); break;
  default: drop_kid(i, "inertia");
  }
}
inline void break_color(Case &c, El &m) {
  El *k = m.find("color");
  if (!k)
    k = &m.add(El("color"));
  if (c.chance(25))
    k->drop_attr("rgba");
  else
    k->set("rgba", bad_color(c));
}
// false: only its material colour is affected
inline bool break_vis(Case &c, El &v) {
  El *g = v.find("geometry"), *mat = v.find("material");
  El *s = g->kids.empty() ? nullptr : &g->kids[0];
  for (;;)
    switch (c.range(0, 7)) {
    case 0: return bad_origin(c, v);
    case 1: return drop_kid(v, "geometry");
    case 2: g->kids.clear(); return true;
    case 3:
      s->tag = c.pick(vector<string>{"Sphere", "ball", "capsule", "boxes", "cylinders", "shape", "origin", "spher"});
      return true;
    case 4: // an attribute the shape cannot do without
      if (s->tag == "mesh")
        s->drop_attr("filename");
      else
        s->drop_attr(s->tag == "box" ? "size" : s->tag == "cylinder" && c.chance(50) ? "length" : "radius");
      return true;
    case 5:
      if (s->tag == "mesh")
        s->set("scale", bad_vector(c));
      else if (s->tag == "box")
        s->set("size", bad_vector(c));
      else
        s->set(s->tag == "cylinder" && c.chance(50) ? "length" : "radius", bad_scalar(c));
      return true;
    case 6:
      if (v.tag == "collision")
        break;
      if (!mat)
        mat = &v.add(El("material"));
      return mat->drop_attr("name"), true;
    default:
      if (v.tag == "collision" || !mat)
        break;
      break_color(c, *mat);
      return false;
    }
}
} // namespace dmg
} // namespace rb
