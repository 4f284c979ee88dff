// Full robot descriptions (everything the format can say), as an abstract
// structure, an element tree, and text in many equivalent spellings.
#pragma once
#include "robot.hpp"
#include <map>

namespace rb {

struct El {
  string tag;
  vector<std::pair<string, string>> at;
  vector<El> kids;
  // attributes whose value is one number / a list of numbers (may be respelled)
  std::map<string, vector<double>> nums;
  El() {}
  explicit El(string t) : tag(std::move(t)) {}
  El &a(const string &k, const string &v) {
    at.emplace_back(k, v);
    return *this;
  }
  El &n(const string &k, const vector<double> &v) {
    string s;
    for (size_t i = 0; i < v.size(); i++)
      s += (i ? " " : "") + num(v[i]);
    nums[k] = v;
    return a(k, s);
  }
  El &add(El e) {
    kids.push_back(std::move(e));
    return kids.back();
  }
  El *find(const string &t) {
    for (auto &k : kids)
      if (k.tag == t)
        return &k;
    return nullptr;
  }
  bool drop_attr(const string &k) {
    for (size_t i = 0; i < at.size(); i++)
      if (at[i].first == k) {
        at.erase(at.begin() + i);
        return true;
      }
    return false;
  }
  void set(const string &k, const string &v) {
    nums.erase(k); // no longer a well-spelled number
    for (auto &x : at)
      if (x.first == k) {
        x.second = v;
        return;
      }
    at.emplace_back(k, v);
  }
};

struct Orig {
  bool has = false, has_xyz = false, has_rpy = false;
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
};
struct Geo {
  int kind = 0; // sphere box cylinder mesh
  double radius = 0, length = 0;
  A3 v{{1, 1, 1}}; // box size / mesh scale
  bool has_scale = false;
  string file;
};
struct Mat {
  string name;
  bool color = false, texture = false, empty_color = false, empty_texture = false;
  double rgba[4] = {0, 0, 0, 1};
  string tex;
};
struct Vis {
  bool has_name = false;
  string name;
  Orig o;
  Geo g;
  bool has_mat = false; // visuals only
  Mat m;
};
struct RLink {
  vector<Vis> vis, col;
};
struct Opt { // optional number
  bool has = false;
  double v = 0;
};
struct RJoint {
  bool safety = false, calib = false, mimic = false, dyn = false;
  Opt soft_lo, soft_up, kpos, rising, falling, mult, off, damping, friction;
  double kvel = 0;
  string mimic_joint;
  bool axis_no_xyz = false; // <axis/> without xyz: a zero axis
  int odd = 0;              // 1 planar, 2 floating instead of the abstract type
};
struct Desc {
  Robot r;
  vector<RLink> rl;
  vector<RJoint> rj;
  vector<Mat> mats;
  bool version = false;
};

struct DescOpt {
  GenOpt g;
  bool odd_joints = false; // planar and floating joints (parser level only)
  bool rich = true;
};

inline string gen_text(Case &c) { // free text for file names, material names, ...
  static const vector<string> t = {"red", "mesh/a.stl", "package://pr2/meshes/x y.dae", "grey & blue", "<none>", "m\"1\"", "it's", "\xC3\xA9", "a", "Default", "b\\c", "c:\\x", "../up", "x=1;y=2", "100%", "&lt;",
                                   "two\nlines", "  indented\n    text\n", "\ta\tb", "a  b ", " ", "]]>", "<!-- x -->", "{}", "\xE6\x97\xA5\xE6\x9C\xAC"};
  if (c.chance(1))
    return string(c.range(200, 9000), 'x') + "/y";
  string s = c.pick(t);
  if (c.chance(60))
    s += std::to_string(c.range(0, 3));
  return s;
}
inline Opt gen_opt(Case &c, double mag) {
  Opt o;
  if (c.chance(70)) {
    o.has = true;
    o.v = c.real(mag);
  }
  return o;
}
inline Orig gen_orig(Case &c) {
  Orig o;
  o.has = c.chance(70);
  if (o.has) {
    o.has_xyz = c.chance(80);
    o.has_rpy = c.chance(70);
    if (o.has_xyz)
      o.xyz = gen_vec(c, 2);
    if (o.has_rpy)
      o.rpy = gen_rpy(c);
  }
  return o;
}
inline double gen_pos(Case &c) { return c.chance(8) ? 0.0 : std::fabs(c.real(3)); }
inline Mat gen_mat(Case &c, const string &name, bool ref_ok) {
  Mat m;
  m.name = name;
  switch (ref_ok ? c.weighted({30, 35, 20, 15}) : c.weighted({6, 50, 24, 20})) {
  case 0: break;
  case 1: m.color = true; break;
  case 2: m.texture = true; break;
  default: m.color = m.texture = true;
  }
  m.empty_color = !m.color && c.chance(10);
  m.empty_texture = !m.texture && c.chance(10);
  if (m.color)
    for (double &x : m.rgba)
      x = c.chance(30) ? (double)c.range(0, 1) : c.chance(50) ? c.range(0, 20) * 0.05 : c.unit();
  if (m.texture)
    m.tex = gen_text(c);
  return m;
}
inline Vis gen_vis(Case &c, bool visual) {
  Vis v;
  v.has_name = c.chance(40);
  if (v.has_name)
    v.name = gen_text(c);
  v.o = gen_orig(c);
  v.g.kind = c.range(0, 3);
  v.g.radius = gen_pos(c);
  v.g.length = gen_pos(c);
  if (v.g.kind == 1)
    v.g.v = A3{{gen_pos(c), gen_pos(c), gen_pos(c)}};
  if (v.g.kind == 3) {
    v.g.file = gen_text(c);
    v.g.has_scale = c.chance(60);
    if (v.g.has_scale)
      v.g.v = gen_vec(c, 3);
  }
  if (visual && c.chance(60)) {
    v.has_mat = true;
    v.m = gen_mat(c, gen_text(c), true);
  }
  return v;
}
inline Desc gen_desc(Case &c, const DescOpt &o = DescOpt()) {
  Desc d;
  d.r = gen_robot(c, o.g);
  d.version = c.chance(20);
  d.rl.resize(d.r.links.size());
  d.rj.resize(d.r.joints.size());
  if (!o.rich)
    return d;
  int rich = (int)c.pick(vector<int>{50, 20, 0, 90});
  std::set<string> mn;
  for (int k = c.chance(70) ? c.range(0, 5) : 0; k > 0; k--) {
    string n = gen_text(c);
    if (mn.insert(n).second)
      d.mats.push_back(gen_mat(c, n, false));
  }
  for (auto &l : d.rl) {
    if (!c.chance(rich))
      continue;
    for (int k = c.range(0, 3); k > 0; k--)
      l.vis.push_back(gen_vis(c, true));
    for (int k = c.range(0, 2); k > 0; k--)
      l.col.push_back(gen_vis(c, false));
  }
  for (size_t i = 0; i < d.rj.size(); i++) {
    RJoint &j = d.rj[i];
    if (!c.chance(rich))
      continue;
    j.safety = c.chance(35);
    if (j.safety) {
      j.soft_lo = gen_opt(c, 3);
      j.soft_up = gen_opt(c, 3);
      j.kpos = gen_opt(c, 100);
      j.kvel = c.real(100);
    }
    j.calib = c.chance(30);
    if (j.calib) {
      j.rising = gen_opt(c, 3);
      j.falling = gen_opt(c, 3);
    }
    j.mimic = c.chance(30);
    if (j.mimic) {
      j.mimic_joint = c.chance(70) ? d.r.joints[c.below(d.r.joints.size())].name : gen_text(c);
      j.mult = gen_opt(c, 3);
      j.off = gen_opt(c, 3);
    }
    j.dyn = c.chance(35);
    if (j.dyn) {
      j.damping = gen_opt(c, 50);
      j.friction = gen_opt(c, 50);
      if (!j.damping.has && !j.friction.has)
        j.damping.has = true;
    }
    if (o.odd_joints && c.chance(12)) {
      j.odd = c.range(1, 2);
      if (!d.r.joints[i].has_axis || d.r.joints[i].type == FIXED)
        d.r.joints[i].axis = A3{{1, 0, 0}}, d.r.joints[i].has_axis = false;
    }
  }
  return d;
}

inline vector<double> vd(const A3 &a) { return {a[0], a[1], a[2]}; }
inline El el_origin(const Orig &o) {
  El e("origin");
  if (o.has_xyz)
    e.n("xyz", vd(o.xyz));
  if (o.has_rpy)
    e.n("rpy", vd(o.rpy));
  return e;
}
inline El el_mat(const Mat &m) {
  El e("material");
  e.a("name", m.name);
  if (m.color)
    e.add(El("color")).n("rgba", {m.rgba[0], m.rgba[1], m.rgba[2], m.rgba[3]});
  else if (m.empty_color)
    e.add(El("color"));
  if (m.texture)
    e.add(El("texture")).a("filename", m.tex);
  else if (m.empty_texture)
    e.add(El("texture"));
  return e;
}
inline El el_vis(const Vis &v, bool visual) {
  El e(visual ? "visual" : "collision");
  if (v.has_name)
    e.a("name", v.name);
  if (v.o.has)
    e.add(el_origin(v.o));
  El g("geometry");
  switch (v.g.kind) {
  case 0: g.add(El("sphere")).n("radius", {v.g.radius}); break;
  case 1: g.add(El("box")).n("size", vd(v.g.v)); break;
  case 2: g.add(El("cylinder")).n("radius", {v.g.radius}).n("length", {v.g.length}); break;
  default: {
    El m("mesh");
    m.a("filename", v.g.file);
    if (v.g.has_scale)
      m.n("scale", vd(v.g.v));
    g.add(m);
  }
  }
  e.add(g);
  if (v.has_mat)
    e.add(el_mat(v.m));
  return e;
}
inline El el_link(const Link &l, const RLink &rl) {
  El e("link");
  e.a("name", l.name);
  if (l.inertial) {
    El i("inertial");
    if (l.has_iorigin)
      i.add(El("origin")).n("xyz", vd(l.ixyz)).n("rpy", vd(l.irpy));
    i.add(El("mass")).n("value", {l.mass});
    El t("inertia");
    const char *nm[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
    for (int k = 0; k < 6; k++)
      t.n(nm[k], {l.I[k]});
    i.add(t);
    e.add(i);
  }
  for (auto &v : rl.vis)
    e.add(el_vis(v, true));
  for (auto &v : rl.col)
    e.add(el_vis(v, false));
  return e;
}
inline El el_joint(const Robot &r, const Joint &j, const RJoint &rj) {
  El e("joint");
  e.a("name", j.name);
  e.a("type", rj.odd == 1 ? "planar" : rj.odd == 2 ? "floating" : jtype_name(j.type));
  if (j.has_origin) {
    El o("origin");
    if (j.has_xyz)
      o.n("xyz", vd(j.xyz));
    if (j.has_rpy)
      o.n("rpy", vd(j.rpy));
    e.add(o);
  }
  e.add(El("parent")).a("link", r.links[j.parent].name);
  e.add(El("child")).a("link", r.links[j.child].name);
  if (rj.axis_no_xyz)
    e.add(El("axis"));
  else if (j.has_axis)
    e.add(El("axis")).n("xyz", vd(j.axis));
  if (j.has_limit) {
    El l("limit");
    if (j.has_lower)
      l.n("lower", {j.lower});
    if (j.has_upper)
      l.n("upper", {j.upper});
    l.n("effort", {j.effort}).n("velocity", {j.velocity});
    e.add(l);
  }
  auto opt = [](El &x, const char *k, const Opt &o) {
    if (o.has)
      x.n(k, {o.v});
  };
  if (rj.safety) {
    El s("safety_controller");
    opt(s, "soft_lower_limit", rj.soft_lo);
    opt(s, "soft_upper_limit", rj.soft_up);
    opt(s, "k_position", rj.kpos);
    s.n("k_velocity", {rj.kvel});
    e.add(s);
  }
  if (rj.calib) {
    El s("calibration");
    opt(s, "rising", rj.rising);
    opt(s, "falling", rj.falling);
    e.add(s);
  }
  if (rj.mimic) {
    El s("mimic");
    s.a("joint", rj.mimic_joint);
    opt(s, "multiplier", rj.mult);
    opt(s, "offset", rj.off);
    e.add(s);
  }
  if (rj.dyn) {
    El s("dynamics");
    opt(s, "damping", rj.damping);
    opt(s, "friction", rj.friction);
    e.add(s);
  }
  return e;
}
inline El el_robot(const Desc &d) {
  El e("robot");
  e.a("name", d.r.name);
  if (d.version)
    e.a("version", "1.0");
  for (auto &m : d.mats)
    e.add(el_mat(m));
  for (size_t i = 0; i < d.r.links.size(); i++)
    e.add(el_link(d.r.links[i], d.rl[i]));
  for (size_t i = 0; i < d.r.joints.size(); i++)
    e.add(el_joint(d.r, d.r.joints[i], d.rj[i]));
  return e;
}

// ---- writing ---------------------------------------------------------------
inline void write_plain(string &s, const El &e, int ind = 0) {
  s += string(ind, ' ') + "<" + e.tag;
  for (auto &a : e.at)
    s += " " + a.first + "=\"" + esc(a.second) + "\"";
  if (e.kids.empty()) {
    s += "/>\n";
    return;
  }
  s += ">\n";
  for (auto &k : e.kids)
    write_plain(s, k, ind + 1);
  s += string(ind, ' ') + "</" + e.tag + ">\n";
}
inline string to_text(const El &root) {
  string s = "<?xml version=\"1.0\"?>\n";
  write_plain(s, root);
  return s;
}

struct Style { // which rewrites are in use
  bool order_attr = false, order_kids = false, space = false, quotes = false, closing = false, numbers = false, comments = false,
       unknown = false, entities = false, pi = false, bulk = false;
  int decl = 0; // 0 plain, 1 none, 2 encoding UTF-8, 3 BOM + decl, 4 BOM only, 5 latin-1 label, 6 standalone
  bool utf8() const { return decl == 0 || decl == 2 || decl == 3 || decl == 4 || decl == 6; }
};
inline Style gen_style(Case &c) {
  Style s;
  if (c.chance(25)) { // everything at once
    s.order_attr = s.order_kids = s.space = s.quotes = s.closing = s.numbers = s.comments = s.unknown = s.entities = s.pi = true;
  } else {
    s.order_attr = c.chance(45);
    s.order_kids = c.chance(45);
    s.space = c.chance(45);
    s.quotes = c.chance(45);
    s.closing = c.chance(45);
    s.numbers = c.chance(45);
    s.comments = c.chance(45);
    s.unknown = c.chance(45);
    s.entities = c.chance(45);
    s.pi = c.chance(30);
  }
  s.decl = (int)c.weighted({30, 20, 12, 12, 8, 9, 9});
  s.bulk = c.chance(8);
  return s;
}
// another spelling of the same double
inline string respell(Case &c, double v) {
  char b[80];
  string s;
  switch (c.range(0, 5)) {
  case 0: s = num(v); break;
  case 1: snprintf(b, sizeof b, "%.16e", v); s = b; break;
  case 2: snprintf(b, sizeof b, "%.20g", v); s = b; break;
  case 3: snprintf(b, sizeof b, "%.18E", v); s = b; break;
  case 4:
    s = num(v);
    if (s.find_first_of("eE") == string::npos)
      s += s.find('.') == string::npos ? ".000" : "0";
    break;
  default:
    s = num(v);
    if (s.compare(0, 2, "0.") == 0)
      s = s.substr(1);
    else if (s.compare(0, 3, "-0.") == 0)
      s = "-" + s.substr(2);
    else if (s.find_first_of(".eE") == string::npos)
      s += ".";
  }
  if (s[0] != '-' && c.chance(25))
    s = "+" + s;
  else if (c.chance(10)) {
    size_t at = s[0] == '-' ? 1 : 0;
    s.insert(at, string(c.range(1, 2), '0'));
  }
  char *end;
  if (std::strtod(s.c_str(), &end) != v || *end)
    s = num(v);
  return s;
}
inline size_t utf8_len(unsigned char ch) { return ch < 0x80 ? 1 : ch >= 0xF0 ? 4 : ch >= 0xE0 ? 3 : 2; }
inline string style_esc(Case &c, const string &v, char q, const Style &st) {
  if (!st.entities)
    return esc(v, q);
  string o;
  char b[32];
  for (size_t i = 0; i < v.size();) {
    size_t n = std::min(utf8_len((unsigned char)v[i]), v.size() - i);
    unsigned cp = (unsigned char)v[i];
    if (n > 1) {
      cp &= n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07;
      for (size_t k = 1; k < n; k++)
        cp = cp << 6 | ((unsigned char)v[i + k] & 0x3F);
    }
    bool must = v[i] == '&' || v[i] == '<' || v[i] == q;
    if (c.chance(must ? 50 : 12) && (n == 1 || st.utf8())) {
      if (c.chance(50))
        snprintf(b, sizeof b, c.chance(50) ? "&#x%x;" : "&#x%04X;", cp);
      else
        snprintf(b, sizeof b, "&#%u;", cp);
      o += b;
    } else if (n == 1) {
      if (!must && (v[i] == '>' || v[i] == '"' || v[i] == '\'') && c.chance(50))
        o += v[i] == '>' ? "&gt;" : v[i] == '"' ? "&quot;" : "&apos;";
      else
        o += esc(string(1, v[i]), q);
    } else
      o += v.substr(i, n);
    i += n;
  }
  return o;
}
inline string ws(Case &c, const Style &st, const char *dflt, bool may_be_empty = true) {
  if (!st.space)
    return dflt;
  static const vector<string> w = {"", " ", "\n", "\t", "\r\n", "  \n\t ", "\n\n\n", "          "};
  string s = c.pick(w);
  if (s.empty() && !may_be_empty)
    s = " ";
  return s;
}
inline string junk(Case &c, const Style &st) { // comments and processing instructions
  string s;
  if (st.bulk && c.chance(7)) { // a lot of it
    int n = c.range(60, 400);
    switch (c.range(0, 4)) {
    case 0:
      for (int i = 0; i < n; i++)
        s += "<!-- " + std::to_string(i) + " -->\n";
      break;
    case 1: s = "<!--" + string((size_t)n * 40, c.chance(50) ? 'x' : ' ') + "-->"; break;
    case 2: s = string((size_t)n * 20, c.chance(50) ? ' ' : '\n'); break;
    case 3:
      for (int i = 0; i < n; i++)
        s += "<?p " + std::to_string(i) + "?>";
      break;
    default:
      for (int i = 0; i < n; i++)
        s += "<note/>";
    }
    return s;
  }
  if (st.comments && c.chance(12)) {
    static const vector<string> t = {"<!-- -->", "<!---->", "<!-- <link name=\"ghost\"/> -->", "<!-- a > b & c < d -->", "<!-- </robot> -->", "<!-- \"quoted' -->",
                                     "<!-- <joint name=\"x\" type=\"revolute\"> -->", "<!-- - - -->", "<!--\n\n-->", "<!-- &amp; &#x41; -->"};
    s += c.pick(t);
  }
  if (st.pi && c.chance(8)) {
    static const vector<string> t = {"<?proc inst?>", "<?robot name=\"ghost\"?>", "<!ELEMENT robot ANY>", "<??>"};
    s += c.pick(t);
  }
  return s;
}
inline El unknown_el(Case &c) {
  El e;
  switch (c.range(0, 6)) {
  case 0:
    e = El("gazebo");
    e.a("reference", "a");
    e.add(El("material")).a("name", "Gazebo/Grey");
    break;
  case 1:
    e = El("transmission");
    e.a("name", "t");
    e.add(El("joint")).a("name", "j");
    e.add(El("link")).a("name", "l");
    break;
  case 2: e = El("verbose"); e.a("value", "Visual"); break;
  case 3: e = El("sensor"); e.add(El("origin")).a("xyz", "9 9 9"); e.add(El("parent")).a("link", "nowhere"); break;
  case 4: e = El("xacro:property"); e.a("name", "mass").a("value", "oops"); break;
  case 5: e = El("links"); e.add(El("link")).a("name", "l"); break;
  default: e = El("Link"); e.a("name", "upper"); break;
  }
  return e;
}
inline void write_styled(Case &c, string &s, const El &e0, const Style &st) {
  El e = e0;
  if (st.order_kids) { // keep the relative order of visuals and of collisions
    vector<El> k = e.kids;
    c.shuffle(k);
    for (const char *t : {"visual", "collision"}) {
      vector<El> in;
      for (auto &x : e.kids)
        if (x.tag == t)
          in.push_back(x);
      size_t n = 0;
      for (auto &x : k)
        if (x.tag == t)
          x = in[n++];
    }
    e.kids = k;
  }
  if (st.order_attr)
    c.shuffle(e.at);
  bool fixed_kids = e.tag == "geometry"; // its first child is the shape
  if (st.unknown && e.tag != "geometry") {
    for (int k = c.chance(15) ? st.bulk && c.chance(30) ? c.range(60, 150) : c.range(1, 2) : 0; k > 0; k--)
      e.kids.insert(e.kids.begin() + (long)c.below(e.kids.size() + 1), unknown_el(c));
    if (c.chance(12)) {
      static const vector<string> un = {"id", "class", "xmlns:xacro", "NAME", "group", "_x", "link2"};
      e.at.insert(e.at.begin() + (long)c.below(e.at.size() + 1), {c.pick(un), "1 < 2"});
    }
  }
  s += "<" + e.tag;
  for (auto &a : e.at) {
    s += ws(c, st, " ", false) + a.first + ws(c, st, "") + "=" + ws(c, st, "");
    char q = st.quotes && c.chance(50) ? '\'' : '"';
    string v = a.second;
    auto it = e.nums.find(a.first);
    if (it != e.nums.end() && st.numbers) {
      v.clear();
      for (size_t i = 0; i < it->second.size(); i++)
        v += string(i ? c.range(1, 3) : it->second.size() > 1 ? c.range(0, 2) : 0, ' ') + respell(c, it->second[i]);
      if (it->second.size() > 1)
        v += string(c.range(0, 2), ' ');
    }
    s += q + style_esc(c, v, q, st) + q;
  }
  s += ws(c, st, "");
  if (e.kids.empty() && !(st.closing && c.chance(50))) {
    s += "/>";
    return;
  }
  s += ">" + ws(c, st, "\n");
  Style in = st; // a shape is the first child of its geometry
  in.bulk = st.bulk && !fixed_kids;
  Style calm = st;
  calm.bulk = false;
  for (auto &k : e.kids) {
    s += junk(c, in);
    write_styled(c, s, k, k.kids.size() > 40 || e.kids.size() > 40 ? calm : st);
    s += ws(c, st, "\n");
  }
  if (!fixed_kids)
    s += junk(c, st);
  s += "</" + e.tag + ws(c, st, "") + ">";
}
inline string to_styled(Case &c, const El &root, const Style &st) {
  string s;
  if (st.decl == 3 || st.decl == 4)
    s += "\xEF\xBB\xBF";
  switch (st.decl) {
  case 0: case 3: s += st.quotes && c.chance(50) ? "<?xml version='1.0'?>" : "<?xml version=\"1.0\"?>"; break;
  case 2: s += c.chance(50) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : "<?xml version=\"1.0\" encoding=\"utf-8\" ?>"; break;
  case 5: s += "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>"; break;
  case 6: s += "<?xml version=\"1.0\" standalone=\"yes\"?>"; break;
  default: break;
  }
  s += ws(c, st, "\n");
  if (st.pi && c.chance(15))
    s += "<!DOCTYPE robot>";
  Style out = st;
  out.bulk = false;
  if (st.decl != 1) // junk in front of the first tag only after a declaration
    s += junk(c, out);
  write_styled(c, s, root, st);
  s += ws(c, st, "\n") + junk(c, out) + ws(c, st, "\n");
  return s;
}
} // namespace rb
