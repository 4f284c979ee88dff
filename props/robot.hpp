// Abstract robots: generator, URDF writer, and an independent reference model
// (rotation matrices; forward-mode dual numbers for derivatives).
#pragma once
#include "../engine/pbt.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <set>

namespace rb {
using vp::Case;
using std::string;
using std::vector;
typedef std::array<double, 3> A3;

static const double PI = 3.14159265358979323846;

enum JType { REVOLUTE, CONTINUOUS, PRISMATIC, FIXED };
inline const char *jtype_name(JType t) {
  static const char *n[] = {"revolute", "continuous", "prismatic", "fixed"};
  return n[t];
}

struct Link {
  string name;
  bool inertial = false;
  double mass = 0;
  bool has_iorigin = false;
  A3 ixyz{{0, 0, 0}}, irpy{{0, 0, 0}};
  std::array<double, 6> I{{0, 0, 0, 0, 0, 0}}; // ixx ixy ixz iyy iyz izz
  int parent = -1; // link index
  int joint = -1;  // joint index from parent
  string extra;    // elements without any bearing on the kinematics
};

struct Joint {
  string name;
  JType type = FIXED;
  int parent = -1, child = -1;
  bool has_origin = true, has_xyz = true, has_rpy = true;
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
  bool has_axis = true;
  A3 axis{{1, 0, 0}};
  bool has_limit = false, has_lower = false, has_upper = false;
  double lower = 0, upper = 0, effort = 0, velocity = 0;
  string extra; // elements without any bearing on the kinematics
  bool moving() const { return type != FIXED; }
};

struct Robot {
  string name = "robot";
  vector<Link> links;
  vector<Joint> joints;
  string extra;
  int root = 0;
  vector<int> moving() const {
    vector<int> r;
    for (size_t i = 0; i < joints.size(); i++)
      if (joints[i].moving())
        r.push_back((int)i);
    return r;
  }
  double mass() const {
    double m = 0;
    for (auto &l : links)
      if (l.inertial)
        m += l.mass;
    return m;
  }
};

struct GenOpt {
  int max_links = 12;
  int big_links = 90;     // upper bound of the rare "big" class
  int big_pct = 4;
  int huge_permille = 0;  // rate of robots beyond 64 / 128 / 256 links and joints
  int huge_links = 320;
  bool weird_names = true;
  int inertial_pct = 60;
  bool need_mass = false; // at least one positive mass
  int counter_pct = 0;    // rate of robots with counterweights of negative mass
  double reach = 3.0;
};

inline string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

inline A3 gen_vec(Case &c, double mag) { return A3{{c.real(mag), c.real(mag), c.real(mag)}}; }
inline A3 gen_rpy(Case &c) {
  switch (c.weighted({25, 35, 40})) {
  case 0:
    return A3{{0, 0, 0}};
  case 1: {
    A3 r{{0, 0, 0}};
    r[c.below(3)] = c.angle();
    return r;
  }
  default:
    return A3{{c.angle(), c.angle(), c.angle()}};
  }
}
inline A3 gen_axis(Case &c) {
  if (c.chance(50)) { // generic unit vector
    for (int k = 0; k < 4; k++) {
      double z = 2 * c.unit() - 1, t = 2 * PI * c.unit(), s = std::sqrt(std::max(0.0, 1 - z * z));
      A3 a{{s * std::cos(t), s * std::sin(t), z}};
      double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
      if (n > 0.5) {
        for (auto &x : a)
          x /= n;
        return a;
      }
    }
  }
  A3 a{{0, 0, 0}};
  a[c.below(3)] = c.chance(35) ? -1 : 1;
  return a;
}

inline string gen_name(Case &c, bool weird, int idx) {
  static const vector<string> stems = {"a", "b", "link", "joint", "base", "arm_link", "x", "Link", "z9", "_q", "l_", "0"};
  if (weird && c.chance(18)) {
    static const vector<string> odd = {"with space", "a&b", "<lt>", "q\"uote", "it's", "\xC3\xA9t\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC", "dot.dash-colon:x",
                                       "#;!", "tab_base_com_x", "-", "CamelCase", "very_long_name_very_long_name_very_long_name_very_long_name_very_long_name",
                                       "&amp;", "a=b", "\xEF\xBB\xBC", "1.5e3", "a/b"};
    return c.pick(odd) + (c.chance(50) ? std::to_string(idx) : "");
  }
  string s = c.pick(stems);
  if (c.chance(85))
    s += std::to_string(c.chance(50) ? idx : c.range(0, 999));
  if (c.chance(6))
    s += "_com";
  return s;
}

// a name that is almost this one
inline string close_name(Case &c, string s) {
  switch (c.range(0, 4)) {
  case 0: return s + c.pick(vector<string>{" ", "_", "0", ".", "/", "  "});
  case 1: return c.pick(vector<string>{" ", "/", "_", "::"}) + s;
  case 2:
    for (char &ch : s)
      ch = (char)(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch >= 'a' && ch <= 'z' ? ch - 32 : ch);
    return s;
  case 3: return s.size() > 1 && (unsigned char)s.back() < 128 ? s.substr(0, s.size() - 1) : s + "_";
  default: return s + s;
  }
}
inline string esc(const string &s, char quote = '"') {
  string o;
  for (char ch : s)
    switch (ch) {
    case '&': o += "&amp;"; break;
    case '<': o += "&lt;"; break;
    case '>': o += "&gt;"; break;
    case '"': o += quote == '"' ? "&quot;" : "\""; break;
    case '\'': o += quote == '\'' ? "&apos;" : "'"; break;
    default: o += ch;
    }
  return o;
}

// what real descriptions carry besides the kinematics; none of it may matter
inline void decorate(Case &c, Robot &r) {
  auto n = [&](double mag) { return num(c.real(mag)); };
  auto some = [&](const string &k, double mag) { return c.chance(60) ? " " + k + "=\"" + n(mag) + "\"" : string(); };
  for (auto &j : r.joints) {
    if (c.chance(35))
      j.extra += "<mimic joint=\"" + esc(c.chance(80) ? c.pick(r.joints).name : "nobody") + "\"" + some("multiplier", 3) + some("offset", 3) + "/>";
    if (c.chance(30))
      j.extra += "<calibration" + some("rising", 3) + some("falling", 3) + "/>";
    if (c.chance(30))
      j.extra += "<safety_controller" + some("soft_lower_limit", 3) + some("soft_upper_limit", 3) + some("k_position", 100) + " k_velocity=\"" + n(100) + "\"/>";
    if (c.chance(30))
      j.extra += "<dynamics damping=\"" + n(5) + "\"" + some("friction", 5) + "/>";
    if (c.chance(10))
      j.extra += "<hardwareInterface>EffortJointInterface</hardwareInterface>";
  }
  for (auto &l : r.links) {
    for (int k = c.chance(40) ? c.range(1, 2) : 0; k > 0; k--) {
      const char *tag = c.chance(50) ? "visual" : "collision";
      l.extra += string("<") + tag + "><origin xyz=\"" + n(1) + " " + n(1) + " " + n(1) + "\" rpy=\"" + n(3) + " " + n(3) + " " + n(3) + "\"/><geometry>" +
                 (c.chance(50) ? "<box size=\"1 2 3\"/>" : "<mesh filename=\"a.stl\"/>") + "</geometry></" + tag + ">";
    }
    if (c.chance(10))
      l.extra += "<self_collide>1</self_collide>";
  }
  if (c.chance(50))
    r.extra += "<gazebo reference=\"" + esc(c.pick(r.links).name) + "\"><mu1>0.2</mu1></gazebo>\n";
  if (c.chance(50) && !r.joints.empty())
    r.extra += "<transmission name=\"t\" type=\"Simple\"><joint name=\"" + esc(c.pick(r.joints).name) +
               "\"><limit lower=\"9\" upper=\"8\"/></joint><mechanicalReduction>100</mechanicalReduction></transmission>\n";
  if (c.chance(30))
    r.extra += "<material name=\"red\"><color rgba=\"1 0 0 1\"/></material>\n";
}

inline Robot gen_robot(Case &c, const GenOpt &o = GenOpt()) {
  Robot r;
  int n, inertial_pct = o.inertial_pct;
  if (o.huge_permille && c.src.draw(999) >= (uint64_t)(1000 - o.huge_permille)) {
    n = c.range(66, o.huge_links);
    inertial_pct = c.chance(50) ? 0 : 8; // the constructor is cubic in links with mass
    c.label("huge robot");
  } else if (c.chance(o.big_pct)) {
    n = c.range(o.max_links, o.big_links);
    c.label("big robot");
  } else
    n = c.range(1, o.max_links);
  static const vector<string> rnames = {"robot", "r2 d2", "x", "a<b>&\"c\"", "pr2"};
  r.name = c.pick(rnames);
  int shape = c.weighted({40, 35, 15, 10}); // random tree, chain-ish, star-ish, chain
  int moving_pct = (int)c.pick(vector<int>{70, 100, 40, 0, 85});
  std::set<string> lnames, jnames;
  r.links.resize(n);
  for (int i = 0; i < n; i++) {
    Link &l = r.links[i];
    string nm = gen_name(c, o.weird_names, i);
    if (o.weird_names && i && c.chance(5))
      nm = close_name(c, r.links[c.below(i)].name);
    // "<name>_com" is a reserved name: the library creates it for links with mass
    auto clash = [&](const string &s) {
      if (lnames.count(s) || lnames.count(s + "_com"))
        return true;
      return s.size() > 4 && s.compare(s.size() - 4, 4, "_com") == 0 && lnames.count(s.substr(0, s.size() - 4)) > 0;
    };
    while (clash(nm))
      nm += "_" + std::to_string(i);
    lnames.insert(nm);
    l.name = nm;
    if (c.chance(inertial_pct)) {
      l.inertial = true;
      l.mass = c.chance(8) ? 0.0 : 0.05 + 20 * c.unit();
      if (l.mass > 0 && c.chance(12)) // grams to tons
        l.mass = std::pow(10.0, 10 * c.unit() - 6);
      l.has_iorigin = c.chance(80);
      if (l.has_iorigin) {
        l.ixyz = gen_vec(c, 0.5);
        l.irpy = c.chance(60) ? gen_rpy(c) : A3{{0, 0, 0}};
      }
      if (l.mass > 0 && c.chance(85)) {
        // physically valid: R diag(p) R^T-like, built from a point cloud
        double xx = 0, yy = 0, zz = 0, xy = 0, xz = 0, yz = 0;
        int np = c.range(1, 4);
        for (int k = 0; k < np; k++) {
          double m = l.mass / np, x = c.real(0.4), y = c.real(0.4), z = c.real(0.4);
          xx += m * (y * y + z * z);
          yy += m * (x * x + z * z);
          zz += m * (x * x + y * y);
          xy -= m * x * y;
          xz -= m * x * z;
          yz -= m * y * z;
        }
        l.I = {{xx, xy, xz, yy, yz, zz}};
      } else if (l.mass == 0 && c.chance(50)) { // rotor: inertia declared without mass
        l.I = {{0.1 + c.unit(), c.real(0.05), c.real(0.05), 0.1 + c.unit(), c.real(0.05), 0.1 + c.unit()}};
      }
    }
  }
  // tree: link order is random relative to depth because names are random
  for (int i = 1; i < n; i++) {
    int p;
    switch (shape) {
    case 0: p = (int)c.below(i); break;
    case 1: p = c.chance(75) ? i - 1 : (int)c.below(i); break;
    case 2: p = c.chance(75) ? 0 : (int)c.below(i); break;
    default: p = i - 1; break;
    }
    Joint j;
    string nm = gen_name(c, o.weird_names, i);
    if (o.weird_names && i > 1 && c.chance(5))
      nm = close_name(c, r.joints[c.below(r.joints.size())].name);
    while (jnames.count(nm))
      nm += "_" + std::to_string(i);
    jnames.insert(nm);
    j.name = nm;
    j.parent = p;
    j.child = i;
    j.type = c.chance(moving_pct) ? (JType)c.weighted({40, 25, 35}) : FIXED;
    j.has_origin = c.chance(85);
    if (j.has_origin) {
      j.has_xyz = c.chance(90);
      j.has_rpy = c.chance(85);
      if (j.has_xyz)
        j.xyz = gen_vec(c, c.chance(4) ? 100 * o.reach : o.reach);
      if (j.has_rpy)
        j.rpy = gen_rpy(c);
    } else
      j.has_xyz = j.has_rpy = false;
    if (j.type != FIXED) {
      j.has_axis = c.chance(88);
      if (j.has_axis)
        j.axis = gen_axis(c);
    } else
      j.has_axis = c.chance(15); // an axis on a fixed joint is ignored
    if (j.type == REVOLUTE || j.type == PRISMATIC)
      j.has_limit = true;
    else if (j.type == CONTINUOUS)
      j.has_limit = c.chance(60);
    if (j.has_limit) {
      j.has_lower = c.chance(88);
      j.has_upper = c.chance(88);
      if (j.has_lower)
        j.lower = c.real(6.5);
      if (j.has_upper)
        j.upper = c.real(6.5);
      if (c.chance(4)) {
        double big = std::pow(10.0, 1 + 11 * c.unit());
        (c.chance(50) ? j.lower : j.upper) = c.chance(50) ? -big : big;
        j.has_lower = j.has_upper = true;
      }
      j.effort = std::fabs(c.real(1000));
      j.velocity = std::fabs(c.real(20));
      if (c.chance(4))
        (c.chance(50) ? j.effort : j.velocity) = std::pow(10.0, 20 * c.unit() - 6);
      if (c.chance(5)) // odd, yet it is what the description says
        (c.chance(50) ? j.effort : j.velocity) *= -1;
    }
    r.links[i].parent = p;
    r.links[i].joint = (int)r.joints.size();
    r.joints.push_back(j);
  }
  if (o.need_mass && r.mass() <= 0) {
    Link &l = r.links[c.below(n)];
    l.inertial = true;
    l.mass = 0.5 + c.unit();
    if (l.I[0] + l.I[3] + l.I[5] == 0)
      l.I = {{0.1, 0, 0, 0.2, 0, 0.25}};
  }
  if (o.counter_pct && c.chance(o.counter_pct)) { // compensation for mass counted elsewhere
    double m = r.mass(), spent = 0;
    for (auto &l : r.links)
      if (l.inertial && l.mass > 0 && c.chance(40) && spent + l.mass < 0.2 * m) {
        spent += l.mass;
        l.mass = -l.mass;
        for (auto &x : l.I)
          x = -x;
      }
    if (spent > 0)
      c.label("with counterweights");
  }
  if (c.chance(3)) { // another unit of mass altogether
    double k = std::pow(10.0, c.range(-14, 6));
    for (auto &l : r.links) {
      l.mass *= k;
      for (auto &x : l.I)
        x *= k;
    }
  }
  if (n < 60 && c.chance(14)) {
    decorate(c, r);
    c.label("with elements beside the kinematics");
  }
  return r;
}

inline string v3(const A3 &a) { return num(a[0]) + " " + num(a[1]) + " " + num(a[2]); }

inline string link_xml(const Link &l) {
  string s = "<link name=\"" + esc(l.name) + "\"";
  if (!l.inertial)
    return s + (l.extra.empty() ? "/>\n" : ">" + l.extra + "</link>\n");
  s += "><inertial>";
  if (l.has_iorigin)
    s += "<origin xyz=\"" + v3(l.ixyz) + "\" rpy=\"" + v3(l.irpy) + "\"/>";
  s += "<mass value=\"" + num(l.mass) + "\"/><inertia ixx=\"" + num(l.I[0]) + "\" ixy=\"" + num(l.I[1]) + "\" ixz=\"" +
       num(l.I[2]) + "\" iyy=\"" + num(l.I[3]) + "\" iyz=\"" + num(l.I[4]) + "\" izz=\"" + num(l.I[5]) + "\"/>";
  return s + "</inertial>" + l.extra + "</link>\n";
}
inline string joint_xml(const Robot &r, const Joint &j) {
  string s = "<joint name=\"" + esc(j.name) + "\" type=\"" + jtype_name(j.type) + "\">";
  if (j.has_origin) {
    s += "<origin";
    if (j.has_xyz)
      s += " xyz=\"" + v3(j.xyz) + "\"";
    if (j.has_rpy)
      s += " rpy=\"" + v3(j.rpy) + "\"";
    s += "/>";
  }
  s += "<parent link=\"" + esc(r.links[j.parent].name) + "\"/><child link=\"" + esc(r.links[j.child].name) + "\"/>";
  if (j.has_axis)
    s += "<axis xyz=\"" + v3(j.axis) + "\"/>";
  if (j.has_limit) {
    s += "<limit";
    if (j.has_lower)
      s += " lower=\"" + num(j.lower) + "\"";
    if (j.has_upper)
      s += " upper=\"" + num(j.upper) + "\"";
    s += " effort=\"" + num(j.effort) + "\" velocity=\"" + num(j.velocity) + "\"/>";
  }
  return s + j.extra + "</joint>\n";
}
inline string to_urdf(const Robot &r) {
  string s = "<?xml version=\"1.0\"?>\n<robot name=\"" + esc(r.name) + "\">\n";
  for (auto &l : r.links)
    s += link_xml(l);
  for (auto &j : r.joints)
    s += joint_xml(r, j);
  return s + r.extra + "</robot>\n";
}

// ---------------------------------------------------------------- reference --
struct Dual { // value and one derivative
  double v, d;
  Dual(double v = 0, double d = 0) : v(v), d(d) {}
};
inline Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
inline Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
inline Dual operator-(Dual a) { return {-a.v, -a.d}; }
inline Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
inline Dual operator/(Dual a, Dual b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
inline Dual fsin(Dual a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
inline Dual fcos(Dual a) { return {std::cos(a.v), -std::sin(a.v) * a.d}; }
inline double fsin(double a) { return std::sin(a); }
inline double fcos(double a) { return std::cos(a); }
inline Dual fatan2(Dual y, Dual x) {
  double n = x.v * x.v + y.v * y.v;
  return {std::atan2(y.v, x.v), (x.v * y.d - y.v * x.d) / n};
}
inline double fatan2(double y, double x) { return std::atan2(y, x); }
inline Dual fasin(Dual a) { return {std::asin(a.v), a.d / std::sqrt(1 - a.v * a.v)}; }
inline double fasin(double a) { return std::asin(std::max(-1.0, std::min(1.0, a))); }
inline double val(double a) { return a; }
inline double val(Dual a) { return a.v; }

template <class T> struct V {
  T x[3];
  V() : x{T(0), T(0), T(0)} {}
  V(T a, T b, T c) : x{a, b, c} {}
  V(const A3 &a) : x{T(a[0]), T(a[1]), T(a[2])} {}
  T &operator[](int i) { return x[i]; }
  const T &operator[](int i) const { return x[i]; }
};
template <class T> V<T> operator+(const V<T> &a, const V<T> &b) { return V<T>(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
template <class T> V<T> operator-(const V<T> &a, const V<T> &b) { return V<T>(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
template <class T> struct M {
  T m[3][3];
  static M eye() {
    M r;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        r.m[i][j] = T(i == j ? 1.0 : 0.0);
    return r;
  }
};
template <class T> M<T> operator*(const M<T> &a, const M<T> &b) {
  M<T> r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
  return r;
}
template <class T> V<T> operator*(const M<T> &a, const V<T> &v) {
  V<T> r;
  for (int i = 0; i < 3; i++)
    r[i] = a.m[i][0] * v[0] + a.m[i][1] * v[1] + a.m[i][2] * v[2];
  return r;
}
template <class T> M<T> tr(const M<T> &a) {
  M<T> r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = a.m[j][i];
  return r;
}
template <class T> M<T> rot_rpy(T r, T p, T y) { // Rz(y) Ry(p) Rx(r)
  T cr = fcos(r), sr = fsin(r), cp = fcos(p), sp = fsin(p), cy = fcos(y), sy = fsin(y), O(0.0), I(1.0);
  M<T> X, Y, Z;
  X.m[0][0] = I; X.m[0][1] = O; X.m[0][2] = O;
  X.m[1][0] = O; X.m[1][1] = cr; X.m[1][2] = -sr;
  X.m[2][0] = O; X.m[2][1] = sr; X.m[2][2] = cr;
  Y.m[0][0] = cp; Y.m[0][1] = O; Y.m[0][2] = sp;
  Y.m[1][0] = O; Y.m[1][1] = I; Y.m[1][2] = O;
  Y.m[2][0] = -sp; Y.m[2][1] = O; Y.m[2][2] = cp;
  Z.m[0][0] = cy; Z.m[0][1] = -sy; Z.m[0][2] = O;
  Z.m[1][0] = sy; Z.m[1][1] = cy; Z.m[1][2] = O;
  Z.m[2][0] = O; Z.m[2][1] = O; Z.m[2][2] = I;
  return Z * Y * X;
}
template <class T> M<T> rot_axis(const A3 &a, T q) { // Rodrigues
  T s = fsin(q), c = fcos(q), k = T(1.0) - c;
  double K[3][3] = {{0, -a[2], a[1]}, {a[2], 0, -a[0]}, {-a[1], a[0], 0}};
  M<T> r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      r.m[i][j] = T(i == j ? 1.0 : 0.0) + s * T(K[i][j]) + k * T(a[i] * a[j] - (i == j ? 1.0 : 0.0));
  return r;
}
template <class T> struct P { // rigid transform
  M<T> R = M<T>::eye();
  V<T> p;
};
template <class T> P<T> operator*(const P<T> &a, const P<T> &b) {
  P<T> r;
  r.R = a.R * b.R;
  r.p = a.R * b.p + a.p;
  return r;
}
template <class T> P<T> from_xyzrpy(const A3 &xyz, const A3 &rpy) {
  P<T> r;
  r.R = rot_rpy<T>(T(rpy[0]), T(rpy[1]), T(rpy[2]));
  r.p = V<T>(xyz);
  return r;
}
template <class T> V<T> to_rpy(const M<T> &R) {
  return V<T>(fatan2(R.m[2][1], R.m[2][2]), fasin(-R.m[2][0]), fatan2(R.m[1][0], R.m[0][0]));
}

// configuration of a robot plus the links attached at run time
struct Added {
  string name;
  int parent; // index into links (robot links first, then added ones)
  A3 xyz, rpy;
  bool com = false; // attached to the "<parent>_com" frame of a robot link
};
struct State {
  vector<double> q;         // per joint index of Robot::joints (fixed ones unused)
  A3 bxyz{{0, 0, 0}}, brpy{{0, 0, 0}};
  vector<Added> added;
};

// which scalar gets derivative 1: none, joint i, base xyz k, base rpy k
struct Seed {
  int joint = -1, bpos = -1, brot = -1;
};

template <class T> T seeded(double v, bool on);
template <> inline double seeded<double>(double v, bool) { return v; }
template <> inline Dual seeded<Dual>(double v, bool on) { return Dual(v, on ? 1 : 0); }

template <class T> P<T> ref_pose(const Robot &r, const State &s, int link, Seed sd = Seed()) {
  vector<int> chain;
  int nl = (int)r.links.size();
  P<T> tail; // run-time attached links, from the leaf up
  vector<P<T>> offs;
  while (link >= nl) {
    const Added &a = s.added[link - nl];
    offs.push_back(from_xyzrpy<T>(a.xyz, a.rpy));
    if (a.com)
      offs.push_back(from_xyzrpy<T>(r.links[a.parent].ixyz, r.links[a.parent].irpy));
    link = a.parent;
  }
  for (int l = link; r.links[l].parent >= 0; l = r.links[l].parent)
    chain.push_back(r.links[l].joint);
  P<T> X;
  X.R = rot_rpy<T>(seeded<T>(s.brpy[0], sd.brot == 0), seeded<T>(s.brpy[1], sd.brot == 1), seeded<T>(s.brpy[2], sd.brot == 2));
  for (int k = 0; k < 3; k++)
    X.p[k] = seeded<T>(s.bxyz[k], sd.bpos == k);
  for (size_t i = chain.size(); i-- > 0;) {
    const Joint &j = r.joints[chain[i]];
    X = X * from_xyzrpy<T>(j.xyz, j.rpy);
    if (j.type == FIXED)
      continue;
    T q = seeded<T>(s.q[chain[i]], sd.joint == chain[i]);
    P<T> mv;
    if (j.type == PRISMATIC)
      for (int k = 0; k < 3; k++)
        mv.p[k] = T(j.axis[k]) * q;
    else
      mv.R = rot_axis<T>(j.axis, q);
    X = X * mv;
  }
  for (size_t i = offs.size(); i-- > 0;)
    X = X * offs[i];
  return X;
}
template <class T> V<T> ref_com(const Robot &r, const State &s, Seed sd = Seed()) {
  V<T> acc;
  double m = 0;
  for (size_t i = 0; i < r.links.size(); i++) {
    const Link &l = r.links[i];
    if (!l.inertial)
      continue;
    V<T> p = ref_pose<T>(r, s, (int)i, sd).R * V<T>(l.ixyz) + ref_pose<T>(r, s, (int)i, sd).p;
    for (int k = 0; k < 3; k++)
      acc[k] = acc[k] + T(l.mass) * p[k];
    m += l.mass;
  }
  for (int k = 0; k < 3; k++)
    acc[k] = acc[k] / T(m);
  return acc;
}
inline M<double> ref_inertia(const Robot &r, const State &s) {
  V<double> c = ref_com<double>(r, s);
  M<double> tot;
  for (auto &row : tot.m)
    for (auto &x : row)
      x = 0;
  for (size_t i = 0; i < r.links.size(); i++) {
    const Link &l = r.links[i];
    if (!l.inertial)
      continue;
    P<double> X = ref_pose<double>(r, s, (int)i) * from_xyzrpy<double>(l.ixyz, l.irpy);
    M<double> I;
    I.m[0][0] = l.I[0]; I.m[0][1] = I.m[1][0] = l.I[1]; I.m[0][2] = I.m[2][0] = l.I[2];
    I.m[1][1] = l.I[3]; I.m[1][2] = I.m[2][1] = l.I[4]; I.m[2][2] = l.I[5];
    M<double> W = X.R * I * tr(X.R);
    V<double> d = X.p - c;
    double n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++)
        tot.m[a][b] += W.m[a][b] + l.mass * ((a == b ? n2 : 0) - d[a] * d[b]);
  }
  return tot;
}
// an upper bound on every distance in the configured robot (tolerance scale)
inline double ref_scale(const Robot &r, const State &s) {
  double t = 1;
  for (int k = 0; k < 3; k++)
    t += std::fabs(s.bxyz[k]);
  for (size_t i = 0; i < r.joints.size(); i++) {
    const Joint &j = r.joints[i];
    for (int k = 0; k < 3; k++)
      t += std::fabs(j.xyz[k]);
    if (j.type == PRISMATIC)
      t += std::fabs(s.q[i]);
  }
  for (auto &a : s.added)
    for (int k = 0; k < 3; k++)
      t += std::fabs(a.xyz[k]) + (a.com ? std::fabs(r.links[a.parent].ixyz[k]) : 0);
  return t;
}
inline double ang_scale(const Robot &r, const State &s) { // argument-reduction noise of huge angles
  double t = 1;
  for (size_t i = 0; i < r.joints.size(); i++)
    t += std::fabs(s.q[i]) + std::fabs(r.joints[i].rpy[0]) + std::fabs(r.joints[i].rpy[1]) + std::fabs(r.joints[i].rpy[2]);
  return t + std::fabs(s.brpy[0]) + std::fabs(s.brpy[1]) + std::fabs(s.brpy[2]);
}

inline State gen_state(Case &c, const Robot &r) {
  State s;
  s.q.assign(r.joints.size(), 0.0);
  bool all = c.chance(75);
  for (size_t i = 0; i < r.joints.size(); i++)
    if (r.joints[i].moving() && (all || c.chance(50)))
      s.q[i] = r.joints[i].type == PRISMATIC ? c.real(3) : c.angle();
  if (c.chance(3)) // a wheel that has turned for very long
    for (size_t i = 0; i < r.joints.size(); i++)
      if (r.joints[i].moving() && r.joints[i].type != PRISMATIC && c.chance(40))
        s.q[i] = c.real(1) * std::pow(10.0, c.range(3, 6));
  if (c.chance(65)) {
    s.bxyz = gen_vec(c, 5);
    s.brpy = gen_rpy(c);
  }
  return s;
}
} // namespace rb
