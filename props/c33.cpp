// C33: a number written in a description is read as exactly that number;
// anything that is not a decimal number is refused.
#include "common.hpp"
#include "urdf_parser/urdf_parser.h"
#include <cerrno>
#include <clocale>
#include <cstdlib>
using namespace rb;

// [sign] digits [. digits] [e [sign] digits], at least one digit before the e
static bool decimal(const string &s) {
  size_t i = 0, n = s.size(), d = 0;
  if (i < n && (s[i] == '+' || s[i] == '-'))
    i++;
  for (; i < n && s[i] >= '0' && s[i] <= '9'; i++)
    d++;
  if (i < n && s[i] == '.')
    for (i++; i < n && s[i] >= '0' && s[i] <= '9'; i++)
      d++;
  if (!d)
    return false;
  if (i == n)
    return true;
  if (s[i] != 'e' && s[i] != 'E')
    return false;
  i++;
  if (i < n && (s[i] == '+' || s[i] == '-'))
    i++;
  if (i == n)
    return false;
  for (; i < n; i++)
    if (s[i] < '0' || s[i] > '9')
      return false;
  return true;
}
static bool value(const string &s, double &v) { // false: no number, or beyond the largest one
  if (!decimal(s))
    return false;
  v = strtod(s.c_str(), nullptr); // the harness runs in the C locale
  return !std::isinf(v);
}
static string digits(Case &c, int lo, int hi) {
  string s;
  int style = c.range(0, 3);
  for (int n = c.range(lo, hi); n > 0; n--)
    s += (char)('0' + (style == 0 ? 0 : style == 1 ? 9 : c.range(0, 9)));
  return s;
}
static string gen_number(Case &c) {
  switch (c.weighted({40, 25, 15, 8, 12})) {
  case 0: { // any spelling the grammar allows
    string s = c.pick(vector<string>{"", "", "-", "+"});
    int hi = c.chance(90) ? 8 : c.chance(80) ? 40 : 400;
    string a = digits(c, 0, hi), b = digits(c, 0, hi);
    if (a.empty() && b.empty())
      a = "0";
    s += a;
    if (!b.empty() || c.chance(30))
      s += "." + b;
    if (c.chance(40))
      s += c.pick(vector<string>{"e", "E"}) + c.pick(vector<string>{"", "+", "-"}) + (c.chance(85) ? std::to_string(c.range(0, 30)) : c.chance(60) ? std::to_string(c.range(0, 420)) : "0" + std::to_string(c.range(0, 9)) + digits(c, 0, 6));
    return s;
  }
  case 1: { // an arbitrary double with 17 digits, any magnitude
    uint64_t bits = c.src.draw(UINT64_MAX);
    double v;
    memcpy(&v, &bits, 8);
    if (!std::isfinite(v))
      v = 1;
    char b[64];
    snprintf(b, sizeof b, c.pick(vector<string>{"%.17g", "%.16g", "%.17e", "%.20g", "%g", "%.9g"}).c_str(), v);
    return b;
  }
  case 2: { // ordinary values in several notations
    double v = c.real(c.pick(vector<double>{1, 10, 1e4, 1e-4, 1e9}));
    char b[512];
    snprintf(b, sizeof b, c.pick(vector<string>{"%.17g", "%f", "%.1f", "%.3e", "%.0f", "%.30f", "%E"}).c_str(), v);
    return b;
  }
  case 3: // around the limits of the format, and halfway cases
    return c.pick(vector<string>{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e308", "1e309", "-1e309", "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "2.2250738585072014e-308",
                                 "2.2250738585072011e-308", "9007199254740993", "9007199254740992.5", "0.1000000000000000055511151231257827021181583404541015625", "1e22", "1e23", "0.3", "123456789012345678901234567890", "-0", "-0.0", "0e999",
                                 "0e-999", "00000000000000000000001", "1.", ".5", "+.5e-3", "1E+05", "6.02214076e23", "179769313486231580793728971405301e276"});
  default: { // a few characters of the alphabet numbers are made of
    static const string al = "01259.+-eE";
    string s;
    for (int n = c.range(1, 6); n > 0; n--)
      s += al[c.below(al.size())];
    return s;
  }
  }
}
static string gen_word(Case &c) {
  if (c.chance(62))
    return gen_number(c);
  string s = gen_number(c);
  switch (c.range(0, 4)) {
  case 0: // something that is not a number at all
    return c.pick(vector<string>{"nan", "NaN", "inf", "-inf", "INFINITY", "infinity", "0x10", "0x1p3", "0b1", "1f", "1.0f", "1d", "1L", "1u", "pi", "M_PI", "${x}", "1/2", "50%", "1e", "1e+", "e5", ".", "+", "-", "--1", "+-1", "- 1", "1,5", "1.234,5", "1'000",
                                 "1_000", "1;", "(1)", "\xC2\xBD", "\xE2\x88\x92" "1", "\xD9\xA1", "1\xC2\xA0", "\xEF\xBC\x91", "true", "1.2.3", "1e5.5", "1e1e1", "0x", "1deg", "1 rad", "1m", "\"1\"", "1\\"});
  case 1: { // one character too many
    static const string al = "xXfFdDlLpPnNaAiI,;:_'/%abcdeE.+-#$()";
    s.insert(c.below(s.size() + 1), 1, al[c.below(al.size())]);
    return s;
  }
  case 2: // one character changed
    s[c.below(s.size())] = (char)c.range(33, 126);
    return s;
  case 3: // one character lost
    s.erase(c.below(s.size()), 1);
    return s.empty() ? "." : s;
  default:
    return s + c.pick(vector<string>{"e", ".", "-", "+", "0", "e0", "x", "f", ",0"});
  }
}
static string gen_scalar(Case &c) { // a word, or a number with something blank or a second one behind it
  return c.chance(93) ? gen_word(c) : gen_number(c) + c.pick(vector<string>{" ", "  ", "\t", " 0", " 1 2", " x"});
}
struct Slot { // a place for one number
  const char *el, *attr;
  const double *(*get)(const urdf::Joint &);
};
static const double *ptr(const double &x) { return &x; }
static const vector<Slot> &slots() {
  typedef const urdf::Joint &J;
  static const vector<Slot> s = {
      {"limit", "lower", [](J j) { return ptr(j.limits->lower); }},
      {"limit", "upper", [](J j) { return ptr(j.limits->upper); }},
      {"limit", "effort", [](J j) { return ptr(j.limits->effort); }},
      {"limit", "velocity", [](J j) { return ptr(j.limits->velocity); }},
      {"dynamics", "damping", [](J j) { return ptr(j.dynamics->damping); }},
      {"dynamics", "friction", [](J j) { return ptr(j.dynamics->friction); }},
      {"safety_controller", "soft_lower_limit", [](J j) { return ptr(j.safety->soft_lower_limit); }},
      {"safety_controller", "soft_upper_limit", [](J j) { return ptr(j.safety->soft_upper_limit); }},
      {"safety_controller", "k_position", [](J j) { return ptr(j.safety->k_position); }},
      {"safety_controller", "k_velocity", [](J j) { return ptr(j.safety->k_velocity); }},
      {"calibration", "rising", [](J j) -> const double * { return j.calibration->rising.get(); }},
      {"calibration", "falling", [](J j) -> const double * { return j.calibration->falling.get(); }},
      {"mimic", "multiplier", [](J j) { return ptr(j.mimic->multiplier); }},
      {"mimic", "offset", [](J j) { return ptr(j.mimic->offset); }},
  };
  return s;
}
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static string q(double v) { return num(v); }

static void scalars(Case &c) {
  std::map<string, string> word; // "el/attr" -> text
  std::map<string, std::pair<bool, double>> want;
  bool all_ok = true;
  int n = c.range(1, 6);
  bool clean = c.chance(60);
  std::map<string, vector<const Slot *>> by;
  for (int i = 0; i < n; i++) {
    const Slot &s = slots()[c.below(slots().size())];
    string k = string(s.el) + "/" + s.attr;
    if (word.count(k))
      continue;
    string w = clean ? gen_number(c) : gen_scalar(c);
    double v = 0;
    if (clean && !value(w, v))
      w = "1";
    bool ok = value(w, v);
    all_ok &= ok;
    word[k] = w;
    want[k] = {ok, v};
    by[s.el].push_back(&s);
  }
  string body;
  by["limit"];
  static const std::map<string, string> need = {{"limit", "effort velocity"}, {"safety_controller", "k_velocity"}};
  for (auto &kv : by) {
    string e = "<" + kv.first;
    if (kv.first == "mimic")
      e += " joint=\"j\"";
    for (auto &k : need)
      if (k.first == kv.first) {
        std::istringstream is(k.second);
        string a;
        while (is >> a)
          if (!word.count(k.first + "/" + a))
            e += " " + a + "=\"1\"";
      }
    if (kv.first == "dynamics" || kv.first == "calibration") // these need at least one of theirs: given
      ;
    for (auto *s : kv.second)
      e += string(" ") + s->attr + "=\"" + esc(word[string(s->el) + "/" + s->attr]) + "\"";
    body += e + "/>";
  }
  string text = "<robot name=\"r\"><link name=\"a\"/><link name=\"b\"/><joint name=\"j\" type=\"" + string(c.chance(50) ? "revolute" : "prismatic") + "\"><parent link=\"a\"/><child link=\"b\"/>" + body + "</joint></robot>";
  c.note(text);
  auto m = urdf::parseURDF(text);
  c.check((bool)m == all_ok, all_ok ? "a well-written number was refused" : "a text that is no number was accepted");
  c.label(all_ok ? "numbers" : "not a number");
  c.nontrivial = true;
  if (!m)
    return;
  for (auto &kv : by)
    for (auto *s : kv.second) {
      string k = string(s->el) + "/" + s->attr;
      const double *g = s->get(*m->getJoint("j"));
      c.check(g != nullptr, k + " was lost");
      c.check(same(*g, want[k].second), k + "=\"" + word[k] + "\" was read as " + q(*g));
    }
}
// words separated by blanks; returns the text and the reference reading
static string gen_list(Case &c, int want_n, bool clean, vector<double> &v, bool &ok) {
  int n = clean || c.chance(70) ? want_n : c.range(0, want_n + 2);
  string t = c.chance(15) ? string(c.range(1, 4), ' ') : "";
  ok = n == want_n;
  v.clear();
  for (int i = 0; i < n; i++) {
    string w = clean || c.chance(70) ? gen_number(c) : gen_word(c);
    double x = 0;
    if (clean && !value(w, x))
      w = "2";
    if (w.find(' ') != string::npos) { // two words after all
      ok = false;
    } else {
      ok &= value(w, x);
      v.push_back(x);
    }
    t += (i ? string(c.chance(85) ? 1 : c.chance(90) ? c.range(1, 9) : c.range(10, 300), ' ') : "") + w;
  }
  if (c.chance(15))
    t += string(c.range(1, 4), ' ');
  return t;
}
static void vectors(Case &c) {
  static const vector<string> where = {"xyz", "rpy", "axis", "scale", "size", "init"};
  string w = c.pick(where);
  vector<double> v;
  bool ok, joint = w == "xyz" || w == "rpy" || w == "axis" || w == "init", clean = !joint || c.chance(60);
  string t = gen_list(c, 3, clean, v, ok);
  c.label(ok ? "vectors" : "not a vector");
  c.nontrivial = true;
  c.note(w, ": \"", t, "\"");
  if (w == "init") { // straight from a string
    urdf::Vector3 x(7, 8, 9);
    bool got = true;
    try {
      x.init(t);
    } catch (const std::exception &) {
      got = false;
    }
    c.check(got == ok, ok ? "a vector was refused" : "a text that is no vector was accepted");
    if (ok)
      c.check(same(x.x, v[0]) && same(x.y, v[1]) && same(x.z, v[2]), "a vector was read differently");
    return;
  }
  string a = joint ? "" : "<visual><geometry><mesh filename=\"f\" scale=\"%\"/></geometry></visual>";
  if (w == "size")
    a = "<collision><geometry><box size=\"%\"/></geometry></collision>";
  string j = w == "axis" ? "<axis xyz=\"%\"/>" : joint ? "<origin " + w + "=\"%\"/>" : "";
  for (string *s : {&a, &j}) {
    size_t p = s->find('%');
    if (p != string::npos)
      s->replace(p, 1, esc(t));
  }
  string text = "<robot name=\"r\"><link name=\"a\">" + a + "</link><link name=\"b\"/><joint name=\"j\" type=\"continuous\"><parent link=\"a\"/><child link=\"b\"/>" + j + "</joint></robot>";
  c.note(text);
  auto m = urdf::parseURDF(text);
  c.check((bool)m == ok, ok ? "a vector was refused" : "a text that is no vector was accepted");
  if (!m)
    return;
  urdf::Vector3 x;
  if (w == "xyz")
    x = m->getJoint("j")->parent_to_joint_origin_transform.position;
  else if (w == "axis")
    x = m->getJoint("j")->axis;
  else if (w == "scale" || w == "size") {
    auto l = m->getLink("a");
    if (w == "scale") {
      c.check(l->visual && dynamic_cast<urdf::Mesh *>(l->visual->geometry.get()), "the mesh was lost");
      x = static_cast<urdf::Mesh *>(l->visual->geometry.get())->scale;
    } else {
      c.check(l->collision && dynamic_cast<urdf::Box *>(l->collision->geometry.get()), "the box was lost");
      x = static_cast<urdf::Box *>(l->collision->geometry.get())->dim;
    }
  } else { // rpy becomes a rotation
    M<double> R = rot_rpy(v[0], v[1], v[2]);
    double Q[3][3], big = 1 + std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]);
    if (big > 1e6)
      return;
    quat_mat(m->getJoint("j")->parent_to_joint_origin_transform.rotation, Q);
    for (int i = 0; i < 3; i++)
      for (int k = 0; k < 3; k++)
        c.near(Q[i][k], R.m[i][k], 1e-12 * big, "rotation of an origin");
    return;
  }
  c.check(same(x.x, v[0]) && same(x.y, v[1]) && same(x.z, v[2]), w + "=\"" + t + "\" was read as " + q(x.x) + " " + q(x.y) + " " + q(x.z));
}
static void link_numbers(Case &c) { // well-written numbers inside a link
  vector<string> w;
  vector<double> v;
  for (int i = 0; i < 10; i++) {
    string s = gen_number(c);
    double x = 0;
    if (!value(s, x)) {
      s = "3";
      x = 3;
    }
    w.push_back(s);
    v.push_back(x);
  }
  string text = "<robot name=\"r\"><link name=\"a\"><inertial><mass value=\"" + w[0] + "\"/><inertia ixx=\"" + w[1] + "\" ixy=\"" + w[2] + "\" ixz=\"" + w[3] + "\" iyy=\"" + w[4] + "\" iyz=\"" + w[5] + "\" izz=\"" + w[6] +
                "\"/></inertial><visual><geometry><cylinder radius=\"" + w[7] + "\" length=\"" + w[8] + "\"/></geometry></visual><collision><geometry><sphere radius=\"" + w[9] + "\"/></geometry></collision></link></robot>";
  c.note(text);
  auto m = urdf::parseURDF(text);
  c.check((bool)m, "a description of well-written numbers was refused");
  auto l = m->getLink("a");
  c.check(l->inertial && l->visual && l->collision, "a part of a link was lost");
  auto *cy = dynamic_cast<urdf::Cylinder *>(l->visual->geometry.get());
  auto *sp = dynamic_cast<urdf::Sphere *>(l->collision->geometry.get());
  c.check(cy && sp, "the shape of a link was lost");
  const urdf::Inertial &I = *l->inertial;
  double got[10] = {I.mass, I.ixx, I.ixy, I.ixz, I.iyy, I.iyz, I.izz, cy->radius, cy->length, sp->radius};
  static const char *nm[10] = {"mass", "ixx", "ixy", "ixz", "iyy", "iyz", "izz", "cylinder radius", "cylinder length", "sphere radius"};
  for (int i = 0; i < 10; i++)
    c.check(same(got[i], v[i]), string(nm[i]) + "=\"" + w[i] + "\" was read as " + q(got[i]));
  // the kinematic model weighs the same
  if (std::fabs(v[0]) < 1e300) {
    KinematicModel k(text);
    c.check(k.total_mass_ == v[0], "total mass of a robot of one link");
  }
  c.nontrivial = true;
  c.label("numbers of a link");
}
static void colours(Case &c) {
  string t, w[4];
  double v[4];
  for (int i = 0; i < 4; i++) {
    w[i] = gen_number(c);
    if (!value(w[i], v[i]) || v[i] < 0 || v[i] > 1) {
      char b[64];
      snprintf(b, sizeof b, c.pick(vector<string>{"%.17g", "%.3f", "%g", "%.2e", "%.25f"}).c_str(), c.chance(20) ? (double)c.range(0, 1) : c.unit());
      w[i] = b;
      value(w[i], v[i]);
    }
    t += (i ? string(c.chance(85) ? 1 : c.range(1, 9), ' ') : "") + w[i];
  }
  string text = "<robot name=\"r\"><material name=\"m\"><color rgba=\"" + t + "\"/></material><link name=\"a\"/></robot>";
  c.note(text);
  auto m = urdf::parseURDF(text);
  c.check(m && m->getMaterial("m"), "a colour was lost");
  auto &k = m->getMaterial("m")->color;
  float got[4] = {k.r, k.g, k.b, k.a};
  for (int i = 0; i < 4; i++)
    c.check(got[i] == (float)v[i], "colour component \"" + w[i] + "\" was read as " + q(got[i]));
  c.nontrivial = true;
  c.label("colours");
}
static void direct(Case &c) { // the conversion itself
  string s = gen_scalar(c);
  double want = 0, got = 0;
  bool ok = value(s, want), r = true;
  c.note("\"", s, "\"");
  try {
    got = urdf::strToDouble(s.c_str());
  } catch (const std::exception &) {
    r = false;
  }
  c.check(r == ok, ok ? "a number was refused: " + s : "no number, but accepted: " + s);
  if (ok)
    c.check(same(got, want), "\"" + s + "\" was converted to " + q(got));
  c.nontrivial = true;
  c.label(ok ? "converted" : "not converted");
}
static void prop(Case &c) {
  switch (c.weighted({35, 25, 12, 8, 20})) {
  case 0: scalars(c); break;
  case 1: vectors(c); break;
  case 2: link_numbers(c); break;
  case 3: colours(c); break;
  default: direct(c);
  }
}
VP_PROP("C33", "random spellings of numbers (every form of the decimal grammar, doubles of any magnitude, up to 800 digits, limits of the format, halfway cases) and near-misses of them (foreign suffixes, hexadecimal, separators, lost or extra characters, something behind the number, other scripts), placed in every scalar, vector and colour attribute; accepted exactly if an independent grammar accepts, value compared bit for bit with strtod; every case is non-trivial",
        prop, 300000, 8000000, 20)
