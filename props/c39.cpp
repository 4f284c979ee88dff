// C39: the work done stays in proportion.  Every block of code that runs and
// every byte copied, cleared, compared or scanned by the C library is counted
// (the sources are compiled with -fsanitize-coverage), so that the work of an
// operation is one exact number; the same operation is carried out on an input
// of one size and of four times the size, and the growth is bounded.
#include "common.hpp"
#include <tinyxml.h>
#include <urdf_parser/urdf_parser.h>
#include <algorithm>
#include <memory>
using namespace vp;
using std::string;
using std::vector;
namespace tf = tinyfk;

// ---- the meter ---------------------------------------------------------------
#define UNCOUNTED __attribute__((no_sanitize("coverage"), no_builtin, noinline))
static volatile bool g_on = false;
static uint64_t g_blocks = 0, g_bytes = 0;
extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  for (; a < b; a++)
    *a = 1;
}
UNCOUNTED void __sanitizer_cov_trace_pc_guard(uint32_t *) {
  if (g_on)
    g_blocks++;
}
UNCOUNTED void *memcpy(void *d, const void *s, size_t n) {
  void *r = d;
  g_bytes += g_on ? n : 0;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
UNCOUNTED void *memmove(void *d, const void *s, size_t n) {
  void *r = d;
  g_bytes += g_on ? n : 0;
  if (d <= s || (const char *)s + n <= (char *)d) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    d = (char *)d + n - 1;
    s = (const char *)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  }
  return r;
}
UNCOUNTED void *memset(void *d, int v, size_t n) {
  void *r = d;
  g_bytes += g_on ? n : 0;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
UNCOUNTED size_t strlen(const char *s) {
  const volatile char *p = s;
  while (*p)
    p++;
  size_t n = p - s;
  g_bytes += g_on ? n : 0;
  return n;
}
UNCOUNTED int memcmp(const void *a, const void *b, size_t n) {
  const volatile unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  size_t i = 0;
  while (i < n && x[i] == y[i])
    i++;
  g_bytes += g_on ? i : 0;
  return i == n ? 0 : x[i] < y[i] ? -1 : 1;
}
void *counted_memchr(const void *, int, size_t) __asm__("memchr");
UNCOUNTED void *counted_memchr(const void *a, int v, size_t n) {
  const volatile unsigned char *x = (const unsigned char *)a;
  size_t i = 0;
  while (i < n && x[i] != (unsigned char)v)
    i++;
  g_bytes += g_on ? i : 0;
  return i == n ? nullptr : (void *)((const unsigned char *)a + i);
}
}
template <class F> UNCOUNTED static double work(F f) {
  g_blocks = g_bytes = 0;
  g_on = true;
  f();
  g_on = false;
  return (double)g_blocks + (double)g_bytes / 16;
}

// ---- robots of any size ------------------------------------------------------
struct Family {
  int shape, inertial_every, fixed_every, name_len, order, decor;
  uint64_t salt;
};
static string num(int i, int len) {
  string s = std::to_string(100000 + i);
  return string(len, 'k') + s;
}
static int parent_of(const Family &f, int i) {
  switch (f.shape) {
  case 0: return i - 1;                          // chain
  case 1: return 0;                              // star
  case 2: return i == 1 ? 0 : i % 2 ? i - 2 : i - 1; // spine with a link on each vertebra
  case 3: return (i - 1) / 2;                    // binary
  default: return (int)(mix(f.salt + i) % i);    // random
  }
}
static string robot(const Family &f, int n) {
  vector<string> parts;
  const char *type[] = {"revolute", "prismatic", "continuous"};
  for (int i = 0; i < n; i++) {
    string s = "<link name=\"" + num(i, f.name_len) + "\">";
    if (f.inertial_every && i % f.inertial_every == 0)
      s += "<inertial><origin xyz=\"0.1 0 0.2\"/><mass value=\"1.5\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial>";
    if (f.decor & 1)
      s += "<visual><origin xyz=\"0 0 1\"/><geometry><box size=\"1 2 3\"/></geometry><material name=\"m" + std::to_string(i % 7) + "\"><color rgba=\"1 0 0 1\"/></material></visual>";
    if (f.decor & 2)
      s += "<collision><geometry><mesh filename=\"package://a/b.stl\"/></geometry></collision>";
    parts.push_back(s + "</link>");
    if (!i)
      continue;
    uint64_t h = mix(f.salt * 31 + i);
    bool fixed = f.fixed_every && i % f.fixed_every == 0;
    s = "<joint name=\"j" + num(i, f.name_len) + "\" type=\"" + (fixed ? "fixed" : type[h % 3]) + "\"><origin xyz=\"0.01 0 0\" rpy=\"0 0.1 0\"/><parent link=\"" + num(parent_of(f, i), f.name_len) +
        "\"/><child link=\"" + num(i, f.name_len) + "\"/><axis xyz=\"0 0 1\"/><limit lower=\"-1\" upper=\"1\" effort=\"1\" velocity=\"1\"/>";
    if (f.decor & 4)
      s += "<dynamics damping=\"1\"/><safety_controller k_velocity=\"1\"/>";
    parts.push_back(s + "</joint>");
  }
  if (f.order == 1)
    std::reverse(parts.begin(), parts.end());
  if (f.order == 2)
    for (size_t i = parts.size(); i > 1; i--)
      std::swap(parts[i - 1], parts[mix(f.salt ^ i * 77) % i]);
  string s = "<robot name=\"r\">\n";
  for (auto &p : parts)
    s += p + "\n";
  return s + "</robot>\n";
}
struct Model {
  std::unique_ptr<tf::KinematicModel> k;
  vector<size_t> joints;
  vector<double> angles;
  size_t tip;
  Model(const Family &f, int n) : k(new tf::KinematicModel(robot(f, n))) {
    joints = k->get_joint_ids(k->get_joint_names());
    for (size_t i = 0; i < joints.size(); i++)
      angles.push_back(0.3 + 0.001 * i);
    tip = k->get_link_ids({num(n - 1, f.name_len)})[0];
  }
  void update() { k->set_joint_angles(joints, angles); }
};

static void bounded(Case &c, const char *what, double small, double large, int degree, double extra = 1.5) {
  double limit = std::pow(4.0, degree) * extra;
  if (large > small * limit + 200) {
    std::ostringstream o;
    o << what << ": four times the size takes " << large << " steps instead of " << small << ", " << large / small << " times as many (at most " << limit << " expected)";
    c.fail(o.str());
  }
}

// ---- texts -------------------------------------------------------------------
static string repeat(const string &s, int n) {
  string o;
  o.reserve(s.size() * n);
  for (int i = 0; i < n; i++)
    o += s;
  return o;
}
static string text(int kind, int n) {
  switch (kind) {
  case 0: return "<a>" + repeat("<b/>", n) + "</a>";
  case 1: return "<a>" + repeat("<b k=\"v\">text</b>\n", n) + "</a>";
  case 2: return "<a>" + repeat("x", n * 5) + "</a>";
  case 3: return "<a k=\"" + repeat("v ", n * 3) + "\"/>";
  case 4: return "<a><!--" + repeat("c-", n * 3) + "--></a>";
  case 5: return "<a><![CDATA[" + repeat("c]", n * 3) + "]]></a>";
  case 6: return "<a>" + repeat(" \n\t\r\n", n) + "</a>";
  case 7: return "<a>" + repeat("&amp;&#x41;&lt;", n) + "</a>";
  case 8: return "<a k='" + repeat("&quot;&#65;", n) + "'/>";
  case 9: return "<a>" + repeat("word \n  word ", n) + "</a>";
  case 10: return repeat("<!-- c -->\n", n) + "<a/>";
  case 11: return "<a>" + repeat("<?x y?>", n) + "</a>";
  case 12: return "<" + repeat("n", n * 4) + "/>";
  case 13: return "<a>" + repeat("\xC3\xA9\xE2\x82\xAC", n) + "</a>";
  case 14: return repeat("<a>", n) + repeat("</a>", n);                 // nested
  default: {                                                            // attributes
    string s = "<a";
    for (int i = 0; i < n; i++)
      s += " k" + std::to_string(1000 + i) + "=\"v\"";
    return s + "/>";
  }
  }
}

static void prop(Case &c) {
  int what = c.range(0, 9);
  Family f;
  f.shape = c.range(0, 4);
  f.inertial_every = c.chance(50) ? 0 : c.range(1, 5);
  f.fixed_every = c.chance(50) ? 0 : c.range(2, 6);
  f.name_len = c.chance(80) ? 0 : c.range(1, 60);
  f.order = c.range(0, 2);
  f.decor = c.range(0, 7);
  f.salt = c.src.draw(1000000);
  static const char *kShape[] = {"chain", "star", "spine", "binary tree", "random tree"};
  auto show = [&](int n) {
    if (c.verbose)
      c.desc << kShape[f.shape] << " of " << n << " and " << 4 * n << " links; inertial on every " << f.inertial_every << ", fixed every " << f.fixed_every << ", order " << f.order << ", decor " << f.decor
             << ", name length " << f.name_len + 6 << ", salt " << f.salt << "\n";
    c.label(kShape[f.shape]);
  };
  auto has_com = [&] {
    if (!f.inertial_every)
      f.inertial_every = 1 + (int)(f.salt % 3);
  };
  c.nontrivial = true;
  switch (what) {
  case 0: { // reading and writing text
    int kind = c.range(0, 15), n = kind >= 14 ? c.range(20, 110) : c.range(40, 600);
    c.label("xml text");
    if (c.verbose)
      c.desc << "text of kind " << kind << ", " << n << " and " << 4 * n << " repetitions: " << text(kind, 3) << "\n";
    double p[2], q[2];
    for (int k = 0; k < 2; k++) {
      const string t = text(kind, k ? 4 * n : n);
      TiXmlDocument d;
      p[k] = work([&] { d.Parse(t.c_str()); });
      c.check(!d.Error(), "the text is not read");
      TiXmlPrinter pr;
      string s;
      q[k] = work([&] { d.Accept(&pr); });
    }
    bounded(c, "reading XML", p[0], p[1], kind >= 14 ? 2 : 1);
    bounded(c, "writing XML", q[0], q[1], kind >= 14 ? 2 : 1);
    return;
  }
  case 1: { // reading a description
    int n = c.range(30, 150);
    show(n);
    c.label("description");
    double p[2], q[2], r[2];
    for (int k = 0; k < 2; k++) {
      const string t = robot(f, k ? 4 * n : n);
      urdf::ModelInterfaceSharedPtr m;
      p[k] = work([&] { m = urdf::parseURDF(t); });
      c.check((bool)m, "the description is not read");
      TiXmlDocument *d = nullptr;
      q[k] = work([&] { d = urdf::exportURDF(*m); });
      delete d;
      r[k] = work([&] { m.reset(); });
    }
    bounded(c, "reading a description", p[0], p[1], 1);
    bounded(c, "exporting a model", q[0], q[1], 1);
    bounded(c, "discarding a model", r[0], r[1], 1);
    return;
  }
  case 2: { // making a model
    int n = c.range(12, 32);
    show(n);
    c.label("construction");
    double p[2];
    for (int k = 0; k < 2; k++) {
      const string t = robot(f, k ? 4 * n : n);
      std::unique_ptr<tf::KinematicModel> m;
      p[k] = work([&] { m.reset(new tf::KinematicModel(t)); });
    }
    bounded(c, "making a model", p[0], p[1], f.inertial_every ? 3 : 2);
    return;
  }
  default: break;
  }
  int n = what == 3 ? c.range(15, 50) : c.range(25, 90);
  if (what == 7 || what == 8)
    has_com();
  show(n);
  Model a(f, n), b(f, 4 * n);
  Model *m[2] = {&a, &b};
  double p[2], q[2];
  tf::Transform T;
  switch (what) {
  case 3: { // links at run time
    c.label("run-time link");
    for (int k = 0; k < 2; k++)
      p[k] = work([&] { m[k]->k->add_new_link("added", m[k]->tip, tf::Transform()); });
    bounded(c, "adding a link", p[0], p[1], 2);
    return;
  }
  case 4: { // one pose
    c.label("one pose");
    for (int k = 0; k < 2; k++) {
      m[k]->update();
      p[k] = work([&] { m[k]->k->get_link_pose(m[k]->tip, T); });
      q[k] = work([&] { m[k]->k->get_link_pose(m[k]->tip, T); });
      if (q[k] > p[k] / 2 + 5)
        c.fail("asking for a pose again takes " + std::to_string((int)q[k]) + " steps, asking for the first time took " + std::to_string((int)p[k]));
    }
    bounded(c, "one pose", p[0], p[1], 1);
    bounded(c, "the same pose again", q[0], q[1], 0);
    return;
  }
  case 5: { // every pose, in some order
    c.label("every pose");
    int order = c.range(0, 2);
    uint64_t salt = c.src.draw(100000);
    for (int k = 0; k < 2; k++) {
      size_t N = m[k]->k->links_.size();
      vector<size_t> ids(N);
      for (size_t i = 0; i < N; i++)
        ids[i] = order == 1 ? N - 1 - i : i;
      if (order == 2)
        for (size_t i = N; i > 1; i--)
          std::swap(ids[i - 1], ids[mix(salt + i) % i]);
      m[k]->update();
      auto all = [&] {
        for (size_t i : ids)
          m[k]->k->get_link_pose(i, T);
      };
      p[k] = work(all);
      q[k] = work(all);
      if (q[k] > p[k] / 2 + 50)
        c.fail("asking for every pose again takes " + std::to_string((int)q[k]) + " steps, asking for the first time took " + std::to_string((int)p[k]));
    }
    bounded(c, "every pose", p[0], p[1], 1);
    return;
  }
  case 6: { // a Jacobian
    c.label("jacobian");
    auto rot = (tf::RotationType)c.range(0, 2);
    bool base = c.chance(50);
    for (int k = 0; k < 2; k++) {
      m[k]->update();
      p[k] = work([&] { m[k]->k->get_jacobian(m[k]->tip, m[k]->joints, rot, base); });
    }
    bounded(c, "a Jacobian", p[0], p[1], 1);
    return;
  }
  case 7: { // centre of mass and inertia
    c.label("centre of mass");
    for (int k = 0; k < 2; k++) {
      m[k]->update();
      p[k] = work([&] { m[k]->k->get_com(); });
      m[k]->update();
      q[k] = work([&] { m[k]->k->get_total_inertia_matrix(); });
    }
    bounded(c, "the centre of mass", p[0], p[1], 1);
    bounded(c, "the total inertia", q[0], q[1], 1);
    return;
  }
  case 8: {
    c.label("centre of mass jacobian");
    bool base = c.chance(50);
    for (int k = 0; k < 2; k++) {
      m[k]->update();
      p[k] = work([&] { m[k]->k->get_com_jacobian(m[k]->joints, base); });
    }
    bounded(c, "the Jacobian of the centre of mass", p[0], p[1], 2);
    return;
  }
  default: { // the rest
    c.label("updates and look-ups");
    double r[2], s[2];
    for (int k = 0; k < 2; k++) {
      tf::KinematicModel &K = *m[k]->k;
      p[k] = work([&] { m[k]->update(); K.set_base_pose(tf::Transform()); K.set_init_angles(); K.clear_cache(); });
      vector<string> names;
      q[k] = work([&] { names = K.get_link_names(); });
      r[k] = work([&] { K.get_link_ids(names); K.get_joint_ids(K.get_joint_names()); });
      s[k] = work([&] { K.get_joint_position_limits(m[k]->joints); K.get_joint_velocity_limits(m[k]->joints); K.get_joint_effort_limits(m[k]->joints); K.get_joint_angles(m[k]->joints); });
    }
    bounded(c, "an update", p[0], p[1], 1);
    bounded(c, "the names", q[0], q[1], 1);
    bounded(c, "the ids", r[0], r[1], 1);
    bounded(c, "limits and angles", s[0], s[1], 1);
    return;
  }
  }
}
VP_PROP("C39", "a family of robots (chain, star, spine, binary or random tree; inertials, fixed joints, decorations, order of the elements and length of the names drawn) or of XML texts (16 kinds), at one size and at four times the size, and one operation: reading and writing XML, reading, exporting and discarding a description, making a model, adding a link, one pose, every pose in some order, Jacobians, centre of mass, inertia, updates, look-ups; work = blocks of code executed + bytes handled by memcpy, memmove, memset, memcmp, memchr, strlen / 16; every case is non-trivial",
        prop, 4000, 60000, 60)
