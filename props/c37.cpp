// C37: answers depend on the inputs only, not on what memory held before.
// Built without sanitizers: every block the allocator hands out, every block it
// takes back and the unused stack are filled with a pattern first; the same
// program runs under different patterns and must answer the same, bit for bit.
#include "program.hpp"
#include "damage.hpp"
#include <cstdlib>
#include <malloc.h>
using namespace rb;

static volatile int g_fill = -1; // pattern of fresh memory, -1: leave as it is
static volatile int g_free = -1; // pattern of released memory
extern "C" {
void *__libc_malloc(size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (p && g_fill >= 0)
    memset(p, g_fill, n);
  return p;
}
void free(void *p) {
  if (p && g_free >= 0)
    memset(p, g_free, malloc_usable_size(p));
  __libc_free(p);
}
}
// what is left of earlier calls below the current frame
__attribute__((noinline)) static void dirty_stack(int fill) {
  char b[96 * 1024];
  memset(b, fill, sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}

struct Answers {
  vector<string> steps;
  vector<string> parsed, dom;
};
struct Extra { // texts parsed field by field, and kinds of programs
  vector<string> texts;
  int how; // how documents are made and read
};
// every field of an XML node that can be asked for
static void dom_node(Log &L, const TiXmlNode &n, int depth) {
  L.d(n.Type());
  L.t(n.ValueStr());
  L.d(n.Row());
  L.d(n.Column());
  L.d(n.GetUserData() != nullptr);
  L.d((n.Parent() != nullptr) + 2 * (n.NextSibling() != nullptr) + 4 * (n.PreviousSibling() != nullptr) + 8 * n.NoChildren() + 16 * (n.GetDocument() != nullptr));
  if (const TiXmlText *t = n.ToText())
    L.d(t->CDATA());
  if (const TiXmlDeclaration *d = n.ToDeclaration())
    L.t(string(d->Version()) + "|" + d->Encoding() + "|" + d->Standalone());
  if (const TiXmlDocument *d = n.ToDocument()) {
    L.d(d->Error());
    L.d(d->ErrorId());
    L.t(d->ErrorDesc());
    L.d(d->ErrorRow());
    L.d(d->ErrorCol());
    L.d(d->TabSize());
  }
  if (const TiXmlElement *e = n.ToElement())
    for (const TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next()) {
      L.t(a->NameTStr() + "=" + a->ValueStr());
      L.d(a->Row());
      L.d(a->Column());
      L.d(a->GetUserData() != nullptr);
      L.d(a->IntValue());
      L.d(a->DoubleValue());
    }
  if (depth < 60)
    for (const TiXmlNode *k = n.FirstChild(); k; k = k->NextSibling())
      dom_node(L, *k, depth + 1);
}
template <class T> static void dom_show(Log &L, const T &n) {
  dom_node(L, n, 0);
  std::unique_ptr<T> copy(new T(n)), other(new T(n));
  *other = n;
  std::unique_ptr<TiXmlNode> clone(static_cast<const TiXmlNode &>(n).Clone());
  dom_node(L, *copy, 0);
  dom_node(L, *other, 0);
  dom_node(L, *clone, 0);
}
// documents and nodes made by hand, and read from text
static string dom_dump(const string &text, int how) {
  Log L;
  const string cut = text.substr(0, 300);
  {
    std::unique_ptr<TiXmlDocument> d(how % 3 == 0 ? new TiXmlDocument() : how % 3 == 1 ? new TiXmlDocument("named") : new TiXmlDocument(string("named")));
    dom_show(L, *d);
    d->Parse(text.c_str(), nullptr, how & 8 ? TIXML_ENCODING_LEGACY : how & 16 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN);
    dom_show(L, *d);
    TiXmlPrinter pr;
    L.t(string(pr.Indent()) + pr.LineBreak());
    d->Accept(&pr);
    L.t(pr.Str());
    TiXmlHandle h(d.get());
    L.d(h.FirstChildElement().ToElement() != nullptr);
    d->ClearError();
    dom_node(L, *d, 60);
  }
  // all of it in memory from the allocator, which is filled with the pattern
  std::unique_ptr<TiXmlElement> pe(new TiXmlElement("e")), e2(new TiXmlElement(string("e2")));
  TiXmlElement &e = *pe;
  std::unique_ptr<TiXmlText> t(new TiXmlText("t")), t2(new TiXmlText(string("t2")));
  std::unique_ptr<TiXmlComment> k(new TiXmlComment), k2(new TiXmlComment("k2"));
  std::unique_ptr<TiXmlDeclaration> v(new TiXmlDeclaration), v2(new TiXmlDeclaration("1.0", "UTF-8", "yes")),
      v3(new TiXmlDeclaration(string("1.0"), string(""), string("no")));
  std::unique_ptr<TiXmlUnknown> u(new TiXmlUnknown);
  std::unique_ptr<TiXmlAttribute> a(new TiXmlAttribute), a2(new TiXmlAttribute("n", "2")), a3(new TiXmlAttribute(string("n"), string("3")));
  e.SetAttribute("x", 3);
  e.SetDoubleAttribute("y", 2.5);
  e.SetAttribute("z", "word");
  int i = 0;
  double w = 0;
  bool b = false;
  for (const char *n : {"x", "y", "z", "none"}) { // also what is left in the variable by a refused query
    L.d(e.QueryIntAttribute(n, &i));
    L.d(i);
    L.d(e.QueryDoubleAttribute(n, &w));
    L.d(w);
    L.d(e.QueryBoolAttribute(n, &b));
    L.d(b);
    i = 0, w = 0;
    L.d(e.Attribute(n, &i) != nullptr);
    L.d(i);
    L.d(e.Attribute(n, &w) != nullptr);
    L.d(w);
  }
  dom_show(L, e);
  dom_show(L, *e2);
  dom_show(L, *t);
  dom_show(L, *t2);
  dom_show(L, *k);
  dom_show(L, *k2);
  dom_show(L, *v);
  dom_show(L, *v2);
  dom_show(L, *v3);
  dom_show(L, *u);
  for (const TiXmlAttribute *x : {a.get(), a2.get(), a3.get()}) {
    L.t(x->NameTStr() + "=" + x->ValueStr());
    L.d(x->Row() + 1000 * x->Column() + (x->GetUserData() != nullptr));
  }
  return L.s;
}
// parts of a model as they are before anything is put into them
static string fresh_parts() {
  Log L;
  auto xyz = [&](const urdf::Vector3 &v) {
    L.d(v.x);
    L.d(v.y);
    L.d(v.z);
  };
  std::unique_ptr<urdf::Vector3> v(new urdf::Vector3);
  std::unique_ptr<urdf::Rotation> r(new urdf::Rotation);
  std::unique_ptr<Transform> p(new Transform);
  std::unique_ptr<urdf::Color> col(new urdf::Color);
  xyz(*v);
  L.v({r->x, r->y, r->z, r->w});
  L.p(*p);
  L.v({col->r, col->g, col->b, col->a});
  std::unique_ptr<urdf::JointDynamics> d(new urdf::JointDynamics);
  std::unique_ptr<urdf::JointLimits> l(new urdf::JointLimits);
  std::unique_ptr<urdf::JointSafety> f(new urdf::JointSafety);
  std::unique_ptr<urdf::JointCalibration> k(new urdf::JointCalibration);
  std::unique_ptr<urdf::JointMimic> m(new urdf::JointMimic);
  L.v({d->damping, d->friction, l->lower, l->upper, l->effort, l->velocity, f->soft_lower_limit, f->soft_upper_limit, f->k_position, f->k_velocity,
       k->reference_position, (double)!k->rising, (double)!k->falling, m->offset, m->multiplier});
  std::unique_ptr<urdf::Joint> j(new urdf::Joint);
  L.d(j->type);
  xyz(j->axis);
  L.p(j->parent_to_joint_origin_transform);
  L.v({(double)!j->dynamics, (double)!j->limits, (double)!j->safety, (double)!j->calibration, (double)!j->mimic});
  std::unique_ptr<urdf::Sphere> s(new urdf::Sphere);
  std::unique_ptr<urdf::Box> b(new urdf::Box);
  std::unique_ptr<urdf::Cylinder> y(new urdf::Cylinder);
  std::unique_ptr<urdf::Mesh> h(new urdf::Mesh);
  L.v({(double)s->type, s->radius, (double)b->type, (double)y->type, y->length, y->radius, (double)h->type});
  xyz(b->dim);
  xyz(h->scale);
  std::unique_ptr<urdf::Material> t(new urdf::Material);
  L.v({t->color.r, t->color.g, t->color.b, t->color.a});
  std::unique_ptr<urdf::Inertial> i(new urdf::Inertial);
  L.p(i->origin);
  L.v({i->mass, i->ixx, i->ixy, i->ixz, i->iyy, i->iyz, i->izz});
  std::unique_ptr<urdf::Visual> w(new urdf::Visual);
  std::unique_ptr<urdf::Collision> x(new urdf::Collision);
  std::unique_ptr<urdf::Link> n(new urdf::Link);
  L.p(w->origin);
  L.p(x->origin);
  L.v({(double)!w->geometry, (double)!w->material, (double)!x->geometry, (double)!n->inertial, (double)!n->visual, (double)!n->collision,
       (double)!n->parent_joint, (double)n->child_links.size(), (double)n->child_joints.size(), (double)!n->getParent()});
  return L.s;
}
static string dump(Case &c, const string &text) {
  Log L;
  urdf::ModelInterfaceSharedPtr m;
  try {
    m = urdf::parseURDF(text);
  } catch (const std::exception &e) {
    return string("exception: ") + e.what();
  }
  if (!m)
    return "refused";
  for (auto &kv : flatten(c, *m, true)) {
    L.t(kv.first);
    if (kv.second.is_num)
      L.d(kv.second.v);
    else
      L.t(kv.second.s);
  }
  for (auto &kv : m->joints_) {
    const urdf::Joint &j = *kv.second;
    if (j.calibration)
      L.d(j.calibration->reference_position);
    L.d(j.type);
  }
  try { // what the kinematic model makes of it
    KinematicModel k(text);
    vector<string> jn = k.get_joint_names();
    vector<size_t> js = k.get_joint_ids(jn);
    L.d(k.total_mass_);
    L.v(k.get_joint_angles(js));
    L.d((double)k.root_link_id_);
    for (auto &n : k.get_link_names()) {
      Transform t;
      k.get_link_pose(k.get_link_ids({n})[0], t);
      L.p(t);
    }
    for (auto &b : k.get_joint_position_limits(js)) {
      L.d(b.first);
      L.d(b.second);
    }
    L.v(k.get_joint_velocity_limits(js));
    L.v(k.get_joint_effort_limits(js));
    auto x = k.get_com();
    L.v({x[0], x[1], x[2]});
    L.m(k.get_com_jacobian(js, true));
    L.m(k.get_total_inertia_matrix());
  } catch (const std::exception &e) {
    L.t(string("exception: ") + e.what());
  }
  return L.s;
}
static Answers go(Case &c, const Program &P, const Extra &E, int fill, int after) {
  Answers A;
  A.steps.reserve(512);
  g_fill = fill;
  g_free = after;
  {
    Machine M;
    M.doc.reset(new TiXmlDocument);
    M.doc->Parse(E.texts[0].c_str());
    for (const Op &o : P.ops)
      for (int r = 0; r < o.rep; r++) {
        if (r && M.k[o.slot])
          M.k[o.slot]->clear_cache();
        dirty_stack(fill);
        step(M, o, A.steps);
      }
    for (auto &t : E.texts) {
      dirty_stack(after);
      A.parsed.push_back(dump(c, t));
    }
    dirty_stack(fill);
    A.parsed.push_back(fresh_parts());
    for (size_t i = 0; i < E.texts.size(); i++) {
      dirty_stack(fill);
      A.dom.push_back(dom_dump(E.texts[i], E.how + i));
    }
  }
  g_fill = g_free = -1;
  return A;
}
static void prop(Case &c) {
  Texts T = gen_texts(c);
  Program P;
  int theme = gen_theme(c);
  P.ops = gen_ops(c, T, theme, 14, 4, "");
  Extra E;
  E.texts.push_back(T.full[0]);
  if (c.chance(60)) { // a damaged description
    DescOpt o;
    o.g.max_links = 4;
    o.g.big_pct = 0;
    o.g.inertial_pct = 80;
    El e = el_robot(gen_desc(c, o));
    for (int k = c.range(1, 3); k > 0; k--) {
      vector<El *> at;
      for (auto &l : e.kids) {
        if (l.tag == "material")
          at.push_back(&l);
        if (l.tag == "link")
          for (auto &x : l.kids)
            if (x.tag != "origin")
              at.push_back(&x);
      }
      if (at.empty())
        break;
      El *x = c.pick(at);
      if (x->tag == "inertial" && x->find("mass") && x->find("inertia"))
        dmg::break_inertial(c, *x);
      else if (x->tag == "material")
        dmg::break_color(c, *x);
      else if ((x->tag == "visual" || x->tag == "collision") && x->find("geometry") && !x->find("geometry")->kids.empty())
        dmg::break_vis(c, *x);
    }
    E.texts.push_back(to_text(e));
    c.note("damaged:\n", E.texts.back());
  }
  for (auto &t : T.full)
    if (c.chance(30)) { // cut or altered anywhere
      string s = t;
      if (c.chance(50))
        s.resize(c.below(s.size()));
      else
        s.replace(c.below(s.size()), 1 + c.below(6), c.pick(vector<string>{"", "x", "1..2", "<", "&#x41;", "\"", "/>", "-", "&"}));
      E.texts.push_back(s);
      c.note("altered:\n", s);
    }
  E.how = c.below(32);
  static const vector<int> pat = {0x00, 0xFF, 0x7F, 0x3F, 0x01, 0x40, 0xAA, 0xC0, 0x20, 0x2D};
  int a = c.pick(pat), b = c.chance(70) ? c.pick(pat) : (int)c.below(256), a2 = c.pick(pat), b2 = (int)c.below(256);
  if (a == b)
    b = a ^ 0xFF;
  c.note("patterns ", a, "/", a2, " against ", b, "/", b2);
  Answers x = go(c, P, E, a, a2), y = go(c, P, E, b, b2);
  size_t i = 0;
  for (size_t n = 0; n < P.ops.size(); n++)
    for (int r = 0; r < P.ops[n].rep; r++, i++)
      if (x.steps.at(i) != y.steps.at(i))
        c.fail("operation " + std::to_string(n) + " (" + kName[P.ops[n].kind] + ") answers something else when unused memory holds other bytes");
  for (size_t k = 0; k < x.parsed.size(); k++)
    if (x.parsed[k] != y.parsed[k])
      c.fail((k < E.texts.size() ? "description " + std::to_string(k) + " is" : string("a newly made part of a model is")) + " understood differently when unused memory holds other bytes");
  for (size_t k = 0; k < x.dom.size(); k++)
    if (x.dom[k] != y.dom[k])
      c.fail("XML document or node " + std::to_string(k) + " reads differently when unused memory holds other bytes");
  size_t said = 0;
  for (auto &s : x.steps)
    said += !s.empty();
  c.nontrivial = said >= 2;
  for (auto &o : P.ops)
    c.label(string("uses ") + kName[o.kind]);
  if (E.texts.size() > 1)
    c.label("damaged or cut descriptions");
}
VP_PROP("C37", "generated program of 2-14 operations (load, refused load, copy, destroy, updates, all queries, links added, export, XML parsing, editing and printing, rotations, containers) and 1-4 whole, damaged or cut descriptions read field by field as models and as XML documents, and newly made model parts and XML nodes, each run twice with fresh memory, released memory and the unused stack filled with different byte patterns; answers identical bit for bit; non-trivial = at least two operations answered something",
        prop, 60000, 1500000, 20)
