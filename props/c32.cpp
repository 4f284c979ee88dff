// C32: a description is accepted exactly when its joints make one tree of its
// links, and the parsed model is this tree however it is looked at.
#include "common.hpp"
#include "urdf_parser/urdf_parser.h"
using namespace rb;

struct Edge {
  string name, parent, child, type;
  int off[3] = {0, 0, 0};
};
struct Graph {
  vector<string> links;
  vector<Edge> joints;
};
struct Verdict {
  bool tree = false, kin = false;
  string why, root;
  std::map<string, int> parent_joint; // link -> joint index
};
static Verdict judge(const Graph &g) {
  Verdict v;
  std::set<string> ln(g.links.begin(), g.links.end()), jn;
  if (g.links.empty())
    return v.why = "no link", v;
  if (ln.size() != g.links.size())
    return v.why = "a link name twice", v;
  bool types = true;
  for (size_t i = 0; i < g.joints.size(); i++) {
    const Edge &e = g.joints[i];
    if (!jn.insert(e.name).second)
      return v.why = "joint name twice", v;
    if (!ln.count(e.parent) || !ln.count(e.child))
      return v.why = "undeclared link", v;
    if (!v.parent_joint.emplace(e.child, (int)i).second)
      return v.why = "two parents", v;
    types &= e.type != "planar" && e.type != "floating";
  }
  int roots = 0;
  for (auto &l : g.links)
    if (!v.parent_joint.count(l)) {
      roots++;
      v.root = l;
    }
  if (roots != 1)
    return v.why = roots ? "several roots" : "no root", v;
  for (auto &l : g.links) { // every link leads to the root
    string x = l;
    for (size_t n = 0; x != v.root; n++) {
      if (n > g.links.size())
        return v.why = "a loop", v;
      x = g.joints[v.parent_joint[x]].parent;
    }
  }
  v.tree = true;
  v.kin = types;
  return v;
}
static string near_name(Case &c, string s) { // a name that is almost this one
  switch (c.range(0, 5)) {
  case 0: return c.pick(vector<string>{"/", " ", "_", "./", "::", "robot/", "graph/", "-", "0"}) + s;
  case 1: return s + c.pick(vector<string>{" ", "_", "0", "/", ".", "_link", "_com", "-1", "#"});
  case 2:
    for (char &ch : s)
      ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch));
    return s;
  case 3:
    s.pop_back();
    return s.empty() ? "x" : s;
  case 4: return s + s;
  default: return c.chance(50) ? s.substr(1) + "1" : s + string(c.range(1, 300), 'n');
  }
}
static string fresh(Case &c, const std::set<string> &used, bool plain, int i) {
  static const vector<string> stems = {"l", "a", "b", "j", "link", "A", "_", "z", "l1", "a b", "root", "base", "world", "\xC3\xA9", "<", "0", "map", "None"};
  for (int k = 0;; k++) {
    string s = plain ? "l" + std::to_string(i + k) : !used.empty() && !k && c.chance(15) ? near_name(c, *used.begin()) : c.pick(stems) + (c.chance(60) || k ? std::to_string(c.range(0, 12) + k * 13) : "");
    if (!used.count(s))
      return s;
  }
}
static Graph gen(Case &c) {
  Graph g;
  int n = c.chance(88) ? c.range(1, 6) : c.chance(80) ? c.range(1, 14) : c.range(15, 90);
  bool plain = c.chance(50);
  std::set<string> used;
  for (int i = 0; i < n; i++) {
    g.links.push_back(fresh(c, used, plain, i));
    used.insert(g.links.back());
  }
  static const vector<string> types = {"fixed", "revolute", "continuous", "prismatic", "fixed", "revolute", "planar", "floating"};
  int odd = c.chance(25) ? 8 : 6;
  std::set<string> jused;
  auto add = [&](const string &p, const string &ch) {
    Edge e;
    e.name = c.chance(8) && !jused.count(ch) ? ch : fresh(c, jused, plain, (int)g.joints.size()); // a joint may be called like a link
    jused.insert(e.name);
    e.parent = p;
    e.child = ch;
    e.type = types[c.below(odd)];
    for (int &x : e.off)
      x = c.range(0, 8) - 4;
    g.joints.push_back(e);
  };
  if (c.chance(80)) { // a tree ...
    vector<int> order(n);
    for (int i = 0; i < n; i++)
      order[i] = i;
    c.shuffle(order);
    int shape = c.range(0, 3); // mixed, chain, star, bushy
    for (int i = 1; i < n; i++) {
      int p = shape == 1 ? i - 1 : shape == 2 ? 0 : shape == 3 ? (i - 1) / 2 : (int)c.below(i);
      add(g.links[order[p]], g.links[order[i]]);
    }
    c.shuffle(g.joints);
  } else { // ... or any joints at all
    int m = c.range(0, n + 1);
    for (int i = 0; i < m; i++)
      add(c.pick(g.links), c.pick(g.links));
  }
  for (int k = c.chance(50) ? c.range(1, 3) : 0; k > 0; k--) { // edits; most of them break it, some do not
    size_t nj = g.joints.size();
    Edge *e = nj ? &g.joints[c.below(nj)] : nullptr;
    switch (c.range(0, 10)) {
    case 0: if (e) e->parent = c.pick(g.links); break;
    case 1: if (e) e->child = c.pick(g.links); break;
    case 2: if (e) std::swap(e->parent, e->child); break;
    case 3: add(c.pick(g.links), c.pick(g.links)); break;
    case 4: if (e) g.joints.erase(g.joints.begin() + (e - &g.joints[0])); break;
    case 5: if (e) e->name = c.pick(g.joints).name; break;
    case 6: if (e) (c.chance(50) ? e->parent : e->child) = c.chance(50) ? near_name(c, c.pick(g.links)) : fresh(c, used, plain, n); break;
    case 7: { // exchange the children of two joints
      if (e)
        std::swap(e->child, g.joints[c.below(nj)].child);
      break;
    }
    case 8: { // one link more, below anything
      string s = fresh(c, used, plain, (int)g.links.size());
      used.insert(s);
      g.links.push_back(s);
      if (c.chance(60))
        add(c.pick(g.links), s);
      break;
    }
    case 9: { // a link declared again
      if (c.chance(40))
        g.links.push_back(c.pick(g.links));
      break;
    }
    default: { // a ring of new links, hanging on the rest or not
      vector<string> r;
      for (int i = c.range(1, 3); i > 0; i--) {
        r.push_back(fresh(c, used, plain, (int)g.links.size()));
        used.insert(r.back());
        g.links.push_back(r.back());
      }
      for (size_t i = 0; i < r.size(); i++)
        add(r[i], r[(i + 1) % r.size()]);
      if (c.chance(40))
        add(c.pick(g.links), r[0]);
    }
    }
  }
  return g;
}
static string text_of(Case &c, const Graph &g) {
  vector<string> parts;
  for (auto &l : g.links)
    parts.push_back("<link name=\"" + esc(l) + "\"/>\n");
  size_t nl = parts.size();
  for (auto &e : g.joints) {
    string s = "<joint name=\"" + esc(e.name) + "\" type=\"" + e.type + "\">";
    vector<string> k = {"<parent link=\"" + esc(e.parent) + "\"/>", "<child link=\"" + esc(e.child) + "\"/>"};
    char b[80];
    snprintf(b, sizeof b, "<origin xyz=\"%d %d %d\"/>", e.off[0], e.off[1], e.off[2]);
    k.push_back(b);
    if (e.type == "revolute" || e.type == "prismatic")
      k.push_back("<limit effort=\"1\" velocity=\"1\"/>");
    if (c.chance(20))
      c.shuffle(k);
    for (auto &x : k)
      s += x;
    parts.push_back(s + "</joint>\n");
  }
  if (c.chance(50)) // joints first, links first, or mixed
    std::rotate(parts.begin(), parts.begin() + (long)nl, parts.end());
  if (c.chance(40))
    c.shuffle(parts);
  string t = "<robot name=\"graph\">\n";
  for (auto &p : parts)
    t += p;
  return t + "</robot>\n";
}
static int type_of(const string &t) {
  return t == "fixed" ? urdf::Joint::FIXED : t == "revolute" ? urdf::Joint::REVOLUTE : t == "continuous" ? urdf::Joint::CONTINUOUS : t == "prismatic" ? urdf::Joint::PRISMATIC : t == "planar" ? urdf::Joint::PLANAR : urdf::Joint::FLOATING;
}
static void look(Case &c, const Graph &g, const Verdict &v, const string &text) {
  auto m = urdf::parseURDF(text);
  c.check((bool)m, "a tree was refused");
  c.check(m->getName() == "graph" && m->name_ == "graph", "name of the robot");
  c.check(m->getRoot() && m->getRoot()->name == v.root && m->getRoot() == m->root_link_, "root of the tree");
  c.check(!m->getRoot()->getParent() && !m->getRoot()->parent_joint, "the root has a parent");
  c.check(m->links_.size() == g.links.size() && m->joints_.size() == g.joints.size(), "number of links or joints");
  vector<urdf::LinkSharedPtr> all;
  m->getLinks(all);
  std::set<const urdf::Link *> once;
  for (auto &l : all)
    c.check(l && once.insert(l.get()).second, "getLinks lists a link twice or a null");
  c.check(all.size() == g.links.size(), "getLinks does not list every link");
  std::map<string, std::multiset<string>> kids;
  for (auto &e : g.joints)
    kids[e.parent].insert(e.name);
  for (auto &name : g.links) {
    auto l = m->getLink(name);
    urdf::LinkSharedPtr l2;
    m->getLink(name, l2);
    c.check(l && l == l2 && l->name == name && once.count(l.get()), "getLink(\"" + name + "\")");
    auto pj = v.parent_joint.find(name);
    if (pj == v.parent_joint.end()) {
      c.check(l == m->getRoot(), "a link without parent joint is not the root");
    } else {
      const Edge &e = g.joints[pj->second];
      auto j = m->getJoint(e.name);
      c.check(j && j->name == e.name, "getJoint(\"" + e.name + "\")");
      c.check(l->parent_joint == j, "parent joint of " + name);
      c.check(l->getParent() && l->getParent() == m->getLink(e.parent), "parent of " + name);
      c.check(j->parent_link_name == e.parent && j->child_link_name == e.child && j->type == type_of(e.type), "content of joint " + e.name);
      const auto &o = j->parent_to_joint_origin_transform.position;
      c.check(o.x == e.off[0] && o.y == e.off[1] && o.z == e.off[2], "origin of joint " + e.name);
    }
    std::multiset<string> cj, cl, wl;
    for (auto &j : l->child_joints) {
      c.check(j && m->getJoint(j->name) == j && j->parent_link_name == name, "a child joint of " + name);
      cj.insert(j->name);
    }
    for (auto &k : l->child_links) {
      c.check(k && m->getLink(k->name) == k && k->getParent() == l, "a child link of " + name);
      cl.insert(k->name);
    }
    for (auto &e : g.joints)
      if (e.parent == name)
        wl.insert(e.child);
    c.check(cj == kids[name], "child joints of " + name);
    c.check(cl == wl, "child links of " + name);
  }
  // names that are not there
  static const vector<string> odd = {"", "nowhere", "l0 ", " ", "graph", "L0", "l00"};
  string no = c.chance(40) ? c.pick(odd) : near_name(c, g.joints.empty() || c.chance(60) ? c.pick(g.links) : c.pick(g.joints).name);
  bool is_link = std::count(g.links.begin(), g.links.end(), no) > 0, is_joint = false;
  for (auto &e : g.joints)
    is_joint |= e.name == no;
  urdf::LinkSharedPtr out = all[0];
  m->getLink(no, out);
  c.check((bool)m->getLink(no) == is_link && (bool)out == is_link, "looking up the link \"" + no + "\"");
  c.check((bool)m->getJoint(no) == is_joint, "looking up the joint \"" + no + "\"");
  c.check(!m->getMaterial(no), "looking up the material \"" + no + "\"");
  c.check(m->links_.size() == g.links.size() && m->joints_.size() == g.joints.size(), "looking up a name changed the model");
  // a link kept by the user outlives the model
  urdf::LinkSharedPtr kept;
  m->getLink(c.pick(g.links), kept);
  size_t below = kept->child_links.size();
  string nm = kept->name;
  all.clear();
  out.reset();
  if (c.chance(40)) {
    auto m2 = m;
    m->clear();
    c.check(m2->links_.empty() && m2->joints_.empty() && !m2->getRoot() && m2->getName().empty() && !m2->getLink(nm), "clear() leaves something behind");
  }
  m.reset();
  c.check(kept->name == nm && kept->child_links.size() == below, "a link kept after its model was released");
  for (auto &k : kept->child_links)
    c.check(k->getParent() == kept, "below a link kept after its model was released");
  if (nm != v.root)
    c.check(!kept->getParent(), "parent of a link whose model was released");
}
static void prop(Case &c) {
  Graph g = gen(c);
  Verdict v = judge(g);
  string text = text_of(c, g);
  c.note(v.tree ? "a tree" : "not a tree: " + v.why, v.tree && !v.kin ? " (unsupported joint types)" : "", "\n", text);
  if (!v.tree)
    c.check(!urdf::parseURDF(text), "the parser accepted a description which is no tree: " + v.why);
  else
    look(c, g, v, text);
  bool ok = true;
  std::unique_ptr<KinematicModel> k;
  try {
    k.reset(new KinematicModel(text));
  } catch (const std::exception &) {
    ok = false;
  }
  c.check(ok == v.kin, v.kin ? "a valid robot was refused" : "a robot was built from a description that is " + (v.tree ? string("of unsupported joint types") : "no tree: " + v.why));
  if (ok) {
    auto ln = k->get_link_names(), jn = k->get_joint_names();
    vector<string> wl = g.links, wj;
    for (auto &e : g.joints)
      if (e.type != "fixed")
        wj.push_back(e.name);
    auto sorted = [](vector<string> x) {
      std::sort(x.begin(), x.end());
      return x;
    };
    c.check(sorted(ln) == sorted(wl), "links of the kinematic model");
    c.check(sorted(jn) == sorted(wj), "joints of the kinematic model");
    for (auto &l : g.links) { // at rest every link is where its offsets put it
      int want[3] = {0, 0, 0};
      for (string x = l; x != v.root;) {
        const Edge &e = g.joints[v.parent_joint[x]];
        for (int i = 0; i < 3; i++)
          want[i] += e.off[i];
        x = e.parent;
      }
      Transform t;
      k->get_link_pose(k->get_link_ids({l})[0], t);
      c.near(t.position.x, want[0], 1e-9, "x of a link");
      c.near(t.position.y, want[1], 1e-9, "y of a link");
      c.near(t.position.z, want[2], 1e-9, "z of a link");
    }
  }
  c.nontrivial = g.links.size() >= 2 && !g.joints.empty();
  c.label(v.kin ? "valid robot" : v.tree ? "tree with unsupported joints" : v.why);
}
VP_PROP("C32", "random directed graphs of 1-90 links and joints (trees; trees with 1-3 edits such as a redirected, reversed, added, removed or renamed joint, a ring, a link more; arbitrary joints), in any textual order; accepted exactly if an independent judge finds one tree, and then every accessor and pointer of the parsed model and the links, joints and rest poses of the kinematic model compared; non-trivial = at least two links and one joint",
        prop, 80000, 2000000, 20)
