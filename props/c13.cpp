// C13: descriptions that are not a valid robot are refused with an error.
#include "common.hpp"
#include "flat.hpp"
using namespace rb;

// a place in the element tree chosen by tag
static vector<El *> all_of(El &e, const string &tag, vector<El *> v = {}) {
  if (e.tag == tag)
    v.push_back(&e);
  for (auto &k : e.kids)
    v = all_of(k, tag, v);
  return v;
}
static vector<El *> kids_of(El &e, const string &tag) {
  vector<El *> v;
  for (auto &k : e.kids)
    if (k.tag == tag)
      v.push_back(&k);
  return v;
}
static string bad_scalar(Case &c) {
  return c.pick(vector<string>{"abc", "", "1.0.0", "1,5", "1e", "--1", "1 2", "1.5m", "one", "0,1", " ", "1;", "+-2", "1f"});
}
static string bad_vector(Case &c) {
  return c.pick(vector<string>{"1 2", "1 2 3 4", "", "a b c", "1 2 x", "1,2,3", "1 2 3,", "0.1.2 0 0", "1", " ", "1 2 --3", "x 0 0"});
}
static bool drop_kid(El &e, const string &tag) {
  for (size_t i = 0; i < e.kids.size(); i++)
    if (e.kids[i].tag == tag) {
      e.kids.erase(e.kids.begin() + (long)i);
      return true;
    }
  return false;
}
static El mk_joint(const string &n, const string &p, const string &ch, const char *type = "fixed") {
  El j("joint");
  j.a("name", n).a("type", type);
  j.add(El("parent")).a("link", p);
  j.add(El("child")).a("link", ch);
  return j;
}
// returns a description of the injected fault, or "" if it does not apply
static string fault(Case &c, const Desc &d, El &root, int kind) {
  auto links = kids_of(root, "link"), joints = kids_of(root, "joint");
  auto rndj = [&]() -> El * { return joints.empty() ? nullptr : joints[c.below(joints.size())]; };
  auto jname = [](El *j) {
    for (auto &a : j->at)
      if (a.first == "name")
        return a.second;
    return string("?");
  };
  auto lname = [&](size_t i) { return d.r.links[i].name; };
  auto insert = [&](El e) { root.kids.insert(root.kids.begin() + (long)c.below(root.kids.size() + 1), std::move(e)); };
  switch (kind) {
  case 0:
    return root.drop_attr("name") ? "robot without name" : "";
  case 1:
    root.tag = c.pick(vector<string>{"Robot", "robots", "model", "urdf", "robo"});
    return "root element is " + root.tag;
  case 2: {
    string v = c.pick(vector<string>{"2.0", "1.1", "0.9", "1", "1.0.0", "abc", "", "1.x", "-1.0", "1.0 ", "10.0", "."});
    if (c.chance(60)) {
      int major = c.range(0, 12), minor = c.range(0, 12);
      if (major == 1 && minor == 0)
        return "";
      v = std::to_string(major) + "." + std::to_string(minor);
    }
    root.set("version", v);
    return "version \"" + v + "\"";
  }
  case 3:
    for (size_t i = root.kids.size(); i-- > 0;)
      if (root.kids[i].tag == "link" || (root.kids[i].tag == "joint" && c.chance(50)))
        root.kids.erase(root.kids.begin() + (long)i);
    return "no link";
  case 4: {
    if (links.empty())
      return "";
    El e = c.chance(50) ? *links[c.below(links.size())] : El("link");
    if (e.at.empty())
      e.a("name", lname(c.below(d.r.links.size())));
    string n = e.at[0].second;
    insert(e);
    return "link " + n + " declared twice";
  }
  case 5: { // same joint name twice, otherwise a valid tree
    El *j = rndj();
    if (!j)
      return "";
    string n = jname(j);
    El l("link");
    l.a("name", "extra_link_for_dup");
    insert(l);
    insert(mk_joint(n, lname(0), "extra_link_for_dup"));
    return "joint " + n + " declared twice";
  }
  case 6: {
    string n = "mat_twice";
    for (int i = 0; i < 2; i++) {
      El m("material");
      m.a("name", n);
      m.add(El("color")).a("rgba", "0 0 0 1");
      insert(m);
    }
    return "material declared twice";
  }
  case 7: {
    El *j = rndj();
    if (!j)
      return "";
    string t = c.pick(vector<string>{"Revolute", "hinge", "", "revolute ", "FIXED", "ball", "rotational", "fixed,", "continuou"});
    j->set("type", t);
    return "joint type \"" + t + "\"";
  }
  case 8: { // supported by the format, not by the kinematic model
    El *j = rndj();
    if (!j)
      return "";
    j->set("type", c.chance(50) ? "planar" : "floating");
    return "unsupported joint type";
  }
  case 9: {
    El *j = rndj();
    return j && j->drop_attr("name") ? "joint without name" : "";
  }
  case 10: {
    El *j = rndj();
    return j && j->drop_attr("type") ? "joint without type" : "";
  }
  case 11: case 12: {
    El *j = rndj();
    const char *w = kind == 11 ? "parent" : "child";
    return j && drop_kid(*j, w) ? string("joint without ") + w : "";
  }
  case 13: case 14: {
    El *j = rndj();
    const char *w = kind == 13 ? "parent" : "child";
    if (!j || !j->find(w))
      return "";
    j->find(w)->drop_attr("link");
    return string("joint whose ") + w + " names no link";
  }
  case 15: case 16: {
    El *j = rndj();
    const char *w = kind == 15 ? "parent" : "child";
    if (!j || !j->find(w))
      return "";
    string n = lname(c.below(d.r.links.size()));
    n = c.chance(50) ? n + "_nowhere" : n + " ";
    for (auto &l : d.r.links)
      if (l.name == n)
        return "";
    j->find(w)->set("link", n);
    return string("joint with undeclared ") + w + " link";
  }
  case 17: { // malformed number in a joint
    vector<std::pair<El *, string>> at;
    for (El *j : joints) {
      bool moving = false;
      for (auto &a : j->at)
        moving |= a.first == "type" && a.second != "fixed";
      for (auto &k : j->kids)
        if (k.tag != "axis" || moving)
          for (auto &n : k.nums)
            at.emplace_back(&k, n.first);
    }
    if (at.empty())
      return "";
    auto &p = at[c.below(at.size())];
    string v = p.first->nums[p.second].size() == 3 ? bad_vector(c) : bad_scalar(c);
    p.first->set(p.second, v);
    return "joint " + p.first->tag + " " + p.second + "=\"" + v + "\"";
  }
  case 18: { // revolute / prismatic without complete limits
    vector<El *> v;
    for (El *j : joints)
      for (auto &a : j->at)
        if (a.first == "type" && (a.second == "revolute" || a.second == "prismatic"))
          v.push_back(j);
    if (v.empty())
      return "";
    El *j = v[c.below(v.size())];
    El *l = j->find("limit");
    if (!l)
      return "";
    switch (c.range(0, 2)) {
    case 0: drop_kid(*j, "limit"); return "no limit element";
    case 1: l->drop_attr("effort"); return "limit without effort";
    default: l->drop_attr("velocity"); return "limit without velocity";
    }
  }
  case 19: { // a second root
    El l("link");
    l.a("name", "second_root");
    insert(l);
    if (c.chance(40)) {
      El l2("link");
      l2.a("name", "below_second_root");
      insert(l2);
      insert(mk_joint("j_second", "second_root", "below_second_root"));
    }
    return "two root links";
  }
  case 20: { // a joint removed: its child becomes a second root
    if (joints.empty())
      return "";
    vector<size_t> at;
    for (size_t i = 0; i < root.kids.size(); i++)
      if (root.kids[i].tag == "joint")
        at.push_back(i);
    root.kids.erase(root.kids.begin() + (long)at[c.below(at.size())]);
    return "a missing joint leaves two roots";
  }
  case 21: { // a second parent for a link that has one
    if (d.r.links.size() < 2)
      return "";
    size_t ch = 1 + c.below(d.r.links.size() - 1), p = c.below(d.r.links.size());
    insert(mk_joint(c.chance(50) ? "zz_second_parent" : " a_second_parent", lname(p), lname(ch)));
    return "link " + lname(ch) + " has two parents";
  }
  case 22: { // the root gets a parent below itself: a cycle, no root left
    size_t p = c.below(d.r.links.size());
    insert(mk_joint(c.chance(50) ? "zz_back" : " a_back", lname(p), lname((size_t)d.r.root)));
    return "the root is a child of " + lname(p);
  }
  default: { // a cycle away from the root
    int n = c.range(1, 4);
    for (int i = 0; i < n; i++) {
      El l("link");
      l.a("name", "loop" + std::to_string(i));
      insert(l);
    }
    for (int i = 0; i < n; i++)
      insert(mk_joint("loopj" + std::to_string(i), "loop" + std::to_string(i), "loop" + std::to_string((i + 1) % n), c.chance(30) ? "continuous" : "fixed"));
    return "a detached loop of " + std::to_string(n) + " links";
  }
  }
}
// damage of the text itself; positions are taken from the plain writer's output
static string text_fault(Case &c, string &t) {
  auto occurrences = [&](const string &w) {
    vector<size_t> v;
    for (size_t p = t.find(w); p != string::npos; p = t.find(w, p + 1))
      v.push_back(p);
    return v;
  };
  switch (c.range(0, 5)) {
  case 0: { // cut anywhere before the end of the root element
    size_t end = t.rfind("</robot>");
    if (end == string::npos)
      return "";
    size_t at = c.below(end + 8);
    t.resize(at);
    return "cut after " + std::to_string(at) + " bytes";
  }
  case 1: { // an end tag lost
    auto v = occurrences("</");
    size_t p = v[c.below(v.size())], q = t.find('>', p);
    t.erase(p, q - p + 1);
    return "an end tag is missing";
  }
  case 2: { // an end tag of another name
    auto v = occurrences("</");
    size_t p = v[c.below(v.size())];
    t.insert(p + 2, "x");
    return "an end tag does not match";
  }
  case 3: { // an attribute twice
    vector<size_t> v = occurrences("=\"");
    if (v.empty())
      return "";
    size_t p = v[c.below(v.size())], b = t.rfind(' ', p);
    size_t e = t.find('"', p + 2);
    if (t.compare(0, 2, "<?") == 0 && p < t.find("?>"))
      return "";
    string at = t.substr(b, e + 1 - b);
    t.insert(e + 1, at);
    return "an attribute appears twice:" + at;
  }
  case 4: { // a closing quote lost
    size_t body = t.find("?>");
    vector<size_t> v;
    for (size_t p : occurrences("=\""))
      if (p > body)
        v.push_back(p);
    size_t p = v[c.below(v.size())], e = t.find('"', p + 2);
    t.erase(e, 1);
    return "a closing quote is missing";
  }
  default:
    t = c.pick(vector<string>{"", " ", "\n\n", "robot", "<", "<robot", "<robot name=\"a\">", "<?xml version=\"1.0\"?>", "<!-- only a comment -->", "&", "{}", "<>"});
    return "not a document";
  }
}
static bool loads(const string &t, string *err = nullptr) {
  try {
    KinematicModel k(t);
    return true;
  } catch (const std::exception &e) {
    if (err)
      *err = e.what();
    return false;
  }
}
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 6;
  o.g.big_pct = 3;
  o.g.big_links = 25;
  Desc d = gen_desc(c, o);
  El good = el_robot(d), e = good;
  string good_text = to_text(good), what;
  bool textual = c.chance(22), only_model = false;
  string text;
  int n = c.chance(15) ? 2 : 1, kind = -1;
  if (!textual) {
    for (int i = 0; i < n; i++) {
      if (kind == 3)
        break;
      // a second fault must not be able to undo the first
      kind = i == 0 ? (int)c.below(24) : c.pick(vector<int>{0, 1, 2, 3, 4, 6, 19, 23});
      string w = fault(c, d, e, kind);
      if (w.empty())
        continue;
      only_model = what.empty() && kind == 8;
      what += (what.empty() ? "" : " and ") + w;
    }
    text = c.chance(25) ? to_styled(c, e, gen_style(c)) : to_text(e);
  } else {
    text = good_text;
    what = text_fault(c, text);
  }
  if (what.empty())
    throw vp::Discard();
  c.note("fault: ", what, "\n", text);
  string err;
  c.check(!loads(text, &err), "accepted although: " + what);
  if (!only_model)
    c.check(!urdf::parseURDF(text), "the parser returned a model although: " + what);
  c.check(loads(good_text, &err), "the same description without the defect was refused: " + err);
  c.nontrivial = true;
  c.label(textual ? "damaged text" : kind >= 19 ? "not a tree" : kind == 17 ? "malformed number" : "invalid element");
}
VP_PROP("C13", "random valid description with one or two injected defects (missing/duplicate/unknown names, types, references, limits, numbers, versions, tree violations, or damaged XML text), which must be refused, and its defect-free control, which must load; every case is non-trivial",
        prop, 32000, 800000, 20)
