// C07: names <-> ids.
#include "common.hpp"
using namespace rb;
static string mutate_name(Case &c, string s) {
  static const vector<string> pre = {"/", "//", "./", "::", "robot/", "robot::", "~"}, post = {"/", "_", "_joint", "_link", "#0", ".0", "[0]"};
  switch (c.range(0, 11)) {
  case 8: return c.pick(pre) + s;
  case 9: return s + c.pick(post);
  case 10: return s.size() > 1 ? s.substr(1) : s + "x";
  case 11:
    for (auto &ch : s)
      ch = ch == '_' ? '-' : ch == '-' ? '_' : ch == '/' ? '.' : ch;
    return s;
  case 0: return s + " ";
  case 1: return " " + s;
  case 2: return s.substr(0, s.size() ? s.size() - 1 : 0);
  case 3: return s + s;
  case 4:
    for (auto &ch : s)
      if (isalpha((unsigned char)ch)) {
        ch ^= 0x20;
        break;
      }
    return s;
  case 5: return s + "_com";
  case 6: return "";
  default: return s + "\n";
  }
}
static void prop(Case &c) {
  GenOpt o;
  o.huge_permille = 3;
  o.max_links = 14;
  o.big_pct = 5;
  Robot r = gen_robot(c, o);
  State s;
  s.q.assign(r.joints.size(), 0.0);
  c.note(to_urdf(r));
  KinematicModel kin(to_urdf(r));
  int bad_lookups = 0;
  auto check_all = [&] {
    vector<string> ln = kin.get_link_names(), jn = kin.get_joint_names();
    std::set<string> declared, derived, lset(ln.begin(), ln.end()), jset(jn.begin(), jn.end());
    for (auto &l : r.links) {
      declared.insert(l.name);
      if (l.inertial)
        derived.insert(l.name + "_com");
    }
    for (auto &a : s.added)
      declared.insert(a.name);
    std::set<string> jdecl;
    for (auto &j : r.joints)
      if (j.moving())
        jdecl.insert(j.name);
    c.check(lset.size() == ln.size(), "link name list contains a name twice");
    c.check(jset.size() == jn.size(), "joint name list contains a name twice");
    c.check(jset == jdecl, "joint name list is not the set of declared movable joints");
    for (auto &d : declared)
      c.check(lset.count(d), "link name list lacks '" + d + "'");
    for (auto &d : lset)
      c.check(declared.count(d) || derived.count(d), "link name list contains undeclared '" + d + "'");
    auto all = kin.get_link_ids(ln);
    for (size_t i = 0; i < ln.size(); i++)
      c.check(all[i] == i, "id of link '" + ln[i] + "' is not its position in the name list");
    auto jall = kin.get_joint_ids(jn);
    for (size_t i = 0; i < jn.size(); i++)
      c.check(jall[i] == i, "id of joint '" + jn[i] + "' is not its position in the name list");
    // any list in any order, with repeats
    vector<string> ql, qj;
    vector<size_t> el, ej;
    for (int k = 0, n = c.range(0, 8); k < n; k++) {
      size_t i = c.below(ln.size());
      ql.push_back(ln[i]);
      el.push_back(i);
    }
    for (int k = 0, n = jn.empty() ? 0 : c.range(0, 8); k < n; k++) {
      size_t i = c.below(jn.size());
      qj.push_back(jn[i]);
      ej.push_back(i);
    }
    c.check(kin.get_link_ids(ql) == el, "link ids are not returned in the order of the names");
    c.check(kin.get_joint_ids(qj) == ej, "joint ids are not returned in the order of the names");
    for (int k = 0; k < 3; k++) {
      bool lk = c.chance(50);
      string base = lk ? c.pick(ln) : r.joints.empty() ? "j" : c.pick(r.joints).name;
      string m = c.chance(25) ? base : mutate_name(c, base); // 25%: a name of the other kind (or a fixed joint)
      if (c.chance(50))
        lk = !lk;
      if (lk ? lset.count(m) : jset.count(m))
        continue;
      bad_lookups++;
      vector<string> q = lk ? ql : qj;
      q.insert(q.begin() + c.below(q.size() + 1), m);
      bool threw = false;
      try {
        if (lk)
          kin.get_link_ids(q);
        else
          kin.get_joint_ids(q);
      } catch (const std::exception &) {
        threw = true;
      }
      c.note("lookup of unknown ", lk ? "link" : "joint", " '", m, "'");
      c.check(threw, "lookup of a name that was never declared did not throw");
      c.check(kin.get_link_names() == ln && kin.get_joint_names() == jn && kin.get_link_ids(ql) == el && kin.get_joint_ids(qj) == ej,
              "a failed lookup changed the mapping");
    }
  };
  check_all();
  int na = c.chance(50) ? c.range(1, 5) : 0;
  Ids before = lookup(kin, r, s);
  for (int i = 0; i < na; i++) {
    Added a = gen_added(c, r, s, i);
    string nm = gen_name(c, true, i);
    auto ln = kin.get_link_names();
    if (std::find(ln.begin(), ln.end(), nm) == ln.end())
      a.name = nm;
    s.added.push_back(a);
    const string pn = parent_name(r, s, a);
    c.note("add '", a.name, "'");
    kin.add_new_link(a.name, kin.get_link_ids({pn})[0], a.xyz, a.rpy);
    check_all();
    Ids now = lookup(kin, r, s);
    c.check(std::equal(before.link.begin(), before.link.end(), now.link.begin()) && before.joint == now.joint, "ids changed when a link was added");
    before = now;
  }
  c.nontrivial = r.links.size() >= 3 && bad_lookups > 0;
  if (na)
    c.label("with run-time links");
  c.label("unknown-name lookups: " + std::to_string(std::min(bad_lookups, 3)) + (bad_lookups > 3 ? "+" : ""));
}
VP_PROP("C07", "random link/joint name sets (odd characters, shared names, near collisions), lookup lists, near-miss unknown names, link additions; non-trivial = at least 3 links and one lookup of an unknown name",
        prop, 30000, 1000000, 20)
