// C12: no text whatsoever crashes or hangs the loader.
#include "common.hpp"
#include "flat.hpp"
#include "tinyxml.h"
using namespace rb;

static const vector<string> &tokens() {
  static const vector<string> t = {
      "<robot", "<link", "<joint", "<inertial>", "<origin", "<axis", "<limit", "<mass", "<inertia", "<visual>", "<geometry>", "<mesh", "<material", "</robot>", "</link>", "</joint>",
      "/>", ">", "<", "</", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "<?", "<!", "<!DOCTYPE", "\"", "'", "=", "&", "&amp;", "&lt;", "&#x", "&#", "&#x41;", "&#65;", "&#x;",
      "&#;", "&#x110000;", "&#99999999999;", "&#xFFFFFFFF;", "&bogus;", "&amp", " ", "\n", "\r", "\t", "\xEF\xBB\xBF", "\xEF", "\xEF\xBB", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xFF", "\xFE\xFF",
      "\xEF\xBF\xBE", "\xEF\xBF\xBF", "\x80", string(1, '\0'), "name=\"a\"", "name='a'", "type=\"revolute\"", "type=\"fixed\"", "type=\"planar\"", "xyz=\"1 2 3\"", "xyz=\"\"", "rpy=\"nan inf 1e999\"",
      "xyz=\"1e400 -1e400 1e-400\"", "link=\"a\"", "<parent link=\"a\"/>", "<child link=\"b\"/>", "version=\"1.0\"", "encoding=\"UTF-8\"", "encoding=\"ISO-8859-1\"", "standalone=\"yes\"",
      "<mimic joint=\"x\"/>", "<safety_controller", "<calibration", "<dynamics", "rgba=\"0 0 0\"", "a", "_", ":", "-", "1", "1e308", "0x10", "-", "+", "."};
  return t;
}
static string base(Case &c) {
  DescOpt o;
  o.g.max_links = 5;
  o.g.big_pct = 2;
  o.g.big_links = 30;
  o.odd_joints = c.chance(20);
  Desc d = gen_desc(c, o);
  El e = el_robot(d);
  return c.chance(50) ? to_text(e) : to_styled(c, e, gen_style(c));
}
static void mutate(Case &c, string &t) {
  for (int k = c.range(1, 12); k > 0; k--) {
    size_t n = t.size(), at = n ? c.below(n + 1) : 0;
    switch (c.weighted({20, 12, 14, 8, 8, 10, 10, 6, 6})) {
    case 0: t.insert(at, c.pick(tokens())); break;
    case 1:
      if (at < n)
        t[at] = (char)c.below(256);
      break;
    case 2: t.erase(at, c.below(1 + std::min<size_t>(n - at, 40))); break;
    case 3: t.resize(at); break;
    case 4: { // copy a span somewhere else
      size_t len = c.below(1 + std::min<size_t>(n - at, 300));
      string s = t.substr(at, len);
      t.insert(c.below(t.size() + 1), s);
      break;
    }
    case 5: { // drop one markup character
      static const string mk = "<>/\"'=&;";
      char ch = mk[c.below(mk.size())];
      size_t p = t.find(ch, at);
      if (p != string::npos)
        t.erase(p, 1);
      break;
    }
    case 6: { // replace a value
      size_t p = t.find("=\"", at);
      if (p == string::npos)
        break;
      size_t e = t.find('"', p + 2);
      if (e != string::npos)
        t.replace(p + 2, e - p - 2, c.pick(tokens()));
      break;
    }
    case 7: { // a long run of one token
      string tok = c.pick(tokens()), s;
      for (int r = c.range(1, 400); r > 0; r--)
        s += tok;
      t.insert(at, s);
      break;
    }
    default:
      if (at < n)
        t[at] ^= (char)(1 << c.below(8));
    }
  }
}
static string gen_input(Case &c) {
  switch (c.weighted({3, 52, 16, 10, 9, 10})) {
  case 0: { // raw bytes (also what the fuzzer's inputs become)
    size_t n = c.below(4097);
    string s;
    for (size_t i = 0; i < n; i++)
      s += (char)c.below(256);
    return s;
  }
  case 1: {
    string t = base(c);
    mutate(c, t);
    return t;
  }
  case 2: { // token soup, sometimes inside a robot element
    string s = c.chance(60) ? "<robot name=\"r\"><link name=\"a\"/><link name=\"b\"/>" : "";
    for (int k = c.range(0, 60); k > 0; k--) {
      s += c.pick(tokens());
      if (c.chance(30))
        s += " ";
    }
    if (c.chance(50))
      s += "</robot>";
    return s;
  }
  case 3: { // deep nesting of elements, closed or not
    string tag = c.pick(vector<string>{"a", "link", "robot", "x y=\"1\"", "visual", "b ", "_"}), s = c.chance(50) ? "<robot name=\"r\"><link name=\"l\">" : "", end = s.empty() ? "" : "</link></robot>";
    int n = c.chance(50) ? c.range(1, 700) : c.range(1, 60000);
    static const vector<string> pre = {"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "\xEF\xBB\xBF", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>", "<!-- c -->", "<!DOCTYPE robot>", "<a/>", " \n"};
    if (c.chance(60))
      s = c.pick(pre) + s;
    static const vector<string> mid = {"", "", "text", "<!-- c -->", "<b/>", "<?p?>", "<![CDATA[x]]>", "\n"};
    string between = c.pick(mid);
    for (int i = 0; i < n; i++)
      s += "<" + tag + ">" + between;
    if (c.chance(60)) {
      string nm = tag.substr(0, tag.find(' '));
      for (int i = 0; i < n; i++)
        s += "</" + nm + ">";
      s += end;
    }
    return s;
  }
  case 4: { // very long chain or star of joints
    int n = c.chance(70) ? c.range(2, 300) : c.range(2, 6000);
    bool star = c.chance(30), moving = c.chance(40) && n < 1500, loop = c.chance(15);
    string s = "<robot name=\"r\">";
    for (int i = 0; i < n; i++)
      s += "<link name=\"" + std::to_string(i) + "\"/>";
    for (int i = loop ? 0 : 1; i < n; i++)
      s += "<joint name=\"j" + std::to_string(i) + "\" type=\"" + (moving ? "continuous" : "fixed") + "\"><parent link=\"" + std::to_string(i == 0 ? n - 1 : star ? 0 : i - 1) +
           "\"/><child link=\"" + std::to_string(i) + "\"/></joint>";
    return s + "</robot>";
  }
  default: { // values that are hard to read
    string v = c.pick(vector<string>{"1e999", "-1e999", "nan", "inf", "0x1p3", "1e-999", "9999999999999999999999", ".", "-", "1 1 1", "", " ", "1e5 1e5 1e5", "\xEF\xBF\xBE", "&#x0;", "&#0;", "1&#x20;2&#32;3"});
    string w = c.pick(vector<string>{"1e999", "nan", "0", "1", "-1", "1 2 3", "&#x41;&#x42;", string(c.range(1, 70000), '9'), string(c.range(1, 3000), ' ') + "1", "0 0 " + string(c.range(1, 400), '0') + "1"});
    static const vector<string> shape = {
        "<origin xyz=\"%\" rpy=\"$\"/>", "<axis xyz=\"%\"/>", "<limit lower=\"%\" upper=\"$\" effort=\"1\" velocity=\"1\"/>", "<dynamics damping=\"%\" friction=\"$\"/>", "<mimic joint=\"%\" multiplier=\"$\"/>",
        "<safety_controller k_velocity=\"%\" k_position=\"$\"/>", "<calibration rising=\"%\" falling=\"$\"/>"};
    string e = c.pick(shape), l = "<inertial><origin xyz=\"$\"/><mass value=\"%\"/><inertia ixx=\"%\" ixy=\"$\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial>";
    auto sub = [&](string x) {
      for (size_t p; (p = x.find('%')) != string::npos;)
        x.replace(p, 1, v);
      for (size_t p; (p = x.find('$')) != string::npos;)
        x.replace(p, 1, w);
      return x;
    };
    return "<robot name=\"r\" version=\"" + (c.chance(20) ? v : string("1.0")) + "\"><material name=\"m\"><color rgba=\"" + (c.chance(50) ? v : w) + "\"/></material><link name=\"a\">" +
           (c.chance(40) ? sub(l) : "") + "</link><link name=\"b\"/><joint name=\"j\" type=\"" + c.pick(vector<string>{"revolute", "continuous", "prismatic", "fixed"}) +
           "\"><parent link=\"a\"/><child link=\"b\"/>" + sub(e) + (c.chance(60) ? "<limit effort=\"1\" velocity=\"1\"/>" : "") + "</joint></robot>";
  }
  }
}
// the text becomes a model that answers every query, or an error
static bool exercise(const string &text) {
  std::unique_ptr<KinematicModel> k;
  try {
    k.reset(new KinematicModel(text));
  } catch (const std::exception &) {
    return false;
  }
  auto jn = k->get_joint_names();
  auto ln = k->get_link_names();
  auto jid = k->get_joint_ids(jn);
  k->get_joint_position_limits(jid);
  k->get_joint_velocity_limits(jid);
  k->get_joint_effort_limits(jid);
  k->set_joint_angles(jid, vector<double>(jid.size(), 0.3));
  size_t step = ln.size() > 300 ? ln.size() / 50 : 1;
  for (size_t i = 0; i < ln.size(); i += step) {
    Transform t;
    k->get_link_pose(i, t);
    if (i < 8 && jid.size() < 100)
      k->get_jacobian(i, jid, rot_of((int)(i % 3)), i % 2 == 0);
  }
  if (jid.size() < 100 && ln.size() < 200) {
    k->get_com();
    k->get_com_jacobian(jid, false);
    k->get_total_inertia_matrix();
  }
  k->add_new_link("vp_new_link", 0, {{1, 2, 3}}, {{0, 0, 1}});
  Transform t;
  k->get_link_pose(k->get_link_ids({"vp_new_link"})[0], t);
  return true;
}
static void prop(Case &c) {
  string text = gen_input(c);
  c.note(text.size(), " bytes:\n", text.substr(0, 20000));
  bool ok = exercise(string(text.data(), text.size()));
  bool parsed = false;
  try {
    auto m = urdf::parseURDF(text);
    if (m) {
      parsed = true;
      if (m->links_.size() < 300) { // whatever was accepted can be written out and read again
        std::unique_ptr<TiXmlDocument> doc(urdf::exportURDF(m));
        TiXmlPrinter pr;
        doc->Accept(&pr);
        urdf::parseURDF(pr.CStr());
      }
    }
  } catch (const std::exception &e) { // errors are reported by an empty result
    c.fail(string("parsing ended in an exception instead of an error: ") + e.what());
  }
  c.check(!ok || parsed, "a kinematic model was built from a text the parser refuses");
  TiXmlDocument doc;
  doc.Parse(text.c_str());
  if (doc.Error())
    c.check(doc.ErrorDesc() && *doc.ErrorDesc(), "an XML error without description");
  TiXmlPrinter pr; // whatever was read can be printed and read again
  doc.Accept(&pr);
  TiXmlDocument again;
  again.Parse(pr.CStr());
  c.nontrivial = text.find('<') != string::npos && text.size() > 8;
  c.label(ok ? "loaded" : parsed ? "parsed but refused by the model" : "refused");
}
static vector<uint64_t> from_bytes(const uint8_t *d, size_t n) {
  vector<uint64_t> v{0, std::min<size_t>(n, 4096)};
  for (size_t i = 0; i < n && i < 4096; i++)
    v.push_back(d[i]);
  return v;
}
VP_PROP_B("C12", "texts: mutated valid descriptions, token soup, deep nesting, long chains and loops, hard-to-read values, raw bytes; each is loaded and, if accepted, queried, exported and re-read under ASan/UBSan with a per-case time limit; plus coverage-guided campaigns on raw text; non-trivial = contains markup and more than 8 bytes",
          prop, 12000, 400000, 12, from_bytes)
