// C34: nothing is left behind.  A history of operations is carried out again
// and again; memory and open files after it must not keep growing.
#include "program.hpp"
#include <dirent.h>
#include <fstream>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>
using namespace rb;

static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
static int open_files() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d)
    return 0;
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static const string &scratch() {
  static const string d = [] {
    const char *t = getenv("TMPDIR");
    string s = string(t && *t ? t : "/tmp") + "/c34-XXXXXX";
    vector<char> b(s.begin(), s.end());
    b.push_back(0);
    if (!mkdtemp(b.data()))
      throw vp::Discard();
    return string(b.data());
  }();
  return d;
}
struct Files {
  string good, bad, empty, bom, blank, out;
  explicit Files(const Texts &T) : good(scratch() + "/good.urdf"), bad(scratch() + "/bad.urdf"), empty(scratch() + "/empty.urdf"), bom(scratch() + "/bom.urdf"), blank(scratch() + "/blank.urdf"), out(scratch() + "/out.xml") {
    std::ofstream(good) << T.full[0];
    std::ofstream(empty).flush();
    std::ofstream(bom) << "\xEF\xBB\xBF";
    std::ofstream(blank) << "\r\n \r";
    std::ofstream(bad) << T.full[0].substr(0, T.full[0].size() / 2);
  }
  string any(uint64_t k) const {
    const string v[] = {good, bad, good + ".none", scratch(), empty, bom, blank, "/dev/null"};
    return v[k % 8];
  }
  ~Files() {
    unlink(good.c_str());
    unlink(bad.c_str());
    unlink(empty.c_str());
    unlink(bom.c_str());
    unlink(blank.c_str());
    unlink(out.c_str());
  }
};
// carry out `f` 2, 4, ... times: does something grow over every doubling?
template <class F> static void steady(Case &c, F f, const char *what, int doublings = 4) {
  f();
  f();
  vector<size_t> mem;
  vector<int> fds;
  mem.reserve(16);
  fds.reserve(16);
  int done = 2;
  for (int d = 0; d <= doublings; d++) {
    if (d)
      for (int n = done; n > 0; n--, done++)
        f();
    mem.push_back(live_bytes());
    fds.push_back(open_files());
    bool up = false;
    if (d)
      up = mem[d] > mem[d - 1] || fds[d] > fds[d - 1];
    if (d && !up)
      return;
  }
  bool m = true, o = true;
  for (int d = 1; d <= doublings; d++) {
    m &= mem[d] > mem[d - 1];
    o &= fds[d] > fds[d - 1];
  }
  if (m)
    c.fail(string(what) + ": memory keeps growing, by " + std::to_string(mem[doublings] - mem[doublings - 1]) + " bytes over the last " + std::to_string(done / 2) + " repetitions");
  if (o)
    c.fail(string(what) + ": open files keep growing");
}

// ---- documents ---------------------------------------------------------------
struct DomOp {
  int kind;
  uint64_t a, b;
  string s, t;
};
static void collect(TiXmlNode *n, vector<TiXmlNode *> &v) {
  v.push_back(n);
  for (TiXmlNode *k = n->FirstChild(); k; k = k->NextSibling())
    collect(k, v);
}
static std::unique_ptr<TiXmlNode> make_node(const DomOp &o) {
  switch (o.b % 5) {
  case 0: return std::unique_ptr<TiXmlNode>(new TiXmlText(o.s.c_str()));
  case 1: return std::unique_ptr<TiXmlNode>(new TiXmlComment(o.s.c_str()));
  case 2: {
    std::unique_ptr<TiXmlUnknown> u(new TiXmlUnknown);
    u->SetValue(o.s.c_str());
    return std::unique_ptr<TiXmlNode>(u.release());
  }
  default: {
    std::unique_ptr<TiXmlElement> e(new TiXmlElement(o.t.c_str()));
    e->SetAttribute("k", o.s.c_str());
    e->InsertEndChild(TiXmlElement("inner"));
    return std::unique_ptr<TiXmlNode>(e.release());
  }
  }
}
static void dom(const string &text, const vector<DomOp> &ops, const Files &F) {
  TiXmlDocument doc;
  doc.Parse(text.c_str());
  for (auto &o : ops) {
    vector<TiXmlNode *> v;
    collect(&doc, v);
    TiXmlNode *n = v[o.a % v.size()], *p = n->Parent();
    TiXmlElement *e = n->ToElement();
    switch (o.kind) {
    case 0: n->InsertEndChild(*make_node(o)); break; // a document or a text may refuse
    case 1:
      if (p)
        p->InsertBeforeChild(n, *make_node(o));
      break;
    case 2:
      if (p)
        p->InsertAfterChild(n, *make_node(o));
      break;
    case 3:
      if (p)
        p->ReplaceChild(n, *make_node(o));
      break;
    case 4:
      if (p)
        p->RemoveChild(n);
      break;
    case 5:
      if (e)
        e->SetAttribute(o.t.c_str(), o.s.c_str());
      break;
    case 6:
      if (e && e->FirstAttribute())
        e->RemoveAttribute(o.b % 3 ? string(e->FirstAttribute()->Name()).c_str() : o.t.c_str());
      break;
    case 7: n->SetValue(o.s.c_str()); break;
    case 8: {
      std::unique_ptr<TiXmlNode> cl(n->Clone());
      if (o.b % 2 && e)
        e->LinkEndChild(cl.release());
      break;
    }
    case 9: n->Clear(); break;
    case 10: {
      TiXmlDocument d(doc);
      TiXmlDocument d2;
      d2.Parse("<x a='1'>y</x>");
      d2 = d;
      doc = d2;
      break;
    }
    case 11: {
      if (e) {
        TiXmlElement x(*e), y("y");
        y.SetAttribute("gone", "1");
        y.InsertEndChild(TiXmlElement("gone"));
        y = x;
        e->InsertEndChild(y);
      }
      break;
    }
    case 12: doc.Parse(o.s.c_str()); break; // a second text into the same document
    case 13: {
      std::ostringstream os;
      os << doc;
      std::istringstream is(os.str());
      TiXmlDocument d;
      is >> d;
      break;
    }
    case 14: {
      TiXmlDocument d;
      (o.b % 3 ? d : doc).LoadFile(F.any(o.a).c_str()); // into a fresh document or a used one
      if (o.b % 2)
        doc.SaveFile(F.out.c_str());
      else
        doc.SaveFile((scratch() + "/no/such/folder").c_str());
      break;
    }
    case 15: {
      string x;
      x << *n;
      TiXmlPrinter pr;
      n->Accept(&pr);
      break;
    }
    case 16: { // a node of a kind that cannot be inserted
      TiXmlDocument d;
      n->InsertEndChild(d);
      if (p) {
        p->InsertBeforeChild(n, d);
        p->InsertAfterChild(n, d);
      }
      n->LinkEndChild(new TiXmlDocument);
      break;
    }
    case 17:
      if (p) { // relations that do not hold
        TiXmlElement other("other");
        other.InsertEndChild(TiXmlElement("k"));
        p->InsertBeforeChild(other.FirstChild(), TiXmlElement("x"));
        p->InsertAfterChild(other.FirstChild(), TiXmlElement("x"));
        p->ReplaceChild(other.FirstChild(), TiXmlElement("x"));
        p->RemoveChild(other.FirstChild());
      }
      break;
    default:
      if (e) {
        e->SetAttribute(o.t, (int)o.b);
        e->SetDoubleAttribute(o.t.c_str(), 0.1 * (double)o.b);
        e->GetText();
        string q;
        e->QueryStringAttribute(o.t.c_str(), &q);
      }
    }
  }
}
static vector<DomOp> gen_dom(Case &c) {
  vector<DomOp> v;
  static const vector<string> s = {"", "x", "a longer value that does not fit into a small string", "<&>\"'", "<robot name='r'><link name='a'/></robot>", "<a><b", "\xC3\xA9", "<a b='1' b='2'/>", "<a>t<!-- c --><?p?></a>", "&#x41;", "<a>&#32;<b/>&#x9;</a>"};
  static const vector<string> t = {"name", "k", "link", "a_longer_name_that_does_not_fit_into_a_small_string", "v"};
  for (int n = c.range(1, 14); n > 0; n--) {
    DomOp o{c.range(0, 18), c.below(1000), c.below(1000), c.pick(s), c.pick(t)};
    c.note("dom ", o.kind, " a=", o.a, " b=", o.b, " s=\"", o.s, "\" t=\"", o.t, "\"");
    v.push_back(o);
  }
  return v;
}
// ---- parsed descriptions --------------------------------------------------------
static void descriptions(Case &c, const string &text, int how) {
  auto m = urdf::parseURDF(text);
  if (!m)
    return;
  urdf::LinkSharedPtr kept;
  if (how & 1) { // a part outlives the rest
    vector<urdf::LinkSharedPtr> all;
    m->getLinks(all);
    kept = all[all.size() / 2];
  }
  if (how & 2) {
    std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m));
    std::unique_ptr<TiXmlDocument> d2(urdf::exportURDF(*m));
  }
  vector<std::weak_ptr<void>> parts;
  for (auto &l : m->links_)
    parts.push_back(l.second);
  for (auto &j : m->joints_)
    parts.push_back(j.second);
  for (auto &x : m->materials_)
    parts.push_back(x.second);
  auto gone = [&](const char *after) {
    size_t n = 0;
    for (auto &p : parts)
      n += !p.expired();
    if (n && !kept)
      c.fail(std::to_string(n) + " of " + std::to_string(parts.size()) + " links, joints and materials of a model are still there after " + after);
  };
  if (how & 4) {
    m->clear();
    gone("clear()");
    if (m->getRoot() || !m->links_.empty() || !m->joints_.empty() || !m->materials_.empty() || !m->name_.empty())
      c.fail("clear() leaves something in the model");
  }
  if (how & 8) {
    auto n = m;
    m = urdf::parseURDF(text);
    n.reset();
  } else
    m.reset();
  gone("its last owner let go of it");
  m.reset();
}
static void prop(Case &c) {
  Texts T = gen_texts(c);
  Files F(T);
  switch (c.weighted({40, 26, 16, 8, 10})) {
  case 0: { // models that come and go
    int theme = c.chance(30) ? gen_theme(c) : -1;
    Program P;
    P.ops = gen_ops(c, T, theme, 12, 4, "");
    bool proto = c.chance(40);
    steady(c, [&] {
      Machine M;
      if (proto) {
        M.k[0].reset(new KinematicModel(T.robots[0]));
        M.doc.reset(new TiXmlDocument);
        M.doc->Parse(T.full[0].c_str());
        M.copied[0] = false;
      }
      vector<string> out;
      run(P, M, out);
    }, "histories of models");
    c.nontrivial = P.ops.size() >= 3;
    c.label("models");
    break;
  }
  case 1: { // documents
    auto ops = gen_dom(c);
    string text = c.chance(60) ? c.pick(T.full) : c.pick(T.robots);
    if (c.chance(30))
      text.resize(c.below(text.size()));
    steady(c, [&] { dom(text, ops, F); }, "histories of documents");
    c.nontrivial = ops.size() >= 3;
    c.label("documents");
    break;
  }
  case 2: { // one model that is used for long
    int theme = c.chance(40) ? gen_theme(c) : -1;
    Program P;
    P.ops = gen_ops(c, T, theme, 10, 3, "");
    for (auto &o : P.ops) {
      o.slot = 0;
      if (o.kind == LOAD || o.kind == COPY || o.kind == DESTROY || o.kind == ADD)
        o.kind = o.b % 2 ? POSES : REFUSED;
    }
    Machine M;
    M.k[0].reset(new KinematicModel(T.robots[0]));
    for (int n = c.range(0, 3); n > 0; n--)
      M.k[0]->add_new_link("more_" + std::to_string(n), c.below(M.k[0]->links_.size()), {{1, 0, 0}}, {{0, 0, 1}});
    steady(c, [&] {
      vector<string> out;
      run(P, M, out);
    }, "use of one model", 5);
    c.nontrivial = P.ops.size() >= 3;
    c.label("long use");
    break;
  }
  case 3: { // files
    string one = F.any(c.below(8)), two = F.any(c.below(8));
    c.note("files ", one, " ", two);
    steady(c, [&] {
      try {
        KinematicModel k(tinyfk::load_urdf(one));
      } catch (const std::exception &) {
      }
      try {
        auto m = urdf::parseURDFFile(two);
      } catch (const std::exception &) {
      }
    }, "loading files");
    c.nontrivial = true;
    c.label("files");
    break;
  }
  default: {
    int how = c.range(0, 15);
    string text = c.pick(T.full);
    if (c.chance(40)) {
      size_t at = c.below(text.size());
      text.replace(at, 1 + c.below(4), c.pick(vector<string>{"", "x", "1..2", "<", "&#x41;", "\""}));
    }
    c.note("descriptions ", how, "\n", text);
    steady(c, [&] { descriptions(c, text, how); }, "parsed descriptions");
    c.nontrivial = true;
    c.label("descriptions");
  }
  }
}
VP_PROP("C34", "random histories (models loaded, refused, copied, extended, queried and released; documents parsed, edited with every operation including refused ones, copied, streamed and saved; descriptions parsed, exported, cleared and outlived by a part; files; one model in long use) repeated 2, 4, ... 32 or 64 times; memory in use or open files must not grow over every doubling; non-trivial = at least three operations, a file or a description",
        prop, 24000, 400000, 30)
