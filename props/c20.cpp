// C20: XML documents survive printing and parsing; edits do what a plain tree does.
#include "../engine/pbt.hpp"
#include "tinyxml.h"
#include <algorithm>
#include <cctype>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
using std::string;
using std::vector;
using vp::Case;

static string tmpdir() {
  const char *t = getenv("TMPDIR");
  return t && *t ? t : "/tmp";
}

enum Kind { DOC, ELEM, TEXT, CDATA, COMMENT, UNKNOWN, DECL };
struct Node { // the plain tree
  Kind k = ELEM;
  string v;                                     // name, text, ...
  vector<std::pair<string, string>> at;         // attributes, or version/encoding/standalone
  vector<std::unique_ptr<Node>> ch;
  TiXmlNode *x = nullptr;                       // its counterpart
  mutable size_t off = 0;                       // where write() put it
  mutable vector<size_t> aoff;                  // and its attributes
};
static bool keep_ws = false; // white space is kept, not condensed
struct KeepWs {
  explicit KeepWs(bool k) { TiXmlBase::SetCondenseWhiteSpace(!(keep_ws = k)); }
  ~KeepWs() { TiXmlBase::SetCondenseWhiteSpace(!(keep_ws = false)); }
};
typedef std::unique_ptr<Node> NP;

static NP copy(const Node &n) {
  NP r(new Node);
  r->k = n.k;
  r->v = n.v;
  r->at = n.at;
  for (auto &c : n.ch)
    r->ch.push_back(copy(*c));
  return r;
}
static string show(const Node &n, int d = 0) {
  static const char *kn[] = {"document", "element", "text", "cdata", "comment", "unknown", "declaration"};
  string s(2 * d, ' ');
  s += kn[n.k];
  auto q = [](const string &t) {
    string o = "\"";
    for (unsigned char ch : t)
      if (ch < 32 || ch == 127) {
        char b[8];
        snprintf(b, sizeof b, "\\x%02x", ch);
        o += b;
      } else
        o += (char)ch;
    return o + "\"";
  };
  s += " " + q(n.v);
  for (auto &a : n.at)
    s += " " + a.first + "=" + q(a.second);
  s += "\n";
  for (auto &c : n.ch)
    s += show(*c, d + 1);
  return s;
}

#define CHK(ok, msg)      \
  do {                    \
    if (!(ok))            \
      c.fail(msg);        \
  } while (0)

// ---------------------------------------------------------------- generation --
static string gen_cp(Case &c) { // any character
  uint32_t u = 0;
  switch (c.below(4)) {
  case 0: u = c.range(0x21, 0x7E); break;
  case 1: u = c.range(0xA1, 0x7FF); break;
  case 2:
    do
      u = c.range(0x800, 0xFFFD);
    while (u == 0xFEFF || (u >= 0xD800 && u < 0xE000));
    break;
  default: u = c.range(0x10000, 0x10FFFF);
  }
  string o;
  if (u < 0x80)
    o += (char)u;
  else if (u < 0x800)
    (o += (char)(0xC0 | u >> 6)) += (char)(0x80 | (u & 63));
  else if (u < 0x10000)
    ((o += (char)(0xE0 | u >> 12)) += (char)(0x80 | (u >> 6 & 63))) += (char)(0x80 | (u & 63));
  else
    (((o += (char)(0xF0 | u >> 18)) += (char)(0x80 | (u >> 12 & 63))) += (char)(0x80 | (u >> 6 & 63))) += (char)(0x80 | (u & 63));
  return o;
}
static string gen_name(Case &c) {
  static const vector<string> n = {"a", "b", "link", "joint", "robot", "_x", "ns:tag", "a-b", "a.b", "Xml9", "A", "\xC3\xA9l", "long_name_long_name_long_name"};
  string s = c.pick(n);
  if (c.chance(12)) {
    string u = gen_cp(c);
    s += u.size() > 1 || isalnum((unsigned char)u[0]) ? u : "_";
  }
  if (c.chance(30))
    s += std::to_string(c.range(0, 99));
  return s;
}
static string gen_word(Case &c, bool ctl) {
  static const vector<string> w = {"a", "word", "1.5", "&", "<", ">", "\"", "'", "&amp;", "&lt;", "]]", "--", "<!--", "&#65;", "\xC3\xA9", "\xE6\x97\xA5", "\xF0\x9F\xA4\x96", ";", "=", "#", "&x;", "%s", "\\", "/>", "</a>", "\x7f"};
  string s;
  for (int k = c.range(1, 4); k > 0; k--) {
    if (ctl && c.chance(8))
      s += (char)c.range(1, 31);
    else if (c.chance(20))
      s += gen_cp(c);
    else
      s += c.pick(w);
  }
  return s;
}
static bool has_ref(const string &s) { return s.find("&#x") != string::npos; }
// any characters at all (attribute values)
static string gen_attr(Case &c) {
  if (c.chance(12))
    return c.pick(vector<string>{"true", "TRUE", "Yes", "yes", "no", "False", "false", "0", "1", "maybe", "12", "-5", "3.5", "1e5", " 7", "+3", "0x10", "-2147483648", "", "y", "n", "t", "f", "none", "nan", "inf", "tru", "fals", "ye", "Year", "-1", "-0", ".5", "12abc", "on", "off"});
  string s;
  for (int k = c.range(0, 5); k > 0; k--) {
    if (c.chance(25))
      s += string(c.range(1, 3), ' ');
    s += gen_word(c, true);
  }
  if (c.chance(10))
    s += " ";
  if (c.chance(4))
    s += string(c.range(50, 3000), 'x');
  if (has_ref(s))
    s = "r";
  return s;
}
// words separated by single spaces; not made of white space only
static string gen_text(Case &c) {
  string s = gen_word(c, true);
  for (int k = c.range(0, 3); k > 0; k--)
    s += (keep_ws ? c.pick(vector<string>{" ", "  ", "\n", "\t ", " \n  "}) : string(" ")) + gen_word(c, true);
  if (keep_ws && c.chance(40))
    s = c.pick(vector<string>{" ", "\n", "  "}) + s;
  if (keep_ws && c.chance(40))
    s += c.pick(vector<string>{" ", "\n", "\t\t"});
  bool blank = true;
  for (unsigned char ch : s)
    blank = blank && isspace(ch);
  if (blank)
    s += "t";
  if (has_ref(s))
    s = "t";
  return s;
}
static string gen_raw(Case &c, const char *stop) { // comment or CDATA content
  string s;
  for (int k = c.range(0, 4); k > 0; k--) {
    if (c.chance(30))
      s += c.pick(vector<string>{" ", "\n", "\t", "  "});
    s += gen_word(c, false);
  }
  for (size_t p; (p = s.find(stop)) != string::npos;)
    s.erase(p, strlen(stop));
  // the terminator must not arise where the content ends
  string t = s + stop;
  if (t.find(stop) != s.size())
    s += "x";
  return s;
}
static NP gen_leaf(Case &c, Kind k) {
  NP n(new Node);
  n->k = k;
  switch (k) {
  case TEXT: n->v = gen_text(c); break;
  case CDATA: n->v = gen_raw(c, "]]>"); break;
  case COMMENT: n->v = gen_raw(c, "-->"); break;
  case UNKNOWN: {
    n->v = c.pick(vector<string>{"!DOCTYPE robot", "!ELEMENT a (b)", "?php echo 1 ?", "?pi?", "!ENTITY x \"y\"", "!", "?x y=\"&amp;\"?"});
    break;
  }
  default: break;
  }
  return n;
}
static NP gen_elem(Case &c, int depth, int &budget);
static void gen_children(Case &c, Node &n, int depth, int &budget) {
  int k = n.k == DOC ? c.range(0, 4) : c.range(0, depth > 4 ? 2 : 5);
  if (n.k == DOC && k == 0)
    k = 1;
  for (; k > 0 && budget > 0; k--) {
    budget--;
    Kind t = n.k == DOC ? (Kind)c.pick(vector<int>{ELEM, ELEM, COMMENT, UNKNOWN})
                        : (Kind)c.pick(vector<int>{ELEM, ELEM, ELEM, TEXT, TEXT, CDATA, COMMENT, UNKNOWN});
    if (t == TEXT && !n.ch.empty() && n.ch.back()->k == TEXT)
      t = ELEM; // neighbouring texts become one when parsed
    n.ch.push_back(t == ELEM ? gen_elem(c, depth + 1, budget) : gen_leaf(c, t));
  }
}
static NP gen_elem(Case &c, int depth, int &budget) {
  NP n(new Node);
  n->k = ELEM;
  n->v = gen_name(c);
  for (int k = c.range(0, 4); k > 0; k--) {
    string a = gen_name(c);
    bool dup = false;
    for (auto &x : n->at)
      dup = dup || x.first == a;
    if (!dup)
      n->at.push_back({a, gen_attr(c)});
  }
  if (depth < 40 && c.chance(depth < 2 ? 85 : 55))
    gen_children(c, *n, depth, budget);
  return n;
}
static NP gen_doc(Case &c) {
  NP d(new Node);
  d->k = DOC;
  if (c.chance(60)) {
    NP n(new Node);
    n->k = DECL;
    n->at = {{"version", c.pick(vector<string>{"1.0", "1.1", ""})},
             {"encoding", c.pick(vector<string>{"", "UTF-8", "utf-8", "UTF8"})},
             {"standalone", c.pick(vector<string>{"", "yes", "no"})}};
    d->ch.push_back(std::move(n));
  }
  int budget = c.range(3, 45);
  gen_children(c, *d, 0, budget);
  return d;
}

// ----------------------------------------------------------- real <-> model --
static TiXmlNode *make(const Node &n) { // build through the API
  switch (n.k) {
  case ELEM: {
    bool str = n.v.size() % 2; // either form of each call
    TiXmlElement *e = str ? new TiXmlElement(n.v) : new TiXmlElement(n.v.c_str());
    for (auto &a : n.at)
      if (a.second.size() % 2)
        e->SetAttribute(a.first, a.second);
      else
        e->SetAttribute(a.first.c_str(), a.second.c_str());
    for (auto &ch : n.ch)
      e->LinkEndChild(make(*ch));
    return e;
  }
  case TEXT: return n.v.size() % 2 ? new TiXmlText(n.v) : new TiXmlText(n.v.c_str());
  case CDATA: {
    TiXmlText *t = new TiXmlText(n.v.c_str());
    t->SetCDATA(true);
    return t;
  }
  case COMMENT: {
    if (n.v.size() % 2 == 0)
      return new TiXmlComment(n.v.c_str());
    TiXmlComment *k = new TiXmlComment();
    k->SetValue(n.v);
    return k;
  }
  case DECL:
    if (n.at[1].second.size() % 2)
      return new TiXmlDeclaration(n.at[0].second, n.at[1].second, n.at[2].second);
    return new TiXmlDeclaration(n.at[0].second.c_str(), n.at[1].second.c_str(), n.at[2].second.c_str());
  case UNKNOWN: {
    TiXmlUnknown *u = new TiXmlUnknown();
    u->SetValue(n.v.c_str());
    return u;
  }
  default: {
    TiXmlDocument *d = new TiXmlDocument();
    for (auto &ch : n.ch)
      d->LinkEndChild(make(*ch));
    return d;
  }
  }
}
static Kind kind_of(const TiXmlNode &x) {
  switch (x.Type()) {
  case TiXmlNode::TINYXML_DOCUMENT: return DOC;
  case TiXmlNode::TINYXML_ELEMENT: return ELEM;
  case TiXmlNode::TINYXML_COMMENT: return COMMENT;
  case TiXmlNode::TINYXML_UNKNOWN: return UNKNOWN;
  case TiXmlNode::TINYXML_TEXT: return x.ToText()->CDATA() ? CDATA : TEXT;
  default: return DECL;
  }
}
// the real tree is the model, all links are consistent; records counterparts
static void same(Case &c, Node &n, const TiXmlNode &x, const TiXmlNode *parent, const string &what) {
  n.x = const_cast<TiXmlNode *>(&x);
  CHK(kind_of(x) == n.k, what + ": kind of a node, expected " + show(n));
  CHK(x.Parent() == parent, what + ": parent link of " + show(n));
  if (n.k != DOC && n.k != DECL)
    CHK(n.v == x.Value(), what + ": value is '" + x.Value() + "', expected " + show(n));
  CHK((x.ToElement() != 0) == (n.k == ELEM) && (x.ToText() != 0) == (n.k == TEXT || n.k == CDATA) && (x.ToComment() != 0) == (n.k == COMMENT) &&
              (x.ToDocument() != 0) == (n.k == DOC) && (x.ToDeclaration() != 0) == (n.k == DECL) && (x.ToUnknown() != 0) == (n.k == UNKNOWN),
          what + ": type casts of " + show(n));
  if (n.k == DECL) {
    const TiXmlDeclaration *d = x.ToDeclaration();
    CHK(n.at[0].second == d->Version() && n.at[1].second == d->Encoding() && n.at[2].second == d->Standalone(), what + ": declaration");
  }
  if (n.k == ELEM) {
    const TiXmlElement *e = x.ToElement();
    const TiXmlAttribute *a = e->FirstAttribute();
    for (size_t i = 0; i < n.at.size(); i++) {
      CHK(a != 0, what + ": attribute missing in " + show(n));
      CHK(n.at[i].first == a->Name(), what + ": attribute name '" + a->Name() + "' in " + show(n));
      CHK(n.at[i].second == a->Value(), what + ": attribute value '" + a->Value() + "' in " + show(n));
      CHK((i == 0) == (a->Previous() == 0), what + ": attribute back link");
      a = a->Next();
    }
    CHK(a == 0, what + ": extra attribute in " + show(n));
    const TiXmlAttribute *l = e->LastAttribute();
    CHK((l == 0) == n.at.empty() && (!l || n.at.back().first == l->Name()), what + ": last attribute");
  }
  const TiXmlNode *k = x.FirstChild(), *prev = 0;
  for (auto &ch : n.ch) {
    CHK(k != 0, what + ": child missing under " + show(n));
    CHK(k->PreviousSibling() == prev, what + ": previous-sibling link under " + show(n));
    same(c, *ch, *k, &x, what);
    prev = k;
    k = k->NextSibling();
  }
  CHK(k == 0, what + ": extra child under " + show(n));
  CHK(x.LastChild() == prev, what + ": last-child link of " + show(n));
  CHK(x.NoChildren() == n.ch.empty(), what + ": NoChildren of " + show(n));
}

static string print(const TiXmlNode &x, int mode, const char *indent = "    ", const char *brk = "\n") {
  TiXmlPrinter p;
  if (mode == 0) {
    p.SetIndent(indent);
    p.SetLineBreak(brk);
    if (string(p.Indent()) != indent || string(p.LineBreak()) != brk)
      throw vp::Failure("indent or line break of a printer");
  } else
    p.SetStreamPrinting();
  x.Accept(&p);
  return string(p.CStr(), p.Size());
}
static string print_file(const TiXmlDocument &d) {
  string f = tmpdir() + "/c20-" + std::to_string(getpid()) + ".xml";
  bool ok = d.SaveFile(f.c_str());
  string s;
  if (FILE *fp = fopen(f.c_str(), "rb")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, fp)) > 0)
      s.append(b, n);
    fclose(fp);
  }
  unlink(f.c_str());
  if (!ok)
    throw vp::Failure("SaveFile failed");
  return s;
}

// ---------------------------------------------- the model's own serialisation --
static string enc_char(Case &c, unsigned char ch, const string &utf8, char quote, bool first_last) {
  (void)utf8;
  char b[24];
  bool must = ch == '<' || ch == '&' || (quote && ch == (unsigned char)quote) || ch < 32 || (first_last && ch == ' ');
  const char *nm = ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : ch == '\'' ? "&apos;" : nullptr;
  if (!must && !(ch < 127 && c.chance(12)))
    return string(1, (char)ch);
  switch (nm ? c.below(3) : 1 + c.below(2)) {
  case 0: return nm;
  case 1: snprintf(b, sizeof b, c.chance(50) ? "&#x%X;" : "&#x%04x;", ch); return b;
  default: snprintf(b, sizeof b, "&#%d;", ch); return b;
  }
}
static string enc(Case &c, const string &s, char quote) {
  string o;
  for (size_t i = 0; i < s.size(); i++)
    o += enc_char(c, (unsigned char)s[i], "", quote, false);
  return o;
}
static string ws(Case &c, bool need) {
  string s;
  int k = need ? c.range(1, 3) : c.chance(60) ? 0 : c.range(1, 3);
  for (; k > 0; k--)
    s += " \n\t\r"[c.weighted({70, 15, 10, 5})];
  return s;
}
static void write(Case &c, const Node &n, string &s) {
  n.off = s.size();
  n.aoff.clear();
  switch (n.k) {
  case DOC:
    for (auto &ch : n.ch) {
      write(c, *ch, s);
      s += c.chance(70) ? "\n" : "";
    }
    return;
  case DECL:
    s += "<?xml";
    for (auto &a : n.at)
      if (!a.second.empty()) {
        char q = c.chance(50) ? '\'' : '"';
        s += " " + a.first + ws(c, false) + "=" + ws(c, false) + q + a.second + q;
      }
    s += c.chance(50) ? " ?>" : "?>";
    return;
  case COMMENT: s += "<!--" + n.v + "-->"; return;
  case CDATA: s += "<![CDATA[" + n.v + "]]>"; return;
  case UNKNOWN: s += "<" + n.v + ">"; return;
  case TEXT: { // any run of white space is one space
    if (keep_ws) {
      for (char ch : n.v)
        s += isspace((unsigned char)ch) && c.chance(80) ? string(1, ch) : enc_char(c, (unsigned char)ch, "", 0, false);
      return;
    }
    s += ws(c, false);
    n.off = s.size();
    for (char ch : n.v)
      s += ch == ' ' ? ws(c, true) : enc_char(c, (unsigned char)ch, "", 0, false);
    s += ws(c, false);
    return;
  }
  default:
    s += "<" + n.v;
    for (auto &a : n.at) {
      char q = c.chance(50) ? '\'' : '"';
      s += ws(c, true);
      n.aoff.push_back(s.size());
      s += a.first + ws(c, false) + "=" + ws(c, false) + q + enc(c, a.second, q) + q;
    }
    s += ws(c, false);
    if (n.ch.empty() && c.chance(60)) {
      s += "/>";
      return;
    }
    s += ">";
    for (auto &ch : n.ch) {
      write(c, *ch, s);
      if (ch->k != TEXT && !keep_ws)
        s += ws(c, false);
    }
    s += "</" + n.v + ws(c, false) + ">";
  }
}
static string write(Case &c, const Node &n) {
  string s;
  write(c, n, s);
  return s;
}
// row and column (from 1) of every byte; a character counts once, a tab goes to
// the next multiple of the tab size, CR LF and LF CR end one line
struct Places {
  vector<int> row, col, byte;
  Places(const string &s, int tab) : row(s.size() + 1), col(s.size() + 1), byte(s.size() + 1) {
    int r = 1, k = 1, b = 1;
    for (size_t i = 0; i <= s.size(); i++) {
      row[i] = r;
      col[i] = k;
      byte[i] = b;
      if (i == s.size())
        break;
      unsigned char ch = s[i];
      if (ch == '\r' || ch == '\n') {
        r++;
        k = b = 1;
        if (i + 1 < s.size() && (s[i + 1] == '\r' || s[i + 1] == '\n') && s[i + 1] != s[i]) {
          i++;
          row[i] = r;
          col[i] = byte[i] = 1;
        }
      } else if (ch == '\t') {
        k = ((k - 1) / tab + 1) * tab + 1;
        b = ((b - 1) / tab + 1) * tab + 1;
      } else {
        b++;
        k += (ch & 0xC0) != 0x80;
      }
    }
  }
};
static void places(Case &c, const Node &n, const Places &p, bool utf8, bool attrs = true) {
  auto at = [&](const TiXmlBase &x, size_t o, const string &what) {
    if (!utf8 && p.col[o] != p.byte[o])
      return; // no declared encoding: what a column is is not defined
    CHK(x.Row() == p.row[o] && x.Column() == p.col[o], what + " is at row " + std::to_string(x.Row()) + " column " + std::to_string(x.Column()) + ", expected " +
                                                           std::to_string(p.row[o]) + " " + std::to_string(p.col[o]));
  };
  if (n.k != DOC)
    at(*n.x, n.off, show(n));
  if (n.k == ELEM && attrs) {
    size_t i = 0;
    for (const TiXmlAttribute *a = n.x->ToElement()->FirstAttribute(); a; a = a->Next(), i++)
      at(*a, n.aoff[i], string("attribute ") + a->Name() + " of " + show(n));
  }
  for (auto &ch : n.ch)
    places(c, *ch, p, utf8, attrs);
}

static int count(const Node &n) {
  int k = 1;
  for (auto &c : n.ch)
    k += count(*c);
  return k;
}
static bool printable(const Node &n) { // inside the documented escaping rules
  for (size_t i = 0; i < n.ch.size(); i++) {
    if (n.ch[i]->k == TEXT && (n.k == DOC || (i && n.ch[i - 1]->k == TEXT)))
      return false;
    if (n.ch[i]->k == CDATA && n.k == DOC)
      return false;
    if (n.ch[i]->k == DECL && !(n.k == DOC && i == 0))
      return false;
    if (!printable(*n.ch[i]))
      return false;
  }
  return n.k != DOC || !n.ch.empty();
}

static bool tame_comments(const Node &n) { // the stream reader looks for --> from the start of a comment
  if (n.k == COMMENT && (n.v[0] == '>' || n.v.compare(0, 2, "->") == 0))
    return false;
  for (auto &c : n.ch)
    if (!tame_comments(*c))
      return false;
  return true;
}
static bool streamable(const Node &m) { // the stream reader stops after the first element
  for (size_t i = 0; i < m.ch.size(); i++)
    if ((m.ch[i]->k == ELEM) != (i + 1 == m.ch.size()))
      return false;
  return tame_comments(m);
}
static void lone_texts(Case &c, const Node &n, const TiXmlNode &x) {
  const TiXmlElement *e = x.FirstChildElement();
  for (auto &k : n.ch)
    if (k->k == ELEM) {
      CHK(e, "an element is missing in the printed document");
      if (k->ch.size() == 1 && k->ch[0]->k == TEXT)
        CHK(e->GetText() && k->ch[0]->v == e->GetText(), "the only text of an element is printed with other white space");
      lone_texts(c, *k, *e);
      e = e->NextSiblingElement();
    }
}
static void roundtrip(Case &c, const Node &m, const TiXmlDocument &d) {
  string text;
  int mode = keep_ws ? c.pick(vector<int>{1, 3, 4}) : (int)c.weighted({38, 22, 20, 12, 8});
  if (mode == 4) {
    text = "before";
    text << static_cast<const TiXmlNode &>(d);
    CHK(text.compare(0, 6, "before") == 0, "appending to a string lost what was in it");
    text.erase(0, 6);
  } else if (mode == 0)
    text = print(d, 0, c.pick(vector<const char *>{"    ", "", "\t", " "}), c.pick(vector<const char *>{"\n", "\r\n", "\n\n"}));
  else if (mode == 1)
    text = print(d, 1);
  else if (mode == 2)
    text = print_file(d);
  else {
    std::ostringstream o;
    o << d;
    text = o.str();
  }
  c.note("printed (", mode == 0 ? "printer" : mode == 1 ? "one line" : mode == 2 ? "file" : mode == 3 ? "stream" : "appended to a string", "):\n", text);
  if (!keep_ws) { // a text that is all an element holds is written without added white space
    TiXmlBase::SetCondenseWhiteSpace(false);
    TiXmlDocument raw;
    raw.Parse(text.c_str());
    TiXmlBase::SetCondenseWhiteSpace(true);
    CHK(!raw.Error(), string("parsing the printed document failed: ") + raw.ErrorDesc());
    lone_texts(c, m, raw);
  }
  TiXmlDocument back;
  if (mode == 2 && c.chance(50)) {
    string f = tmpdir() + "/c20b-" + std::to_string(getpid()) + ".xml";
    bool s = false, l = false;
    switch (c.below(4)) {
    case 0: s = d.SaveFile(f.c_str()); break;
    case 1: s = d.SaveFile(f); break;
    case 2: {
      std::unique_ptr<TiXmlNode> named(static_cast<const TiXmlNode &>(d).Clone());
      named->SetValue(f);
      s = named->ToDocument()->SaveFile();
      break;
    }
    default:
      if (FILE *fp = fopen(f.c_str(), "w")) {
        s = d.SaveFile(fp);
        fclose(fp);
      }
    }
    if (s)
      switch (c.below(4)) {
      case 0: l = back.LoadFile(f.c_str()); break;
      case 1: l = back.LoadFile(f); break;
      case 2:
        back.SetValue(f.c_str());
        l = back.LoadFile();
        break;
      default:
        if (FILE *fp = fopen(f.c_str(), "rb")) {
          l = back.LoadFile(fp);
          fclose(fp);
        }
      }
    unlink(f.c_str());
    CHK(s && l, string("reading the saved file back failed: ") + back.ErrorDesc());
  } else if (mode == 3 && streamable(m) && c.chance(60)) {
    std::istringstream in(text + "tail");
    in >> back;
    c.label("read from a stream");
    string rest;
    std::getline(in, rest);
    CHK(rest == "tail", "reading from a stream did not stop after the root element: '" + rest + "' is left");
  } else
    back.Parse(text.c_str());
  CHK(!back.Error(), string("parsing the printed document failed: ") + back.ErrorDesc());
  NP want = copy(m);
  same(c, *want, back, 0, "after printing and parsing");
  for (int k = 0; k < 2; k++)
    CHK(print(back, k) == print(d, k), "printing the parsed document gives another text");
}

// ------------------------------------------------------------------- edits --
static void nodes(Node &n, vector<std::pair<Node *, Node *>> &out, Node *parent) {
  out.push_back({&n, parent});
  for (auto &c : n.ch)
    nodes(*c, out, &n);
}
static size_t index_in(Node *p, Node *n) {
  for (size_t i = 0; i < p->ch.size(); i++)
    if (p->ch[i].get() == n)
      return i;
  return 0;
}
static NP gen_sub(Case &c) {
  int b = 6;
  switch (c.weighted({50, 15, 15, 10, 10})) {
  case 0: return gen_elem(c, 3, b);
  case 1: return gen_leaf(c, TEXT);
  case 2: return gen_leaf(c, COMMENT);
  case 3: return gen_leaf(c, CDATA);
  default: return gen_leaf(c, UNKNOWN);
  }
}

static string lower(string s) {
  for (char &ch : s)
    ch = (char)tolower((unsigned char)ch);
  return s;
}
// the other ways to read an attribute; av is null when it is absent
static void more_queries(Case &c, const TiXmlElement &e, const string &an, const string *av) {
  int i1 = -7, i2 = -7, i3 = -7, i4 = -7;
  double d1 = -7, d2 = -7, d3 = -7, d4 = -7;
  unsigned u = 77;
  float f = -7;
  string s1 = "none", s2 = "none";
  const char *p1 = e.Attribute(an.c_str(), &i1), *p2 = e.Attribute(an.c_str(), &d1);
  const string *p3 = e.Attribute(an), *p4 = e.Attribute(an, &i2), *p5 = e.Attribute(an, &d2);
  CHK(e.Attribute(an.c_str(), (int *)0) == p1 && e.Attribute(an.c_str(), (double *)0) == p1, "Attribute with a null number");
  CHK((p1 != 0) == (av != 0) && (p2 != 0) == (av != 0) && (p3 != 0) == (av != 0) && (p4 != 0) == (av != 0) && (p5 != 0) == (av != 0), "presence of an attribute");
  int qi = e.QueryIntAttribute(an, &i3), qd = e.QueryDoubleAttribute(an, &d3), qu = e.QueryUnsignedAttribute(an.c_str(), &u),
      qf = e.QueryFloatAttribute(an.c_str(), &f), qs = e.QueryStringAttribute(an.c_str(), &s1), qv = e.QueryValueAttribute(an, &s2),
      qvi = e.QueryValueAttribute(an, &i4), qvd = e.QueryValueAttribute(an, &d4);
  for (int b0 = 0; b0 < 2; b0++) {
    bool b = b0;
    int qb = e.QueryBoolAttribute(an.c_str(), &b);
    if (!av) {
      CHK(qb == TIXML_NO_ATTRIBUTE && b == (bool)b0, "QueryBoolAttribute of an absent attribute");
      continue;
    }
    string l = lower(*av);
    bool yes = l == "true" || l == "yes" || l == "1", no = l == "false" || l == "no" || l == "0", other = true;
    for (const char *w : {"true", "yes", "1", "false", "no", "0"})
      other = other && l.compare(0, strlen(w), w) != 0;
    if (yes || no)
      CHK(qb == TIXML_SUCCESS && b == yes, "QueryBoolAttribute of '" + *av + "'");
    else if (other)
      CHK(qb == TIXML_WRONG_TYPE && b == (bool)b0, "QueryBoolAttribute of '" + *av + "'");
  }
  if (!av) {
    CHK(qi == TIXML_NO_ATTRIBUTE && qd == TIXML_NO_ATTRIBUTE && qu == TIXML_NO_ATTRIBUTE && qf == TIXML_NO_ATTRIBUTE && qs == TIXML_NO_ATTRIBUTE &&
            qv == TIXML_NO_ATTRIBUTE && qvi == TIXML_NO_ATTRIBUTE && qvd == TIXML_NO_ATTRIBUTE,
        "status of an absent attribute");
    CHK(i1 == -7 && i2 == -7 && i3 == -7 && d1 == -7 && d2 == -7 && d3 == -7 && u == 77 && f == -7 && s1 == "none" && s2 == "none", "an absent attribute wrote a value");
    return;
  }
  CHK(*av == p1 && *av == p2 && *av == *p3 && *av == *p4 && *av == *p5 && *av == s1 && *av == s2, "text of attribute '" + *av + "'");
  CHK(qs == TIXML_SUCCESS && qv == TIXML_SUCCESS, "status of a text attribute");
  int wi = -7;
  double wd = -7;
  bool oi = sscanf(av->c_str(), "%d", &wi) == 1, od = sscanf(av->c_str(), "%lf", &wd) == 1;
  auto eq = [](double a, double b) { return a == b || (a != a && b != b); };
  CHK((qi == TIXML_SUCCESS) == oi && (qi == TIXML_WRONG_TYPE) == !oi && (qu == TIXML_SUCCESS) == oi, "status of '" + *av + "' as an integer");
  if (oi)
    CHK(i1 == wi && i2 == wi && i3 == wi && u == (unsigned)wi, "integer value of '" + *av + "'");
  CHK((qd == TIXML_SUCCESS) == od && (qd == TIXML_WRONG_TYPE) == !od && (qf == TIXML_SUCCESS) == od, "status of '" + *av + "' as a number");
  if (od)
    CHK(eq(d1, wd) && eq(d2, wd) && eq(d3, wd) && (std::fabs(wd) > 1e38 || eq(f, (float)wd)), "number value of '" + *av + "'");
  int xi = -7;
  double xd = -7;
  std::istringstream si(*av), sd(*av);
  si >> xi;
  sd >> xd;
  CHK((qvi == TIXML_SUCCESS) == !si.fail() && (si.fail() || i4 == xi), "QueryValueAttribute<int> of '" + *av + "'");
  CHK((qvd == TIXML_SUCCESS) == !sd.fail() && (sd.fail() || eq(d4, xd)), "QueryValueAttribute<double> of '" + *av + "'");
  // the attribute objects, walked both ways
  vector<const TiXmlAttribute *> fwd, bwd;
  for (const TiXmlAttribute *a = e.FirstAttribute(); a; a = a->Next())
    fwd.push_back(a);
  for (const TiXmlAttribute *a = e.LastAttribute(); a; a = a->Previous())
    bwd.push_back(a);
  std::reverse(bwd.begin(), bwd.end());
  CHK(fwd == bwd, "attributes walked forwards and backwards");
  for (auto *a : fwd)
    if (an == a->Name()) {
      int ai = -7;
      double ad = -7;
      CHK((a->QueryIntValue(&ai) == TIXML_SUCCESS) == oi && (!oi || (ai == wi && a->IntValue() == wi)), "integer value of an attribute object");
      CHK((a->QueryDoubleValue(&ad) == TIXML_SUCCESS) == od && (!od || eq(ad, wd)), "number value of an attribute object");
      CHK(a->ValueStr() == *av, "text of an attribute object");
    }
}
// a visitor that stops at places of its choice
struct Recorder : TiXmlVisitor {
  unsigned salt;
  vector<std::pair<const void *, int>> log;
  explicit Recorder(unsigned s) : salt(s) {}
  static bool go(unsigned salt, const void *p, int what) {
    size_t h = ((size_t)p >> 4) * 2654435761u + salt * 40503u + what * 97;
    h ^= h >> 13;
    return h * 2246822519u % 8 != 0;
  }
  bool hit(const void *p, int what) {
    log.push_back({p, what});
    return go(salt, p, what);
  }
  virtual bool VisitEnter(const TiXmlDocument &d) { return hit(static_cast<const TiXmlNode *>(&d), 0); }
  virtual bool VisitExit(const TiXmlDocument &d) { return hit(static_cast<const TiXmlNode *>(&d), 1); }
  virtual bool VisitEnter(const TiXmlElement &d, const TiXmlAttribute *a) {
    if (a != d.FirstAttribute())
      log.push_back({a, 9});
    return hit(static_cast<const TiXmlNode *>(&d), 2);
  }
  virtual bool VisitExit(const TiXmlElement &d) { return hit(static_cast<const TiXmlNode *>(&d), 3); }
  virtual bool Visit(const TiXmlDeclaration &d) { return hit(static_cast<const TiXmlNode *>(&d), 4); }
  virtual bool Visit(const TiXmlText &d) { return hit(static_cast<const TiXmlNode *>(&d), 5); }
  virtual bool Visit(const TiXmlComment &d) { return hit(static_cast<const TiXmlNode *>(&d), 6); }
  virtual bool Visit(const TiXmlUnknown &d) { return hit(static_cast<const TiXmlNode *>(&d), 7); }
};
static bool expect_visit(const Node &n, Recorder &r) {
  if (n.k == DOC || n.k == ELEM) {
    int e = n.k == DOC ? 0 : 2;
    if (r.hit(n.x, e))
      for (auto &ch : n.ch)
        if (!expect_visit(*ch, r))
          break;
    return r.hit(n.x, e + 1);
  }
  return r.hit(n.x, n.k == DECL ? 4 : n.k == COMMENT ? 6 : n.k == UNKNOWN ? 7 : 5);
}
static void visit(Case &c, const Node &n) {
  unsigned salt = (unsigned)c.below(1000);
  Recorder a(salt), b(salt);
  bool ra = n.x->Accept(&a), rb = expect_visit(n, b);
  CHK(a.log == b.log && ra == rb, "a visitor saw other nodes, or another order");
}
// the forms of a call that differ only in const or in the type of a string
static void other_forms(Case &c, const Node &n, const string &nm) {
  TiXmlNode &w = *n.x;
  const TiXmlNode &x = w;
  const char *p = nm.c_str();
  CHK(w.Parent() == x.Parent() && w.FirstChild() == x.FirstChild() && w.LastChild() == x.LastChild() && w.NextSibling() == x.NextSibling() &&
          w.PreviousSibling() == x.PreviousSibling() && w.GetDocument() == x.GetDocument(),
      "links of a changeable node");
  CHK(w.FirstChild(p) == x.FirstChild(p) && w.FirstChild(nm) == x.FirstChild(p) && w.LastChild(p) == x.LastChild(p) && w.LastChild(nm) == x.LastChild(p) &&
          w.NextSibling(p) == x.NextSibling(p) && w.NextSibling(nm) == x.NextSibling(p) && w.PreviousSibling(p) == x.PreviousSibling(p) &&
          w.PreviousSibling(nm) == x.PreviousSibling(p) && w.FirstChildElement() == x.FirstChildElement() && w.FirstChildElement(p) == x.FirstChildElement(p) &&
          w.FirstChildElement(nm) == x.FirstChildElement(p) && w.NextSiblingElement() == x.NextSiblingElement() &&
          w.NextSiblingElement(p) == x.NextSiblingElement(p) && w.NextSiblingElement(nm) == x.NextSiblingElement(p),
      "lookups of a changeable node");
  CHK(w.IterateChildren(0) == x.IterateChildren(0) && w.IterateChildren(p, 0) == x.IterateChildren(p, 0) && w.IterateChildren(nm, 0) == x.IterateChildren(p, 0) &&
          (!w.FirstChild() || (w.IterateChildren(w.FirstChild()) == x.IterateChildren(x.FirstChild()) &&
                               w.IterateChildren(p, w.FirstChild()) == x.IterateChildren(p, x.FirstChild()))),
      "iteration of a changeable node");
  CHK(w.ToDocument() == x.ToDocument() && w.ToElement() == x.ToElement() && w.ToComment() == x.ToComment() && w.ToUnknown() == x.ToUnknown() &&
          w.ToText() == x.ToText() && w.ToDeclaration() == x.ToDeclaration() && x.ValueTStr() == x.ValueStr(),
      "casts of a changeable node");
  if (TiXmlDocument *d = w.ToDocument())
    CHK(d->RootElement() == const_cast<const TiXmlDocument *>(d)->RootElement(), "RootElement of a changeable document");
  TiXmlHandle h(&w), h2(h), h3(nullptr);
  h3 = h.FirstChild(p);
  CHK(h2.Node() == &w && h2.Element() == w.ToElement() && h2.Text() == w.ToText() && h2.Unknown() == w.ToUnknown() && h3.ToNode() == w.FirstChild(p), "copied TiXmlHandle");
  CHK(h3.FirstChild(p).Child(1).ChildElement(nm, 2).FirstChildElement().ToNode() == [&]() -> TiXmlNode * {
    TiXmlNode *k = w.FirstChild(p);
    k = k ? k->FirstChild(p) : 0;
    k = k && k->FirstChild() ? k->FirstChild()->NextSibling() : 0;
    TiXmlElement *e = k ? k->FirstChildElement(p) : 0;
    for (int i = 0; e && i < 2; i++)
      e = e->NextSiblingElement(p);
    return e ? e->FirstChildElement() : 0;
  }(), "chained TiXmlHandle");
  TiXmlVisitor nothing;
  CHK(x.Accept(&nothing), "a visitor that does nothing stops");
  if (TiXmlElement *e = w.ToElement()) {
    const TiXmlElement *ce = e;
    CHK(e->FirstAttribute() == ce->FirstAttribute() && e->LastAttribute() == ce->LastAttribute(), "attributes of a changeable element");
    for (TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next()) {
      const TiXmlAttribute *ca = a;
      CHK(a->Next() == ca->Next() && a->Previous() == ca->Previous() && a->NameTStr() == a->Name() && a->ValueStr() == a->Value(), "a changeable attribute");
      TiXmlAttribute twin(string(a->Name()), string("other")), ct(a->Name(), a->Value()), empty;
      CHK(twin.ValueStr() == "other" && ct.ValueStr() == a->ValueStr() && twin == *a && ct == twin && !(twin < *a) && !(twin > *a), "attributes of one name are equal");
      empty.SetName(string(a->Name()));
      empty.SetValue(a->ValueStr());
      CHK(empty == *a && empty.ValueStr() == a->ValueStr() && empty.IntValue() == a->IntValue(), "an attribute built in steps");
      double dv = empty.DoubleValue(), dw = atof(a->Value());
      CHK(dv == dw || (dv != dv && dw != dw), "DoubleValue");
      if (a->Next())
        CHK((*a < *a->Next()) == (string(a->Name()) < a->Next()->Name()) && (*a > *a->Next()) == (string(a->Name()) > a->Next()->Name()) &&
                !(*a == *a->Next()),
            "order of attributes");
    }
  }
  // a mark set on a node stays on it and goes with its copies
  if (c.chance(20)) {
    int mark = 0;
    void *was = w.GetUserData();
    w.SetUserData(&mark);
    std::unique_ptr<TiXmlNode> k(w.Clone());
    CHK(w.GetUserData() == &mark && x.GetUserData() == &mark && k->GetUserData() == &mark, "user data");
    CHK(!w.FirstChild() || w.FirstChild()->GetUserData() != &mark, "user data of a child");
    w.SetUserData(was);
    CHK(w.GetUserData() == was && k->GetUserData() == &mark, "user data of a copy");
  }
}
static void queries(Case &c, Node &n) { // lookups below one node
  string nm = n.ch.empty() || c.chance(20) ? gen_name(c) : c.pick(n.ch)->v;
  const TiXmlNode *first = 0, *last = 0, *fe = 0, *fen = 0;
  int cnt = 0, cnte = 0;
  auto val = [&](Node &k) { return k.k == DECL ? string(k.x->Value()) : k.v; };
  for (auto &k : n.ch) {
    bool hit = val(*k) == nm;
    if (hit && !first)
      first = k->x;
    if (hit)
      last = k->x;
    if (k->k == ELEM && !fe)
      fe = k->x;
    if (k->k == ELEM && hit && !fen)
      fen = k->x;
    cnt += hit;
    cnte += k->k == ELEM;
  }
  const TiXmlNode &x = *n.x;
  CHK(x.FirstChild(nm) == first && x.LastChild(nm) == last && x.FirstChildElement(nm) == fen, "lookups with a std::string");
  CHK(x.ValueStr() == x.Value(), "ValueStr");
  other_forms(c, n, nm);
  {
    const TiXmlNode *top = &x;
    while (top->Parent())
      top = top->Parent();
    CHK(x.GetDocument() == top->ToDocument(), "GetDocument");
    if (n.k == DOC)
      CHK(x.ToDocument()->RootElement() == fe, "RootElement");
  }
  CHK(x.FirstChild(nm.c_str()) == first, "FirstChild(" + nm + ")");
  CHK(x.LastChild(nm.c_str()) == last, "LastChild(" + nm + ")");
  CHK(x.FirstChildElement() == fe, "FirstChildElement()");
  CHK(x.FirstChildElement(nm.c_str()) == fen, "FirstChildElement(" + nm + ")");
  int k = 0;
  for (const TiXmlNode *i = 0; (i = x.IterateChildren(nm.c_str(), i));)
    k++;
  CHK(k == cnt, "IterateChildren(" + nm + ") saw another number of children");
  k = 0;
  for (const TiXmlNode *i = 0; (i = x.IterateChildren(i));)
    CHK(i == n.ch[k++]->x, "IterateChildren order");
  CHK(k == (int)n.ch.size(), "IterateChildren count");
  k = 0;
  for (const TiXmlElement *e = x.FirstChildElement(); e; e = e->NextSiblingElement())
    k++;
  CHK(k == cnte, "NextSiblingElement count");
  k = 0;
  for (const TiXmlNode *e = x.LastChild(nm.c_str()); e; e = e->PreviousSibling(nm.c_str()))
    k++;
  CHK(k == cnt, "PreviousSibling(" + nm + ") count");
  TiXmlHandle h(const_cast<TiXmlNode *>(&x));
  int pos = c.range(0, 6);
  CHK(h.ToNode() == &x && h.ToElement() == x.ToElement() && h.ToText() == x.ToText() && h.ToUnknown() == x.ToUnknown(), "TiXmlHandle");
  CHK(h.FirstChild().ToNode() == x.FirstChild() && h.FirstChild(nm.c_str()).ToNode() == first && h.FirstChild(nm).ToNode() == first &&
          h.FirstChildElement().ToElement() == fe && h.FirstChildElement(nm.c_str()).ToElement() == fen && h.FirstChildElement(nm).ToElement() == fen,
      "TiXmlHandle::FirstChild");
  {
    const TiXmlNode *ne = 0, *nv = 0;
    int ke = 0, kv = 0;
    for (auto &q : n.ch) {
      if (q->k == ELEM && ke++ == pos)
        ne = q->x;
      if (val(*q) == nm && kv++ == pos)
        nv = q->x;
    }
    CHK(h.ChildElement(pos).ToElement() == ne, "TiXmlHandle::ChildElement(number)");
    CHK(h.Child(nm.c_str(), pos).ToNode() == nv && h.Child(nm, pos).ToNode() == nv, "TiXmlHandle::Child(name, number)");
  }
  if (!n.ch.empty()) { // from a random child on
    size_t i = c.below(n.ch.size());
    const TiXmlNode *nx = 0, *pv = 0, *nel = 0, *nnel = 0;
    for (size_t j = 0; j < n.ch.size(); j++) {
      bool hit = val(*n.ch[j]) == nm, el = n.ch[j]->k == ELEM;
      if (j < i && hit)
        pv = n.ch[j]->x;
      if (j > i && hit && !nx)
        nx = n.ch[j]->x;
      if (j > i && el && !nel)
        nel = n.ch[j]->x;
      if (j > i && el && hit && !nnel)
        nnel = n.ch[j]->x;
    }
    const TiXmlNode &y = *n.ch[i]->x;
    CHK(y.NextSibling(nm.c_str()) == nx && y.NextSibling(nm) == nx, "NextSibling(" + nm + ")");
    CHK(y.PreviousSibling(nm.c_str()) == pv && y.PreviousSibling(nm) == pv, "PreviousSibling(" + nm + ")");
    CHK(y.NextSiblingElement() == nel, "NextSiblingElement()");
    CHK(y.NextSiblingElement(nm.c_str()) == nnel && y.NextSiblingElement(nm) == nnel, "NextSiblingElement(" + nm + ")");
    CHK(x.IterateChildren(&y) == y.NextSibling() && x.IterateChildren(nm, &y) == nx, "IterateChildren from a child on");
  }
  CHK(h.Child(pos).ToNode() == (pos < (int)n.ch.size() ? n.ch[pos]->x : 0), "TiXmlHandle::Child");
  const TiXmlNode *nth = 0;
  k = 0;
  for (auto &q : n.ch)
    if (q->k == ELEM && val(*q) == nm && k++ == pos)
      nth = q->x;
  CHK(h.ChildElement(nm.c_str(), pos).ToElement() == nth && h.ChildElement(nm, pos).ToElement() == nth, "TiXmlHandle::ChildElement");
  if (n.k == ELEM) {
    const TiXmlElement *e = x.ToElement();
    const char *t = e->GetText();
    bool has = !n.ch.empty() && (n.ch[0]->k == TEXT || n.ch[0]->k == CDATA);
    CHK((t != 0) == has && (!has || n.ch[0]->v == t), "GetText");
    string an = n.at.empty() || c.chance(25) ? gen_name(c) : c.pick(n.at).first;
    const string *av = nullptr;
    for (auto &a : n.at)
      if (a.first == an)
        av = &a.second;
    const char *g = e->Attribute(an.c_str());
    CHK((g != 0) == (av != 0) && (!av || *av == g), "Attribute(" + an + ")");
    int iv = -7;
    double dv = -7;
    int ri = e->QueryIntAttribute(an.c_str(), &iv), rd = e->QueryDoubleAttribute(an.c_str(), &dv);
    if (!av)
      CHK(ri == TIXML_NO_ATTRIBUTE && rd == TIXML_NO_ATTRIBUTE && iv == -7 && dv == -7, "query of an absent attribute");
    else {
      int wi;
      double wd;
      bool oi = sscanf(av->c_str(), "%d", &wi) == 1, od = sscanf(av->c_str(), "%lf", &wd) == 1;
      CHK(ri == (oi ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && (!oi || iv == wi), "QueryIntAttribute of '" + *av + "'");
      CHK(rd == (od ? TIXML_SUCCESS : TIXML_WRONG_TYPE) && (!od || dv == wd || wd != wd), "QueryDoubleAttribute of '" + *av + "'");
    }
    more_queries(c, *e, an, av);
  }
  if (c.chance(30))
    visit(c, n);
  if (n.k == ELEM && c.chance(15) && printable(n)) { // an element on its own
    bool was = keep_ws;
    NP want = copy(n);
    TiXmlDocument back;
    back.Parse(print(x, 1).c_str());
    CHK(!back.Error() && back.RootElement(), "parsing a printed element failed");
    if (!was)
      same(c, *want, *back.RootElement(), &back, "an element printed on its own and parsed");
  }
}

static void edits(Case &c, NP &m, std::unique_ptr<TiXmlDocument> &d, int &done) {
  for (int st = c.range(1, 25); st > 0; st--) {
    vector<std::pair<Node *, Node *>> all;
    nodes(*m, all, nullptr);
    auto pr = all[c.below(all.size())];
    Node *n = pr.first, *par = pr.second;
    bool box = n->k == DOC || n->k == ELEM;
    int op = (int)c.weighted({10, 8, 12, 12, 12, 12, 3, 6, 14, 8, 6, 5, 5, 12, 6, 6});
    NP sub = gen_sub(c);
    std::unique_ptr<TiXmlNode> y;
    auto fresh = [&] { y.reset(make(*sub)); };
    switch (op) {
    case 0: // append a copy
      if (!box)
        continue;
      fresh();
      c.note("InsertEndChild under ", n->v);
      CHK(n->x->InsertEndChild(*y) != 0, "InsertEndChild refused");
      n->ch.push_back(std::move(sub));
      break;
    case 1:
      if (!box)
        continue;
      c.note("LinkEndChild under ", n->v);
      CHK(n->x->LinkEndChild(make(*sub)) != 0, "LinkEndChild refused");
      n->ch.push_back(std::move(sub));
      break;
    case 2: case 3: {
      if (!par)
        continue;
      fresh();
      bool before = op == 2, wrong = c.chance(15);
      Node *at = wrong ? all[c.below(all.size())].first : par;
      if (wrong && at->k != DOC && at->k != ELEM)
        continue;
      bool ok = at == par;
      TiXmlNode *r = before ? at->x->InsertBeforeChild(n->x, *y) : at->x->InsertAfterChild(n->x, *y);
      c.note(before ? "InsertBeforeChild " : "InsertAfterChild ", n->v, ok ? "" : " (not a child: refused)");
      CHK((r != 0) == ok, ok ? "insertion next to a child refused" : "insertion next to another element's child accepted");
      if (ok)
        par->ch.insert(par->ch.begin() + index_in(par, n) + (before ? 0 : 1), std::move(sub));
      break;
    }
    case 4: {
      if (!par)
        continue;
      fresh();
      c.note("ReplaceChild ", n->v);
      bool wrong = c.chance(10) && n->k == ELEM;
      TiXmlNode *r = wrong ? n->x->ReplaceChild(n->x, *y) : par->x->ReplaceChild(n->x, *y);
      CHK((r != 0) == !wrong, "ReplaceChild result");
      if (!wrong)
        par->ch[index_in(par, n)] = std::move(sub);
      break;
    }
    case 5:
      if (!par)
        continue;
      c.note("RemoveChild ", n->v);
      CHK(par->x->RemoveChild(n->x), "RemoveChild refused");
      par->ch.erase(par->ch.begin() + index_in(par, n));
      break;
    case 6:
      if (!box || (n->k == DOC && !c.chance(20)))
        continue;
      c.note("Clear ", n->v);
      n->x->Clear();
      n->ch.clear();
      break;
    case 7:
      if (n->k == DOC || n->k == DECL)
        continue;
      n->v = n->k == ELEM ? gen_name(c) : gen_leaf(c, n->k)->v;
      c.note("SetValue ", n->v);
      n->x->SetValue(n->v.c_str());
      break;
    case 8: {
      if (n->k != ELEM)
        continue;
      string a = n->at.empty() || c.chance(50) ? gen_name(c) : c.pick(n->at).first, v;
      TiXmlElement *e = n->x->ToElement();
      char b[64];
      switch (c.below(3)) {
      case 0:
        v = gen_attr(c);
        if (c.chance(50))
          e->SetAttribute(a.c_str(), v.c_str());
        else
          e->SetAttribute(a, v);
        break;
      case 1: {
        int i = c.chance(20) ? c.pick(vector<int>{2147483647, -2147483647 - 1}) : c.range(-1000, 1000);
        if (c.chance(50))
          e->SetAttribute(a.c_str(), i);
        else
          e->SetAttribute(a, i);
        v = std::to_string(i);
        int back = 0;
        CHK(e->QueryIntAttribute(a.c_str(), &back) == TIXML_SUCCESS && back == i, "an int attribute does not read back");
        break;
      }
      default: {
        double x = c.chance(20) ? c.pick(vector<double>{1e300, -1e-300, 123456789.0}) : c.real(100);
        if (c.chance(50))
          e->SetDoubleAttribute(a.c_str(), x);
        else
          e->SetDoubleAttribute(a, x);
        snprintf(b, sizeof b, "%g", x);
        v = b;
        double back = 0;
        CHK(e->QueryDoubleAttribute(a.c_str(), &back) == TIXML_SUCCESS && std::fabs(back - x) <= 1e-5 * std::fabs(x), "a double attribute does not read back");
      }
      }
      c.note("SetAttribute ", a, " = ", v);
      bool found = false;
      for (auto &p : n->at)
        if (p.first == a) {
          p.second = v;
          found = true;
        }
      if (!found)
        n->at.push_back({a, v});
      break;
    }
    case 9: {
      if (n->k != ELEM)
        continue;
      string a = n->at.empty() || c.chance(25) ? gen_name(c) : c.pick(n->at).first;
      c.note("RemoveAttribute ", a);
      if (c.chance(50))
        n->x->ToElement()->RemoveAttribute(a.c_str());
      else
        n->x->ToElement()->RemoveAttribute(a);
      for (size_t i = 0; i < n->at.size(); i++)
        if (n->at[i].first == a) {
          n->at.erase(n->at.begin() + i);
          break;
        }
      break;
    }
    case 10: { // clone somewhere else in the tree
      if (n->k == DOC || n->k == DECL)
        continue;
      Node *to = all[c.below(all.size())].first;
      if (to->k != ELEM && to->k != DOC)
        continue;
      c.note("Clone ", n->v, " under ", to->v);
      NP cp = copy(*n);
      std::unique_ptr<TiXmlNode> q;
      if (c.chance(50))
        q.reset(n->x->Clone());
      else if (n->k == ELEM)
        q.reset(new TiXmlElement(*n->x->ToElement()));
      else if (n->k == COMMENT)
        q.reset(new TiXmlComment(*n->x->ToComment()));
      else if (n->k == UNKNOWN)
        q.reset(new TiXmlUnknown(*n->x->ToUnknown()));
      else
        q.reset(new TiXmlText(*n->x->ToText()));
      same(c, *cp, *q, 0, "a clone");
      same(c, *m, *d, 0, "the original after cloning");
      CHK(to->x->LinkEndChild(q.release()) != 0, "linking a clone refused");
      to->ch.push_back(std::move(cp));
      break;
    }
    case 11: { // the whole document is copied; the copy lives on
      c.note("copy of the document");
      std::unique_ptr<TiXmlDocument> e;
      switch (c.below(3)) {
      case 0: e.reset(new TiXmlDocument(*d)); break;
      case 1:
        e.reset(new TiXmlDocument("other"));
        e->LinkEndChild(new TiXmlElement("gone"));
        *e = *d;
        break;
      default: e.reset(static_cast<const TiXmlNode &>(*d).Clone()->ToDocument());
      }
      NP was = copy(*m);
      same(c, *was, *e, 0, "a copy of the document");
      if (c.chance(60))
        d.swap(e); // the original goes away
      break;
    }
    case 12: { // a document cannot be a child
      if (!box)
        continue;
      c.note("inserting a document");
      TiXmlDocument other;
      TiXmlDocument *const doc = n->x->GetDocument();
      auto refused = [&](TiXmlNode *r) { // nothing inserted, and the document says so
        CHK(r == 0, "a document was accepted as a child");
        if (doc) {
          CHK(doc->Error() && doc->ErrorId() == TiXmlBase::TIXML_ERROR_DOCUMENT_TOP_ONLY, "the refused document is not reported as an error");
          doc->ClearError();
        }
      };
      { // nor of an element that is in no document
        TiXmlElement lone("lone");
        TiXmlNode *kid = lone.InsertEndChild(TiXmlText("t"));
        CHK(lone.InsertEndChild(other) == 0 && lone.LinkEndChild(new TiXmlDocument) == 0 && lone.InsertBeforeChild(kid, other) == 0 && lone.InsertAfterChild(kid, other) == 0 &&
                lone.ReplaceChild(kid, other) == 0 && lone.FirstChild() == kid && kid->NextSibling() == 0,
            "a document was accepted as a child of a loose element");
      }
      refused(n->x->InsertEndChild(other));
      refused(n->x->LinkEndChild(new TiXmlDocument("linked")));
      if (par) {
        refused(par->x->InsertAfterChild(n->x, other));
        refused(par->x->InsertBeforeChild(n->x, other));
        refused(par->x->ReplaceChild(n->x, other));
      }
      break;
    }
    case 14: { // a node takes over another node's content
      if (n->k == DOC)
        continue;
      int b = 6;
      NP other;
      if (n->k == DECL) {
        other.reset(new Node);
        other->k = DECL;
        other->at = {{"version", "1.0"}, {"encoding", c.pick(vector<string>{"", "UTF-8"})}, {"standalone", c.pick(vector<string>{"", "yes"})}};
      } else
        other = n->k == ELEM ? gen_elem(c, 3, b) : gen_leaf(c, n->k == TEXT || n->k == CDATA ? (c.chance(50) ? TEXT : CDATA) : n->k);
      std::unique_ptr<TiXmlNode> y2(make(*other));
      c.note("assign ", show(*other), " to ", n->v);
      switch (n->k) {
      case ELEM: *n->x->ToElement() = *y2->ToElement(); break;
      case COMMENT: *n->x->ToComment() = *y2->ToComment(); break;
      case UNKNOWN: *n->x->ToUnknown() = *y2->ToUnknown(); break;
      case DECL: *n->x->ToDeclaration() = *y2->ToDeclaration(); break;
      default: *n->x->ToText() = *y2->ToText();
      }
      same(c, *copy(*other), *y2, 0, "the node assigned from");
      n->k = other->k;
      n->v = other->v;
      n->at = other->at;
      n->ch = std::move(other->ch);
      break;
    }
    case 15: { // through the attribute object
      if (n->k != ELEM || n->at.empty())
        continue;
      size_t i = c.below(n->at.size());
      TiXmlAttribute *a = n->x->ToElement()->FirstAttribute();
      for (size_t j = 0; j < i; j++)
        a = a->Next();
      string &v = n->at[i].second;
      char b[64];
      switch (c.below(5)) {
      case 0: v = gen_attr(c); a->SetValue(v.c_str()); break;
      case 1: v = gen_attr(c); a->SetValue(v); break;
      case 2: {
        int k = c.range(-100000, 100000);
        a->SetIntValue(k);
        v = std::to_string(k);
        break;
      }
      case 3: {
        double k = c.real(1000);
        a->SetDoubleValue(k);
        snprintf(b, sizeof b, "%g", k);
        v = b;
        break;
      }
      default: {
        string nm = gen_name(c);
        bool dup = false;
        for (auto &p : n->at)
          dup = dup || p.first == nm;
        if (!dup) {
          if (c.chance(50))
            a->SetName(nm);
          else
            a->SetName(nm.c_str());
          n->at[i].first = nm;
        }
      }
      }
      c.note("attribute #", i, " is now ", n->at[i].first, " = ", v);
      break;
    }
    default:
      queries(c, *n);
      continue;
    }
    done++;
    same(c, *m, *d, 0, "after the edit");
    if (c.chance(25)) {
      all.clear();
      nodes(*m, all, nullptr);
      queries(c, *all[c.below(all.size())].first);
    }
  }
}

// one node parsed on its own: the node as written, and the place behind it
static void direct(Case &c) {
  int b = 6;
  Kind k = c.pick(vector<Kind>{ELEM, ELEM, ELEM, COMMENT, CDATA, UNKNOWN, DECL});
  NP n;
  if (k == DECL) {
    n.reset(new Node);
    n->k = DECL;
    n->at = {{"version", "1.0"}, {"encoding", c.pick(vector<string>{"", "UTF-8"})}, {"standalone", c.pick(vector<string>{"", "yes"})}};
  } else
    n = k == ELEM ? gen_elem(c, 2, b) : gen_leaf(c, k);
  string t;
  write(c, *n, t);
  const size_t len = t.size();
  t += c.pick(vector<string>{"", "tail", "<next/>", " ", "\n<a>", "</up>"});
  c.note("one node:\n", t);
  std::unique_ptr<TiXmlNode> x;
  switch (k) {
  case COMMENT: x.reset(new TiXmlComment); break;
  case UNKNOWN: x.reset(new TiXmlUnknown); break;
  case DECL: x.reset(new TiXmlDeclaration); break;
  case CDATA: x.reset(new TiXmlText("")); break;
  default: x.reset(new TiXmlElement(""));
  }
  if (k == CDATA)
    x->ToText()->SetCDATA(true);
  TiXmlEncoding enc = c.chance(50) ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN;
  const char *end = x->Parse(t.c_str(), 0, enc);
  CHK(end == t.c_str() + len || (!end && len == t.size()), "parsing one node stopped at another place: " + (end ? std::to_string(end - t.c_str()) : string("nowhere")) + " not " + std::to_string(len));
  same(c, *n, *x, 0, "one node parsed on its own");
  if (k != CDATA) { // what does not start one is refused
    string no = c.pick(vector<string>{"", "text", "a='1'/>", "  ", "=", ">", "!--x-->", "?xml?>"});
    CHK(x->Parse(no.c_str(), 0, enc) == 0, "a text that does not start with such a node is accepted: " + no);
  }
  c.label("one node on its own");
  c.nontrivial = true;
}
static void prop(Case &c) {
  if (c.chance(5)) {
    direct(c);
    return;
  }
  KeepWs ws_mode(c.chance(10));
  if (keep_ws)
    c.label("white space kept");
  switch (c.weighted({40, 30, 30})) {
  case 0: { // built through the API, printed, parsed
    NP m = gen_doc(c);
    c.note(show(*m));
    std::unique_ptr<TiXmlDocument> d(make(*m)->ToDocument());
    same(c, *m, *d, 0, "as built");
    roundtrip(c, *m, *d);
    c.nontrivial = count(*m) >= 4;
    c.label("round trip");
    break;
  }
  case 1: { // written by the model in any style, parsed
    NP m = gen_doc(c);
    c.note(show(*m));
    string t = write(c, *m);
    c.note("text:\n", t);
    TiXmlDocument d;
    int tab = c.chance(30) ? c.range(1, 9) : 4;
    if (tab != 4)
      d.SetTabSize(tab);
    d.Parse(t.c_str());
    CHK(!d.Error(), string("parsing failed: ") + d.ErrorDesc());
    same(c, *m, d, 0, "after parsing");
    Places pl(t, tab);
    bool utf8 = !m->ch.empty() && m->ch[0]->k == DECL;
    places(c, *m, pl, utf8);
    if (c.chance(15)) { // the nodes of a copy remember where they were read
      TiXmlDocument k(d);
      same(c, *m, k, 0, "copy after parsing");
      places(c, *m, pl, utf8, false);
      same(c, *m, d, 0, "after a copy was made");
    }
    roundtrip(c, *m, d);
    c.nontrivial = count(*m) >= 4;
    c.label("foreign text");
    break;
  }
  default: {
    NP m = gen_doc(c);
    std::unique_ptr<TiXmlDocument> d;
    if (c.chance(50))
      d.reset(make(*m)->ToDocument());
    else {
      d.reset(new TiXmlDocument);
      d->Parse(write(c, *m).c_str());
    }
    same(c, *m, *d, 0, "to start with");
    c.note(show(*m));
    int done = 0;
    edits(c, m, d, done);
    if (printable(*m)) {
      roundtrip(c, *m, *d);
      c.label("edited, then round trip");
    }
    c.nontrivial = done >= 3;
    c.label("edit history");
    break;
  }
  }
}
VP_PROP("C20", "40% random documents built through the API, printed one of three ways and parsed; 30% random documents written by the check in a random style (entities, quotes, white space) and parsed, then printed and parsed; 30% edit histories of 1-25 operations against a plain tree, then a round trip; non-trivial = at least 4 nodes, or 3 edits",
        prop, 120000, 6000000, 20)
