// C35: documents in files.  Loading a file is parsing its text with line ends
// made uniform; saving writes the document; what cannot be done is reported.
#include "common.hpp"
#include "desc.hpp"
#include "tinyxml.h"
#include <fstream>
#include <unistd.h>
using namespace rb;

static const string &scratch() {
  static const string d = [] {
    const char *t = getenv("TMPDIR");
    string s = string(t && *t ? t : "/tmp") + "/c35-XXXXXX";
    vector<char> b(s.begin(), s.end());
    b.push_back(0);
    if (!mkdtemp(b.data()))
      throw vp::Discard();
    return string(b.data());
  }();
  return d;
}
struct Temp {
  string p;
  explicit Temp(const string &n) : p(scratch() + "/" + n) {}
  ~Temp() { unlink(p.c_str()); }
};
static string uniform(const string &s) { // CR LF and CR become LF; a null byte ends the text
  string o;
  for (size_t i = 0; i < s.size() && s[i]; i++)
    if (s[i] == '\r') {
      o += '\n';
      if (i + 1 < s.size() && s[i + 1] == '\n')
        i++;
    } else
      o += s[i];
  return o;
}
static string squeezed(const string &s) { // blanks inside ordinary text count as one
  string o;
  for (char ch : s)
    if (!isspace((unsigned char)ch))
      o += ch;
    else if (!o.empty() && o.back() != ' ')
      o += ' ';
  while (!o.empty() && o.back() == ' ')
    o.pop_back();
  return o;
}
static void tree(const TiXmlNode *n, string &o, bool places = true) {
  if (!places && n->ToText() && !n->ToText()->CDATA()) {
    string t = squeezed(n->ValueStr());
    if (!t.empty())
      o += "\ntext " + t + "\n";
    return;
  }
  o += std::to_string(n->Type());
  if (places)
    o += "@" + std::to_string(n->Row()) + ":" + std::to_string(n->Column());
  if (n->Type() != TiXmlNode::TINYXML_DOCUMENT)
    o += " " + n->ValueStr();
  if (auto *t = n->ToText())
    o += t->CDATA() ? " cdata" : "";
  if (auto *d = n->ToDeclaration())
    o += string(" ") + d->Version() + "|" + d->Encoding() + "|" + d->Standalone();
  if (auto *e = n->ToElement())
    for (auto *a = e->FirstAttribute(); a; a = a->Next())
      o += string(" ") + a->Name() + "=" + a->Value() + (places ? "@" + std::to_string(a->Row()) + ":" + std::to_string(a->Column()) : string());
  o += "\n(";
  for (auto *k = n->FirstChild(); k; k = k->NextSibling())
    tree(k, o, places);
  o += ")";
}
static string whole(const TiXmlDocument &d) {
  string o = d.Error() ? "error " + std::to_string(d.ErrorId()) + " " + d.ErrorDesc() + " at " + std::to_string(d.ErrorRow()) + ":" + std::to_string(d.ErrorCol()) + "\n" : "fine\n";
  tree(&d, o);
  return o;
}
static bool well_formed(const string &s) { // as UTF-8
  for (size_t i = 0; i < s.size();) {
    unsigned char b = (unsigned char)s[i];
    size_t n = b < 0x80 ? 1 : b >= 0xC2 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF5 ? 4 : 0;
    if (!n || i + n > s.size())
      return false;
    for (size_t k = 1; k < n; k++)
      if (((unsigned char)s[i + k] & 0xC0) != 0x80)
        return false;
    i += n;
  }
  return true;
}
static string content(const TiXmlDocument &d) { // without the places
  string o;
  tree(&d, o, false);
  return o;
}
static string gen_doc(Case &c) {
  DescOpt o;
  o.g.max_links = 4;
  o.g.big_pct = 2;
  o.g.big_links = 60;
  El e = el_robot(gen_desc(c, o));
  string t = c.chance(50) ? to_text(e) : to_styled(c, e, gen_style(c));
  if (c.chance(30)) // line ends inside values and texts
    for (int k = c.range(1, 6); k > 0; k--)
      t.insert(c.below(t.size() + 1), c.pick(vector<string>{"\r", "\n", "\r\n", "\r\r\n", "\n\r", "\t", " "}));
  switch (c.range(0, 4)) { // line ends as written by different systems
  case 0: break;
  case 1: case 2: {
    string u;
    bool mac = c.chance(40);
    for (char ch : t)
      if (ch == '\n')
        u += mac ? "\r" : "\r\n";
      else
        u += ch;
    t = u;
    break;
  }
  default:
    for (int k = c.range(0, 12); k > 0; k--) {
      size_t p = t.find('\n', c.below(t.size() + 1));
      if (p != string::npos)
        t.replace(p, 1, c.pick(vector<string>{"\r", "\r\n", "\n\n", "\r\r"}));
    }
  }
  if (c.chance(25)) // damaged
    for (int k = c.range(1, 3); k > 0; k--)
      switch (c.range(0, 3)) {
      case 0: t.resize(c.below(t.size() + 1)); break;
      case 1: t.insert(c.below(t.size() + 1), c.pick(vector<string>{"<", ">", "&", "\"", "<a>", "</a>", "<!--", "<![CDATA[", "\xC3", "\xFF"})); break;
      case 2:
        if (!t.empty())
          t.erase(c.below(t.size()), 1 + c.below(5));
        break;
      default: t.insert(c.below(t.size() + 1), 1, '\0');
      }
  if (c.chance(6))
    t = c.pick(vector<string>{"", "\r", "\r\n", "\n", "\xEF\xBB\xBF", string(1, '\0'), " ", "<a/>", "<a/>\r", "x"});
  if (c.chance(8))
    t = "\xEF\xBB\xBF" + t;
  return t;
}
static bool load(Case &c, TiXmlDocument &d, const string &path, TiXmlEncoding enc, string &how) {
  switch (c.range(0, 3)) {
  case 0: how = "path"; return d.LoadFile(path.c_str(), enc);
  case 1: how = "string"; return d.LoadFile(path, enc);
  case 2:
    how = "own name";
    d.SetValue(path.c_str());
    return d.LoadFile(enc);
  default: {
    how = "handle";
    FILE *f = fopen(path.c_str(), c.chance(50) ? "rb" : "r+");
    if (f && c.chance(30)) // wherever it stood before
      fseek(f, (long)c.below(20), SEEK_SET);
    bool r = d.LoadFile(f, enc);
    if (f)
      fclose(f);
    return r;
  }
  }
}
static void prop(Case &c) {
  string text = gen_doc(c);
  TiXmlEncoding enc = c.pick(vector<TiXmlEncoding>{TIXML_DEFAULT_ENCODING, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY});
  TiXmlDocument d;
  switch (c.range(0, 4)) { // what the document held before
  case 1: d.Parse("<old a='1'>\n<kid/>text</old>"); break;
  case 2: d.Parse("<old a='1'>\n<kid"); break;
  case 3: d.LoadFile((scratch() + "/none").c_str()); break;
  case 4: d.Parse("\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\"?><x/>"); break;
  default: break;
  }
  int kind = (int)c.weighted({60, 14, 12, 14});
  c.note("kind ", kind, " encoding ", (int)enc, ", ", text.size(), " bytes:\n", text.substr(0, 6000));
  c.nontrivial = true;
  if (kind == 0) { // a file is its text
    Temp f("in.xml");
    std::ofstream(f.p, std::ios::binary) << text;
    string how, u = uniform(text);
    bool tabs = c.chance(30);
    int ts = tabs ? c.range(0, 8) : 4;
    d.SetTabSize(ts);
    bool ok = load(c, d, f.p, enc, how);
    c.note("loaded by ", how);
    TiXmlDocument want;
    want.SetTabSize(ts);
    if (text.empty()) {
      c.check(!ok && d.Error() && *d.ErrorDesc(), "an empty file was loaded");
      c.check(!d.FirstChild(), "an empty file was loaded, but the document still holds something");
      c.label("empty file");
      return;
    }
    want.Parse(u.c_str(), nullptr, enc);
    c.check(ok == !want.Error(), "what LoadFile returns, loaded by " + how);
    c.check(ok == !d.Error(), "LoadFile returns another thing than the state of the document");
    string a = whole(d), b = whole(want);
    if (a != b) {
      size_t i = 0;
      while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
      size_t s = i < 60 ? 0 : i - 60;
      c.fail("a file loaded by " + how + " gives ..." + a.substr(s, 140) + "... but its text gives ..." + b.substr(s, 140));
    }
    c.label(ok ? "file loaded" : "file with errors");
    c.nontrivial = text.size() > 8;
    return;
  }
  if (kind == 1) { // files that cannot be loaded
    int w = c.range(0, 4);
    string p = w == 0 ? scratch() + "/missing.xml" : w == 1 ? scratch() : w == 2 ? scratch() + "/no/such/x.xml" : w == 3 ? "/dev/null" : "";
    bool r, threw = false;
    string how = "null handle", ex;
    try {
      if (w == 4 && c.chance(50))
        r = d.LoadFile((FILE *)nullptr, enc);
      else
        r = load(c, d, p, enc, how);
    } catch (const std::exception &e) {
      threw = true;
      ex = e.what();
    }
    c.note("from \"", p, "\" by ", how);
    c.check(!threw, "loading what cannot be loaded ends in an exception: " + ex);
    c.check(!r && d.Error() && d.ErrorDesc() && *d.ErrorDesc(), "loading what cannot be loaded is not reported (" + how + " " + p + ")");
    // and the document is good for the next text
    TiXmlDocument want;
    string u = uniform(text);
    Temp f("next.xml");
    std::ofstream(f.p, std::ios::binary) << u;
    d.LoadFile(f.p.c_str(), enc);
    want.LoadFile(f.p.c_str(), enc);
    if (!u.empty())
      c.check(whole(d) == whole(want), "a document that could not be loaded spoils the next one");
    c.label("cannot be loaded");
    return;
  }
  TiXmlDocument src;
  {
    TiXmlDocument probe;
    probe.Parse(uniform(text).c_str(), nullptr, enc);
    if (probe.Error() && c.chance(80))
      text = "<a b='1'>\n <c/>text</a>";
  }
  src.Parse(uniform(text).c_str(), nullptr, enc);
  if (kind == 2) { // places that cannot be written
    int w = c.range(0, 3);
    string p = w == 0 ? scratch() + "/no/such/x.xml" : w == 1 ? scratch() : "/dev/full";
    bool r;
    bool anything = src.FirstChild() != nullptr;
    if (w == 3) {
      FILE *f = fopen("/dev/full", "w");
      if (!f)
        throw vp::Discard();
      r = src.SaveFile(f);
      fclose(f);
    } else
      r = src.SaveFile(p.c_str());
    c.note("save to ", p);
    if (w >= 2 && !anything) // nothing to write: nothing can fail
      return;
    c.check(!r, "saving to " + p + " did not work but is not reported");
    c.label("cannot be saved");
    return;
  }
  bool bom = enc == TIXML_ENCODING_UNKNOWN && uniform(text).compare(0, 3, "\xEF\xBB\xBF") == 0;
  // saving writes the same whatever way, and leaves the document alone
  string before = whole(src), got[3];
  for (int i = 0; i < 3; i++) {
    Temp f("out.xml");
    if (c.chance(40))
      std::ofstream(f.p) << string(c.below(3000), '#'); // an older file of any length
    bool r;
    if (i == 0)
      r = src.SaveFile(f.p.c_str());
    else if (i == 1) {
      FILE *h = fopen(f.p.c_str(), "w");
      if (!h)
        throw vp::Discard();
      r = src.SaveFile(h);
      fclose(h);
    } else
      r = src.SaveFile(f.p);
    c.check(r, "saving failed");
    std::ifstream in(f.p, std::ios::binary);
    got[i].assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    // a byte-order mark that was read is written, and none that was not
    c.check((got[i].compare(0, 3, "\xEF\xBB\xBF") == 0) == bom, bom ? "the byte-order mark is not written" : "a byte-order mark is written that was not read");
    if (i == 0 && src.FirstChild()) {
      TiXmlDocument back, want;
      back.LoadFile(f.p.c_str());
      want.Parse(uniform(got[0]).c_str());
      c.check(whole(back) == whole(want), "a saved file loaded again differs from its text");
      if (!src.Error() && well_formed(text)) {
        TiXmlDocument b2;
        c.check(b2.LoadFile(f.p.c_str(), enc), "a saved file cannot be loaded again");
        string x = content(src), y = content(b2);
        if (x != y)
          c.fail("a saved file loaded again is another document:\n" + x + "\n---\n" + y + "\nfile:\n" + got[0]);
      }
    }
  }
  c.check(got[0] == got[1] && got[0] == got[2], "saving by name and by handle write different files");
  c.check(whole(src) == before, "saving changed the document");
  c.label("saved");
  c.nontrivial = src.FirstChild() != nullptr;
}
VP_PROP("C35", "random document texts (styled and damaged descriptions, any mixture of line ends, byte-order marks, null bytes) stored in a scratch file and loaded by name, string, own name or handle into fresh or used documents, compared node by node and position by position with parsing the text; files that cannot be loaded or saved (missing, folder, device, full disk, no handle); saving by name and handle; non-trivial = more than 8 bytes, or a document with content",
        prop, 60000, 1000000, 20)
