// C28: loading from a file equals loading from its text.
#include "common.hpp"
#include "flat.hpp"
#include <cstdlib>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace rb;
static string scratch() {
  static string d;
  if (d.empty()) {
    const char *t = getenv("TMPDIR");
    string s = string(t && *t ? t : "/tmp") + "/c28-XXXXXX";
    vector<char> b(s.begin(), s.end());
    b.push_back(0);
    if (!mkdtemp(b.data()))
      throw vp::Discard();
    d = b.data();
  }
  return d;
}
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 6;
  o.g.big_pct = 6;
  o.g.big_links = 60;
  Desc d = gen_desc(c, o);
  string text = to_text(el_robot(d));
  // layout of the file
  int eol = c.range(0, 3); // \n, \r\n, mixed, everything on one line
  string body;
  for (char ch : text) {
    if (ch == '\n') {
      if (eol == 1 || (eol == 2 && c.chance(40)))
        body += "\r\n";
      else if (eol == 3)
        body += ' ';
      else
        body += '\n';
    } else
      body += ch;
  }
  int tail = c.range(0, 3);
  while (!body.empty() && (body.back() == '\n' || body.back() == '\r'))
    body.pop_back();
  if (tail == 1)
    body += "\n";
  else if (tail == 2)
    body += "\n\n\n";
  else if (tail == 3)
    body += "\r\n  ";
  if (c.chance(8)) // a long line
    body += "<!-- " + string(c.range(1, 20000), 'x') + " -->";
  if (c.chance(8))
    body = "\xEF\xBB\xBF" + body;
  static const vector<string> fn = {"r.urdf", "with space.urdf", "\xC3\xA9.xml", "noext", ".hidden", "a&b'\"<>.urdf", "very_long_name_very_long_name_very_long_name_very_long_name_very_long_name_very_long_name"};
  string dir = scratch() + "/" + std::to_string(getpid()), path = dir + "/" + c.pick(fn);
  mkdir(dir.c_str(), 0755);
  struct Clean {
    string p, d;
    ~Clean() {
      unlink(p.c_str());
      rmdir(d.c_str());
    }
  } clean{path, dir};
  int bad = c.chance(25) ? c.range(1, 4) : 0;
  c.note("file ", path, " eol=", eol, " tail=", tail, " bad=", bad, "\n", body);
  string use = path;
  if (bad == 1) { // missing
  } else if (bad == 2) {
    use = dir; // a directory
  } else if (bad == 3) { // empty
    std::ofstream f(path.c_str(), std::ios::binary);
  } else if (bad == 4) { // a path through a file
    std::ofstream(path.c_str(), std::ios::binary) << body;
    use = path + "/x.urdf";
  } else {
    std::ofstream f(path.c_str(), std::ios::binary);
    f << body;
  }
  if (bad) {
    bool model = false, threw = false;
    try {
      model = (bool)urdf::parseURDFFile(use);
    } catch (const std::exception &) { // an error report as well
    }
    c.check(!model, "parseURDFFile gave a model for a file that cannot be one");
    try {
      KinematicModel k(tinyfk::load_urdf(use));
    } catch (const std::exception &) {
      threw = true;
    }
    c.check(threw, "loading a missing, unreadable or empty file gave a model");
    c.label("unusable file");
    c.nontrivial = true;
    return;
  }
  auto want = urdf::parseURDF(body), got = urdf::parseURDFFile(path);
  c.check((bool)want, "a valid description was refused");
  c.check((bool)got, "parseURDFFile refused a file whose text is a valid description");
  same_flat(c, flatten(c, *got), flatten(c, *want), 0, 0, 0, "parseURDFFile against the text");
  string loaded = tinyfk::load_urdf(path);
  auto viaf = urdf::parseURDF(loaded);
  c.check((bool)viaf, "the text returned by load_urdf was refused");
  same_flat(c, flatten(c, *viaf), flatten(c, *want), 0, 0, 0, "load_urdf against the text");
  if (eol == 0) // (line ends inside values are kept as written)
    same_flat(c, flatten(c, *viaf), expect(d), 0, 1e-12, 1e-12, "load_urdf against the generated structure");
  KinematicModel a(body), b(loaded);
  c.check(a.get_link_names() == b.get_link_names() && a.get_joint_names() == b.get_joint_names() && a.total_mass_ == b.total_mass_,
          "model loaded from the file differs from the one loaded from the text");
  c.nontrivial = d.r.links.size() >= 2;
  c.label(tail == 0 ? "no final newline" : "final newline");
}
VP_PROP("C28", "random description stored in a scratch file with a random layout (line endings, final newline, long line, byte-order mark, odd file name) or an unusable file (missing, directory, empty, path through a file); non-trivial = unusable file, or a robot of at least two links",
        prop, 12000, 300000, 20)
