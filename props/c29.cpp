// C29: numbers are read and written independently of the C++ global locale.
#include "common.hpp"
#include "flat.hpp"
#include "tinyxml.h"
#include <locale>
using namespace rb;
struct Punct : std::numpunct<char> {
  char dp, ts;
  string grp;
  Punct(char d, char t, string g) : dp(d), ts(t), grp(std::move(g)) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  string do_grouping() const override { return grp; }
  string do_truename() const override { return "wahr"; }
};
static string export_text(urdf::ModelInterfaceSharedPtr &m) {
  std::unique_ptr<TiXmlDocument> doc(urdf::exportURDF(m));
  TiXmlPrinter pr;
  doc->Accept(&pr);
  return pr.CStr();
}
struct Glob {
  std::locale old;
  explicit Glob(const std::locale &l) : old(std::locale::global(l)) {}
  ~Glob() { std::locale::global(old); }
};
static void prop(Case &c) {
  DescOpt o;
  o.g.max_links = 6;
  o.g.big_pct = 2;
  o.g.big_links = 20;
  Desc d = gen_desc(c, o);
  if (c.chance(50) && !d.r.joints.empty()) { // numbers with many digits before the point
    Joint &j = d.r.joints[c.below(d.r.joints.size())];
    j.has_origin = j.has_xyz = true;
    j.xyz = A3{{c.range(1000, 9999999) + 0.25, -123456.5, 98765432.0}};
  }
  string text = to_text(el_robot(d));
  static const vector<string> dps = {",", ".", ";", "'", "e", "1", " "};
  char dp = c.pick(dps)[0], ts = c.pick(vector<string>{".", ",", " ", "'", "0", "_"})[0];
  string grp = c.pick(vector<string>{string("\3"), string(), string("\1"), string("\3\2"), string("\2")});
  c.note("decimal point '", dp, "' separator '", ts, "' grouping ", grp.size() ? (int)grp[0] : 0, "\n", text);
  auto m0 = urdf::parseURDF(text);
  c.check((bool)m0, "a valid description was refused");
  Flat f0 = flatten(c, *m0);
  string x0 = export_text(m0);
  bool ok, okx;
  Flat f1;
  string x1, x2;
  double tm = 0;
  {
    Glob g(std::locale(std::locale::classic(), new Punct(dp, ts, grp)));
    auto m1 = urdf::parseURDF(text);
    ok = (bool)m1;
    if (ok) {
      x1 = export_text(m1);
      KinematicModel k(text);
      tm = k.total_mass_;
    }
    x2 = export_text(m0);
    std::locale::global(std::locale::classic());
    if (ok)
      f1 = flatten(c, *m1);
  }
  c.check(ok, "a valid description was refused under another locale");
  same_flat(c, f1, f0, 0, 0, 0, "model parsed under another locale");
  c.check(x1 == x0 && x2 == x0, "exported text depends on the locale:\n" + x1 + "\ninstead of\n" + x0);
  KinematicModel k0(text);
  c.check(tm == k0.total_mass_, "total mass depends on the locale");
  // and a locale that was in force before does not linger
  auto m2 = urdf::parseURDF(x0);
  okx = (bool)m2;
  c.check(okx && export_text(m2).size() > 0, "the export was refused");
  c.nontrivial = (dp != '.' || !grp.empty()) && d.r.links.size() >= 2;
  c.label(grp.empty() ? "no grouping" : "digit grouping");
}
VP_PROP("C29", "random description parsed and exported under a random C++ global locale (decimal point, separator, grouping) and under the classic one; non-trivial = the punctuation differs from the classic locale and the robot has at least two links",
        prop, 18000, 300000, 20)
