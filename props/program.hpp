// Generated programs on models and documents of their own, and the machine that
// runs them and writes a transcript (shared by C31 and C34).
#pragma once
#include "common.hpp"
#include "flat.hpp"
#include "tinyxml.h"

namespace rb {
struct Op {
  int kind = 0;
  size_t slot = 0;
  string text;                // description / document
  int rep = 1;                // done this many times in a row
  uint64_t a = 0, b = 0;      // raw selectors, reduced modulo what exists
  vector<double> num;
  vector<uint64_t> pick;
  A3 xyz{{0, 0, 0}}, rpy{{0, 0, 0}};
};
struct Program {
  vector<Op> ops;
};

struct Log { // transcript
  string s;
  void d(double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    if (std::isnan(v))
      u = ~0ull;
    s.append((const char *)&u, 8);
  }
  void t(const string &x) {
    s += x;
    s += '\n';
  }
  void m(const Eigen::MatrixXd &x) {
    for (int i = 0; i < x.rows(); i++)
      for (int j = 0; j < x.cols(); j++)
        d(x(i, j));
    s += ';';
  }
  void v(const vector<double> &x) {
    for (double y : x)
      d(y);
    s += ';';
  }
  void p(const Transform &x) {
    d(x.position.x);
    d(x.position.y);
    d(x.position.z);
    d(x.rotation.x);
    d(x.rotation.y);
    d(x.rotation.z);
    d(x.rotation.w);
  }
};
enum { LOAD, JOINTS, BASE, POSES, JAC, COM, COMJAC, INERTIA, NAMES, LIMITS, ADD, RESET, BAD, EXPORT, XML, DESTROY, ROT, SINGLE, BOX, COPY, XMLEDIT, REFUSED, NKIND };
static const char *const kName[] = {"load", "joints", "base", "poses", "jacobian", "com", "com jacobian", "inertia", "names", "limits", "add link", "reset",
                              "refused load", "export", "xml", "destroy", "rotations", "single joint", "containers", "copy", "edit document", "refused request"};

struct Machine {
  std::unique_ptr<KinematicModel> k[2];
  bool copied[2] = {true, false}; // shares parsed parts with another model: no links are added to it
  std::unique_ptr<TiXmlDocument> doc;
};

// A small step; called for real work only, so that the loop below can log it.
inline void step(Machine &M, const Op &o, vector<string> &out) {
  Log L;
  KinematicModel *k = M.k[o.slot].get();
  vector<size_t> js, ls;
  if (k) {
    size_t nj = (size_t)k->num_dof_, nl = k->links_.size();
    for (uint64_t x : o.pick) {
      if (nj) {
        size_t j = x % nj;
        if (std::find(js.begin(), js.end(), j) == js.end())
          js.push_back(j);
      }
      ls.push_back(x % nl);
    }
  }
  try {
    switch (o.kind) {
    case LOAD:
      M.k[o.slot].reset(new KinematicModel(o.text));
      M.copied[o.slot] = false;
      L.t(std::to_string(M.k[o.slot]->links_.size()));
      break;
    case DESTROY:
      M.k[o.slot].reset();
      break;
    case BAD: {
      KinematicModel x(o.text);
      L.t("accepted");
      break;
    }
    case EXPORT: {
      auto m = urdf::parseURDF(o.text);
      if (!m)
        break;
      std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m));
      TiXmlPrinter pr;
      d->Accept(&pr);
      L.t(pr.CStr());
      break;
    }
    case XML: {
      TiXmlDocument d;
      d.Parse(o.text.c_str(), nullptr, o.a % 2 ? TIXML_ENCODING_UTF8 : TIXML_ENCODING_UNKNOWN);
      L.t(d.Error() ? d.ErrorDesc() : "fine");
      L.t(std::to_string(d.ErrorRow()) + ":" + std::to_string(d.ErrorCol()));
      TiXmlPrinter pr;
      d.Accept(&pr);
      L.t(pr.CStr());
      TiXmlDocument cl(d);
      std::ostringstream os;
      os << cl;
      L.t(os.str());
      break;
    }
    case XMLEDIT: {
      if (!M.doc || !M.doc->RootElement())
        break;
      TiXmlElement *r = M.doc->RootElement();
      TiXmlElement e("extra");
      e.SetDoubleAttribute("v", o.num.empty() ? 0.5 : o.num[0]);
      e.SetAttribute("t", o.text.substr(0, 40).c_str());
      if (o.a % 3 == 0)
        r->InsertEndChild(e);
      else if (o.a % 3 == 1 && r->FirstChild())
        r->InsertBeforeChild(r->FirstChild(), e);
      else if (r->LastChild())
        r->RemoveChild(r->LastChild());
      double q = -1;
      if (TiXmlElement *f = r->FirstChildElement("extra"))
        f->QueryDoubleAttribute("v", &q);
      L.d(q);
      TiXmlPrinter pr;
      M.doc->Accept(&pr);
      L.t(pr.CStr());
      break;
    }
    case ROT: {
      urdf::Rotation q, p;
      q.setFromRPY(o.rpy[0], o.rpy[1], o.rpy[2]);
      p.setFromRPY(o.xyz[0], o.xyz[1], o.xyz[2]);
      Transform A = mk_tf(o.xyz, o.rpy), B = mk_tf(o.rpy, o.xyz), C, D;
      L.p(urdf::pose_transform(A, B));
      L.p(A.inverse());
      double r, y, w;
      (q * p).getRPY(r, y, w);
      L.v({r, y, w});
      break;
    }
    case BOX: {
      tinyfk::SizedStack<string> st(8);
      tinyfk::SizedCache<string> ca(8);
      for (uint64_t x : o.pick) {
        st.push(std::to_string(x));
        ca.set_cache(x % 8, std::to_string(x));
      }
      while (!st.empty()) {
        L.t(st.top());
        st.pop();
      }
      for (size_t i = 0; i < 8; i++)
        L.t(ca.get_cache(i) ? *ca.get_cache(i) : "-");
      break;
    }
    case COPY: {
      if (!k)
        break;
      M.k[1 - o.slot].reset(new KinematicModel(*k));
      M.copied[0] = M.copied[1] = true;
      break;
    }
    default:
      if (!k)
        break;
      switch (o.kind) {
      case JOINTS: {
        vector<double> q;
        for (size_t i = 0; i < js.size(); i++)
          q.push_back(o.num[i % o.num.size()]);
        k->set_joint_angles(js, q);
        break;
      }
      case SINGLE:
        if (!js.empty()) {
          k->set_joint_angle(js[0], o.num[0]);
          k->clear_cache();
        }
        break;
      case BASE:
        k->set_base_pose(mk_tf(o.xyz, o.rpy));
        break;
      case POSES:
        for (size_t l : ls) {
          Transform t;
          k->get_link_pose(l, t);
          L.p(t);
        }
        break;
      case JAC:
        if (!ls.empty())
          L.m(k->get_jacobian(ls[0], js, rot_of((int)(o.a % 3)), o.b % 2));
        break;
      case COM: {
        auto x = k->get_com();
        L.v({x[0], x[1], x[2]});
        break;
      }
      case COMJAC:
        L.m(k->get_com_jacobian(js, o.b % 2));
        break;
      case INERTIA:
        L.m(k->get_total_inertia_matrix());
        break;
      case NAMES: {
        vector<string> ln = k->get_link_names(), jn = k->get_joint_names();
        for (auto &x : ln)
          L.t(x);
        for (size_t i : k->get_link_ids(ln))
          L.d((double)i);
        for (size_t i : k->get_joint_ids(jn))
          L.d((double)i);
        for (auto &x : jn)
          L.t(x);
        k->get_link_ids({o.text.substr(0, 12) + "?"});
        break;
      }
      case LIMITS:
        for (auto &b : k->get_joint_position_limits(js)) {
          L.d(b.first);
          L.d(b.second);
        }
        L.v(k->get_joint_velocity_limits(js));
        L.v(k->get_joint_effort_limits(js));
        L.v(k->get_joint_angles(js));
        L.d(k->total_mass_);
        break;
      case ADD:
        if (!M.copied[o.slot] && k->links_.size() < 40)
          L.t(k->add_new_link("extra_" + std::to_string(o.a % 6), ls[0], o.xyz, o.rpy)->name);
        break;
      case RESET:
        k->set_init_angles();
        break;
      case REFUSED: { // names that do not exist, or exist already
        string none = o.text.substr(0, 12) + "?" + string(o.b % 60, 'n'), what;
        vector<string> names = o.a % 2 ? k->get_joint_names() : k->get_link_names();
        names.insert(names.begin() + (long)(o.b % (names.size() + 1)), none);
        switch (o.a % 4) {
        case 0: k->get_link_ids(names); break;
        case 1: k->get_joint_ids(names); break;
        case 2: k->add_new_link(k->get_link_names()[o.b % k->links_.size()], ls[0], o.xyz, o.rpy); break;
        default: k->get_joint_ids({none}); break;
        }
        L.t("accepted");
        break;
      }
      }
    }
  } catch (const std::exception &e) {
    L.t(string("exception: ") + e.what());
  }
  out.push_back(std::move(L.s));
}
inline void run(const Program &p, Machine &M, vector<string> &out) {
  for (const Op &o : p.ops)
    for (int r = 0; r < o.rep; r++) {
      if (r && M.k[o.slot])
        M.k[o.slot]->clear_cache();
      step(M, o, out);
    }
}

struct Texts {
  vector<string> robots, full; // kinematic descriptions; the whole vocabulary
};
inline Texts gen_texts(Case &c) {
  Texts T;
  for (int i = c.range(1, 3); i > 0; i--) {
    GenOpt g;
    g.max_links = 6;
    g.big_pct = 1;
    g.big_links = 20;
    T.robots.push_back(to_urdf(gen_robot(c, g)));
  }
  for (int i = c.range(1, 2); i > 0; i--) {
    DescOpt d;
    d.g.max_links = 4;
    d.g.big_pct = 0;
    d.odd_joints = true;
    T.full.push_back(to_text(el_robot(gen_desc(c, d))));
  }
  for (auto &t : T.robots)
    c.note(t);
  for (auto &t : T.full)
    c.note(t);
  return T;
}
// the same kind of operation again and again, or -1
inline int gen_theme(Case &c) {
  return c.chance(25) ? c.pick(vector<int>{POSES, JAC, COM, COMJAC, INERTIA, NAMES, LIMITS, EXPORT, XML, XMLEDIT, ROT, LOAD, BAD, COPY, ADD, JOINTS, REFUSED}) : -1;
}
inline vector<Op> gen_ops(Case &c, const Texts &T, int theme, int max_ops, int max_rep, const string &who) {
  vector<Op> ops;
  for (int n = c.range(2, max_ops); n > 0; n--) {
    Op o;
    o.kind = (int)c.weighted({14, 10, 6, 14, 9, 6, 4, 5, 4, 4, 6, 3, 4, 7, 5, 3, 4, 2, 2, 3, 4, 4});
    if (ops.empty() && c.chance(70))
      o.kind = LOAD;
    else if (theme >= 0 && c.chance(60)) {
      o.kind = theme;
      o.rep = c.range(1, max_rep);
    }
    o.slot = theme >= 0 ? 0 : c.below(2);
    o.a = c.below(1000);
    o.b = c.below(1000);
    for (int i = c.range(1, 6); i > 0; i--)
      o.pick.push_back(c.below(1000));
    for (int i = c.range(1, 3); i > 0; i--)
      o.num.push_back(c.angle());
    o.xyz = gen_vec(c, 3);
    o.rpy = gen_rpy(c);
    if (o.kind == LOAD || o.kind == NAMES || o.kind == XMLEDIT || o.kind == REFUSED)
      o.text = c.pick(T.robots);
    else if (o.kind == EXPORT || o.kind == XML)
      o.text = c.chance(70) ? c.pick(T.full) : c.pick(T.robots);
    if (o.kind == BAD || (o.kind == XML && c.chance(30))) {
      o.text = c.chance(50) ? c.pick(T.full) : c.pick(T.robots);
      if (c.chance(60))
        o.text.resize(c.below(o.text.size()));
      else {
        size_t at = c.below(o.text.size());
        o.text.replace(at, 1 + c.below(4), c.pick(vector<string>{"", "x", "1..2", "<", "&#x41;", "\""}));
      }
    }
    c.note(who, kName[o.kind], " on ", o.slot, " times ", o.rep, " a=", o.a, " b=", o.b, o.kind == BAD || o.kind == XML ? "\n" + o.text : string());
    ops.push_back(std::move(o));
  }
  return ops;
}
} // namespace rb
