// C15: rigid transforms obey the group laws.
#include "common.hpp"
using namespace rb;
using urdf::Pose;
using urdf::Rotation;
using urdf::Vector3;

static M<double> mat(const Rotation &q) {
  M<double> r;
  quat_mat(q, r.m);
  return r;
}
static double norm2(const Rotation &q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
static void same_rot(Case &c, const M<double> &a, const M<double> &b, double tol, const char *what) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c.near(a.m[i][j], b.m[i][j], tol, what);
}
static void same_vec(Case &c, const Vector3 &a, const V<double> &b, double tol, const char *what) {
  c.near(a.x, b[0], tol, what);
  c.near(a.y, b[1], tol, what);
  c.near(a.z, b[2], tol, what);
}
static V<double> vv(const Vector3 &a) { return V<double>(a.x, a.y, a.z); }

// a rotation in one of the ways the library offers to make one
static Rotation gen_rot(Case &c, M<double> &ref, string &how, double &noise) {
  noise = 1;
  switch (c.weighted({10, 30, 20, 20, 12, 8})) {
  case 0: {
    how = "identity";
    ref = M<double>::eye();
    return Rotation();
  }
  case 1: {
    A3 e = gen_rpy(c);
    how = "rpy " + v3(e);
    noise += std::fabs(e[0]) + std::fabs(e[1]) + std::fabs(e[2]);
    ref = rot_rpy(e[0], e[1], e[2]);
    Rotation q;
    if (c.chance(50))
      q.setFromRPY(e[0], e[1], e[2]);
    else
      q.init(v3(e));
    return q;
  }
  case 2: { // any non-zero quaternion, of any size
    double m = c.pick(vector<double>{1.0, 1e-3, 1e3, 1e-100, 1e100});
    double a[4] = {c.real(1), c.real(1), c.real(1), c.real(1)};
    if (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] < 1e-6)
      a[c.below(4)] = c.chance(50) ? -1 : 1;
    Rotation q;
    q.setFromQuaternion(a[0] * m, a[1] * m, a[2] * m, a[3] * m);
    how = "quaternion " + num(a[0]) + " " + num(a[1]) + " " + num(a[2]) + " " + num(a[3]) + " times " + num(m);
    Rotation raw(a[0], a[1], a[2], a[3]);
    ref = mat(raw);
    return q;
  }
  case 3: { // axis and angle
    A3 ax = gen_axis(c);
    double t = c.angle();
    how = "axis " + v3(ax) + " angle " + num(t);
    noise += std::fabs(t);
    ref = rot_axis(ax, t);
    return Rotation(ax[0] * std::sin(t / 2), ax[1] * std::sin(t / 2), ax[2] * std::sin(t / 2), std::cos(t / 2));
  }
  case 4: { // half turns and quarter turns
    A3 e{{c.range(-4, 4) * PI / 2, c.range(-4, 4) * PI / 2, c.range(-4, 4) * PI / 2}};
    how = "rpy " + v3(e);
    noise += std::fabs(e[0]) + std::fabs(e[1]) + std::fabs(e[2]);
    ref = rot_rpy(e[0], e[1], e[2]);
    Rotation q;
    q.setFromRPY(e[0], e[1], e[2]);
    return q;
  }
  default: { // next to a pitch of a quarter turn
    double off = c.pick(vector<double>{0.0, 1e-9, 1e-5, 1e-3, 0.003, 0.0044, 0.0046, 0.01});
    A3 e{{c.angle(), (c.chance(50) ? 1 : -1) * (PI / 2 + (c.chance(50) ? off : -off)), c.angle()}};
    how = "rpy " + v3(e);
    noise += std::fabs(e[0]) + std::fabs(e[2]);
    ref = rot_rpy(e[0], e[1], e[2]);
    Rotation q;
    q.setFromRPY(e[0], e[1], e[2]);
    return q;
  }
  }
}
static void prop(Case &c) {
  string ha, hb, hd;
  M<double> A, B, D;
  double na, nb, nd;
  Rotation a = gen_rot(c, A, ha, na), b = gen_rot(c, B, hb, nb), d = gen_rot(c, D, hd, nd);
  Vector3 v(c.real(10), c.real(10), c.real(10)), w(c.real(10), c.real(10), c.real(10));
  c.note("a: ", ha, "\nb: ", hb, "\nd: ", hd, "\nv: ", num(v.x), " ", num(v.y), " ", num(v.z), "\nw: ", num(w.x), " ", num(w.y), " ", num(w.z));
  double tol = 1e-12 * (na + nb + nd), vt = tol * 40;
  // construction
  c.near(norm2(a), 1, tol, "squared norm of a constructed rotation");
  same_rot(c, mat(a), A, tol, "constructed rotation against its matrix");
  // composition
  same_rot(c, mat(a * b), A * B, tol, "product against the matrix product");
  c.near(norm2(a * b), 1, tol, "squared norm of a product");
  same_rot(c, mat((a * b) * d), mat(a * (b * d)), tol, "associativity of rotations");
  same_rot(c, mat(a * Rotation()), A, tol, "right identity");
  same_rot(c, mat(Rotation() * a), A, tol, "left identity");
  // inverses, in every form
  Rotation ip = a;
  ip.inverse_inplace();
  for (const Rotation &inv : {a.GetInverse(), a.inverse(), ip}) {
    same_rot(c, mat(inv), tr(A), tol, "inverse against the transposed matrix");
    same_rot(c, mat(a * inv), M<double>::eye(), tol, "rotation times its inverse");
    same_rot(c, mat(inv * a), M<double>::eye(), tol, "inverse times its rotation");
    c.near(norm2(inv), 1, tol, "squared norm of an inverse");
  }
  // inverting a rotation that was given unnormalised
  double sc = c.pick(vector<double>{1, 0.5, 2, 1e-3, 1e3, 0.99, 1.01});
  Rotation raw(a.x * sc, a.y * sc, a.z * sc, a.w * sc), rawi = raw;
  rawi.inverse_inplace();
  for (const Rotation &inv : {raw.GetInverse(), raw.inverse(), rawi})
    for (const Rotation &e : {raw * inv, inv * raw}) {
      c.near(e.w, 1, tol, "scaled quaternion times its inverse");
      c.near(e.x * e.x + e.y * e.y + e.z * e.z, 0, tol, "scaled quaternion times its inverse");
    }
  // acting on vectors
  Vector3 av = a * v, aw = a * w;
  same_vec(c, av, A * vv(v), vt, "rotated vector against the matrix");
  c.near(av.x * av.x + av.y * av.y + av.z * av.z, v.x * v.x + v.y * v.y + v.z * v.z, vt * 40, "squared length of a rotated vector");
  c.near(av.x * aw.x + av.y * aw.y + av.z * aw.z, v.x * w.x + v.y * w.y + v.z * w.z, vt * 40, "inner product of rotated vectors");
  Vector3 x1, x2;
  urdf::cross_product(av, aw, x1);
  urdf::cross_product(v, w, x2);
  same_vec(c, x1, A * vv(x2), vt * 40, "cross product of rotated vectors");
  V<double> xr(v.y * w.z - v.z * w.y, v.z * w.x - v.x * w.z, v.x * w.y - v.y * w.x);
  same_vec(c, x2, xr, 1e-12, "cross product");
  same_vec(c, (a * b) * v, A * (B * vv(v)), vt, "product acting on a vector");
  // vector arithmetic
  Vector3 sum = v + w, dif = v - w, neg = v;
  neg.inverse_inplace();
  same_vec(c, sum, vv(v) + vv(w), 0, "vector sum");
  same_vec(c, dif, vv(v) - vv(w), 0, "vector difference");
  same_vec(c, neg, V<double>(-v.x, -v.y, -v.z), 0, "negated vector");
  double k = c.chance(50) ? 2 : 1 + std::fabs(c.real(9));
  same_vec(c, v / k, V<double>(v.x / k, v.y / k, v.z / k), 1e-12, "vector divided by a number");
  Vector3 iv = v;
  c.check(iv[0] == v.x && iv[1] == v.y && iv[2] == v.z, "vector component access");
  // roll, pitch, yaw read back
  double r, p, y;
  a.getRPY(r, p, y);
  Vector3 e = a.getRPY();
  c.check(e.x == r && e.y == p && e.z == y, "the two ways to read roll, pitch, yaw differ");
  Rotation back;
  back.setFromRPY(r, p, y);
  bool lock = std::fabs(A.m[2][0]) >= 0.99998;
  same_rot(c, rot_rpy(r, p, y), A, lock ? 0.02 : 1e-7 * na, "roll, pitch, yaw read back");
  same_rot(c, mat(back), A, lock ? 0.02 : 1e-7 * na, "rotation rebuilt from roll, pitch, yaw");
  if (std::fabs(A.m[2][0]) < 0.999)
    same_rot(c, mat(back), A, 1e-11 * na, "rotation rebuilt from roll, pitch, yaw");
  c.check(std::fabs(p) <= PI / 2 + 1e-12, "pitch read back is beyond a quarter turn");
  // transforms
  Pose X, Y, Z;
  X.rotation = a;
  Y.rotation = b;
  Z.rotation = d;
  X.position = v;
  Y.position = w;
  Z.position = Vector3(c.real(10), c.real(10), c.real(10));
  P<double> x, yq, z;
  x.R = A;
  x.p = vv(v);
  yq.R = B;
  yq.p = vv(w);
  z.R = D;
  z.p = vv(Z.position);
  Pose XY = urdf::pose_transform(X, Y);
  check_pose(c, XY, x * yq, vt, tol, "composed transform");
  check_pose(c, urdf::pose_transform(XY, Z), x * yq * z, vt, tol, "composed transform of three");
  same_pose(c, urdf::pose_transform(XY, Z), urdf::pose_transform(X, urdf::pose_transform(Y, Z)), vt, tol, "associativity of transforms");
  same_pose(c, urdf::pose_transform(X, Pose()), X, vt, tol, "right identity transform");
  same_pose(c, urdf::pose_transform(Pose(), X), X, vt, tol, "left identity transform");
  Pose Xi = X.inverse(), Xj = X;
  Xj.inverse_inplace();
  same_pose(c, Xi, Xj, 0, 0, "the two forms of inversion");
  check_pose(c, urdf::pose_transform(X, Xi), P<double>(), vt, tol, "transform times its inverse");
  check_pose(c, urdf::pose_transform(Xi, X), P<double>(), vt, tol, "inverse times its transform");
  c.check(X.position.x == v.x && X.rotation.w == a.w, "inverse() changed its argument");
  c.nontrivial = ha != "identity" && hb != "identity" && (v.x != 0 || v.y != 0 || v.z != 0);
  c.label(lock ? "near gimbal lock" : "away from gimbal lock");
}
VP_PROP("C15", "three random rotations (from roll/pitch/yaw, quaternions of any size, axis-angle, quarter turns, near gimbal lock) and vectors; all group laws against 3x3 matrices; non-trivial = two non-identity rotations and a non-zero vector",
        prop, 400000, 20000000, 20)
