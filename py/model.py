"""Generated robots as plain JSON values, their URDF text, and an independent
reference model (rotation matrices; exact derivatives by complex steps)."""
import math

import numpy as np
from hypothesis import strategies as st

PI = math.pi
H = 1e-30  # complex step
STEMS = ["a", "b", "link", "joint", "base", "arm_link", "x", "Link", "z9", "_q", "l_", "0"]
ODD = ["with space", "a&b", "<lt>", 'q"uote', "it's", "\u00e9t\u00e9", "\u65e5\u672c", "dot.dash-colon:x", "#;!",
       "tab_base_com_x", "-", "CamelCase", "very_long_name_" * 5, "&amp;", "a=b", "1.5e3", "a/b", "link_com"]
SIMPLE = [0.0, 1.0, -1.0, 0.5, -0.3, 0.1, 2.0]
ANGLES = [0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, PI + 1e-9, -PI - 1e-9, PI - 1e-9, 2 * PI, 0.3, -1.1, 3 * PI, -2 * PI]


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def real(mag):
    return st.one_of(st.sampled_from(SIMPLE).map(lambda v: v * mag / 2.0), fl(-mag, mag))


ANGLE = st.one_of(st.sampled_from(ANGLES), fl(-7, 7))
PITCH = st.one_of(st.sampled_from([0.0, 0.3, -1.1, PI / 4, -1.4]), fl(-1.45, 1.45))


def vec(mag):
    return st.lists(real(mag), min_size=3, max_size=3)


RPY = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(ANGLE, min_size=3, max_size=3))
BASE6 = st.builds(lambda p, r, pi, y: p + [r, pi, y], vec(5.0), ANGLE, PITCH, ANGLE)
BASE3 = st.builds(lambda x, y, t: [x, y, t], real(5.0), real(5.0), ANGLE)


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    if n < 1e-3:
        return [0.0, 0.0, 1.0]
    return [x / n for x in v]


AXIS = st.one_of(st.sampled_from([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0]]),
                 st.lists(fl(-1, 1), min_size=3, max_size=3).map(unit))


DECOR_J = ['<mimic joint="@" multiplier="-2" offset="0.5"/>', '<mimic joint="nobody"/>', '<calibration rising="0.3"/>',
           '<calibration falling="-0.2"/>', '<safety_controller soft_lower_limit="-0.1" soft_upper_limit="0.1" k_position="3" k_velocity="4"/>',
           '<dynamics damping="2" friction="1"/>', '<hardwareInterface>x</hardwareInterface>']
DECOR_L = ['<visual><origin xyz="1 2 3" rpy="1 2 3"/><geometry><box size="1 2 3"/></geometry></visual>',
           '<collision><origin xyz="1 2 3"/><geometry><mesh filename="a.stl"/></geometry></collision>', '<self_collide>1</self_collide>']


@st.composite
def robots(draw, need_mass=False, max_links=9, weird=True, movers=None):
    n = draw(st.integers(1, max_links))
    names, jnames = set(), set()

    def fresh(used, i, links):
        w = weird and draw(st.integers(0, 5)) == 0
        s = draw(st.sampled_from(ODD if w else STEMS))
        if not w or draw(st.booleans()):
            s += str(i if draw(st.booleans()) else draw(st.integers(0, 99)))
        if weird and used and draw(st.integers(0, 14)) == 14:  # almost the name of another one
            o = draw(st.sampled_from(sorted(used)))
            s = draw(st.sampled_from([o + " ", " " + o, o + "_", o.swapcase(), o[:-1] or "x", o + "0", "/" + o, o + o]))

        def clash(x):
            if x in used:
                return True
            return links and (x + "_com" in used or (x.endswith("_com") and x[:-4] in used))

        while clash(s):
            s += "_%d" % i
        used.add(s)
        return s

    shape = draw(st.integers(0, 2))
    mv = draw(st.sampled_from([0, 1, 2, 2])) if movers is None else movers
    links, joints = [], []
    for i in range(n):
        l = {"name": fresh(names, i, True), "inertial": None}
        if draw(st.booleans()):
            m = draw(st.one_of(st.sampled_from([0.0, 1.0, 2.5]), fl(0.05, 20)))
            org = draw(st.booleans())
            d = [abs(x) + 0.01 for x in draw(vec(0.5))] if m > 0 else [0.0] * 3
            o = [x * 0.01 for x in draw(vec(0.5))] if m > 0 else [0.0] * 3
            l["inertial"] = {"mass": m, "xyz": draw(vec(0.5)) if org else None, "rpy": draw(RPY) if org else None,
                             "I": [d[0], o[0], o[1], d[1], o[2], d[2]]}
        links.append(l)
    for i in range(1, n):
        p = i - 1 if shape == 1 else draw(st.integers(0, i - 1))
        if mv == 0:
            t = "fixed"
        elif mv == 1:
            t = draw(st.sampled_from(["fixed", "revolute", "continuous", "prismatic"]))
        else:
            t = draw(st.sampled_from(["revolute", "continuous", "prismatic"]))
        j = {"name": fresh(jnames, i, False), "type": t, "parent": p, "child": i,
             "xyz": draw(st.one_of(vec(3.0), st.none())), "rpy": draw(st.one_of(RPY, st.none())),
             "axis": draw(st.one_of(AXIS, st.none())) if t != "fixed" else None, "limit": None}
        if t in ("revolute", "prismatic") or (t == "continuous" and draw(st.booleans())):
            j["limit"] = {"lower": draw(st.one_of(real(6.0), st.none())), "upper": draw(st.one_of(real(6.0), st.none())),
                          "effort": abs(draw(real(100.0))), "velocity": abs(draw(real(10.0)))}
            if draw(st.integers(0, 14)) == 14:  # far beyond what a joint can do
                big = draw(st.sampled_from([1e2, 1e4, 1e6, 1e9, 2e9, 1e10, 1e15, 1e30, 1e300]))
                j["limit"]["lower"], j["limit"]["upper"] = draw(st.sampled_from([(-big, big), (0.0, big), (-big, 0.0), (-big, -big), (-1.0, big), (big, -big)]))
        joints.append(j)
    if need_mass and sum(l["inertial"]["mass"] for l in links if l["inertial"]) <= 0:
        k = draw(st.integers(0, n - 1))
        links[k]["inertial"] = {"mass": 1.5, "xyz": [0.1, 0.2, -0.3], "rpy": [0.0, 0.4, 0.0], "I": [0.1, 0, 0, 0.2, 0, 0.25]}
    if draw(st.integers(0, 6)) == 6:  # what real descriptions carry besides the kinematics; none of it may matter
        for j in joints:
            j["extra"] = "".join(draw(st.lists(st.sampled_from(DECOR_J), max_size=3, unique=True))).replace(
                "@", esc(draw(st.sampled_from(joints))["name"]))
            if j["limit"] and draw(st.integers(0, 9)) == 9:
                j["limit"][draw(st.sampled_from(["effort", "velocity"]))] *= -1.0
        for l in links:
            l["extra"] = "".join(draw(st.lists(st.sampled_from(DECOR_L), max_size=2, unique=True)))
    return {"links": links, "joints": joints}


def movers(r):
    return [i for i, j in enumerate(r["joints"]) if j["type"] != "fixed"]


def total_mass(r):
    return sum(l["inertial"]["mass"] for l in r["links"] if l["inertial"])


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def num(v):
    return "%.17g" % v


def v3(v):
    return " ".join(num(x) for x in v)


def to_urdf(r, nl="\n"):
    o = ['<?xml version="1.0"?>', '<robot name="r">']
    for l in r["links"]:
        s = '<link name="%s">' % esc(l["name"])
        if l["inertial"]:
            n = l["inertial"]
            s += "<inertial>"
            if n["xyz"] is not None:
                s += '<origin xyz="%s" rpy="%s"/>' % (v3(n["xyz"]), v3(n["rpy"]))
            s += '<mass value="%s"/>' % num(n["mass"])
            s += "<inertia " + " ".join('%s="%s"' % (k, num(v)) for k, v in zip(("ixx", "ixy", "ixz", "iyy", "iyz", "izz"), n["I"])) + "/></inertial>"
        o.append(s + l.get("extra", "") + "</link>")
    for j in r["joints"]:
        s = '<joint name="%s" type="%s">' % (esc(j["name"]), j["type"])
        if j["xyz"] is not None or j["rpy"] is not None:
            s += "<origin"
            if j["xyz"] is not None:
                s += ' xyz="%s"' % v3(j["xyz"])
            if j["rpy"] is not None:
                s += ' rpy="%s"' % v3(j["rpy"])
            s += "/>"
        s += '<parent link="%s"/><child link="%s"/>' % (esc(r["links"][j["parent"]]["name"]), esc(r["links"][j["child"]]["name"]))
        if j["axis"] is not None:
            s += '<axis xyz="%s"/>' % v3(j["axis"])
        if j["limit"]:
            s += "<limit"
            for k in ("lower", "upper", "effort", "velocity"):
                if j["limit"][k] is not None:
                    s += ' %s="%s"' % (k, num(j["limit"][k]))
            s += "/>"
        o.append(s + j.get("extra", "") + "</joint>")
    return nl.join(o + ["</robot>", ""])


# ------------------------------------------------------------- reference ---
def rot_rpy(r, p, y):
    r, p, y = np.asarray(r), np.asarray(p), np.asarray(y)
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    R = np.empty(r.shape + (3, 3), dtype=np.result_type(r, p, y, float))
    R[..., 0, 0] = cy * cp
    R[..., 0, 1] = cy * sp * sr - sy * cr
    R[..., 0, 2] = cy * sp * cr + sy * sr
    R[..., 1, 0] = sy * cp
    R[..., 1, 1] = sy * sp * sr + cy * cr
    R[..., 1, 2] = sy * sp * cr - cy * sr
    R[..., 2, 0] = -sp
    R[..., 2, 1] = cp * sr
    R[..., 2, 2] = cp * cr
    return R


def rot_axis(a, q):
    q = np.asarray(q)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    s, c = np.sin(q)[..., None, None], np.cos(q)[..., None, None]
    return np.eye(3) + s * K + (1 - c) * (K @ K)


def rot_quat(x, y, z, w):
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


Z3 = [0.0, 0.0, 0.0]


class Ref:
    """the state a model should be in"""

    def __init__(self, robot):
        self.r = robot
        self.q = [0.0] * len(robot["joints"])
        self.base = [0.0] * 6
        self.added = []  # [name, parent index, xyz, rpy]
        self.mass = total_mass(robot)
        self.by_child = {j["child"]: i for i, j in enumerate(robot["joints"])}
        self.off = [(np.array(j["xyz"] or Z3, float), rot_rpy(*(j["rpy"] or Z3))) for j in robot["joints"]]

    def clone(self):
        c = Ref.__new__(Ref)
        c.__dict__.update(self.__dict__)
        c.q, c.base, c.added = list(self.q), list(self.base), [list(a) for a in self.added]
        return c

    def nlinks(self):
        return len(self.r["links"]) + len(self.added)

    def link_name(self, i):
        n = len(self.r["links"])
        return self.r["links"][i]["name"] if i < n else self.added[i - n][0]

    def links(self, cols=()):
        """poses of all links, batched over columns: cols is a list of joint
        indices, then the six base directions; column k is perturbed by iH"""
        B = len(cols) + 6
        base = np.tile(np.array(self.base, complex), (B, 1))
        for k in range(6):
            base[len(cols) + k, k] += 1j * H
        R = [None] * self.nlinks()
        p = [None] * self.nlinks()
        R[0], p[0] = rot_rpy(base[:, 3], base[:, 4], base[:, 5]), base[:, :3]
        pos = {}
        for k, j in enumerate(cols):
            pos.setdefault(j, []).append(k)
        for i in range(1, len(self.r["links"])):
            ji = self.by_child[i]
            j = self.r["joints"][ji]
            o, oR = self.off[ji]
            a = j["parent"]
            Ri, pi = R[a] @ oR, p[a] + R[a] @ o
            if j["type"] != "fixed":
                q = np.full(B, self.q[ji], complex)
                for k in pos.get(ji, ()):
                    q[k] += 1j * H
                ax = np.array(j["axis"] or [1.0, 0, 0], float)
                if j["type"] == "prismatic":
                    pi = pi + (Ri @ ax) * q[:, None]
                else:
                    Ri = Ri @ rot_axis(ax, q)
            R[i], p[i] = Ri, pi
        n = len(self.r["links"])
        for k, (_, par, xyz, rpy) in enumerate(self.added):
            R[n + k], p[n + k] = R[par] @ rot_rpy(*rpy), p[par] + R[par] @ np.array(xyz, float)
        return R, p

    def com(self, cols=()):
        R, p = self.links(cols)
        c = 0
        for i, l in enumerate(self.r["links"]):
            n = l["inertial"]
            if n:
                c = c + n["mass"] * (p[i] + R[i] @ np.array(n["xyz"] or Z3, float))
        return c / self.mass, (R, p)

    def inertia(self):
        R, p = self.links()
        c = self.com()[0][0].real
        T = np.zeros((3, 3))
        for i, l in enumerate(self.r["links"]):
            n = l["inertial"]
            if n:
                Ri, pi = R[i][0].real, p[i][0].real
                d = pi + Ri @ np.array(n["xyz"] or Z3, float) - c
                a = n["I"]
                I = np.array([[a[0], a[1], a[2]], [a[1], a[3], a[4]], [a[2], a[4], a[5]]])
                W = Ri @ rot_rpy(*(n["rpy"] or Z3))
                T += W @ I @ W.T + n["mass"] * (d @ d * np.eye(3) - np.outer(d, d))
        return T

    def scale(self):
        s = 1 + sum(abs(x) for x in self.base[:3])
        for i, j in enumerate(self.r["joints"]):
            s += sum(abs(x) for x in (j["xyz"] or Z3))
            if j["type"] == "prismatic":
                s += abs(self.q[i])
        return s + sum(abs(x) for a in self.added for x in a[2])


def rot_err(A, B):
    return float(np.max(np.abs(A - B)))
