"""C21-C25, C27, C32, C38: strategies (producing plain JSON cases) and oracles."""
import copy
import os
import pickle
import random
import warnings

import numpy as np
from hypothesis import strategies as st

from model import (ANGLE, BASE3, BASE6, H, RPY, Ref, fl, movers, real, robots, rot_err, rot_quat, rot_rpy, to_urdf, total_mass, vec)

tk = None  # the package under test


class Bad(AssertionError):
    pass


def check(ok, msg, *a):
    if not ok:
        raise Bad(msg % a if a else msg)


def close(got, want, tol, msg, *a):
    got, want = np.asarray(got, float), np.asarray(want, float)
    check(got.shape == want.shape, (msg % a if a else msg) + ": shape %s instead of %s", got.shape, want.shape)
    if got.size:
        e = np.abs(got - want)
        if not (e <= tol).all():  # also catches NaN
            k = np.unravel_index(np.argmax(np.where(np.isnan(e), np.inf, e)), e.shape)
            raise Bad("%s: entry %s is %r, expected %r (tolerance %.3g)" % (msg % a if a else msg, k, float(got[k]), float(want[k]), float(np.broadcast_to(tol, e.shape)[k])))


class Stats:
    def __init__(self):
        self.labels = {}
        self.nontrivial = False

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1


BT = {"FIXED": 0, "PLANER": 3, "FLOATING": 6}
ROWS = {"IGNORE": 3, "RPY": 6, "XYZW": 7}

# ------------------------------------------------------------- strategies ---


@st.composite
def jlist(draw, r):
    mv = movers(r)
    if not mv:
        return []
    k = draw(st.integers(0, 15))
    if k == 15:  # a joint may be listed twice: its last value counts
        return draw(st.lists(st.sampled_from(mv), min_size=2, max_size=len(mv) + 2))
    if k <= 7:
        return mv
    if k <= 11:
        return draw(st.permutations(mv))
    return draw(st.lists(st.sampled_from(mv), unique=True, max_size=len(mv)))


@st.composite
def config(draw, r, jl, bt):
    v = [draw(real(3.0) if r["joints"][j]["type"] == "prismatic" else ANGLE) for j in jl]
    if bt == "PLANER":
        v += draw(BASE3)
    elif bt == "FLOATING":
        v += draw(BASE6)
    how = draw(st.integers(0, 19))  # whole blocks zero or alike
    if how in (0, 1):
        v[:len(jl)] = [0.0] * len(jl)
    elif how == 2 and jl:
        v[:len(jl)] = [v[0]] * len(jl)
    elif how == 3:
        v[len(jl):] = [0.0] * (len(v) - len(jl))
    elif how == 4:
        v = [0.0] * len(v)
    elif how == 5 and bt != "FIXED":
        v[-1] = 0.0
    return v


BASES = st.sampled_from(["FIXED", "PLANER", "FLOATING"])
LAYOUT = st.sampled_from(["c", "c", "f", "strided", "readonly", "arrays", "lists"])


@st.composite
def batch_op(draw, r, n, kind, small=False):
    jl, bt = draw(jlist(r)), draw(BASES)
    lay = draw(LAYOUT)
    nrow = 1 if small else draw(st.sampled_from([1, 2, 2, 3, 5]))
    if kind != "sqd" and nrow == 1 and draw(st.booleans()):
        lay = "vector"
    op = {"op": kind, "jl": jl, "bt": bt, "layout": lay, "jac": draw(st.sampled_from([True, True, False])),
          "rows": [draw(config(r, jl, bt)) for _ in range(nrow)]}
    link = st.integers(0, n - 1)
    if kind == "fk":
        op["links"] = draw(link) if draw(st.integers(0, 4)) == 0 else draw(st.lists(link, min_size=1, max_size=4))
        op["rot"] = draw(st.sampled_from(["IGNORE", "RPY", "XYZW"]))
    elif kind == "sqd":
        op["pairs"] = draw(st.lists(st.tuples(link, link).map(list), min_size=1, max_size=4))
    else:
        op["act"] = draw(st.one_of(st.none(), st.lists(link, max_size=3)))
        if op["act"]:
            m = total_mass(r)
            f = [draw(st.one_of(st.sampled_from([1.0, 0.0, 0.5]), fl(-0.25, 3.0))) for _ in op["act"]]
            op["forces"] = [x * m for x in f]
        else:
            op["forces"] = []
    edge = draw(st.integers(0, 59))
    if edge == 0 and lay not in ("vector", "arrays", "lists"):
        op["rows"] = []
    elif edge == 1 and kind == "fk":
        op["links"] = []
    elif edge in (2, 3) and lay in ("c", "f"):  # whole numbers, in an array of integers
        op["layout"] = "ints"
        op["rows"] = [[float(round(v)) for v in w] for w in op["rows"]]
        if bt == "FLOATING":
            for w in op["rows"]:
                w[-2] = min(1.0, max(-1.0, w[-2]))
    op["tile"] = op["many"] = 1
    if nrow > 1 and edge > 3 and not small:
        k = draw(st.integers(0, 39))
        if k == 39:  # a long batch, derived from the rows drawn
            op["tile"] = draw(st.integers(20, 400))
        elif k >= 36:  # many links or pairs at once
            op["many"] = draw(st.integers(3, 60))
    if kind in ("fk", "sqd"):
        op["cache"] = draw(st.sampled_from(["", "", "", "repeat", "cleared"])) if nrow == len(op["rows"]) == 1 else ""
    return op


def op_of(kind, steep=True):
    @st.composite
    def one(draw, r, n):
        if kind in ("fk", "com", "sqd"):
            return draw(batch_op(r, n, kind))
        jl = draw(jlist(r))
        if kind == "set":
            bt = draw(BASES)
            q = draw(config(r, jl, bt))
            if steep and bt == "FLOATING" and draw(st.integers(0, 5)) == 0:  # a pitch the derivatives are not defined for
                q[-2] = draw(st.sampled_from([1.5, -1.5, 1.55, -1.556, 1.565, -1.565, 1.568, np.pi / 2, -np.pi / 2, 2.0, -2.5, 4.0, 7.0]))
            return {"op": "set", "jl": jl, "bt": bt, "q": q, "layout": draw(st.sampled_from(["c", "lists", "readonly"])),
                    "keep": draw(st.sampled_from(["", "", "", "", "", "joints", "base", "one"]))}
        if kind == "get":
            return {"op": "get", "jl": jl, "bt": draw(BASES)}
        if kind == "inertia":
            return {"op": "inertia", "jl": jl, "q": draw(config(r, jl, "FIXED"))}
        if kind == "add":
            return {"op": "add", "parent": draw(st.integers(0, n - 1)), "xyz": draw(vec(2.0)), "rpy": draw(st.one_of(st.none(), RPY))}
        if kind == "clear":
            return {"op": "clear"}
        if kind == "bad":
            what = draw(st.sampled_from(["fk", "com", "sqd", "set", "inertia", "forces", "base"]))
            bt = draw(BASES)
            d = draw(st.sampled_from([1, -1, 3, -3, 6, 2]))
            rows = [draw(config(r, jl, bt)) for _ in range(draw(st.integers(1, 3)))]
            return {"op": "bad", "what": what, "jl": jl, "bt": bt, "delta": d, "rows": rows, "jac": draw(st.booleans()),
                    "ragged": draw(st.sampled_from([-1, -1, 0, 1, 2])), "act": draw(st.lists(st.integers(0, n - 1), max_size=3)),
                    "link": draw(st.integers(0, n - 1))}
        raise KeyError(kind)
    return one


@st.composite
def histories(draw, kinds, last, need_mass):
    r = draw(robots(need_mass=need_mass))
    has_mass = total_mass(r) > 0
    n = len(r["links"])
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(kinds))
        if k in ("com", "inertia") and not has_mass:
            k = "fk"
        o = draw(op_of(k)(r, n))
        if k == "bad" and o["what"] in ("com", "inertia", "forces") and not has_mass:
            o["what"] = "fk"
        ops.append(o)
        n += k == "add"
    ops.append(draw(op_of(last)(r, n)))
    return {"robot": r, "ops": ops}


# ------------------------------------------------------------------ oracle ---
def expand(o):
    """long batches: rows scaled by at most one, links and pairs repeated"""
    n, m = o.get("tile", 1), o.get("many", 1)
    if n == 1 and m == 1:
        return o
    o = dict(o)
    k = len(o["rows"])
    o["rows"] = [[v * float(np.cos(0.7 * (i // k))) for v in o["rows"][i % k]] for i in range(n * k)]
    for f in ("links", "pairs"):
        if isinstance(o.get(f), list):
            o[f] = [o[f][(i * i + i // 3) % len(o[f])] for i in range(m * len(o[f]))]
    return o


def sampled(o):
    """the rows to be judged: all, or some of a long batch with both ends"""
    n = len(o["rows"])
    return set(range(n)) if n <= 12 else {0, 1, n - 1, n - 2} | {(i * 37) % n for i in range(12)} | {n // 2, min(n - 1, 128), min(n - 1, 256)}


def shaped(rows, layout, width):
    """the rows in the requested layout, and a function telling whether it changed"""
    a = np.array(rows, float).reshape(len(rows), width)
    if layout == "vector":
        x = a[0].copy()
    elif layout == "f":
        x = np.asfortranarray(a)
    elif layout == "strided":
        b = np.full((2 * len(rows), width + 1), 7.7)
        b[::2, :width] = a
        x = b[::2, :width]
    elif layout == "ints":
        x = a.astype(np.int64)
    elif layout == "arrays":
        x = [v.copy() for v in a]
    elif layout == "lists":
        x = a.tolist()
    else:
        x = a.copy()
        if layout == "readonly":
            x.setflags(write=False)

    def unchanged():
        return np.array_equal(np.array(x, float).reshape(a.shape), a)
    return x, unchanged


def planar_to6(b):
    return [b[0], b[1], 0.0, 0.0, 0.0, b[2]]


def poison(a):
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = np.nan


class Run:
    """one model under test next to its reference state"""

    def __init__(self, robot, model=None, ref=None):
        self.r = robot
        self.ref = ref or Ref(robot)
        self.m = model or tk.KinematicModel(xml_text=to_urdf(robot))
        self.refresh()

    def refresh(self):
        js = self.r["joints"]
        mv = movers(self.r)
        ids = self.m.get_joint_ids([js[i]["name"] for i in mv])
        self.jid = dict(zip(mv, ids))
        self.lid = list(self.m.get_link_ids([self.ref.link_name(i) for i in range(self.ref.nlinks())]))

    def jids(self, jl):
        return [self.jid[j] for j in jl]

    def put(self, jl, row, bt):
        for k, j in enumerate(jl):
            self.ref.q[j] = row[k]
        b = row[len(jl):]
        if bt == "PLANER":
            self.ref.base = planar_to6(b)
        elif bt == "FLOATING":
            self.ref.base = list(b)

    # -- calls and their expectations
    def fk(self, o, judge, st_):
        o = expand(o)
        some = sampled(o)
        jl, bt, rot, jac = o["jl"], o["bt"], o["rot"], o["jac"]
        width = len(jl) + BT[bt]
        links = o["links"]
        ids = self.lid[links] if isinstance(links, int) else [self.lid[i] for i in links]
        links = [links] if isinstance(links, int) else links
        B, Rt = tk.BaseType[bt], tk.RotationType[rot]
        x, unchanged = shaped(o["rows"], o["layout"], width)
        kw = dict(rot_type=Rt, base_type=B, with_jacobian=jac)
        if o["cache"] == "cleared":
            self.m.clear_cache()
            P, J = self.m.solve_fk(x, ids, self.jids(jl), use_cache=True, **kw)
        else:
            P, J = self.m.solve_fk(x, ids, self.jids(jl), **kw)
            if o["cache"] == "repeat":  # the same configuration again: its cached poses are valid
                P, J = self.m.solve_fk(x, ids, self.jids(jl), use_cache=True, **kw)
        nd = ROWS[rot]
        if judge:
            check(unchanged(), "solve_fk changed the caller's configurations")
            check(P.shape == (len(o["rows"]) * len(links), nd), "solve_fk: poses have shape %s", P.shape)
            if jac:
                check(J.shape == (len(o["rows"]) * len(links) * nd, width), "solve_fk: jacobian has shape %s", J.shape)
        for i, row in enumerate(o["rows"]):
            self.put(jl, row, bt)
            if not judge or i not in some:
                continue
            sc = self.ref.scale()
            asc = 1 + sum(abs(v) for v in self.ref.q) + sum(abs(v) for v in self.ref.base[3:])
            R, p = self.ref.links(jl)
            for k, l in enumerate(links):
                h = i * len(links) + k
                w = "row %d link %s: " % (i, self.ref.link_name(l))
                Rl, pl = R[l], p[l]
                R0 = Rl[0].real
                close(P[h, :3], pl[0].real, 1e-10 * sc * asc, w + "position")
                cp = np.hypot(R0[0, 0], R0[1, 0])
                if rot == "RPY" and cp > 0.05:
                    check(rot_err(rot_rpy(*P[h, 3:]), R0) < 1e-9 * asc / cp, w + "roll-pitch-yaw %s is not the link's rotation", P[h, 3:])
                    check(abs(P[h, 4]) <= np.pi / 2 + 1e-9, w + "pitch out of range")
                if rot == "XYZW":
                    check(abs(np.linalg.norm(P[h, 3:]) - 1) < 1e-9, w + "quaternion not unit")
                    check(rot_err(rot_quat(*P[h, 3:]), R0) < 1e-9 * asc, w + "quaternion %s is not the link's rotation", P[h, 3:])
                if not jac:
                    continue
                b = J[h * nd:(h + 1) * nd]
                cols, tol = self.cols(len(jl), bt, sc, asc)
                close(b[:3], pl.imag.T[:, cols] / H, tol, w + "position jacobian")
                dR = Rl.imag[cols] / H
                if rot == "RPY" and cp > 0.1:
                    d = np.empty((3, len(cols)))
                    d[0] = (R0[2, 2] * dR[:, 2, 1] - R0[2, 1] * dR[:, 2, 2]) / cp**2
                    d[1] = -dR[:, 2, 0] / cp
                    d[2] = (R0[0, 0] * dR[:, 1, 0] - R0[1, 0] * dR[:, 0, 0]) / cp**2
                    t = np.where(tol > 1e-6, 1e-5, 1e-8 * asc) / cp**3
                    close(b[3:], d, t, w + "roll-pitch-yaw jacobian")
                if rot == "XYZW":
                    om = np.array([[0.5 * (W[2, 1] - W[1, 2]), 0.5 * (W[0, 2] - W[2, 0]), 0.5 * (W[1, 0] - W[0, 1])]
                                   for W in (D @ R0.T for D in dR)]).reshape(len(cols), 3)
                    v, qw = P[h, 3:6], P[h, 6]
                    d = np.vstack([(0.5 * (qw * om + np.cross(om, v))).T if len(cols) else np.zeros((3, 0)), -0.5 * om @ v])
                    close(b[3:], d, np.where(tol > 1e-6, 3e-6, 1e-9 * asc), w + "quaternion jacobian")
        if judge and (not o["rows"] or not links):
            st_.label("nothing to compute")
        if judge:
            st_.label("fk %s %s%s" % (rot, bt, " jacobian" if jac else ""))
            if len(o["rows"]) > 1:
                st_.label("several rows" if len(o["rows"]) < 40 else "40-2000 rows")
            if len(links) > 8:
                st_.label("more than 8 links")
            if o["cache"]:
                st_.label("use_cache " + o["cache"])
        poison(P)
        poison(J)

    @staticmethod
    def cols(nj, bt, sc, asc):
        c = list(range(nj))
        t = [1e-9 * sc * asc] * nj
        brot = 3e-6 * sc * (1 + 0.02 * asc)
        if bt == "PLANER":
            c += [nj, nj + 1, nj + 5]
            t += [1e-9, 1e-9, brot]
        elif bt == "FLOATING":
            c += [nj + k for k in range(6)]
            t += [1e-9] * 3 + [brot] * 3
        return c, np.array(t)

    def com(self, o, judge, st_):
        o = expand(o)
        some = sampled(o)
        jl, bt, jac = o["jl"], o["bt"], o["jac"]
        width = len(jl) + BT[bt]
        x, unchanged = shaped(o["rows"], o["layout"], width)
        act = o["act"]
        kw = {}
        if act is not None:
            kw = dict(action_link_ids=[self.lid[i] for i in act], action_forces=list(o["forces"]))
        C, J = self.m.solve_com_fk(x, self.jids(jl), base_type=tk.BaseType[bt], with_jacobian=jac, **kw)
        if judge:
            check(unchanged(), "solve_com_fk changed the caller's configurations")
            check(C.shape == (len(o["rows"]), 3), "solve_com_fk: result has shape %s", C.shape)
            if jac:
                check(J.shape == (len(o["rows"]) * 3, width), "solve_com_fk: jacobian has shape %s", J.shape)
        for i, row in enumerate(o["rows"]):
            self.put(jl, row, bt)
            if not judge or i not in some:
                continue
            sc = self.ref.scale() + 1
            asc = 1 + sum(abs(v) for v in self.ref.q) + sum(abs(v) for v in self.ref.base[3:])
            c, (R, p) = self.ref.com(jl)
            W = 1.0
            for l, f in zip(act or [], o["forces"]):
                c = c + f / self.ref.mass * p[l]
                W += f / self.ref.mass
            c = c / W
            amp = 1 + sum(abs(f) for f in o["forces"]) / self.ref.mass
            close(C[i], c[0].real, 1e-10 * sc * asc * amp / W, "row %d: centre of mass", i)
            if jac:
                cols, tol = self.cols(len(jl), bt, sc, asc)
                close(J[3 * i:3 * i + 3], c.imag.T[:, cols] / H, tol * amp / W, "row %d: centre-of-mass jacobian", i)
        if judge:
            st_.label("com %s%s" % (bt, " with forces" if o["forces"] else ""))
        poison(C)
        poison(J)

    def sqd(self, o, judge, st_):
        o = expand(o)
        some = sampled(o)
        jl, bt, jac = o["jl"], o["bt"], o["jac"]
        width = len(jl) + BT[bt]
        x, unchanged = shaped(o["rows"], o["layout"], width)
        pairs = [(self.lid[a], self.lid[b]) for a, b in o["pairs"]]
        kw = dict(base_type=tk.BaseType[bt], with_jacobian=jac)
        if o["cache"] == "cleared":
            self.m.clear_cache()
            V, J = self.m.compute_inter_link_sqdists(x, pairs, self.jids(jl), use_cache=True, **kw)
        else:
            V, J = self.m.compute_inter_link_sqdists(x, pairs, self.jids(jl), **kw)
            if o["cache"] == "repeat":
                V, J = self.m.compute_inter_link_sqdists(x, pairs, self.jids(jl), use_cache=True, **kw)
        if judge:
            check(unchanged(), "compute_inter_link_sqdists changed the caller's configurations")
            check(V.shape == (len(o["rows"]) * len(pairs),), "distances have shape %s", V.shape)
            if jac:
                check(J.shape == (len(V), width), "gradient has shape %s", J.shape)
        for i, row in enumerate(o["rows"]):
            self.put(jl, row, bt)
            if not judge or i not in some:
                continue
            sc = self.ref.scale()
            asc = 1 + sum(abs(v) for v in self.ref.q) + sum(abs(v) for v in self.ref.base[3:])
            _, p = self.ref.links(jl)
            for k, (a, b) in enumerate(o["pairs"]):
                h = i * len(pairs) + k
                d = p[a] - p[b]
                d0 = d[0].real
                close(V[h], d0 @ d0, 1e-9 * sc * sc * asc, "row %d pair %d: squared distance", i, k)
                if a == b:
                    check(V[h] == 0, "distance of a link to itself is %r", V[h])
                if jac:
                    cols, tol = self.cols(len(jl), bt, sc, asc)
                    close(J[h], 2 * (d.imag[cols] / H) @ d0, tol * 4 * sc, "row %d pair %d: gradient", i, k)
        if judge:
            st_.label("distances %s%s" % (bt, " gradient" if jac else ""))
        poison(V)
        poison(J)

    def set(self, o, judge, st_):
        keep, k = o.get("keep", ""), len(o["jl"])
        if keep:  # a part of the vector is what it is now
            o, now = dict(o), [float(self.ref.q[j]) for j in o["jl"]]
            if keep == "joints":
                o["q"] = now + o["q"][k:]
            elif keep == "one":
                o["q"] = o["q"][:1] + now[1:] + o["q"][k:] if k else o["q"]
            elif o["bt"] == "FLOATING":
                o["q"] = o["q"][:k] + [float(b) for b in self.ref.base]
        x, unchanged = shaped([o["q"]], o["layout"], len(o["q"]))
        x = x[0] if o["layout"] == "lists" else x.reshape(-1)
        self.m.set_q(self.jids(o["jl"]), x, tk.BaseType[o["bt"]])
        if judge:
            check(np.array_equal(np.array(x, float), np.array(o["q"], float)), "set_q changed the caller's vector")
        self.put(o["jl"], o["q"], o["bt"])
        if judge:
            self.read_back(o["jl"], o["bt"], st_)

    def read_back(self, jl, bt, st_):
        g = self.m.get_q(self.jids(jl), tk.BaseType[bt])
        g = np.asarray(g, float)
        check(g.shape == (len(jl) + BT[bt],), "get_q has shape %s", g.shape)
        close(g[:len(jl)], [self.ref.q[j] for j in jl], 0, "get_q: joint values")
        b, e = g[len(jl):], self.ref.base
        if bt == "PLANER":
            close(b[:2], e[:2], 0, "get_q: planar base position")
            Rm = rot_rpy(*e[3:])
            yaw = np.arctan2(Rm[1, 0], Rm[0, 0])
            lock = abs(Rm[2, 0]) > 0.9999
            if not lock:
                check(abs(np.exp(1j * b[2]) - np.exp(1j * yaw)) < 1e-9 / (1 - Rm[2, 0]**2)**0.5, "get_q: planar base angle %r, expected %r", b[2], yaw)
            if e[3] == e[4] == 0:
                self.principal(b[2], e[5], 1)
        elif bt == "FLOATING":
            close(b[:3], e[:3], 0, "get_q: base position")
            c = abs(np.cos(e[4]))
            lock = c < 0.0046  # roll and yaw are merged there
            check(rot_err(rot_rpy(*b[3:]), rot_rpy(*e[3:])) < (0.02 if lock else 1e-8 / c), "get_q: base angles %s are not the rotation of %s", b[3:], e[3:])
            if np.cos(e[4]) > 0.0046:
                for k in range(3):
                    self.principal(b[3 + k], e[3 + k], 1 / c)
        st_.label("read back " + bt)
        poison(g)

    @staticmethod
    def principal(got, want, amp):
        """an angle set within its principal range is read back as it is"""
        if abs(want) < np.pi - 1e-6:
            check(abs(got - want) < 1e-8 * amp, "get_q: a base angle set to %r is read back as %r", want, got)

    def get(self, o, judge, st_):
        if judge:
            self.read_back(o["jl"], o["bt"], st_)
        else:
            self.m.get_q(self.jids(o["jl"]), tk.BaseType[o["bt"]])

    def inertia(self, o, judge, st_):
        q = np.array(o["q"], float)
        I = self.m.compute_total_inertia_matrix(q, self.jids(o["jl"]))
        self.put(o["jl"], o["q"], "FIXED")
        if judge:
            check(np.array_equal(q, np.array(o["q"], float)), "the caller's vector changed")
            sc = self.ref.scale() + 1
            asc = 1 + sum(abs(v) for v in self.ref.q) + sum(abs(v) for v in self.ref.base[3:])
            close(I, self.ref.inertia(), 1e-9 * self.ref.mass * sc * sc * asc, "total inertia")
            st_.label("total inertia")
        poison(I)

    def add(self, o, judge, st_):
        n = 0
        have = {self.ref.link_name(i) for i in range(self.ref.nlinks())}
        while "added%d" % n in have or "added%d_com" % n in have:
            n += 1
        nm = "added%d" % n
        xyz = np.array(o["xyz"], float)
        rpy = None if o["rpy"] is None else np.array(o["rpy"], float)
        self.m.add_new_link(nm, self.lid[o["parent"]], xyz, rpy)
        self.ref.added.append([nm, o["parent"], list(o["xyz"]), list(o["rpy"] or [0.0] * 3)])
        poison(xyz)
        poison(rpy)
        self.refresh()

    def clear(self, o, judge, st_):
        self.m.clear_cache()

    def bad(self, o, judge, st_):
        """calls with wrong sizes are refused; later operations see whether the state moved"""
        jl, bt, what = o["jl"], o["bt"], o["what"]
        B = tk.BaseType[bt]
        w = len(jl) + BT[bt]
        d = o["delta"] if w + o["delta"] >= 0 else abs(o["delta"])
        rows = [list(v) for v in o["rows"]]
        f = [1.0] * len(o["act"])
        if what == "base":  # the pose of the base has six numbers
            n = max(0, 6 + d)
            rows, w = [[0.25] * n], 6
        elif what == "forces":
            f = (f + [1.0] * abs(d)) if d > 0 or not f else f[:-1]
        elif what in ("set", "inertia"):
            if what == "inertia":
                rows, w = [v[:len(jl)] for v in rows], len(jl)
                d = o["delta"] if w + o["delta"] >= 0 else abs(o["delta"])
            rows[0] = (rows[0] + [0.25] * d)[:max(0, w + d)]
        else:
            rag = o["ragged"]
            for k in range(len(rows)):
                if rag < 0 or len(rows) == 1 or k == rag % len(rows):
                    rows[k] = (rows[k] + [0.25] * max(d, 0))[:w + d]
        x = rows
        try:
            if what == "fk":
                self.m.solve_fk(x, [self.lid[o["link"]]], self.jids(jl), base_type=B, with_jacobian=o["jac"])
            elif what in ("com", "forces"):
                self.m.solve_com_fk(x, self.jids(jl), action_link_ids=[self.lid[i] for i in o["act"]], action_forces=f, base_type=B,
                                    with_jacobian=o["jac"])
            elif what == "sqd":
                self.m.compute_inter_link_sqdists(x, [(self.lid[0], self.lid[o["link"]])], self.jids(jl), base_type=B, with_jacobian=o["jac"])
            elif what == "base":
                self.m._robot.set_base_pose(x[0])
            elif what == "set":
                self.m.set_q(self.jids(jl), np.array(x[0], float), B)
            else:
                self.m.compute_total_inertia_matrix(np.array(x[0], float), self.jids(jl))
        except Exception:
            st_.label("refused " + what)
            return
        if judge is None or what in judge:
            raise Bad("badly sized input to %s was accepted (%d columns expected, delta %d)" % (what, w, d))
        if what == "base":
            raise StopIteration
        self.put(jl, (rows[-1] + [0.0] * 12)[:w], bt)  # not this property's claim; stop here
        raise StopIteration


def run_history(case, judged, bad_judged, st_, final):
    run = Run(case["robot"])
    for o in case["ops"]:
        try:
            if o["op"] == "bad":
                run.bad(o, bad_judged, st_)
            else:
                getattr(run, o["op"])(o, o["op"] in judged, st_)
        except StopIteration:
            return run
    if final:
        final(run, st_)
    return run


def final_poses(run, st_):
    """every link in the present configuration, through a fixed-base query that sets nothing"""
    n = run.ref.nlinks()
    P, _ = run.m.solve_fk(np.zeros((1, 0)), [run.lid[i] for i in range(n)], [], rot_type=tk.RotationType.XYZW)
    R, p = run.ref.links()
    sc = run.ref.scale()
    asc = 1 + sum(abs(v) for v in run.ref.q) + sum(abs(v) for v in run.ref.base[3:])
    for i in range(n):
        close(P[i, :3], p[i][0].real, 1e-10 * sc * asc, "afterwards: position of %s", run.ref.link_name(i))
        check(rot_err(rot_quat(*P[i, 3:]), R[i][0].real) < 1e-9 * asc, "afterwards: rotation of %s", run.ref.link_name(i))


def nt_batch(case, kind):
    o = case["ops"][-1]
    return len(o["jl"]) + BT[o["bt"]] > 0 and (len(o["rows"]) > 1 or len(case["ops"]) > 1)


def c21(case, st_):
    run_history(case, {"fk"}, {"fk"}, st_, final_poses)
    st_.nontrivial = nt_batch(case, "fk")


def c22(case, st_):
    run_history(case, {"com"}, {"com", "forces"}, st_, None)
    st_.nontrivial = nt_batch(case, "com")


def c23(case, st_):
    run_history(case, {"sqd"}, {"sqd"}, st_, None)
    st_.nontrivial = nt_batch(case, "sqd") and any(a != b for a, b in case["ops"][-1]["pairs"])


def c25(case, st_):
    run_history(case, {"set", "get", "inertia"}, {"set", "inertia", "base"}, st_, final_poses)
    st_.nontrivial = any(o["op"] in ("set", "inertia") and o["jl"] for o in case["ops"])


# ----------------------------------------------------------------- C24 ------
@st.composite
def copies(draw):
    r = draw(robots(max_links=6))
    ops = []
    counts = [len(r["links"])]  # links per model
    for _ in range(draw(st.integers(1, 9))):
        s = draw(st.integers(0, len(counts) - 1))
        k = draw(st.sampled_from(["set", "set", "add", "add", "dup", "pickle", "pickle", "copy", "deepcopy", "fk", "check", "drop", "argmut"]))
        n = counts[s]
        if k in ("pickle", "copy", "deepcopy"):
            if len(counts) >= 6:
                k = "check"
            else:
                counts.append(n)
                ops.append({"op": k, "slot": s, "proto": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)), "far": k == "pickle" and draw(st.booleans())})
                continue
        if k == "add":
            o = draw(op_of("add")(r, n))
            o["name"] = draw(st.sampled_from(["tool", "added", "tip", "x y", "é"])) + str(draw(st.integers(0, 9)))
            o["rpy_kind"] = draw(st.sampled_from(["array", "list"]))
            counts[s] += 1  # may be refused; indices are reduced at run time
        elif k == "set":
            o = draw(op_of("set", steep=False)(r, n))
        elif k == "fk":
            o = draw(batch_op(r, n, "fk", small=True))
        elif k == "dup":
            o = {"op": "dup", "link": draw(st.integers(0, n - 1)), "parent": draw(st.integers(0, n - 1)), "xyz": draw(vec(2.0))}
        else:
            o = {"op": k}
        o["slot"] = s
        ops.append(o)
    return {"robot": r, "ops": ops, "load": draw(st.sampled_from(["text", "text", "text", "text", "removed", "changed"]))}


def same_model(run, w, st_):
    r, ref, m = run.r, run.ref, run.m
    try:
        check(m.root_link_name == r["links"][0]["name"], w + "root link name")
        check(m.get_joint_names() == run.names, w + "joint names changed: %s", m.get_joint_names())
        names = [ref.link_name(i) for i in range(ref.nlinks())]
        check(list(m.get_link_ids(names)) == run.lid, w + "link ids changed")
        for a in run.absent:
            try:
                m.get_link_ids([a])
            except Exception:
                continue
            raise Bad(w + "has the link %r which was added to another model" % a)
        check(list(m.get_joint_ids(run.names)) == run.jall, w + "joint ids changed")
        check(m.get_joint_limits(run.jall) == run.limits, w + "joint limits changed")
        check(m.total_mass == run.mass, w + "total mass changed")
        check(getattr(m, "note", None) == {"who": [1, 2.5, "x"]}, w + "a user's attribute is %r", getattr(m, "note", None))
        run.read_back(movers(r), "FLOATING", st_)
        final_poses(run, st_)
        mv = movers(r)
        if mv:  # answers with derivatives, in the present configuration
            o = {"jl": mv, "bt": "FIXED", "rot": "IGNORE", "jac": True, "layout": "c", "cache": "",
                 "links": list(range(ref.nlinks())), "rows": [[ref.q[j] for j in mv]]}
            run.fk(o, True, Stats())
    except Bad as e:
        raise Bad(w + str(e)) from None


ELSEWHERE = None  # another process that has not made any model yet


def judge_elsewhere(data):
    """runs in the other process: the pickled model there is the same, and can be pickled again"""
    d, state, proto = pickle.loads(data)
    run = Run.__new__(Run)
    run.__dict__.update(state)
    run.m = pickle.loads(d)
    same_model(run, "", Stats())
    return pickle.dumps(run.m, proto)


def c24(case, st_):
    r = case["robot"]
    if case.get("load", "text") == "text":
        first = Run(r)
    else:
        f = os.path.join(TMP, "c24-%d.urdf" % os.getpid())
        with open(f, "w", encoding="utf-8", newline="") as h:
            h.write(to_urdf(r))
        first = Run(r, model=tk.KinematicModel(f))
        if case["load"] == "removed":
            os.remove(f)
        else:  # the file now holds something else
            with open(f, "w", encoding="utf-8") as h:
                h.write('<robot name="other"><link name="other"/></robot>')
        st_.label("loaded from a file that has gone or changed since")
    first.names = first.m.get_joint_names()
    first.jall = list(first.m.get_joint_ids(first.names))
    first.limits = first.m.get_joint_limits(first.jall)
    first.mass = first.m.total_mass
    first.absent = set()
    slots = [first]
    gen = [0]
    first.m.note = {"who": [1, 2.5, "x"]}  # whatever the user stores on a model travels with it
    for n, o in enumerate(case["ops"]):
        k, s = o["op"], o["slot"] % len(slots)
        run = slots[s]
        nl = run.ref.nlinks()
        w = "operation %d (%s), model %d: " % (n, k, s)
        if k in ("pickle", "copy", "deepcopy"):
            if k == "pickle":
                d = pickle.dumps(run.m, o["proto"])
                if o.get("far"):
                    state = {a: v for a, v in run.__dict__.items() if a != "m"}
                    ok, d = ELSEWHERE.ask(pickle.dumps((d, state, o["proto"])))
                    check(ok, w + "in another process: %s", d.decode(errors="replace") if not ok else "")
                    st_.label("pickled to another process and back")
                m = pickle.loads(d)
            else:
                m = (copy.copy if k == "copy" else copy.deepcopy)(run.m)
            c = Run.__new__(Run)
            c.__dict__.update(run.__dict__)
            c.m, c.ref, c.lid, c.absent = m, run.ref.clone(), list(run.lid), set(run.absent)
            slots.append(c)
            gen.append(gen[s] + 1)
            same_model(c, w + "the new one: ", st_)
            st_.label(k)
            if gen[-1] >= 2:
                st_.label("second generation")
        elif k == "set":
            q = np.array(o["q"], float)
            run.m.set_q(run.jids(o["jl"]), q, tk.BaseType[o["bt"]])
            poison(q)
            run.put(o["jl"], o["q"], o["bt"])
        elif k == "fk":
            o = dict(o)
            o["links"] = [i % nl for i in (o["links"] if isinstance(o["links"], list) else [o["links"]])]
            run.fk(o, False, st_)
        elif k == "add":
            have = {run.ref.link_name(i) for i in range(nl)}
            xyz = np.array(o["xyz"], float)
            rpy = None if o["rpy"] is None else np.array(o["rpy"], float)
            arg = rpy if rpy is None or o["rpy_kind"] == "array" else list(o["rpy"])
            p = o["parent"] % nl
            reserved = {l["name"] + "_com" for l in r["links"] if l["inertial"]}
            if o["name"] in reserved:
                continue
            try:
                run.m.add_new_link(o["name"], run.lid[p], xyz, arg)
                ok = True
            except Exception:
                ok = False
            poison(xyz)
            poison(rpy)
            if isinstance(arg, list):
                arg[:] = [9.0] * 3
            check(ok == (o["name"] not in have), w + "adding %r was %s", o["name"], "accepted" if ok else "refused")
            if ok:
                run.ref.added.append([o["name"], p, list(o["xyz"]), list(o["rpy"] or [0.0] * 3)])
                run.lid.append(run.m.get_link_ids([o["name"]])[0])
                run.absent.discard(o["name"])
                for t in slots:
                    if t is not run and o["name"] not in {t.ref.link_name(i) for i in range(t.ref.nlinks())}:
                        t.absent.add(o["name"])
                st_.label("link added")
        elif k == "dup":
            nm = run.ref.link_name(o["link"] % nl)
            try:
                run.m.add_new_link(nm, run.lid[o["parent"] % nl], np.array(o["xyz"], float))
            except Exception:
                st_.label("duplicate refused")
            else:
                raise Bad(w + "a second link %r was accepted" % nm)
        elif k == "check":
            same_model(run, w, st_)
        elif k == "drop" and len(slots) > 1:  # releasing one model must not hurt the others
            del slots[s], gen[s]
            del run
    for s, run in enumerate(slots):
        same_model(run, "at the end, model %d: " % s, st_)
    st_.nontrivial = any(o["op"] in ("pickle", "copy", "deepcopy") for o in case["ops"]) and any(o["op"] in ("set", "add", "fk") for o in case["ops"])


# ----------------------------------------------------------------- C27 ------
@st.composite
def metas(draw):
    r = draw(robots(max_links=10))
    names = [l["name"] for l in r["links"]] + [j["name"] for j in r["joints"]]
    near = st.sampled_from(names).flatmap(lambda s: st.sampled_from([s + " ", " " + s, s.upper(), s.lower(), s[:-1], s + "x", s + "\n", s + "_com", s.swapcase(), ""]))
    return {"robot": r, "nl": draw(st.sampled_from(["\n", "\r\n"])), "perm": draw(st.integers(0, 10**6)),
            "unknown": draw(st.lists(st.one_of(near, st.text(min_size=1, max_size=5)), max_size=4)),
            "adds": draw(st.lists(st.tuples(st.integers(0, 30), vec(2.0)).map(list), max_size=3)),
            "q": draw(st.integers(0, 10**6)), "path_kind": draw(st.sampled_from(["str", "path", "unicode"]))}


TMP = "/tmp"


def c27(case, st_):
    import pathlib
    import random
    r = case["robot"]
    text = to_urdf(r, case["nl"])
    fn = os.path.join(TMP, "m\u00e9 1.urdf" if case["path_kind"] == "unicode" else "m.urdf")
    with open(fn, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    a = tk.KinematicModel(xml_text=text)
    b = tk.KinematicModel(urdfpath=pathlib.Path(fn) if case["path_kind"] == "path" else fn)
    rnd = random.Random(case["perm"])
    mv = movers(r)
    known = set()
    for kind, m in (("text", a), ("file", b)):
        w = "model from %s: " % kind
        check(m.root_link_name == r["links"][0]["name"], w + "root link name %r", m.root_link_name)
        names = m.get_joint_names()
        check(sorted(names) == sorted(r["joints"][i]["name"] for i in mv), w + "joint names %s", names)
        check(list(m.get_joint_ids(names)) == list(range(len(names))), w + "joint ids %s", m.get_joint_ids(names))
        sh = list(names)
        rnd.shuffle(sh)
        check(list(m.get_joint_ids(sh)) == [names.index(s) for s in sh], w + "joint ids of a permuted list")
        check(len(m.get_joint_ids([])) == 0 and len(m.get_link_ids([])) == 0, w + "ids of an empty list")
        by = {r["joints"][i]["name"]: r["joints"][i] for i in mv}
        lim = m.get_joint_limits(m.get_joint_ids(sh))
        check(len(lim) == len(sh), w + "number of limits")
        for nm, got in zip(sh, lim):
            j = by[nm]
            if j["type"] == "continuous":
                check(tuple(got) == (None, None), w + "limits of continuous joint %r are %s", nm, got)
            else:
                e = tuple(0.0 if j["limit"][k] is None else j["limit"][k] for k in ("lower", "upper"))
                check(tuple(got) == e, w + "limits of %r are %s, expected %s", nm, got, e)
                st_.label("declared limits")
        ln = [l["name"] for l in r["links"]]
        ids = list(m.get_link_ids(ln))
        check(len(set(ids)) == len(ids), w + "two links share an id")
        k = list(range(len(ln)))
        rnd.shuffle(k)
        check(list(m.get_link_ids([ln[i] for i in k])) == [ids[i] for i in k], w + "link ids of a permuted list")
        close(m.total_mass, total_mass(r), 1e-12 * (1 + total_mass(r)), w + "total mass")
        reserved = {l["name"] + "_com" for l in r["links"] if l["inertial"]}
        for u in case["unknown"]:
            if "\x00" in u or any(0xD800 <= ord(ch) < 0xE000 for ch in u):
                continue
            for f, have in ((m.get_link_ids, set(ln) | reserved), (m.get_joint_ids, set(by) | {j["name"] for j in r["joints"]})):
                if u in have:
                    continue
                try:
                    x = f([u])
                except Exception:
                    st_.label("unknown name refused")
                    continue
                raise Bad(w + "the unknown name %r has id %s" % (u, x))
    mass = a.total_mass
    for m in (a, b):
        cur = list(m.get_link_ids(ln))
        have = set(ln) | reserved
        nms = list(ln)
        for t, (p, xyz) in enumerate(case["adds"]):
            nm = "new%d" % t
            if nm in have:
                continue
            m.add_new_link(nm, cur[p % len(cur)], np.array(xyz))
            nms.append(nm)
            x = list(m.get_link_ids(nms))
            check(x[:-1] == cur, "ids moved when a link was added")
            check(x[-1] not in cur, "the added link has the id of another one")
            cur = x
        check(m.get_joint_names() == names and list(m.get_joint_ids(names)) == list(range(len(names))), "joints changed when links were added")
        check(m.total_mass == mass, "mass changed when links were added")
    ia, ib = list(a.get_link_ids(nms)), list(b.get_link_ids(nms))
    check(ia == ib and a.get_joint_names() == b.get_joint_names(), "ids from file and text differ")
    jid = list(range(len(names)))
    q = np.random.RandomState(case["q"] % 2**31).uniform(-2, 2, (2, len(jid) + 6))
    A = a.solve_fk(q, ia, jid, rot_type=tk.RotationType.XYZW, base_type=tk.BaseType.FLOATING, with_jacobian=True)
    B = b.solve_fk(q, ib, jid, rot_type=tk.RotationType.XYZW, base_type=tk.BaseType.FLOATING, with_jacobian=True)
    close(A[0], B[0], 1e-12 * 400, "poses from file and text")
    close(A[1], B[1], 1e-6 * 400, "jacobians from file and text")
    for bad in ({}, {"urdfpath": fn, "xml_text": text}, {"urdfpath": os.path.join(TMP, "nothing here")}):
        try:
            tk.KinematicModel(**bad)
        except Exception:
            continue
        raise Bad("a model was made from %s" % sorted(bad))
    st_.nontrivial = len(r["links"]) >= 2


# ----------------------------------------------------------------- C38 ------
def some_config(rng, r, jl, bt):
    """values mostly within the limits of the joints"""
    how, v = rng.randrange(8), []
    for i in jl:
        j = r["joints"][i]
        m, lin = j["limit"], j["type"] == "prismatic"
        if how == 0:
            v.append(0.0)
        elif how == 1 or not m or j["type"] == "continuous":
            v.append(rng.uniform(-0.5, 0.5) if lin else rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, rng.uniform(-4, 4)]))
        elif how == 2:
            v.append(rng.choice([m["lower"], m["upper"]]))
        else:
            v.append(rng.uniform(min(m["lower"], m["upper"]), max(m["lower"], m["upper"])))
    if bt == "PLANER":
        v += [rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-4, 4)]
    elif bt == "FLOATING":
        v += [rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-4, 4), rng.uniform(-1.4, 1.4), rng.uniform(-4, 4)]
    return [float(x) for x in v]


@st.composite
def real_cases(draw):
    import shipped
    case = draw(shipped.variations())
    _, r = shipped.of(case)
    if r is None:
        case["edits"] = []
        _, r = shipped.of(case)
    mv, n, ops = movers(r), len(r["links"]), []
    mass = total_mass(r) > 0
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["fk", "fk", "com", "sqd", "set", "inertia", "add", "clear"]))
        if k in ("com", "inertia") and not mass:
            k = "fk"
        rng = random.Random(draw(st.integers(0, 10**9)))
        jl = rng.sample(mv, len(mv)) if rng.random() < 0.3 else rng.sample(mv, rng.randint(0, min(10, len(mv))))
        if rng.random() < 0.3:
            jl.sort()
        bt = rng.choice(["FIXED", "PLANER", "FLOATING"])
        if k == "clear":
            ops.append({"op": k})
        elif k == "add":
            ops.append({"op": k, "parent": rng.randrange(n), "xyz": [rng.uniform(-1, 1) for _ in range(3)], "rpy": rng.choice([None, [rng.uniform(-3, 3) for _ in range(3)]])})
            n += 1
        elif k in ("set", "inertia"):
            ops.append({"op": k, "jl": jl, "bt": bt, "q": some_config(rng, r, jl, bt if k == "set" else "FIXED"), "layout": "c"})
        else:
            o = {"op": k, "jl": jl, "bt": bt, "layout": rng.choice(["c", "f", "lists", "arrays"]), "jac": rng.random() < 0.6,
                 "rows": [some_config(rng, r, jl, bt) for _ in range(rng.choice([1, 1, 2, 3]))], "cache": ""}
            if k == "fk":
                o["links"] = [rng.randrange(n) for _ in range(rng.randint(1, 5))] if rng.random() < 0.8 else list(range(n))
                o["rot"] = rng.choice(["IGNORE", "RPY", "XYZW"])
            elif k == "sqd":
                o["pairs"] = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(1, 5))]
            else:
                o["act"] = [rng.randrange(n) for _ in range(rng.randint(0, 2))] if rng.random() < 0.6 else None
                o["forces"] = [rng.uniform(-0.2, 3.0) * total_mass(r) for _ in o["act"] or []]
            ops.append(o)
    case["ops"] = ops
    return case


def c38(case, st_):
    import shipped
    text, r = shipped.of(case)
    if case["load"] == "file":
        f = os.path.join(TMP, "shipped-%d.urdf" % os.getpid())
        with open(f, "w", encoding="utf-8") as h:
            h.write(text)
        m = tk.KinematicModel(f)
        os.remove(f)
    else:
        m = tk.KinematicModel(xml_text=text)
    run = Run(r, model=m)
    mv = movers(r)
    check(sorted(m.get_joint_names()) == sorted(r["joints"][i]["name"] for i in mv), "the moving joints are %s", m.get_joint_names())
    check(m.root_link_name == r["links"][0]["name"], "the root link is %s", m.root_link_name)
    close(m.total_mass, total_mass(r), 1e-12 * (1 + total_mass(r)), "total mass")
    check(len(set(run.lid)) == len(r["links"]) and len(set(run.jid.values())) == len(mv), "ids are not distinct")
    for i, got in zip(mv, m.get_joint_limits(run.jids(mv))):
        j = r["joints"][i]
        want = (None, None) if j["type"] == "continuous" else (j["limit"]["lower"], j["limit"]["upper"])
        check(tuple(got) == want, "limits of %s are %s, expected %s", j["name"], got, want)
    for o in case["ops"]:
        getattr(run, o["op"])(o, True, st_)
    final_poses(run, st_)
    st_.label(case["base"] + (" varied" if case["edits"] else " as shipped"))
    for k, _ in case["edits"]:
        st_.label("edit " + k)
    st_.nontrivial = any(o.get("jl") and (o.get("rows") or o.get("q")) for o in case["ops"])


ALL = ["fk", "com", "sqd", "set", "inertia", "add", "clear", "bad", "get"]
PROPS = {
    "C21": (lambda: histories(ALL + ["fk", "fk"], "fk", False), c21,
            "random robot and call history ending in solve_fk, all against the reference model; non-trivial = columns to set, and several rows or earlier calls", (8000, 400000)),
    "C22": (lambda: histories(ALL + ["com", "com"], "com", True), c22,
            "random robot with mass and call history ending in solve_com_fk; non-trivial = columns to set, and several rows or earlier calls", (8000, 400000)),
    "C23": (lambda: histories(ALL + ["sqd", "sqd"], "sqd", False), c23,
            "random robot and call history ending in compute_inter_link_sqdists; non-trivial = two different links, and several rows or earlier calls", (8000, 400000)),
    "C24": (copies, c24, "random history of configuration changes, accepted and refused additions, pickles (all protocols; also sent to another process, judged there and sent back), copies and releases over up to six models; non-trivial = a copy made and a state changed", (6000, 300000)),
    "C25": (lambda: histories(["set", "get", "inertia", "fk", "com", "sqd", "bad", "add", "set", "get", "inertia"], "get", True), c25,
            "random robot and history of set/get/inertia/solve calls, read back against the reference state; non-trivial = a non-empty joint list was set", (8000, 400000)),
    "C27": (metas, c27, "random robot loaded from text and from a file, all name, id, limit and mass queries; non-trivial = at least two links", (8000, 400000)),
    "C38": (real_cases, c38, "one of the shipped robots, as it is or after 1-6 edits (subtrees cut or grafted from another shipped robot, joints retyped, moved, renamed, limits, axes, masses and inertials changed, elements shuffled), loaded from text or file, and 1-5 queries or changes, all against a reference fed by another XML reader; non-trivial = a query or change of a non-empty joint list", (5000, 200000)),
}
