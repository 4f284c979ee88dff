"""The robots shipped with the repository, variations of them, and what an
independent reader (ElementTree) makes of the text."""
import copy
import functools
import os
import random
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

DATA = os.path.join(os.environ.get("VP_REPO", "/repo"), "data")
NAMES = ["kuka.urdf", "fetch.urdf", "pr2.urdf"]
TYPES = ["fixed", "revolute", "continuous", "prismatic"]
KINDS = ["prune", "prune", "type", "origin", "no_origin", "axis", "no_axis", "limit", "part_limit", "mass", "no_inertial", "inertial_origin", "graft",
         "shuffle", "rename", "decorate"]


@functools.lru_cache(None)
def original(name):
    with open(os.path.join(DATA, name), encoding="utf-8") as f:
        return f.read()


@st.composite
def variations(draw):
    name = draw(st.sampled_from(NAMES + ["kuka.urdf", "fetch.urdf"]))
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 6]))
    return {"base": name, "edits": [[draw(st.sampled_from(KINDS)), draw(st.integers(0, 10**6))] for _ in range(n)],
            "load": draw(st.sampled_from(["text", "text", "file"]))}


def num(x):
    return repr(round(x, 6)) if x != int(x) else str(int(x))


def v3(rng, mag):
    return " ".join(num(rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)]) * mag) for _ in range(3))


def child_first(e, tag):
    return e.find(tag)


def edit(root, kind, seed):
    rng = random.Random("%s-%d" % (kind, seed))
    links, joints = root.findall("link"), root.findall("joint")
    j = rng.choice(joints) if joints else None
    l = rng.choice(links)
    if kind == "prune" and j is not None:
        kids = {}
        for x in joints:
            kids.setdefault(x.find("parent").get("link"), []).append(x)
        stack = [j]
        while stack:
            x = stack.pop()
            root.remove(x)
            c = x.find("child").get("link")
            root.remove(next(y for y in links if y.get("name") == c))
            stack += kids.get(c, [])
    elif kind == "type" and j is not None:
        t = rng.choice(TYPES)
        j.set("type", t)
        if t in ("revolute", "prismatic") and j.find("limit") is None:
            ET.SubElement(j, "limit", {"lower": "-1.5", "upper": "2", "effort": "10", "velocity": "3"})
        a = j.find("axis")
        if a is not None and [float(x) for x in a.get("xyz").split()] == [0, 0, 0]:
            a.set("xyz", "0 1 0")
    elif kind == "origin" and j is not None:
        o = j.find("origin")
        if o is None:
            o = ET.SubElement(j, "origin")
        for k, m in (("xyz", 1.0), ("rpy", 2.5)):
            if rng.random() < 0.7:
                o.set(k, v3(rng, m))
            elif rng.random() < 0.5 and k in o.attrib:
                del o.attrib[k]
    elif kind == "no_origin" and j is not None and j.find("origin") is not None:
        j.remove(j.find("origin"))
    elif kind == "axis" and j is not None:
        a = j.find("axis")
        if a is None:
            a = ET.SubElement(j, "axis")
        w = ["0"] * 3
        w[rng.randrange(3)] = rng.choice(["1", "-1", "1.0", "-1e0"])
        a.set("xyz", " ".join(w))
    elif kind == "no_axis" and j is not None and j.find("axis") is not None:
        j.remove(j.find("axis"))
    elif kind in ("limit", "part_limit") and j is not None and j.find("limit") is not None:
        m = j.find("limit")
        k = rng.choice(["lower", "upper"])
        if kind == "limit":
            m.set(k, num(rng.uniform(-4, 4)))
        elif k in m.attrib:
            del m.attrib[k]
    elif kind == "mass" and l.find("inertial") is not None:
        l.find("inertial").find("mass").set("value", num(rng.choice([0.5, 3.0, rng.uniform(0.01, 50)])))
    elif kind == "no_inertial" and l.find("inertial") is not None:
        l.remove(l.find("inertial"))
    elif kind == "inertial_origin" and l.find("inertial") is not None:
        n = l.find("inertial")
        if n.find("origin") is not None and rng.random() < 0.4:
            n.remove(n.find("origin"))
        else:
            o = n.find("origin")
            if o is None:
                o = ET.SubElement(n, "origin")
            o.set("xyz", v3(rng, 0.5))
            o.set("rpy", v3(rng, 2.0))
    elif kind == "graft" and len(links) < 160:
        other = parsed(rng.choice(NAMES[:2]))
        pre = rng.choice(["g%d_" % seed, "second/", "2", "é_%d_" % seed])
        have = {x.get("name") for x in links} | {x.get("name") for x in joints}
        while any(h.startswith(pre) for h in have):
            pre = "x" + pre
        mats = {x.get("name") for x in root.findall("material")}
        for x in other:
            x = copy.deepcopy(x)
            if x.tag == "material":
                if x.get("name") in mats:
                    continue
            elif x.tag in ("link", "joint"):
                x.set("name", pre + x.get("name"))
                for y in list(x.iter("parent")) + list(x.iter("child")):
                    if y.get("link") is not None:
                        y.set("link", pre + y.get("link"))
            else:
                continue
            root.append(x)
        top = pre + root_name(other)
        g = ET.SubElement(root, "joint", {"name": pre + "mount", "type": rng.choice(TYPES)})
        ET.SubElement(g, "origin", {"xyz": v3(rng, 1.0), "rpy": v3(rng, 1.5)})
        ET.SubElement(g, "parent", {"link": l.get("name")})
        ET.SubElement(g, "child", {"link": top})
        ET.SubElement(g, "axis", {"xyz": "0 0 1"})
        ET.SubElement(g, "limit", {"lower": "-2", "upper": "2", "effort": "1", "velocity": "1"})
    elif kind == "shuffle":
        kids = list(root)
        rng.shuffle(kids)
        root[:] = kids
    elif kind == "rename":
        if rng.random() < 0.5 or j is None:
            old, new = l.get("name"), l.get("name") + rng.choice(["_renamed%d", " %d", "/%d", "é%d"]) % seed
            l.set("name", new)
            for x in joints:
                for t in ("parent", "child"):
                    if x.find(t).get("link") == old:
                        x.find(t).set("link", new)
        else:
            j.set("name", j.get("name") + "_renamed%d" % seed)
    elif kind == "decorate":
        x = rng.choice([root, l] + ([j] if j is not None else []))
        ET.SubElement(x, rng.choice(["gazebo", "sensor", "self_collide", "plugin", "note"]), {"reference": l.get("name"), "type": "x"}).text = "1 & 2"


@functools.lru_cache(None)
def parsed(name):
    return ET.fromstring(original(name).encode())


def root_name(root):
    kids = {x.find("child").get("link") for x in root.findall("joint")}
    return next(x.get("name") for x in root.findall("link") if x.get("name") not in kids)


def floats(s):
    return [float(x) for x in s.split()]


def read(root):
    """the robot as this reader understands it, links from the root on"""
    js = root.findall("joint")
    by_parent = {}
    for j in js:
        by_parent.setdefault(j.find("parent").get("link"), []).append(j)
    le = {x.get("name"): x for x in root.findall("link")}
    order, out = [root_name(root)], []
    for n in order:
        for j in by_parent.get(n, []):
            out.append((j, len(order)))
            order.append(j.find("child").get("link"))
    if len(order) != len(le):
        return None
    at = {n: i for i, n in enumerate(order)}
    links = []
    for n in order:
        x = le[n].find("inertial")
        d = {"name": n, "inertial": None}
        if x is not None:
            o, i = x.find("origin"), x.find("inertia")
            d["inertial"] = {"mass": float(x.find("mass").get("value")), "xyz": floats(o.get("xyz", "0 0 0")) if o is not None else None,
                             "rpy": floats(o.get("rpy", "0 0 0")) if o is not None else None,
                             "I": [float(i.get(k)) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")]}
        links.append(d)
    joints = []
    for j, c in out:
        o, a, m = j.find("origin"), j.find("axis"), j.find("limit")
        t = j.get("type")
        joints.append({"name": j.get("name"), "type": t, "parent": at[j.find("parent").get("link")], "child": c,
                       "xyz": floats(o.get("xyz", "0 0 0")) if o is not None else None, "rpy": floats(o.get("rpy", "0 0 0")) if o is not None else None,
                       "axis": floats(a.get("xyz")) if a is not None and t != "fixed" else None,
                       "limit": {k: float(m.get(k, "0")) for k in ("lower", "upper", "effort", "velocity")} if m is not None else None})
    return {"links": links, "joints": joints}


@functools.lru_cache(64)
def build(base, edits):
    """text and meaning of a variation"""
    text = original(base)
    root = copy.deepcopy(parsed(base))
    for kind, seed in edits:
        edit(root, kind, seed)
    if edits:
        text = ET.tostring(root, encoding="unicode")
    return text, read(root)


def of(case):
    return build(case["base"], tuple(tuple(e) for e in case["edits"]))
