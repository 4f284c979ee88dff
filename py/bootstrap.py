"""C26: sequences of first imports with injected faults. Every import runs in a
forked child with a scratch home directory; urllib answers from this file."""
import http.client
import io
import json
import os
import resource
import shutil
import signal
import sys
import urllib.error

from hypothesis import strategies as st

import offline
from props import Bad, check

RULE = ("random sequences of imports with download errors, HTTP errors, connections cut after any number of bytes, full disks, kills at any byte or "
        "source line, concurrent imports and deletions, then an undisturbed import; non-trivial = at least one fault or deletion took effect")
SIZES = (3000, 100000)
FILES = ("pr2.urdf", "fetch.urdf")
PKG = TMP = None
LINES = 650


def content(name, size):
    b = ("<!-- %s %d -->" % (name, size)).encode()
    return (b * (size // len(b) + 1))[:size]


class Body(io.RawIOBase):
    """serves data in the usual block reads and does something at byte `at`"""

    def __init__(self, data, at, action):
        self.data, self.at, self.action, self.pos = data, at, action, 0

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        if self.action and self.pos <= self.at <= end:
            a, self.action = self.action, None
            if self.at > self.pos:  # first hand out what came before
                out = self.data[self.pos:self.at]
                self.pos = self.at
                self.action = a
                return out
            r = a()
            if r is not None:
                return r
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def readable(self):
        return True

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def throw(e):
    raise e


def child(home, sizes, faults, kill_line=0, limit=0, pause=None):
    """in the forked child: import the package, report, never return"""
    log = []

    def answer(url):
        name = url.rsplit("/", 1)[-1]
        log.append(name)
        if name not in sizes:
            raise urllib.error.URLError("unknown file")
        data = content(name, sizes[name])
        f = faults.get(name)
        if pause and not f:
            at, fn = pause
            return Body(data, min(at, len(data)), fn), len(data)
        if not f:
            return io.BytesIO(data), len(data)
        k, at = f["kind"], min(f.get("at", 0), max(0, len(data) - 1))
        if k == "refused":
            raise urllib.error.URLError(ConnectionRefusedError("refused"))
        if k == "timeout0":
            raise TimeoutError("timed out")
        if k == "http":
            raise urllib.error.HTTPError(url, f["at"] % 200 + 400, "no", None, None)
        act = {"reset": lambda: throw(ConnectionResetError("reset")), "timeout": lambda: throw(TimeoutError("timed out")),
               "keyboard": lambda: throw(KeyboardInterrupt()), "incomplete": lambda: throw(http.client.IncompleteRead(b"", 10)),
               "short": lambda: b"", "kill": lambda: os._exit(77), "exit": lambda: throw(SystemExit(3)), "memory": lambda: throw(MemoryError())}[k]
        return Body(data, at, act), len(data)

    out = {"ok": False}
    try:
        sys.stderr = open(os.devnull, "w")
        os.environ["HOME"] = home
        offline.install(answer)
        sys.path.insert(0, PKG)
        if limit:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        count = [0]
        if kill_line:
            keep = ("/tinyfk/__init__.py", "urllib/request.py", "/tempfile.py", "/shutil.py", "/pathlib.py")

            def local(frame, ev, arg):
                if ev == "line":
                    count[0] += 1
                    if count[0] == kill_line:
                        os._exit(77)
                return local

            sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_filename.endswith(keep) else None)
        import tinyfk
        sys.settrace(None)
        out = {"ok": True, "paths": [tinyfk.pr2_urdfpath(), tinyfk.fetch_urdfpath()], "lines": count[0]}
    except BaseException as e:
        sys.settrace(None)
        out["error"] = "%s: %s" % (type(e).__name__, e)
    out["log"] = log
    return out


def forked(home, sizes, faults, **kw):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        signal.alarm(60)
        try:
            d = json.dumps(child(home, sizes, faults, **kw)).encode()
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
            os.write(w, d)
        finally:
            os._exit(0)
    os.close(w)
    return p, r


def wait(p, r):
    d = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        d += b
    os.close(r)
    _, s = os.waitpid(p, 0)
    check(not os.WIFSIGNALED(s), "the import was ended by signal %d", s & 127)
    return json.loads(d) if d else {"ok": False, "error": "killed", "log": [], "killed": True}


def snap(path):
    try:
        s = os.stat(path)
        with open(path, "rb") as f:
            return f.read(), s.st_mtime_ns, s.st_ino
    except OSError:
        return None


def oracle(case, st_):
    home = os.path.join(TMP, "home%d" % os.getpid() + case["home"])
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    try:
        _oracle(case, st_, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def _oracle(case, st_, home):
    sizes = dict(zip(FILES, case["sizes"]))
    want = [content(n, sizes[n]) for n in FILES]
    rel = advertised()
    paths = [os.path.join(home, p) for p in rel]
    hit = False
    for k, o in enumerate(case["ops"] + [{"op": "import", "faults": {}}, {"op": "import", "faults": {}}]):
        w = "step %d (%s): " % (k, o["op"])
        before = [snap(p) for p in paths]
        full = all(b and b[0] == c for b, c in zip(before, want))
        res, clean = None, False
        if o["op"] == "delete":
            hit = True
            for i, p in enumerate(paths):
                if o["what"] in (i, 2) and os.path.exists(p):
                    os.unlink(p)
            if o["what"] == 3:
                shutil.rmtree(os.path.dirname(paths[0]), ignore_errors=True)
            st_.label("deletion")
        elif o["op"] == "mkdir":
            os.makedirs(os.path.dirname(paths[0]), exist_ok=True)
        elif o["op"] == "import":
            res = wait(*forked(home, sizes, o["faults"]))
            clean = not o["faults"]
            hit |= any(n in o["faults"] for n in res["log"]) or bool(res.get("killed"))
            for n in res["log"]:
                st_.label("download " + (o["faults"][n]["kind"] if n in o["faults"] else "ok"))
        elif o["op"] == "disk":
            res = wait(*forked(home, sizes, {}, limit=o["at"]))
            hit = True
            st_.label("file size limit")
        elif o["op"] == "line":
            res = wait(*forked(home, sizes, {}, kill_line=o["at"]))
            clean = not res.get("killed")
            hit |= bool(res.get("killed"))
            st_.label("killed at a source line" if res.get("killed") else "survived")
        elif o["op"] == "concurrent":
            st_.label("concurrent imports")
            ar, aw = os.pipe()
            br, bw = os.pipe()

            def block():
                os.write(aw, b"p")
                os.close(aw)
                if os.read(br, 1) == b"k":
                    os._exit(77)

            a = forked(home, sizes, {}, pause=(o["at"], block))
            os.close(aw)
            paused = os.read(ar, 1) == b"p"
            os.close(ar)
            for i, p in enumerate(paths):
                s = snap(p)
                check(s is None or s[0] == want[i], w + "%s is truncated while it is being downloaded", FILES[i])
            res = wait(*forked(home, sizes, {}))
            check(res["ok"], w + "the second import failed: %s", res.get("error"))
            for i, p in enumerate(paths):
                s = snap(p)
                check(s is not None and s[0] == want[i], w + "%s is not complete after the second import", FILES[i])
            os.write(bw, b"k" if o["kill"] else b"c")
            os.close(bw)
            os.close(br)
            ra = wait(*a)
            check(ra["ok"] or ra.get("killed"), w + "the first import failed: %s", ra.get("error"))
            hit |= paused
            res = None
        after = [snap(p) for p in paths]
        for i in range(2):
            check(after[i] is None or after[i][0] == want[i], w + "%s has %s of %d bytes under its advertised name", FILES[i],
                  after[i] and len(after[i][0]), len(want[i]))
        if res is not None:
            if full:
                check(not res["log"], w + "both files were present, yet %s was downloaded", res["log"])
                check(after == before, w + "the files that were present were touched")
                check(res["ok"] or res.get("killed"), w + "the import failed: %s", res.get("error"))
            if clean:
                check(res["ok"], w + "the import failed with working downloads: %s", res.get("error"))
                check([os.path.realpath(p) for p in res["paths"]] == [os.path.realpath(p) for p in paths], w + "advertised paths are %s", res["paths"])
                check(all(after), w + "a sample file is missing after an import with working downloads")
    st_.nontrivial = hit


_adv = None


def advertised():
    """where the package says its files are, relative to the home directory"""
    global _adv
    if _adv is None:
        home = os.path.join(TMP, "probe%d" % os.getpid())
        os.makedirs(home)
        res = wait(*forked(home, dict.fromkeys(FILES, 100), {}, kill_line=10**9))
        shutil.rmtree(home, ignore_errors=True)
        check(res["ok"], "a plain first import fails: %s", res.get("error"))
        _adv = [os.path.relpath(p, home) for p in res["paths"]]
        check(not any(p.startswith("..") for p in _adv), "the sample files are not under the home directory: %s", res["paths"])
    return _adv


def setup(pkgdir, tmp):
    global PKG, TMP
    PKG, TMP = pkgdir, tmp
    size = st.one_of(st.integers(1, 300), st.sampled_from([8191, 8192, 8193, 16384, 20000]), st.integers(1, 60000))
    at = st.one_of(st.sampled_from([0, 1, 8192, 16384]), st.integers(0, 60000))
    fault = st.fixed_dictionaries({"kind": st.sampled_from(["refused", "timeout0", "http", "reset", "timeout", "keyboard", "incomplete", "short", "kill",
                                                            "kill", "exit", "memory"]), "at": at})
    imp = st.fixed_dictionaries({"op": st.just("import"), "faults": st.dictionaries(st.sampled_from(FILES), fault, max_size=2)})
    op = st.one_of(imp, imp, imp,
                   st.fixed_dictionaries({"op": st.just("line"), "at": st.integers(1, LINES)}),
                   st.fixed_dictionaries({"op": st.just("disk"), "at": st.integers(1, 60000)}),
                   st.fixed_dictionaries({"op": st.just("delete"), "what": st.integers(0, 3)}),
                   st.fixed_dictionaries({"op": st.just("concurrent"), "at": at, "kill": st.booleans()}),
                   st.just({"op": "mkdir"}))
    cases = st.fixed_dictionaries({"sizes": st.tuples(size, size).map(list), "ops": st.lists(op, min_size=1, max_size=6),
                                   "home": st.sampled_from(["", " with space", "\u00e9"])})
    return cases, oracle, RULE, SIZES
