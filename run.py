#!/usr/bin/env python3
"""Build what a check needs from /repo's current tree and run it.

  run.py setup                 compile everything once (cache in /verif/build)
  run.py <ID> [quick|thorough] run the check of one property
  run.py <ID> replay FILE      run one saved counterexample again

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself could not run (for example /repo does not compile).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("VP_CXX", "clang++")
PYVT = "/usr/local/bin/python3-vt"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
BASE = (
    f"-g1 -O1 -fno-omit-frame-pointer -DNDEBUG -DEIGEN_NO_DEBUG -D_GLIBCXX_ASSERTIONS "
    f"-include cstddef -DEIGEN_MAX_CPP_VER=03 -w "
    f"-I{REPO}/include -I{REPO}/urdf_parser/include -I{REPO}/urdf_parser/tinyxml -I/usr/include/eigen3"
).split()
COMMON = SAN.split() + BASE
TSAN = "-fsanitize=thread"
PYFLAGS = (
    f"-g1 -O1 -fPIC -D_GLIBCXX_ASSERTIONS -DNDEBUG -DEIGEN_NO_DEBUG -include cstddef -DEIGEN_MAX_CPP_VER=03 -w "
    f"-I{VERIF}/minibind -I/usr/include/python3.12 "
    f"-I{REPO}/include -I{REPO}/urdf_parser/include -I{REPO}/urdf_parser/tinyxml -I/usr/include/eigen3"
).split()
ENV_ASAN = ("allocator_may_return_null=1:detect_leaks=0:hard_rss_limit_mb=2500:detect_stack_use_after_return=0:"
            "max_allocation_size_mb=2000:handle_abort=1")

with open(os.path.join(VERIF, "checks.json")) as _f:
    CHECKS = json.load(_f)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources(wrapper=False):
    out = []
    for pat in ("src/*.cpp", "urdf_parser/src/*.cpp", "urdf_parser/tinyxml/*.cpp"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return [s for s in out if wrapper or os.path.basename(s) != "wrapper.cpp"]


def header_hash():
    parts = []
    for d in ("include", "src", "urdf_parser"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".hh", ".inl", ".ipp")):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, REPO), read(p)]
    return sha(*parts)


def own_hash():
    parts = []
    for pat in ("engine/*.hpp", "props/*.hpp", "minibind/pybind11/*.h", "minibind/pybind11/detail/*.h"):
        for p in sorted(glob.glob(os.path.join(VERIF, pat))):
            parts += [p, read(p)]
    return sha(*parts)


def unlink(p):
    try:
        os.unlink(p)
    except OSError:
        pass


class BuildError(Exception):
    pass


def compile_one(src, flags, std, hh):
    key = sha(src, read(src), " ".join(flags), std, hh, CXX)
    obj = os.path.join(BUILD, key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=BUILD)
    os.close(fd)
    r = subprocess.run([CXX, "-std=" + std, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        unlink(tmp)
        raise BuildError(f"{src} does not compile:\n{r.stderr[-4000:]}")
    os.rename(tmp, obj)
    return obj


def link(objs, flags, name):
    key = sha(*[os.path.basename(o) for o in objs], " ".join(flags))
    exe = os.path.join(BUILD, f"{name}-{key[:12]}")
    if os.path.exists(exe):
        return exe
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    os.close(fd)
    r = subprocess.run([CXX, *flags, *objs, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        unlink(tmp)
        raise BuildError("link failed:\n" + r.stderr[-4000:])
    os.chmod(tmp, 0o755)
    os.rename(tmp, exe)
    return exe


def build_cpp(pid, fuzz=False):
    """returns (runner executable, libFuzzer executable or None)"""
    hh = header_hash()
    own = own_hash()
    kind = CHECKS[pid].get("san")
    thread = kind == "thread"
    san = [TSAN] if thread else ["-fsanitize-coverage=trace-pc-guard"] if kind == "count" else [] if kind == "none" else SAN.split()
    common = san + BASE
    flags = common + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    if kind == "count":  # the runner itself is not counted
        common = BASE
    jobs = [(os.path.join(VERIF, "props", pid.lower() + ".cpp"), flags, "gnu++17", hh + own)]
    jobs += [(s, flags, "gnu++14", hh) for s in repo_sources()]
    jobs += [(os.path.join(VERIF, "engine", "runner.cpp"), common, "gnu++17", own)]
    if fuzz:
        jobs += [(os.path.join(VERIF, "engine", "fuzz_main.cpp"), common, "gnu++17", own)]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    nsrc = 1 + len(repo_sources())
    core, runner = objs[:nsrc], objs[nsrc]
    exe = link(core + [runner], ([] if kind == "count" else san) + (["-pthread"] if thread else []) + (["-fsanitize=fuzzer-no-link"] if fuzz else []), pid)
    fexe = link(core + [objs[-1]], SAN.split() + ["-fsanitize=fuzzer"], pid + "-fuzz") if fuzz else None
    return exe, fexe


def build_py():
    """the repository's Python package over its real wrapper, in a private directory"""
    hh = header_hash()
    own = own_hash()
    jobs = [(s, PYFLAGS, "gnu++14" if os.path.basename(s) != "wrapper.cpp" else "gnu++17", hh + own)
            for s in repo_sources(wrapper=True)]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    so = link(objs, ["-shared", "-fPIC"], "_tinyfk")
    pkg = sorted(glob.glob(os.path.join(REPO, "python/tinyfk/*.py")))
    key = sha(os.path.basename(so), *[x for p in pkg for x in (os.path.basename(p), read(p))])
    d = os.path.join(BUILD, "pypkg-" + key[:12])
    if not os.path.isdir(d):
        t = tempfile.mkdtemp(dir=BUILD)
        os.mkdir(os.path.join(t, "tinyfk"))
        for p in pkg:
            shutil.copy(p, os.path.join(t, "tinyfk"))
        shutil.copy(so, os.path.join(t, "tinyfk", "_tinyfk.so"))
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def env_for(tmp):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ENV_ASAN
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["LC_ALL"] = "C"
    e["HOME"] = tmp
    e["TMPDIR"] = tmp
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    return e


def run_fuzz(pid, spec, exe, fexe, tier, seed, tmp, rp):
    """coverage-guided campaigns; returns (violation?, info)"""
    corpus_dirs = []
    info = {"campaigns": []}
    nproc = spec.get("fuzz_procs", 8)
    runs = spec["fuzz_runs"][0 if tier == "quick" else 1]
    tlimit = spec["fuzz_seconds"][0 if tier == "quick" else 1]
    procs = []
    for k in range(nproc):
        d = os.path.join(tmp, f"fz{k}")
        os.makedirs(os.path.join(d, "corpus"))
        args = [fexe, f"-seed={(seed * 1000003 + k * 7919) % 2147483646 + 1}", f"-runs={runs}",
                f"-max_total_time={tlimit}", f"-max_len={spec.get('fuzz_max_len', 4096)}", "-timeout=20",
                "-rss_limit_mb=2200", f"-artifact_prefix={d}/", "-print_final_stats=1", "-verbosity=1",
                os.path.join(d, "corpus")]
        if spec.get("fuzz_dict"):
            args.append("-dict=" + os.path.join(VERIF, spec["fuzz_dict"]))
        if spec.get("fuzz_seeds") and k % 2 == 1:  # half the campaigns start empty
            args.append(os.path.join(VERIF, spec["fuzz_seeds"]))
        log = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen(args, stdout=log, stderr=log, env=env_for(tmp), cwd=d), log))
    bad = []
    for d, p, log in procs:
        p.wait()
        log.close()
        txt = open(os.path.join(d, "log"), errors="replace").read()
        st = {}
        for ln in txt.splitlines():
            if ln.startswith("stat::number_of_executed_units"):
                st["executions"] = int(ln.split()[-1])
            if " cov: " in ln:
                st["edges"] = int(ln.split(" cov: ")[1].split()[0])
        st["corpus"] = len(os.listdir(os.path.join(d, "corpus")))
        info["campaigns"].append(st)
        bad += [a for a in sorted(glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*"))]
    viol = False
    for a in bad[:4]:
        r = subprocess.run([exe, "--bytes", a, "--replay-out", rp, "--tmp", tmp], env=env_for(tmp),
                           capture_output=True, text=True, errors="replace")
        print(r.stdout[-3000:])
        if r.returncode == 1:
            viol = True
            break
    if bad and not viol:
        # a failure the runner does not reproduce is reported as inconclusive
        info["unreproduced_artifacts"] = len(bad)
    info["executions"] = sum(c.get("executions", 0) for c in info["campaigns"])
    return viol, info


def findings(pid):
    out = []
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith("finding:") and f"property={pid} " in ln + " ":
                out.append(ln.split(f"property={pid}", 1)[1].strip())
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    if pid == "setup":
        for p, s in CHECKS.items():
            if s["kind"] == "cpp":
                build_cpp(p, bool(s.get("fuzz_runs")))
        if any(s["kind"] == "py" for s in CHECKS.values()):
            build_py()
        return 0
    spec = CHECKS[pid]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="vp-")
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", f"{pid}-{seed}.txt")
    ev = os.path.join(VERIF, "evidence", f"{pid}.json")
    t0 = time.time()
    try:
        if spec["kind"] == "cpp":
            exe, fexe = build_cpp(pid, bool(spec.get("fuzz_runs")))
            cmd = [exe, "--tmp", tmp] + (["--repeat", "8"] if spec.get("san") == "thread" else [])
            pyd = None
        else:
            pyd = build_py()
            cmd = [PYVT, os.path.join(VERIF, "py", "driver.py"), pid, pyd, "--tmp", tmp]
        env = env_for(tmp)
        if mode == "replay":
            return subprocess.run(cmd + ["--replay", sys.argv[3]], env=env).returncode
        for f in findings(pid):
            print(f"KNOWN-FINDING: property={pid} {f}")
        sys.stdout.flush()
        build_s = time.time() - t0
        cmd += ["--seed", str(seed), "--evidence", ev, "--replay-out", rp,
                "--max-seconds", "420" if mode == "quick" else str(spec.get("thorough_seconds", 3000))]
        if mode == "thorough":
            cmd.append("--thorough")
        if os.environ.get("VP_CASES"):
            cmd += ["--cases", os.environ["VP_CASES"]]
        if os.path.exists(ev):
            os.unlink(ev)
        rc = subprocess.run(cmd, env=env).returncode
        if rc not in (0, 1) or not os.path.exists(ev):
            print(f"check error: exit status {rc}")
            return 2
        finfo = None
        if rc == 0 and spec["kind"] == "cpp" and spec.get("fuzz_runs"):
            v, finfo = run_fuzz(pid, spec, exe, fexe, mode, seed, tmp, rp)
            if v:
                rc = 1
        with open(ev) as f:
            E = json.load(f)
        E["wall_s"] = round(time.time() - t0, 2)
        E["coverage"]["build_seconds"] = round(build_s, 2)
        if finfo:
            E["coverage"]["coverage_guided"] = finfo
            E["coverage"]["evaluations"] += finfo["executions"]
        E["violations"] = 1 if rc == 1 else 0
        E.setdefault("assumptions", spec.get("assumptions", []))
        with open(ev, "w") as f:
            json.dump(E, f, indent=1)
        if rc == 1:
            print(f"VIOLATION property={pid} replay={rp}")
        return rc
    except BuildError as e:
        print("check error:", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
