#!/usr/bin/env python3
"""Runs one Python-level property: workers generate cases with Hypothesis, the
first failure is shrunk by Hypothesis and saved as a JSON replay file.

  driver.py ID PKGDIR --tmp D --seed N --evidence F --replay-out F
            [--max-seconds S] [--thorough] [--cases N] | --replay FILE
"""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
JOBS = 8
CASE_LIMIT_S = 90
LOG_LIMIT = 64 << 20


def parse():
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    a.add_argument("pkgdir")
    a.add_argument("--tmp", required=True)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--evidence")
    a.add_argument("--replay-out")
    a.add_argument("--max-seconds", type=float, default=400)
    a.add_argument("--thorough", action="store_true")
    a.add_argument("--cases", type=int, default=0)
    a.add_argument("--replay")
    a.add_argument("--worker", type=int, default=-1)
    a.add_argument("--isolate", action="store_true", help="every case in a process of its own")
    a.add_argument("--one", action="store_true", help="with --replay: only the exit status")
    return a.parse_args()


class Property:
    def __init__(self, args):
        self.args = args
        if args.pid == "C26":
            import bootstrap
            self.strategy, self.oracle, self.rule, self.sizes = bootstrap.setup(args.pkgdir, args.tmp)
        else:
            import offline
            import props
            tmp = os.path.join(args.tmp, "w%d" % args.worker)
            os.makedirs(os.path.join(tmp, ".tinyfk"), exist_ok=True)
            os.environ["HOME"] = tmp
            offline.install(lambda url: b"x")
            sys.path.insert(0, args.pkgdir)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                import tinyfk
            props.tk = tinyfk
            props.TMP = tmp
            if args.pid == "C24":  # before any model is made here
                import elsewhere
                props.ELSEWHERE = elsewhere.Elsewhere(props.judge_elsewhere)
            strat, self.oracle, self.rule, self.sizes = props.PROPS[args.pid]
            self.strategy = strat()

    def run(self, case, before=()):
        from props import Stats
        st = Stats()
        if not self.args.isolate:
            self.oracle(case, st)
            return st
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try:
                for b in before:
                    signal.alarm(CASE_LIMIT_S)
                    try:
                        self.oracle(b, Stats())
                    except Exception:
                        pass
                signal.alarm(CASE_LIMIT_S)
                self.oracle(case, st)
                os._exit(0)
            except BaseException as e:
                os.write(w, ("%s: %s" % (type(e).__name__, e)).encode()[:60000])
                os._exit(1)
        os.close(w)
        msg = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            msg += b
        os.close(r)
        _, s = os.waitpid(p, 0)
        if os.WIFSIGNALED(s):
            raise AssertionError("the process ended with signal %d" % os.WTERMSIG(s))
        if s:
            raise AssertionError(msg.decode(errors="replace"))
        return st


def worker(args):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    P = Property(args)
    t0 = time.time()
    cur = os.path.join(args.tmp, "w%d.case" % args.worker)
    out = {"evaluations": 0, "nontrivial": [], "samples": [], "labels": {}, "capped": False, "failure": None}
    log = open(os.path.join(args.tmp, "w%d.log" % args.worker), "w")  # every case up to the first failure
    seen = set()
    last = {}
    failing = [False]

    class Capped(Exception):
        pass

    def body(case):
        if not failing[0] and time.time() - t0 > args.max_seconds:
            out["capped"] = True
            return
        text = json.dumps(case)
        with open(cur, "w") as f:
            f.write(text)
        if not failing[0]:
            out["evaluations"] += 1
            if log.tell() > LOG_LIMIT:
                log.seek(0)
                log.truncate()
            log.write(text + "\n")
            log.flush()
        try:
            st = P.run(case)
        except BaseException as e:
            failing[0] = True
            last["case"], last["error"] = text, "%s: %s" % (type(e).__name__, e)
            last["trace"] = traceback.format_exc()[-3000:]
            raise
        if failing[0]:
            return
        for k, v in st.labels.items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        if st.nontrivial:
            h = hashlib.sha1(text.encode()).hexdigest()[:20]
            if h not in seen:
                seen.add(h)
                if len(out["samples"]) < 6 and 300 < len(text) < 1800:
                    out["samples"].append(text)

    n = args.cases or P.sizes[1 if args.thorough else 0]
    n = max(1, n // JOBS)
    # Hypothesis keeps what it generated in memory; long runs go in pieces
    piece = 0
    while n > 0 and not out["capped"] and not out["failure"]:
        k = min(n, 4000)
        n -= k
        test = settings(max_examples=k, database=None, deadline=None, suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)(given(P.strategy)(body))
        test = hypothesis.seed(args.seed * 1000003 + args.worker * 7919 + piece * 104729)(test)
        piece += 1
        try:
            test()
        except BaseException as e:
            if "case" not in last:
                raise
            out["failure"] = dict(last)
    out["nontrivial"] = sorted(seen)
    with open(os.path.join(args.tmp, "w%d.out.json" % args.worker), "w") as f:
        json.dump(out, f)
    return 0


def spawn(args, extra):
    cmd = [sys.executable, os.path.abspath(__file__), args.pid, args.pkgdir, "--tmp", args.tmp, "--seed", str(args.seed)]
    return subprocess.Popen(cmd + extra, stdout=subprocess.DEVNULL, stderr=open(os.path.join(args.tmp, "err.txt"), "a"))


def replay(args):
    with open(args.replay) as f:
        d = json.load(f)
    if d.get("rerun"):
        args.seed = d["seed"]
        e = rerun(args, d["rerun"]["worker"], d["rerun"]["extra"], 3)
        print("replay of %s: %s" % (args.pid, e or "ok"))
        if e:
            print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return 1 if e else 0
    P = Property(args)
    args.isolate = True
    try:
        P.run(d["case"], d.get("before", ()))
    except AssertionError as e:
        if not args.one:
            print("replay of %s fails: %s\n%s" % (args.pid, e, json.dumps(d["case"])[:4000]))
            print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return 1
    if not args.one:
        print("replay of %s: ok" % args.pid)
    return 0


def confirm(args, case, before=()):
    f = os.path.join(args.tmp, "confirm.json")
    with open(f, "w") as h:
        json.dump({"case": case, "before": list(before)}, h)
    hits = 0
    for _ in range(2):
        hits += spawn(args, ["--replay", f, "--one", "--worker", "99"]).wait() == 1
    return hits == 2


def with_history(args, w):
    """The case alone does not fail again: does it after the cases its process ran before it?"""
    try:
        with open(os.path.join(args.tmp, "w%d.log" % w)) as f:
            cases = [json.loads(x) for x in f if x.endswith("\n")]
    except (OSError, ValueError):
        return None
    t0, k = time.time(), 1
    while cases and time.time() - t0 < 90:
        before = cases[:-1][-k:]
        if confirm(args, cases[-1], before):
            return cases[-1], before
        if k >= len(cases) - 1:
            break
        k *= 2
    return None


def rerun(args, w, extra, times):
    """The same worker once more from its seed: True if it fails again."""
    out = os.path.join(args.tmp, "w%d.out.json" % w)
    t0 = time.time()
    for _ in range(times):
        if os.path.exists(out):
            os.unlink(out)
        p = spawn(args, extra + ["--worker", str(w)])
        try:
            rc = p.wait(max(1, 200 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None
        if rc < 0:
            return "killed by signal %d" % -rc
        try:
            with open(out) as f:
                o = json.load(f)
        except (OSError, ValueError):
            continue
        if o["failure"]:
            return o["failure"]["error"]
    return None


def main():
    args = parse()
    if args.worker >= 0 and not args.replay:
        return worker(args)
    if args.replay:
        return replay(args)
    t0 = time.time()
    extra = ["--max-seconds", str(args.max_seconds), "--cases", str(args.cases)] + (["--thorough"] if args.thorough else [])
    ps = {w: spawn(args, extra + ["--worker", str(w)]) for w in range(JOBS)}
    dead, errors, res = [], [], {}
    pending = dict(ps)
    while pending:
        time.sleep(0.05)
        for w, p in list(pending.items()):
            if w not in pending:
                continue
            cur = os.path.join(args.tmp, "w%d.case" % w)
            rc = p.poll()
            if rc is None:
                try:
                    idle = time.time() - max(os.stat(cur).st_mtime, t0)
                except OSError:
                    idle = 0
                if idle > CASE_LIMIT_S:
                    p.kill()
                    p.wait()
                    dead.append((w, "no answer within %d s" % CASE_LIMIT_S))
                    del pending[w]
                continue
            del pending[w]
            if rc < 0:
                dead.append((w, "killed by signal %d" % -rc))
            elif rc:
                errors.append(w)
            else:
                with open(os.path.join(args.tmp, "w%d.out.json" % w)) as f:
                    res[w] = json.load(f)
            if res.get(w, {}).get("failure") or w in [d[0] for d in dead]:
                for v in list(pending):  # one failure is enough
                    pending[v].kill()
                    pending[v].wait()
                    del pending[v]
    if errors:
        print(open(os.path.join(args.tmp, "err.txt"), errors="replace").read()[-3000:])
        return 2
    fail = None
    for w in sorted(res):
        if res[w]["failure"]:
            fail = res[w]["failure"]
            culprit = w
            break
    if not fail and dead:
        culprit = dead[0][0]
        w, why = dead[0]
        with open(os.path.join(args.tmp, "w%d.case" % w)) as f:
            case = f.read()
        fail = {"case": case, "error": why, "trace": ""}
        # again with every case in its own process, so that Hypothesis can shrink the crash
        os.rename(os.path.join(args.tmp, "w%d.log" % w), os.path.join(args.tmp, "w%d.kept" % w))
        p = spawn(args, extra + ["--worker", str(w), "--isolate", "--max-seconds", "150"])
        try:
            p.wait(260)
            with open(os.path.join(args.tmp, "w%d.out.json" % w)) as f:
                o = json.load(f)
            fail = o["failure"] or fail
        except (subprocess.TimeoutExpired, OSError, ValueError):
            p.kill()
            p.wait()
        os.rename(os.path.join(args.tmp, "w%d.kept" % w), os.path.join(args.tmp, "w%d.log" % w))
    violated = False
    if fail:
        case = json.loads(fail["case"])
        violated, before, again = confirm(args, case), [], None
        if not violated:
            h = with_history(args, culprit)
            if h:
                (case, before), violated = h, True
                fail["error"] += " (after %d other cases in the same process)" % len(before)
        if not violated and time.time() - t0 < 500:
            e = rerun(args, culprit, extra, 3)
            if e:
                violated, again = True, {"worker": culprit, "extra": extra}
                fail["error"] = e + " (the run of this worker as a whole)"
        if violated:
            with open(args.replay_out, "w") as f:
                json.dump({"property": args.pid, "seed": args.seed, "error": fail["error"], "case": case, "before": before, "rerun": again, "trace": fail["trace"]}, f, indent=1)
            print(fail["error"][:3000])
            print(json.dumps(case)[:3000])
        else:
            print("INCONCLUSIVE property=%s a case failed once and did not reproduce: %s" % (args.pid, fail["error"][:500]))
    if args.evidence:
        labels, nt, ev, samples, capped = {}, set(), 0, [], False
        for w in sorted(res):
            o = res[w]
            ev += o["evaluations"]
            nt.update(o["nontrivial"])
            samples += [t for t in o["samples"] if t not in samples]
            capped |= o["capped"]
            for k, v in o["labels"].items():
                labels[k] = labels.get(k, 0) + v
        sys.path.insert(0, HERE)
        import importlib
        rule = importlib.import_module("bootstrap").RULE if args.pid == "C26" else importlib.import_module("props").PROPS[args.pid][2]
        E = {"property": args.pid, "tier": "thorough" if args.thorough else "quick", "seed": args.seed, "level": "exploration",
             "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": rule, "samples": [json.loads(s) for s in (samples[::max(1, len(samples) // 3)] or samples)[:3]],
                          "labels": dict(sorted(labels.items())), "stopped_by_time_cap": capped, "workers_that_died": [d[1] for d in dead],
                          "unreproducible": bool(fail and not violated), "search_seconds": round(time.time() - t0, 2)},
             "wall_s": round(time.time() - t0, 2), "violations": int(violated)}
        with open(args.evidence, "w") as f:
            json.dump(E, f, indent=1)
    if violated:
        print("counterexample of %s saved to %s" % (args.pid, args.replay_out))
        return 1
    print("OK property=%s cases=%d in %.1fs" % (args.pid, sum(o["evaluations"] for o in res.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
