"""Harness: runs the generated-input checks of one property over several worker processes,
merges what they did into evidence/<id>.json, and reports violations as replay files."""
import argparse
import collections
import contextlib
import errno
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
QUICK_FACTOR = 2        # cases of the quick tier, as a multiple of the numbers listed with the sub-checks


class Violation(Exception):
    """The property is broken by the current case."""


class HarnessError(Exception):
    """The check itself could not do its work."""


class _Hang(BaseException):
    pass


class Sub:
    """One generated-input check.

    strategy: function () -> Hypothesis strategy of JSON-able cases
    check:    function (case, ctx), raises Violation
    quick / thorough: total number of cases per run and tier
    """

    def __init__(self, name, strategy, check, quick, thorough, rule, cpu=20.0):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule, self.cpu = quick, thorough, rule, cpu


def dumps(obj):
    return json.dumps(obj, sort_keys=True)


def fmt_short(obj, n=300):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + "... (%d chars)" % len(s)


class Ctx:
    """Handed to every check: scratch directory, notes about the case, guarded calls."""

    def __init__(self, base, tier="quick"):
        self.base = base
        self.tier = tier
        self._n = 0
        self.sub = None
        self.hurry = False
        self.reset()

    def reset(self):
        self.nontrivial = False
        self.classes = []
        self.excluded = []
        self.entered = False
        self._dir = None

    def note(self, nontrivial=None, *classes):
        if nontrivial is not None:
            self.nontrivial = bool(nontrivial)
        self.classes.extend(str(c) for c in classes if c)

    def exclude(self, why):
        """The case (or part of it) belongs to a recorded known finding and is not judged."""
        self.excluded.append(why)

    @property
    def dir(self):
        if self._dir is None:
            self._n += 1
            self._dir = os.path.join(self.base, "c%d" % self._n)
            os.mkdir(self._dir)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    @contextlib.contextmanager
    def sut(self, what, allow=()):
        """Runs code under test; any exception it lets out (other than `allow`) is a violation."""
        self.entered = True
        try:
            with self._watch(what):
                yield
        except allow:
            raise
        except (Violation, HarnessError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT):
                raise HarnessError("environment: %s" % e)
            raise Violation("%s raised %s" % (what, describe(e)))
        except BaseException as e:
            raise Violation("%s raised %s" % (what, describe(e)))

    @contextlib.contextmanager
    def must_raise(self, what):
        """Runs code under test that has to refuse with an ordinary exception."""
        self.entered = True
        try:
            with self._watch(what):
                yield
        except (Violation, HarnessError, KeyboardInterrupt):
            raise
        except (MemoryError, RecursionError, SystemExit) as e:
            raise Violation("%s ended with %s instead of an ordinary exception" % (what, describe(e)))
        except Exception:
            return
        except BaseException as e:
            raise Violation("%s ended with %s instead of an ordinary exception" % (what, describe(e)))
        raise Violation("%s was accepted, but has to be refused" % what)

    @contextlib.contextmanager
    def _watch(self, what):
        limit = self.sub.cpu if self.sub is not None else 20.0
        if self.hurry:                  # shrinking a failure already found
            limit = min(limit, 4.0)

        def on_alarm(signum, frame):
            raise _Hang()
        old = signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            yield
        except _Hang:
            raise Violation("%s did not terminate within %g s of CPU time" % (what, limit))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/nappy/" in fr.filename:
            where = " (at %s:%s in %s)" % (fr.filename.split("/nappy/")[-1], fr.lineno, fr.name)
            break
    return "%s: %s%s" % (type(e).__name__, fmt_short(str(e), 200), where)


def run_check(sub, case, ctx):
    """Runs one case; returns None, raises Violation or HarnessError."""
    ctx.reset()
    ctx.sub = sub
    try:
        try:
            sub.check(case, ctx)
        except (Violation, HarnessError, KeyboardInterrupt):
            raise
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            # looking at what the code under test produced failed: the produced thing has the wrong shape
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            if ctx.entered:
                raise Violation("result of unexpected shape: %s: %s [%s:%s]" % (
                    type(e).__name__, fmt_short(str(e), 200), os.path.basename(last.filename), last.lineno)) from e
            raise HarnessError("harness: " + "".join(traceback.format_exception(e))) from e
        except OSError as e:
            if ctx.entered and e.errno == errno.ENOENT:
                raise Violation("an expected output file does not exist: %s" % e) from e
            raise HarnessError("harness: " + "".join(traceback.format_exception(e))) from e
        except BaseException as e:
            raise HarnessError("harness: " + "".join(traceback.format_exception(e))) from e
    finally:
        ctx.cleanup()


# ---------------------------------------------------------------- worker

def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


def load(prop):
    return importlib.import_module("vp.p_%s" % prop.lower())


def make_test(sub, st, seen, fail, ctx, t0, budget):
    def test(case):
        if time.time() - t0 > budget and not fail:
            st["skipped_for_time"] += 1
            return
        text = dumps(case)
        case = json.loads(text)
        ctx.hurry = bool(fail)
        try:
            run_check(sub, case, ctx)
        except Violation as v:
            fail.append((case, str(v)))
            raise
        finally:
            if not fail:
                st["evaluations"] += 1
                if ctx.nontrivial:
                    h = hashlib.sha1(text.encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(st["samples"]) < 2 and len(text) < 2500:
                            st["samples"].append(case)
                st["classes"].update(ctx.classes)
                st["excluded"].update(ctx.excluded)
    return test


def worker_main(a):
    """Runs shard a.shard of a.nshards and writes the result JSON to a.out."""


    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import hypothesis
    from hypothesis import settings, given, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 25
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)

    t0 = time.time()
    mod = load(a.property)
    base = a.scratch
    os.chdir(base)
    ctx = Ctx(base, a.tier)
    res = {"subs": {}, "violations": [], "error": None}
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    try:
        for sub in mod.SUBS:
            if a.sub and sub.name != a.sub:
                continue
            total = getattr(sub, a.tier) * (QUICK_FACTOR if a.tier == "quick" else 1)
            n = max(1, -(-int(total * scale) // a.nshards))
            st = {"evaluations": 0, "hashes": [], "classes": collections.Counter(), "excluded": collections.Counter(),
                  "samples": [], "skipped_for_time": 0, "rule": sub.rule}
            res["subs"][sub.name] = st
            seen = set()
            fail = []

            test = make_test(sub, st, seen, fail, ctx, t0, a.budget)
            strat = sub.strategy()
            wrapped = hypothesis.seed(derive_seed(a.seed, a.property, sub.name, a.shard))(
                settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                         phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(
                    given(strat)(test)))
            try:
                wrapped()
            except (HarnessError, KeyboardInterrupt):
                raise
            except BaseException as e:
                if not fail:
                    raise
                res["violations"].append({"sub": sub.name, "case": fail[-1][0], "message": fail[-1][1]})
            finally:
                st["hashes"] = sorted(seen)
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(e))[-6000:]
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(a.out + ".tmp", a.out)
    return 0


# ---------------------------------------------------------------- replay

def replay_in_process(path, out):
    """Runs the case of a replay file; writes {"violation": msg or None, "error": ...}."""
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    base = tempfile.mkdtemp(prefix="verif-replay-")
    res = {"violation": None, "error": None}
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    try:
        os.chdir(base)
        try:
            run_check(sub, rec["case"], Ctx(base))
        except Violation as v:
            res["violation"] = str(v)
        except BaseException as e:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)
    return 0


def spawn(args, **kw):
    return subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "run.py")] + args,
                            cwd=HERE, stdin=subprocess.DEVNULL, **kw)


def run_replays(paths, scratch, jobs=8):
    """Replays files in fresh processes (several at a time); returns {path: result}."""
    results, running, todo = {}, [], list(paths)
    k = 0
    while todo or running:
        while todo and len(running) < jobs:
            p = todo.pop(0)
            k += 1
            out = os.path.join(scratch, "replay%d.json" % k)
            pr = spawn([os.path.basename(p), "--replay-worker", p, "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            running.append((pr, p, out, time.time()))
        for item in list(running):
            pr, p, out, t = item
            if pr.poll() is None:
                if time.time() - t > 300:
                    pr.kill()
                continue
            running.remove(item)
            err = pr.stderr.read().decode(errors="replace")[-2000:]
            if os.path.exists(out):
                with open(out) as f:
                    results[p] = json.load(f)
            else:
                results[p] = {"violation": None, "error": "replay process ended with %s: %s" % (pr.returncode, err)}
        time.sleep(0.02)
    return results


# ---------------------------------------------------------------- parent

def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def regress_files(prop):
    d = os.path.join(HERE, "regress", prop)
    return sorted(os.path.join(d, f) for f in os.listdir(d)) if os.path.isdir(d) else []


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--replay-worker")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    if a.seed is None:
        try:
            a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            a.seed = derive_seed(os.environ["VERIF_SEED"])
    if a.tier is None:
        a.tier = os.environ.get("VERIF_TIER", "quick")
        if a.tier not in ("quick", "thorough"):
            a.tier = "quick"
    if a.replay_worker:
        return replay_in_process(a.replay_worker, a.out)
    if a.worker:
        return worker_main(a)

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    procs = []

    def bye(signum, frame):
        for p in procs:
            p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, bye)
    try:
        if a.replay:
            return main_replay(a, scratch)
        return main_run(a, scratch, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def main_replay(a, scratch):
    with open(a.replay) as f:
        rec = json.load(f)
    if rec.get("kind") == "shard":
        r = run_shards(a, scratch, [], only=rec)
        vs = [v for x in r for v in x["violations"]]
        errs = [x["error"] for x in r if x["error"]]
        if vs:
            print(vs[0]["message"])
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
            return 1
        print(errs[0] if errs else "replay: property held")
        return 2 if errs else 0
    r = run_replays([os.path.abspath(a.replay)], scratch)
    r = list(r.values())[0]
    if r["violation"]:
        print(r["violation"])
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    if r["error"]:
        print(r["error"], file=sys.stderr)
        return 2
    print("replay: property held")
    return 0


def run_shards(a, scratch, procs, only=None):
    nshards = a.nshards or int(os.environ.get("VERIF_WORKERS", "8"))
    tier, seed, shards, subname = a.tier, a.seed, range(nshards), a.sub
    if only:
        nshards, tier, seed, shards, subname = only["nshards"], only["tier"], only["seed"], [only["shard"]], only.get("only_sub")
    budget = a.budget or (300 if tier == "quick" else 700)
    outs = []
    for i in shards:
        sd = os.path.join(scratch, "w%d" % i)
        os.makedirs(sd, exist_ok=True)
        out = os.path.join(scratch, "r%d.json" % i)
        if os.path.exists(out):
            os.unlink(out)
        args = [a.property, "--worker", "--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(nshards),
                "--scratch", sd, "--out", out, "--budget", str(budget)]
        if subname:
            args += ["--sub", subname]
        pr = spawn(args, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"))
        procs.append(pr)
        outs.append((pr, out))
    deadline = time.time() + 820
    results = []
    for pr, out in outs:
        try:
            pr.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            err = open(out + ".err", "rb").read().decode(errors="replace")[-2000:]
            results.append({"subs": {}, "violations": [], "error": "worker ended with %s: %s" % (pr.returncode, err)})
    return results


def save_replay(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (prop, rec["sub"], hashlib.sha1(dumps(rec["case"]).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def main_run(a, scratch, procs):
    t0 = time.time()
    prop = a.property
    mod = load(prop)
    violations, errors, known_lines = [], [], []

    # 1. recorded inputs: regressions must pass, known findings are reported
    known = known_findings(prop)
    regs = regress_files(prop) if not a.sub else []
    kfiles = {}
    for k in known:
        if k["status"] == "known":
            kfiles[os.path.join(HERE, k["replay"])] = k
    rr = run_replays(regs + ([] if a.sub else list(kfiles)), scratch)
    for p in regs:
        if rr[p]["violation"]:
            violations.append((p, rr[p]["violation"]))
        elif rr[p]["error"]:
            errors.append("regression input %s: %s" % (p, rr[p]["error"]))
    for p, k in kfiles.items():
        if p not in rr:
            continue
        if rr[p]["error"]:
            errors.append("known finding %s: %s" % (p, rr[p]["error"]))
        elif rr[p]["violation"]:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # 2. generated inputs
    results = run_shards(a, scratch, procs)
    nshards = len(results)
    subs = {}
    for i, r in enumerate(results):
        if r["error"]:
            errors.append("shard %d: %s" % (i, r["error"]))
        for name, st in r["subs"].items():
            m = subs.setdefault(name, {"evaluations": 0, "hashes": set(), "classes": collections.Counter(),
                                       "excluded": collections.Counter(), "samples": [], "skipped": 0, "rule": st["rule"]})
            m["evaluations"] += st["evaluations"]
            m["hashes"].update(st["hashes"])
            m["classes"].update(st["classes"])
            m["excluded"].update(st["excluded"])
            m["skipped"] += st["skipped_for_time"]
            m["samples"] += st["samples"]
    found = {}
    for i, r in enumerate(results):
        for v in r["violations"]:
            found.setdefault(v["sub"], []).append((len(dumps(v["case"])), i, v))
    for name, vs in found.items():
        vs.sort(key=lambda t: (t[0], t[1]))
        done = False
        for _, i, v in vs[:4]:
            rec = {"property": prop, "sub": name, "message": v["message"], "case": v["case"]}
            path = save_replay(prop, rec)
            r = run_replays([path], scratch)[path]
            if r["violation"]:
                violations.append((path, r["violation"]))
                done = True
                break
            if r["error"]:
                errors.append("replay of %s: %s" % (path, r["error"]))
        if not done:
            # depends on the calls before it: keep the whole shard as the reproduction
            _, i, v = vs[0]
            rec = {"property": prop, "sub": name, "message": v["message"], "case": v["case"], "kind": "shard", "only_sub": a.sub,
                   "tier": a.tier, "seed": a.seed, "shard": i, "nshards": nshards}
            again = run_shards(a, scratch, procs, only=rec)
            if any(x["violations"] for x in again):
                path = save_replay(prop, rec)
                violations.append((path, v["message"] + " (only after the preceding calls of the same process)"))
            else:
                errors.append("not reproducible: %s: %s" % (name, v["message"]))

    wall = time.time() - t0
    evaluations = sum(m["evaluations"] for m in subs.values())
    distinct = sum(len(m["hashes"]) for m in subs.values())
    samples = []
    for name, m in subs.items():
        for c in m["samples"][:2]:
            samples.append({"check": name, "case": c})
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": evaluations, "distinct_nontrivial": distinct,
              "rule": " | ".join("%s: %s" % (n, m["rule"]) for n, m in subs.items()),
              "samples": samples,
              "per_check": {n: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["hashes"]),
                                "classes": dict(sorted(m["classes"].items())), "excluded_known": dict(m["excluded"]),
                                "skipped_when_time_ran_out": m["skipped"]} for n, m in subs.items()},
              "regression_inputs": len(regs), "known_findings_seen": len(known_lines), "workers": nshards},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for line in known_lines:
        print(line)
    for path, msg in violations:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (prop, evaluations, distinct, len(violations), wall))
    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR: " + e, file=sys.stderr)
        return 2
    if evaluations == 0:
        print("ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0
