"""
Shared machinery: runs the generated-input properties of one check in
parallel shards, counts what was generated, shrinks failures, writes
the replay and evidence files and decides the exit code.

A check is a module checks/<id>.py which makes `Prop` objects in a list
called PROPS and (optionally) a list KNOWN of known findings:

  Prop(name, strategy, body, quick=N, thorough=M)

body(case, ctx) takes one plain-data case (what the strategy made) and
raises Violation (or lets any exception of the code under test escape)
when the property is broken.  ctx.hit(...) classifies the case.
"""

import atexit
import base64
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

# how many times the number of cases a property asks for, when quick
QUICK = 2
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

OK, BROKEN, ERROR = 0, 1, 3


class Violation(Exception):
    """ the property does not hold for this case """


class HarnessError(Exception):
    """ the check itself could not do its work """


def _setup_path(scratch):
    # bytecode of /repo is compiled afresh for each run, never taken
    # from a __pycache__ somebody left behind
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)


_scratch_root = None
_scratch_owner = None


def scratch_root():
    return _scratch_root


class Scratch(object):
    """ a fresh directory for one case; emptied afterwards """

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c", dir=_scratch_root)
        return self.path

    def __exit__(self, *_exc):
        rmtree(self.path)


def rmtree(path):
    root = os.path.realpath(_scratch_root)
    real = os.path.realpath(path)
    if not (real.startswith(root + os.sep)):
        raise HarnessError("refusing to remove %r" % path)
    shutil.rmtree(real, ignore_errors=True)


class Ctx(object):
    """ per-case classification, and counters over the whole run """

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.excluded = {}
        self._labels = None
        self._nt = False
        self.strict = False

    def start(self):
        self._labels = set()
        self._nt = False

    def hit(self, *labels):
        """ label the running case """
        self._labels.update(labels)

    def nontrivial_case(self, cond=True):
        """ the running case satisfies the check's non-triviality rule """
        if cond:
            self._nt = True

    def exclude(self, what):
        """ count a case left out because of a known finding """
        self.excluded[what] = self.excluded.get(what, 0) + 1

    def finish(self, case):
        self.evaluations += 1
        for l in self._labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if self._nt:
            r = repr(case)
            h = hashlib.blake2b(r.encode("utf8", "backslashreplace"),
                                digest_size=12).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if n & (n - 1) == 0 or len(self.samples) < 3:
                    self.samples.append(r[:600])
                    del self.samples[:-6]


class Prop(object):
    """
    one generated-input property.

    quick / thorough: number of cases in all, spread over the shards.
    """

    def __init__(self, name, strategy, body, quick=400, thorough=None,
                 shards=None, case_limit=100):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.case_limit = case_limit


class Enum(object):
    """ a complete enumeration (no random choice) of a finite domain """

    def __init__(self, name, cases, body):
        self.name = name
        self.cases = cases
        self.body = body
        self.shards = 1
        self.case_limit = 600


class Known(object):
    """
    a known finding: `repro(ctx)` raises when the defect is still there.
    The text is in known-findings.txt under the same key.
    """

    def __init__(self, key, repro):
        self.key = key
        self.repro = repro


def load_known():
    out = {}
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        with open(fn, "rt", encoding="utf8") as fd:
            for line in fd:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                # finding: key=K property=P  text
                parts = line[len("finding:"):].strip().split(None, 2)
                k = parts[0].split("=", 1)[1]
                p = parts[1].split("=", 1)[1]
                out[k] = (p, parts[2])
    return out


def is_harness_trouble(exc):
    import errno
    if isinstance(exc, (HarnessError, MemoryError)):
        return True
    if isinstance(exc, OSError) and exc.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM,
            errno.EAGAIN):
        return True
    return False


def _run_task(task):
    """ one shard of one property; runs in a forked worker """

    modname, index, shard, nshards, seed, count = task
    mod = importlib.import_module(modname)
    prop = mod.PROPS[index]
    ctx = Ctx()
    res = {"prop": prop.name, "shard": shard}
    failure = None

    devnull = open(os.devnull, "w")
    saved = sys.stdout, sys.stderr
    started = time.time()

    def one(case):
        ctx.start()
        # every case is small: one which is not done after this long
        # hangs.  (The alarm is of this process only.)
        signal.setitimer(signal.ITIMER_REAL, prop.case_limit)
        try:
            prop.body(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def alarm(*_args):
        raise Violation("no answer after %d seconds" % prop.case_limit)
    signal.signal(signal.SIGALRM, alarm)

    if isinstance(prop, Enum):
        try:
            for n, case in enumerate(prop.cases()):
                last = case
                one(case)
                ctx.finish(case)
        except Exception as exc:
            failure = (last, exc, traceback.format_exc())

    else:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 45

        state = {"failed": None}

        @hypothesis.seed(seed * 1000003 + index * 1009 + shard)
        @settings(max_examples=count, database=None, deadline=None,
                  derandomize=False, print_blob=False,
                  report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.target, Phase.shrink),
                  suppress_health_check=list(HealthCheck),
                  verbosity=hypothesis.Verbosity.quiet)
        @given(prop.strategy)
        def run(case):
            try:
                one(case)
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception as exc:
                state["failed"] = (case, exc, traceback.format_exc())
                if is_harness_trouble(exc):
                    raise
                raise
            if state["failed"] is None:
                ctx.finish(case)

        try:
            run()
        except hypothesis.errors.HypothesisException as exc:
            if state["failed"] is not None:
                failure = state["failed"]
                # a case which fails once and then passes is the
                # check's own trouble
                if isinstance(exc, hypothesis.errors.Flaky):
                    res["flaky"] = True
            else:
                res["error"] = traceback.format_exc()
        except BaseException as exc:
            if state["failed"] is not None:
                failure = state["failed"]
            else:
                res["error"] = traceback.format_exc()
                if not isinstance(exc, Exception):
                    res["error"] += "\n(%r)" % exc

    sys.stdout, sys.stderr = saved
    devnull.close()

    if failure is not None:
        case, exc, tb = failure
        if is_harness_trouble(exc):
            res["error"] = tb
        else:
            try:
                blob = base64.b64encode(pickle.dumps(case)).decode("ascii")
            except Exception:
                blob = None
            res["failure"] = {"case": blob, "repr": repr(case)[:20000],
                              "what": "%s: %s" % (type(exc).__name__,
                                                  str(exc)[:4000]),
                              "trace": tb[-6000:]}
    res["seconds"] = time.time() - started
    res["evaluations"] = ctx.evaluations
    res["nontrivial"] = ctx.nontrivial
    res["labels"] = ctx.labels
    res["samples"] = ctx.samples
    res["excluded"] = ctx.excluded
    return res


def _worker(conn, task):
    # a process group of its own, so that whatever the code under test
    # leaves running is ended along with it
    os.setpgid(0, 0)
    try:
        res = _run_task(task)
    except BaseException:
        res = {"prop": "?", "shard": task[2], "error": traceback.format_exc(),
               "evaluations": 0, "nontrivial": set(), "labels": {},
               "samples": [], "excluded": {}, "seconds": 0}
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


def _run_tasks(tasks, jobs, limit):
    """
    a small process pool: one fresh fork per task, results in the order
    of tasks.  A worker which dies (a crash of the interpreter in the
    code under test) is reported as such.
    """

    import signal
    from multiprocessing.connection import wait

    mp = multiprocessing.get_context("fork")
    results = [None] * len(tasks)
    running = {}
    todo = list(enumerate(tasks))
    t0 = time.time()
    stopping = False

    while todo or running:
        while todo and len(running) < jobs and not stopping:
            n, task = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(w, task))
            p.daemon = False
            p.start()
            w.close()
            running[r] = (n, p)

        left = limit - (time.time() - t0)
        ready = wait(list(running), timeout=max(0.05, min(left, 5)))
        for r in ready:
            n, p = running.pop(r)
            try:
                results[n] = r.recv()
            except EOFError:
                p.join()
                results[n] = {"died": p.exitcode}
            r.close()
            p.join(10)
            _killpg(p.pid)
            # a failure was found: what runs finishes, nothing is started
            if results[n].get("failure") or results[n].get("error"):
                stopping = True

        if time.time() - t0 > limit:
            for r, (n, p) in running.items():
                _killpg(p.pid)
                results[n] = {"timeout": True}
                p.join(5)
            running = {}
            break
        if stopping and not running:
            break

    return results


def _killpg(pid):
    import signal
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def main(argv):
    global _scratch_root
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0,
                    help="a part of the cases only")
    ap.add_argument("-v", action="store_true")
    opt = ap.parse_args(argv)
    try:
        seed = int(opt.seed)
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(
            opt.seed.encode()).digest()[:6], "big")

    _scratch_root = tempfile.mkdtemp(prefix="verif-%s-" % opt.id)
    me = os.getpid()

    def clean():
        if os.getpid() == me:
            shutil.rmtree(_scratch_root, ignore_errors=True)
    atexit.register(clean)
    os.environ["TMPDIR"] = _scratch_root
    tempfile.tempdir = _scratch_root

    started = time.time()
    try:
        _setup_path(_scratch_root)
        mod = importlib.import_module("checks." + opt.id)
        if hasattr(mod, "setup"):
            mod.setup()
        # collect now: objects of the parent are never freed in workers
    except Exception:
        traceback.print_exc()
        print("ERROR check %s could not start" % opt.id)
        return ERROR

    if opt.replay:
        return replay(mod, opt)

    tasks = []
    for index, prop in enumerate(mod.PROPS):
        if opt.only and opt.only != prop.name:
            continue
        if isinstance(prop, Enum):
            tasks.append((mod.__name__, index, 0, 1, seed, 0))
            continue
        count = prop.quick if opt.tier != "thorough" else prop.thorough
        nshards = prop.shards or (8 if count >= 160 else
                                  4 if count >= 40 else 2)
        if opt.tier == "thorough":
            nshards *= 3
        per = max(1, int(-(-count // nshards) * opt.scale *
                         (1 if opt.tier == "thorough" else QUICK)))
        for s in range(nshards):
            tasks.append((mod.__name__, index, s, nshards, seed, per))

    limit = 780 if opt.tier != "thorough" else 6 * 3600
    results = _run_tasks(tasks, opt.jobs, limit)

    totals = {}
    evaluations = 0
    nontrivial = set()
    labels, excluded, samples = {}, {}, []
    failure, errors, notes = None, [], []

    for task, res in zip(tasks, results):
        name = mod.PROPS[task[1]].name
        if res is None:
            continue
        if "died" in res:
            # the interpreter itself went down while running the code
            failure = failure or {
                "prop": name, "case": None, "task": task,
                "repr": "shard %r (the interpreter died, exit code %r)" %
                        (task, res["died"]),
                "what": "the process running the code under test died "
                        "(exit code %r)" % res["died"], "trace": ""}
            continue
        if "timeout" in res:
            notes.append("shard %d of %s ran out of time: inconclusive"
                         % (task[2], name))
            continue
        evaluations += res["evaluations"]
        tot = totals.setdefault(name, {"evaluations": 0, "nontrivial": set(),
                                       "seconds": 0.0})
        tot["evaluations"] += res["evaluations"]
        tot["nontrivial"] |= res["nontrivial"]
        tot["seconds"] += res["seconds"]
        nontrivial |= {(name, h) for h in res["nontrivial"]}
        for k, v in res["labels"].items():
            k = "%s: %s" % (name, k)
            labels[k] = labels.get(k, 0) + v
        for k, v in res["excluded"].items():
            excluded[k] = excluded.get(k, 0) + v
        if task[2] == 0:
            samples.extend({"property_part": name, "case": s}
                           for s in res["samples"][-2:])
        if res.get("error"):
            errors.append("%s shard %d\n%s" % (name, task[2], res["error"]))
        elif res.get("failure") and failure is None:
            failure = dict(res["failure"], prop=name, task=task)
            if res.get("flaky"):
                failure["flaky"] = True

    # known findings
    known_lines = []
    known = load_known()
    for k in getattr(mod, "KNOWN", ()):
        if k.key not in known:
            errors.append("known finding %s is not in the list" % k.key)
            continue
        ctx = Ctx()
        ctx.start()
        try:
            k.repro(ctx)
        except Exception as exc:
            if is_harness_trouble(exc):
                errors.append(traceback.format_exc())
            known_lines.append("KNOWN-FINDING: property=%s %s"
                               % (known[k.key][0], known[k.key][1]))

    for line in known_lines:
        print(line)

    wall = time.time() - started
    rule = getattr(mod, "RULE", "")
    ev = {
        "property": opt.id,
        "tier": "thorough" if opt.tier == "thorough" else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": rule,
            "samples": samples[:12],
            "per_part": {n: {"evaluations": t["evaluations"],
                             "distinct_nontrivial": len(t["nontrivial"]),
                             "cpu_seconds": round(t["seconds"], 1)}
                         for n, t in totals.items()},
            "distribution": dict(sorted(labels.items())),
            "excluded_known": excluded,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 1),
        "violations": 1 if failure else 0,
        "repo_head": _head(),
        "known_findings": known_lines,
        "notes": notes,
        "result": ("violation" if failure else
                   "error" if errors else "held"),
    }
    finish_evidence(mod, opt, ev)

    if opt.v:
        for n, t in totals.items():
            print("%-28s %6d cases %6d nontrivial %7.1f cpu-s" %
                  (n, t["evaluations"], len(t["nontrivial"]), t["seconds"]))
        for k, v in sorted(labels.items()):
            print("    %-60s %d" % (k, v))
        for k, v in sorted(excluded.items()):
            print("    excluded %-60s %d" % (k, v))

    for e in errors:
        sys.stderr.write(e + "\n")
    for n in notes:
        print("NOTE " + n)

    if failure:
        path = os.path.join(HERE, "evidence", "%s.replay.json" % opt.id)
        with open(path, "wt") as fd:
            json.dump({"property": opt.id, "part": failure["prop"],
                       "case": failure["case"], "repr": failure["repr"],
                       "what": failure["what"], "trace": failure["trace"],
                       "task": failure["task"],
                       "flaky": failure.get("flaky", False)}, fd, indent=1)
        print("part %s: %s" % (failure["prop"], failure["what"]))
        print("case: %s" % failure["repr"][:3000])
        if opt.v:
            print(failure["trace"])
        print("VIOLATION property=%s replay=%s" % (opt.id, path))
        return BROKEN

    if errors:
        print("ERROR of the check %s itself" % opt.id)
        return ERROR

    print("OK property=%s cases=%d nontrivial=%d seconds=%.1f" %
          (opt.id, evaluations, len(nontrivial), wall))
    return OK


def finish_evidence(mod, opt, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fn = os.path.join(HERE, "evidence", "%s.json" % opt.id)
    with open(fn, "wt") as fd:
        json.dump(ev, fd, indent=1, sort_keys=True)
        fd.write("\n")


def replay(mod, opt):
    with open(opt.replay) as fd:
        rec = json.load(fd)
    prop = [p for p in mod.PROPS if p.name == rec["part"]][0]
    if rec["case"] is None:
        # a crash of the interpreter: run that shard again
        task = tuple(rec["task"])
        res = _run_tasks([task], 1, 3600)[0]
        if "died" in res or res.get("failure"):
            print("VIOLATION property=%s replay=%s" % (opt.id, opt.replay))
            return BROKEN
        return OK
    case = pickle.loads(base64.b64decode(rec["case"]))
    ctx = Ctx()
    ctx.start()
    try:
        prop.body(case, ctx)
    except Exception:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (opt.id, opt.replay))
        return BROKEN
    print("OK: the case passes")
    return OK


def _head():
    import subprocess
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"],
                              capture_output=True, text=True,
                              timeout=20).stdout.strip()
    except Exception:
        return ""
