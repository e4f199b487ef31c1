"""
C16: distdiff with helper processes does what it does without them.
"""

import multiprocessing
import os
import signal

from hypothesis import strategies as st

from javatools import distdiff

from vlib import classfile as cf
from vlib import htmltool
from vlib import trees as t
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, snapshot
from checks import C15, C17

RULE = ("pairs of distributions, now and then with classes and JARs which "
        "can't be read, are compared by distdiff with reports, with and "
        "without helper processes; exit code, console output and report "
        "files are compared, and with a model; a run must end in good time, "
        "whether a helper fails or not; non-trivial when there are two "
        "sub-reports or more (over 100 for the part many)")


def setup():
    htmltool.build()


def in_child(args, d, limit):
    """ a run of distdiff in a process of its own; (rc, output) """

    def work(conn):
        os.setpgid(0, 0)
        os.chdir(d)
        try:
            res = run_main(distdiff.main, args)
            conn.send((res.rc, res.out))
        except BaseException as exc:
            conn.send((type(exc).__name__, ""))
        conn.close()

    mp = multiprocessing.get_context("fork")
    r, w = mp.Pipe(False)
    p = mp.Process(target=work, args=(w,))
    p.start()
    w.close()
    try:
        if not r.poll(limit):
            return "did not end", ""
        try:
            res = r.recv()
        except EOFError:
            res = "died", ""
        # (it waits for its helpers)
        p.join(limit)
        return ("did not end", "") if p.is_alive() else res
    finally:
        p.join(5)
        if p.is_alive():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            p.join()


def scrub(tree):
    """ report files without what says how they were made """
    return {n: None if data is None else
            b"\n".join(x for x in data.split(b"\n")
                       if b'"processes"' not in x and
                       b'"html_data_copied"' not in x)
            for n, data in tree.items()}


def body(case, ctx):
    parts, (do, words, args), o, procs, broken = case
    left, right = C15.build(parts)
    for n in sorted(left):
        if n in right and left[n] != right[n] and broken and \
                C15.KIND[n] in ("class", "jar"):
            side = left if broken == 1 else right
            side[n] = side[n][:len(side[n]) // 2]
            break
    else:
        broken = 0
    opts = C15.api_options(do, words)
    formats = o["formats"]
    with Scratch() as d:
        l = t.write_tree(os.path.join(d, "l"), left)
        r = t.write_tree(os.path.join(d, "r"), right)
        base = ["distdiff"] + list(args) + C17.show_args(o)
        if o["json"]:
            base.append("--json")
        res = []
        for n in (0, procs):
            rep = os.path.join(d, "rep")
            more = ["--processes=%i" % n, "--report-dir", rep]
            if formats:
                more.append("--report=" + ",".join(formats))
            if o["copy"]:
                more += ["--html-copy-data", os.path.join(d, "data")]
            rc, out = in_child(base + more + [l, r], d, 120)
            out = "\n".join(x for x in out.split("\n")
                            if '"processes"' not in x and
                            '"html_data_copied"' not in x)
            have = snapshot(rep) if os.path.isdir(rep) else {}
            data = snapshot(os.path.join(d, "data")) \
                if os.path.isdir(os.path.join(d, "data")) else {}
            res.append((rc, out, scrub(have), data))
            for x in (rep, os.path.join(d, "data")):
                if os.path.isdir(x):
                    os.rename(x, x + ".%i" % n)
        (rc0, out0, rep0, data0), (rc1, out1, rep1, data1) = res
        for rc in (rc0, rc1):
            need(rc != "did not end", "distdiff --processes did not end")
        if broken and not do["shallow"]:
            ctx.hit("unreadable")
            if formats:
                ctx.nontrivial_case()
            need(isinstance(rc0, str) == isinstance(rc1, str),
                 "exit %r without helpers, %r with them", rc0, rc1)
            return
        need(not isinstance(rc0, str), "failed without helpers: %r", rc0)
        same(rc1, rc0, "exit code with %i helpers" % procs)
        same(out1, out0, "output with %i helpers" % procs)
        same(sorted(rep1), sorted(rep0), "report files with %i helpers" %
             procs)
        for n in rep0:
            same(rep1[n], rep0[n], "report %r with %i helpers" % (n, procs))
        same(data1, data0, "data with %i helpers" % procs)

        delta, tree, subs = C17.dist_trees(parts, left, right, l, r, do,
                                           opts)
        same(rc1, 1 if delta.is_change() and not delta.is_ignored(opts)
             else 0, "exit code")
        if formats:
            ctx.nontrivial_case(len(subs) > 2)
            ctx.hit("%s sub-reports" % ("many" if len(subs) > 2 else "few"))
            names = {n.rsplit(".", 1)[0] for n, x in rep1.items()
                     if x is not None}
            same(sorted(names), sorted(subs), "reports")
        else:
            same(rep1, {}, "reports not asked for")


def body_many(case, ctx):
    """
    more sub-reports than fit a pipe at a time; what fails in a helper,
    or next to them, ends the run all the same
    """
    count, pad, procs, what, where, fmt = case
    what = what if count else "none"
    with Scratch() as d:
        for side, faces in (("l", []), ("r", ["a/B"])):
            os.mkdir(os.path.join(d, side))
            good = cf.write_class({
                "this": "T", "super": "java/lang/Object", "access": 0x21,
                "interfaces": faces, "fields": [], "methods": [],
                "attrs": [], "extra": [], "minor": 0, "major": 50})
            for i in range(count):
                data = good
                if what == "class" and side == "r" and i == where % count:
                    data = good[:len(good) // 2]
                with open(os.path.join(d, side, "c%04i%s.class" % (
                        i, "x" * pad)), "wb") as fd:
                    fd.write(data)
            with open(os.path.join(d, side, "MANIFEST.MF"), "w") as fd:
                fd.write("A: %s\n" % side if what != "manifest" or
                         side == "l" else "zzz\n")
        rep = os.path.join(d, "rep")
        rc, _out = in_child(
            ["distdiff", "--quiet", "--processes=%i" % procs, "--report",
             fmt, "--report-dir", rep, os.path.join(d, "l"),
             os.path.join(d, "r")], d, 120)
        need(rc != "did not end", "distdiff did not end (%s)", what)
        ctx.hit(what)
        ctx.nontrivial_case(count > 100)
        if what == "none":
            same(rc, 1, "exit code")
            have = [n for n in snapshot(rep) if "JavaClassReport" in n]
            same(len(have), count, "reports of classes")
        else:
            need(isinstance(rc, str), "no failure: %r", rc)


case_many = st.tuples(
    st.one_of(st.integers(100, 500), st.integers(0, 100)),
    st.sampled_from([0, 100, 200]), st.sampled_from([1, 2, 3, 8]),
    st.sampled_from(["class", "class", "manifest", "none"]),
    st.one_of(st.just(0), st.integers(0, 500)),
    st.sampled_from(["json", "json", "text"]))

# more of what has reports
NAMES = [(n, k) for n, k in C15.NAMES if k in ("jar", "class")]
NAMES += NAMES[:5] + [(n, k) for n, k in C15.NAMES if k == "mf"][:1] + \
    [(n, k) for n, k in C15.NAMES if k == "text"][:2]
FORMATS = st.sampled_from([("json",), ("text",), ("json", "text"), (),
                           ("html",), ("json", "html", "text")])

case = st.tuples(
    C15.dists(NAMES, 8), C15.options(),
    st.tuples(C17.options, st.one_of(FORMATS, FORMATS)).map(
        lambda x: dict(x[0], formats=x[1])),
    st.sampled_from([1, 2, 3, 8, 1, 2, 3, 8, -1]),
    st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]))

PROPS = [
    Prop("helpers", case, body, quick=500, thorough=6000),
    Prop("many", case_many, body_many, quick=48, thorough=1000),
]
