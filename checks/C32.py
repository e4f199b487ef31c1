"""
C32: what is put together of many small things is handled as each of them
is alone.
"""

import contextlib
import json
import os
import resource

from hypothesis import strategies as st

from javatools import classinfo, distdiff, distinfo, jardiff, jarinfo

from vlib import classfile as cf
from vlib import trees as t
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write
from checks import C13, C15, C25

RULE = ("small generated distributions, JARs and classes are put together, "
        "each many times and under other directories, and the whole is "
        "compared, or described, when only some 40 files more can be open "
        "at a time than before; what is said of it has to be what is said "
        "of each part alone; non-trivial when there are more JARs or "
        "entries (for the part infos: files) than that")

SPARE = 40


@contextlib.contextmanager
def few_files():
    """ only SPARE files more can be open than now """
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    used = max(int(n) for n in os.listdir("/proc/self/fd"))
    resource.setrlimit(resource.RLIMIT_NOFILE, (used + 1 + SPARE, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))


def places(n, times):
    """ directories of the n-th part, which don't collide """
    return ["p%d_%d/" % (n, i) for i in range(times)]


def moved(kid, *pairs):
    """ a change's JSON (or a part of it), with other paths in it """
    if isinstance(kid, dict):
        return {k: moved(v, *pairs) for k, v in kid.items()}
    if isinstance(kid, list):
        return [moved(v, *pairs) for v in kid]
    if isinstance(kid, str):
        for old, new in pairs:
            kid = kid.replace(old, new)
    return kid


def tree_of(main, args):
    res = run_main(main, args + ["--json", "--show-ignored",
                                 "--show-unchanged"])
    return res.rc, json.loads(res.out)


def listed(kids):
    return sorted(json.dumps(k, sort_keys=True) for k in kids)


def compare(got, want, what):
    got, want = listed(got), listed(want)
    for x in set(want) - set(got):
        need(False, "%s: not there, but told of a part alone: %s", what, x)
    same(len(got), len(want), "how many " + what)


# ---- distributions ----

def body_dists(case, ctx):
    groups, times, (_o, _w, args), procs = case
    wl, wr, want, jars, rc = {}, {}, [], 0, 0
    argv = ["distdiff", "--processes=%d" % procs] + list(args)
    with Scratch() as d:
        bigl, bigr = os.path.join(d, "big/l"), os.path.join(d, "big/r")
        for n, parts in enumerate(groups):
            left, right = C15.build(parts)
            l = t.write_tree(os.path.join(d, "one%d/l" % n), left)
            r = t.write_tree(os.path.join(d, "one%d/r" % n), right)
            one_rc, one = tree_of(distdiff.main, [
                "distdiff", "--processes=0"] + list(args) + [l, r])
            rc = rc or one_rc
            for p in places(n, times):
                for f in left:
                    wl[p + f] = left[f]
                for f in right:
                    wr[p + f] = right[f]
                want += [dict(moved(k, (l + "/", "L/"), (r + "/", "R/")),
                              entry=p + k["entry"])
                         for k in one["report"]["children"]]
            jars += times * sum(f in right and right[f] != left[f] and
                                C15.KIND[f] == "jar" for f in left)
        t.write_tree(bigl, wl)
        t.write_tree(bigr, wr)
        with few_files():
            got_rc, got = tree_of(distdiff.main, argv + [bigl, bigr])
        same(got_rc, rc, "exit code of the whole")
        kids = []
        for k in got["report"]["children"]:
            need(k["entry"][:1] == "p" and "/" in k["entry"],
                 "entry %r", k["entry"])
            p = k["entry"][:k["entry"].index("/") + 1]
            kids.append(dict(moved(k, (bigl + "/" + p, "L/"),
                                   (bigr + "/" + p, "R/"), (p, "")),
                             entry=k["entry"]))
        compare(kids, want, "files of the whole")
        ctx.hit("exit %d" % rc)
        ctx.hit("processes %d" % procs)
        ctx.nontrivial_case(jars > SPARE)

        if times % 3 == 0:
            with few_files():
                whole = said(bigl)
            alone = [said(os.path.join(d, "one%d/l" % n))
                     for n in range(len(groups))]
            same(whole[0], set().union(*[p for p, _r in alone]),
                 "what the whole provides")
            if len(groups) == 1:
                same(whole[1], alone[0][1], "what the whole requires")
            need(whole[1] <= set().union(*[r for _p, r in alone]),
                 "the whole requires what none of its parts does")
            ctx.hit("distinfo")


def said(dist):
    """ what distinfo says a distribution provides, and requires """
    args = [["distinfo", how, dist]
            for how in ("--dist-provides", "--dist-requires")]
    return [set(run_main(distinfo.main, a).out.split("\n")[1:])
            for a in args]


group = C15.dists(choice=[(n, "jar") for n in C15.JARS] * 12 + C15.NAMES,
                  most=3)
case_dists = st.tuples(
    st.lists(group, min_size=1, max_size=4),
    st.one_of(st.integers(1, 3), st.integers(11, 30), st.integers(20, 30)),
    st.one_of(st.just(({}, (), ())), C15.options().filter(
        lambda x: not x[0]["filenames"])),
    st.sampled_from([0] * 9 + [2]))


# ---- twins ----

def twin(cls, name, byte, jar):
    """ a class, or a JAR of one; all have the same size """
    data = cf.write_class(dict(cls, this=name, attrs=[
        ("Raw", "Twin", b"%c" % byte)]))
    return t.zip_bytes({"C.class": data, "d": b"%c" % byte},
                       compress=False) if jar else data


def body_twins(case, ctx):
    """ files of the same name, size and date in many directories """
    cls, times, base, what, picks, seed = case
    one = {"jar": lambda i, b: twin(cls, "T%02d" % i, b, True),
           "class": lambda i, b: twin(cls, "T%02d" % i, b, False),
           "txt": lambda i, b: b"%02d %c\n" % (i, b),
           "bin": lambda i, b: b"%02d %c" % (i, b)}[what]
    picks = {p % times for p in picks}
    left, right = {}, {}
    for i in range(times):
        n = "%s%02d/%s.%s" % ("a/b/"[:i % 3 * 2], i, base, what)
        left[n] = one(i, 48)
        right[n] = one(i, 49 if i in picks else 48)
    names = sorted(left)
    with Scratch() as d:
        date = 10**9 + seed
        l = t.write_tree(os.path.join(d, "l"), left, mtime=date)
        r = t.write_tree(os.path.join(d, "r"), right, mtime=date)
        with few_files():
            rc, got = tree_of(distdiff.main, [
                "distdiff", "--processes=%d" % (seed % 16 == 5), l, r])
        kids = got["report"]["children"]
        same(sorted(k["entry"] for k in kids), names, "files of the whole")
        want = {n for n in names if left[n] != right[n]}
        if what != "class":
            # (of a class, nobody looks at that)
            same({k["entry"] for k in kids if k["is_change"]}, want,
                 "files which changed")
            same(rc, int(bool(want)), "exit code")
        if what in ("jar", "class"):
            got = said(l)[0]
            for i in range(times):
                need("  T%02d" % i in got, "T%02d isn't provided", i)
    ctx.hit(what)
    ctx.nontrivial_case(times > 1 and want)


case_twins = st.tuples(
    C25.small, st.one_of(st.integers(1, 9), st.integers(40, 80)),
    st.sampled_from(["x", "MANIFEST", "a b"]),
    st.sampled_from(["jar", "jar", "class", "txt", "bin"]),
    st.lists(st.integers(0, 1000), max_size=3), st.integers(0, 10**6))


# ---- JARs ----

def body_jars(case, ctx):
    groups, times, exploded, comp = case
    wl, wr, want, rc = {}, {}, [], 0
    with Scratch() as d:
        bigl, bigr = os.path.join(d, "big/l.jar"), os.path.join(d, "big/r.jar")
        for n, (left, right) in enumerate(groups):
            left, right = [{f: x[f] for f in x
                            if not f.startswith("META-INF/")}
                           for x in (left, right)]
            l, r = os.path.join(d, "%d/l.jar" % n), os.path.join(
                d, "%d/r.jar" % n)
            put(l, left, False, True)
            put(r, right, False, True)
            one_rc, one = tree_of(jardiff.main, ["jardiff", l, r])
            rc = rc or one_rc
            kids = contents(one)
            for p in places(n, times):
                wl.update((p + f, left[f]) for f in left)
                wr.update((p + f, right[f]) for f in right)
                want += [dict(k, entry=p + k["entry"]) for k in kids]
        put(bigl, wl, exploded, comp)
        put(bigr, wr, exploded, comp)
        with few_files():
            got_rc, got = tree_of(jardiff.main, ["jardiff", bigl, bigr])
        same(got_rc, rc, "exit code of the whole")
        kids = []
        for k in contents(got):
            need(k["entry"][:1] == "p" and "/" in k["entry"],
                 "entry %r", k["entry"])
            p = k["entry"][:k["entry"].index("/") + 1]
            kids.append(dict(moved(k, (p, "")), entry=k["entry"]))
        compare(kids, want, "entries of the whole")
        ctx.hit("exploded" if exploded else "zipped")
        ctx.hit("exit %d" % rc)
        ctx.nontrivial_case(len(wl) > SPARE)


def put(path, files, exploded, comp):
    if exploded:
        os.makedirs(path)
        t.write_tree(path, files)
    else:
        write(path, t.zip_bytes(files, compress=comp))


def contents(tree):
    """ what is told of entries but the JAR's own manifest and, as it is
    of exploded JARs, directories """
    kids = [k for k in tree["report"]["children"]
            if k["class"] == "JarContentsChange"]
    same(len(kids), 1, "parts of the report about contents")
    return [k for k in kids[0]["children"]
            if k["entry"] != "META-INF/MANIFEST.MF" and
            not k["entry"].endswith("/")]


case_jars = st.tuples(
    st.lists(C13.entries(), min_size=1, max_size=4),
    st.one_of(st.integers(1, 3), st.integers(10, 40)),
    st.booleans(), st.booleans())


# ---- describing many files ----

def body_infos(case, ctx):
    classes, jars, picks, opts, jopts = case
    with Scratch() as d:
        cfiles = [write(os.path.join(d, "c%d.class" % i), cf.write_class(c))
                  for i, c in enumerate(classes)]
        jfiles = [write(os.path.join(d, "j%d.jar" % i), t.zip_bytes(j[0]))
                  for i, j in enumerate(jars)]
        for name, main, files, o in (
                ("classinfo", classinfo.main, cfiles, opts),
                ("jarinfo", jarinfo.main, jfiles, list(opts) + list(jopts))):
            args = [name] + list(o)
            alone = {f: run_main(main, args + [f]) for f in files}
            files = [files[n % len(files)] for n in picks]
            with few_files():
                res = run_main(main, args + files)
            same(res.rc, max(alone[f].rc for f in files), name + "'s exit "
                 "code of many")
            same(res.out, "".join(alone[f].out for f in files),
                 name + " of many")
        ctx.nontrivial_case(len(picks) > SPARE)


case_infos = st.tuples(
    st.lists(C25.small, min_size=1, max_size=4),
    st.lists(C13.entries(), min_size=1, max_size=4),
    st.one_of(st.lists(st.integers(0, 11), min_size=1, max_size=12),
              st.lists(st.integers(0, 11), min_size=SPARE + 1,
                       max_size=2 * SPARE)),
    st.sampled_from([(), ("-v",), ("-c",), ("-p",), ("--json",), ("-p", "-l"),
                     ("-s",), ("--class-provides", "--class-requires")]),
    st.sampled_from([("--zip", "--manifest"), ("--jar-classes",), ("--zip",),
                     ("--jar-provides", "--jar-requires")]))


PROPS = [
    Prop("dists", case_dists, body_dists, quick=320, thorough=5000),
    Prop("twins", case_twins, body_twins, quick=160, thorough=3000),
    Prop("jars", case_jars, body_jars, quick=320, thorough=5000),
    Prop("infos", case_infos, body_infos, quick=240, thorough=3000),
]
