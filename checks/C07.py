"""
C07: what a class, jar or distribution provides and requires.
"""

import fnmatch
import json
import os
import re
import tempfile

from hypothesis import strategies as st

from javatools import unpack_class
from javatools.jarinfo import JarInfo, main as jar_main
from javatools.distinfo import DistInfo, main as dist_main

from vlib import gen_class as g
from vlib import classfile as cf
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, write, run_main, \
    spellings
from checks.C01 import split_desc
from checks.C05 import ptype, pclass

RULE = ("classes over a small vocabulary of names, so that they refer to one "
        "another, with generated members and references (arrays of classes, "
        "of arrays, of primitives too), are put alone, in jars (zipped or "
        "exploded) and in distributions (directories or zipped) along with "
        "other files; what is provided and required is compared with sets "
        "computed from the models; non-trivial when some reference is to "
        "something provided and some is not")

CLASSES = ["a/A", "a/B", "b/C", "D", "a/A$1", "java/lang/Object", "x/Y"]
MEMBERS = ["f", "g", "h", "<init>"]
FDESC = ["I", "La/A;", "[J", "[[Lb/C;"]
MDESC = ["()V", "(I)V", "(La/A;[I)Lb/C;", "()La/A;"]

cls_name = st.sampled_from(CLASSES)
receiver = st.one_of(cls_name, cls_name, cls_name, st.sampled_from(
    ["[La/A;", "[[La/A;", "[I", "[[J", "[[[Lx/Y;", "[Lzz/Q;"]))
ref = st.one_of(
    st.tuples(st.just("Class"), receiver),
    st.tuples(st.just("Fieldref"), cls_name, st.sampled_from(MEMBERS[:3]),
              st.sampled_from(FDESC)),
    st.tuples(st.sampled_from(["Methodref", "InterfaceMethodref"]), receiver,
              st.sampled_from(MEMBERS), st.sampled_from(MDESC)),
    st.tuples(st.just("NameAndType"), st.just("f"), st.just("I")),
    st.tuples(st.just("String"), st.sampled_from(["a/A", "x.Y"])))


@st.composite
def one_class(draw):
    mem = []
    for names, descs in ((MEMBERS[:3], FDESC), (MEMBERS, MDESC)):
        ms = draw(st.lists(st.tuples(
            st.sampled_from([1, 1, 0, 2, 4, 9]), st.sampled_from(names),
            st.sampled_from(descs)), max_size=3,
            unique_by=lambda m: m[1:]))
        mem.append(tuple({"access": a, "name": n, "desc": d, "attrs": ()}
                         for a, n, d in ms))
    return {"major": 50, "minor": 0,
            "access": draw(st.sampled_from([1, 0x21, 0, 0x601])),
            "this": draw(cls_name),
            "super": draw(st.sampled_from(["java/lang/Object", "a/A", None])),
            "interfaces": tuple(draw(st.lists(cls_name, max_size=2,
                                              unique=True))),
            "fields": mem[0], "methods": mem[1], "attrs": (),
            "extra": tuple(draw(st.lists(ref, max_size=7)))}


# --- the model ---

def provides(cls, private=False):
    me = pclass(cls["this"])
    out = {me}
    for m in cls["fields"]:
        if private or m["access"] & 1:
            out.add("%s.%s:%s" % (me, m["name"], ptype(m["desc"])))
    for m in cls["methods"]:
        if private or m["access"] & 1:
            args, ret = split_desc(m["desc"])
            out.add("%s.%s(%s):%s" % (me, m["name"],
                                      ",".join(map(ptype, args)),
                                      ptype(ret)))
    return out


def refers(cls):
    out = set()
    for c in cf.pool_order(cls):
        if c[0] not in ("Class", "Fieldref", "Methodref",
                        "InterfaceMethodref"):
            continue
        if c[1][0] == "[":
            elem = c[1].lstrip("[")
            if elem[0] == "L":
                out.add(pclass(elem[1:-1]))
            continue
        name = pclass(c[1])
        if c[0] == "Class":
            out.add(name)
        elif c[0] == "Fieldref":
            out.add("%s.%s:%s" % (name, c[2], ptype(c[3])))
        else:
            args, ret = split_desc(c[3])
            out.add("%s.%s(%s):%s" % (name, c[2], ",".join(map(ptype, args)),
                                      ptype(ret)))
    return out


def requires(cls):
    return refers(cls) - provides(cls, True)


def keep(names, ignored):
    return {n for n in names if not any(
        p and re.match(fnmatch.translate(p), n) for p in ignored)}


# --- classes ---

def body_class(case, ctx):
    cls, ignored = case
    ci = unpack_class(cf.write_class(cls))
    classify([cls], ctx)
    for _twice in range(2):
        for ign in ((), tuple(ignored), list(ignored)):
            got = list(ci.get_provides(ign))
            same(len(got), len(set(got)), "repetition in provides")
            same(set(got), keep(provides(cls), ign), "provides")
            same(set(ci.get_provides(ign, private=True)),
                 keep(provides(cls, True), ign), "private provides")
            got = list(ci.get_requires(ign))
            same(len(got), len(set(got)), "repetition in requires")
            same(set(got), keep(requires(cls), ign), "requires")


def classify(classes, ctx):
    refs, prov = set(), set()
    for c in classes:
        refs |= refers(c)
        prov |= provides(c, True)
        for k in c["extra"]:
            if k[0] in ("Class", "Methodref") and k[1].startswith("[["):
                ctx.hit("array of arrays")
    ctx.nontrivial_case(refs & prov and refs - prov)


IGNORE = st.lists(st.sampled_from(
    ["java.*", "a.*", "*", "", "a.A", "b.C*", "*f:*", "D", "?", "[ab].*"]),
    max_size=2)
case_class = st.tuples(one_class(), IGNORE)


# --- jars ---

def expect_jar(entries):
    """ {symbol: [entry...]} of public provides, requires """
    prov, req, private = {}, {}, set()
    for n, c in entries.items():
        for s in provides(c):
            prov.setdefault(s, []).append(n)
        for s in requires(c):
            req.setdefault(s, []).append(n)
        private |= provides(c, True)
    req = {s: v for s, v in req.items() if s not in private}
    return prov, req


def check_map(got, want, kind, what):
    same(set(got), set(want), what)
    for s, by in got.items():
        same(sorted((k, e) for k, e in by), sorted((kind, e)
                                                   for e in want[s]),
             "%s: who has %s" % (what, s))


def check_jar_api(ji, entries, ignored):
    prov, req = expect_jar(entries)
    for ign in ((), ignored, ignored[:1], ()):
        check_map(ji.get_requires(ign),
                  {s: req[s] for s in keep(req, ign)}, "class.requires",
                  "jar requires")
        check_map(ji.get_provides(ign),
                  {s: prov[s] for s in keep(prov, ign)}, "class.provides",
                  "jar provides")
    same(sorted(ji.get_classes()), sorted(entries), "classes of the jar")
    for n, c in entries.items():
        same(ji.get_classinfo(n).get_this(), c["this"], "class at " + n)


def jar_files(entries, other):
    files = {n: cf.write_class(c) for n, c in entries.items()}
    for n, d in other.items():
        if not clash(n, files):
            files[n] = d
    return files


def clash(n, files):
    return any(n == f or n.startswith(f + "/") or f.startswith(n + "/")
               for f in files)


def put_jar(fn, entries, other, exploded):
    files = jar_files(entries, other)
    if exploded:
        return trees.write_tree(fn, files)
    return trees.write_zip(fn, files)


def check_cli(main, noun, args, fn, provided, required, ignored):
    """ text and JSON of the command line """
    flags = ["--%s-provides" % noun] * bool(args[0]) + \
            ["--%s-requires" % noun] * bool(args[1])
    argv = ["x"] + flags
    for i in ignored:
        argv += ["--api-ignore", i]
    res = run_main(main, argv + [fn])
    same(res.rc, 0, "exit code")
    lines = [l.strip() for l in res.out.splitlines() if l.strip()]
    want = []
    for on, title, names in ((args[0], "provides", provided),
                             (args[1], "requires", required)):
        if on:
            word = "distribution" if noun == "dist" else noun
            want.append("%s %s:" % (word, title))
            want.extend(sorted(keep(names, ignored)))
    same(lines, want, "output of %s" % " ".join(argv[1:]))
    res = run_main(main, argv + ["--json", fn])
    same(res.rc, 0, "exit code")
    try:
        doc = json.loads(res.out)
    except ValueError:
        raise Violation("not JSON: %r" % res.out[:300])
    for on, key, names in ((args[0], noun + ".provides", provided),
                           (args[1], noun + ".requires", required)):
        truth(key in doc, on, "JSON has " + key)
        if on:
            same(set(doc[key]), keep(names, ignored), "JSON " + key)


def body_jar(case, ctx):
    entries, other, exploded, ignored, args = case
    classify(entries.values(), ctx)
    ctx.hit("exploded" if exploded else "zipped")
    with Scratch() as d:
        fn = put_jar(os.path.join(d, "x.jar"), entries, other, exploded)
        fn, = spellings(case, fn)
        with JarInfo(fn) as ji:
            check_jar_api(ji, entries, ignored)
        prov, req = expect_jar(entries)
        check_cli(jar_main, "jar", args, fn, prov, req, ignored)


ENTRY = ["A.class", "a/B.class", "b/c/C.class", "META-INF/x/D.class",
         "A$1.class"]
ENTRIES = st.one_of(
    st.sampled_from(ENTRY), st.sampled_from(ENTRY),
    trees.new_name.map(lambda n: n + ("" if n.endswith(".class")
                                      else ".class")))


def some(names, values, most):
    """ {name: value}, no name is a directory of another """
    return st.dictionaries(names, values, max_size=most).map(
        lambda x: {n: x[n] for n in trees.apart(x)})


entries = some(ENTRIES, one_class(), 4)
OTHER = st.dictionaries(st.sampled_from(
    ["META-INF/MANIFEST.MF", "readme.txt", "a/data", "classy", "x.classes",
     "b/A.class.bak", "B.CLASS", "a/C.Class", "x.JAR"]), st.binary(max_size=9), max_size=2)
args = st.sampled_from([(1, 0), (0, 1), (1, 1), (0, 0)])
case_jar = st.tuples(entries, OTHER, st.booleans(), IGNORE, args)


# --- distributions ---

def body_dist(case, ctx):
    loose, jars, other, zipped, ignored, args, exploded = case
    with Scratch() as d:
        build = os.path.join(d, "build")
        files = jar_files(loose, other)
        os.mkdir(build)
        jars = {n: e for n, e in jars.items() if not clash(n, files)}
        for n, e in jars.items():
            files[n] = trees.zip_bytes(jar_files(e, {"META-INF/x": b""}))
        loc = os.path.join(d, "dist")
        if zipped:
            fn = trees.write_zip(loc + ".zip", files)
        else:
            fn = trees.write_tree(loc, files)
        fn, = spellings(case, fn)
        ctx.hit("zipped" if zipped else "directory")
        if jars:
            ctx.hit("with jars")
        every = list(loose.values()) + [c for e in jars.values()
                                        for c in e.values()]
        classify(every, ctx)

        tmp = os.path.join(d, "tmp")
        os.mkdir(tmp)
        old = tempfile.tempdir
        tempfile.tempdir = tmp
        try:
            di = DistInfo(fn)
            same(sorted(di.get_contents()), sorted(files), "contents")
            same(sorted(di.get_jars()), sorted(jars), "jars")
            same(sorted(di.get_classes()), sorted(loose), "classes")
            check_dist_api(di, loose, jars, ignored)
            for n, c in loose.items():
                same(di.get_classinfo(n).get_this(), c["this"], "class " + n)
            for n, e in jars.items():
                with di.get_jarinfo(n) as ji:
                    same(sorted(ji.get_classes()), sorted(e), "jar " + n)
            prov = set(di.get_provides())
            req = set(di.get_requires())
            di.close()
            same(os.listdir(tmp), [], "temporary files left by DistInfo")
            check_cli(dist_main, "dist", args, fn, prov, req, ignored)
            same(os.listdir(tmp), [], "temporary files left by distinfo")
        finally:
            tempfile.tempdir = old


def check_dist_api(di, loose, jars, ignored):
    prov, refs, open_, hidden = {}, {}, set(), set()
    for n, e in jars.items():
        p, r = expect_jar(e)
        for s in p:
            prov.setdefault(s, []).append(("jar.provides", n))
            open_.add(s)
        for s in r:
            refs.setdefault(s, []).append(("jar.requires", n))
        for c in e.values():
            hidden |= provides(c, True)
    for n, c in loose.items():
        for s in provides(c):
            prov.setdefault(s, []).append(("class.provides", n))
        for s in requires(c):
            refs.setdefault(s, []).append(("class.requires", n))
        open_ |= provides(c, True)
    # members which a jar has but does not publish may be counted as
    # required of the distribution, or not
    for ign in ((), ignored, ignored[:1], ()):
        got = di.get_provides(ign)
        same(set(got), keep(prov, ign), "distribution provides")
        for s, by in got.items():
            same(sorted((x[0], x[1]) for x in by), sorted(prov[s]),
                 "who provides " + s)
        got = di.get_requires(ign)
        least = keep(set(refs) - open_ - hidden, ign)
        most = keep(set(refs) - open_, ign)
        need(least <= set(got), "not said to be required: %r",
             sorted(least - set(got)))
        need(set(got) <= most, "wrongly said to be required: %r",
             sorted(set(got) - most))
        for s, by in got.items():
            same(sorted((x[0], x[1]) for x in by), sorted(refs[s]),
                 "who requires " + s)


JARS = st.one_of(
    st.sampled_from(["x.jar", "lib/y.jar", "deploy/z.war", "e.ear", "s.sar",
                     "r.rar"]),
    trees.new_name.map(lambda n: n + ".jar"))
jars = some(JARS, some(ENTRIES, one_class(), 2), 2)
case_dist = st.tuples(
    some(ENTRIES, one_class(), 2), jars, OTHER, st.booleans(), IGNORE, args,
    st.booleans())

PROPS = [
    Prop("class", case_class, body_class, quick=2400, thorough=60000),
    Prop("jar", case_jar, body_jar, quick=900, thorough=20000),
    Prop("distribution", case_dist, body_dist, quick=900, thorough=20000),
]
