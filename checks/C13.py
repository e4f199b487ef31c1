"""
C13: jardiff tells every entry of two JARs apart by what it is and
whether it changed, and its exit code is 1 exactly when there is a
change which isn't ignored.
"""

import fnmatch
import os
import random

from hypothesis import strategies as st

from javatools import classdiff, jardiff, manifest, unpack_class

from vlib import classfile as cf
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib import manifests as mf
from vlib import trees as t
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, run_main, \
    spellings
from checks import C10

RULE = ("pairs of JARs (zipped or exploded) holding classes, manifests, "
        "signature files and blocks and other files, which are added, "
        "removed, changed or the same, are compared with generated ignore "
        "options; entries, their kind, and the exit code are compared with "
        "a model; non-trivial when an entry changed in other than bytes or "
        "an option applies")

NAMES = ["x.txt", "a/b.bin", "a/x.txt", "META-INF/x.txt", "META-INF/d/Z.SF",
         "lib/in.jar", "\u00e9.txt", "X.SF", "a/X.RSA", "[x].txt", "A.TXT",
         "A.class.bak", "B.CLASS", "META-INF/RSA", "META-INF/K.SF.txt"]
# manifests and signatures of something else
NESTED = ["MANIFEST.MF", "WEB-INF/x/META-INF/MANIFEST.MF",
          "META-INF/x/MANIFEST.MF", "META-INF/MANIFEST.MF.bak",
          "a/META-INF/K.SF"]
CLASSES = ["A.class", "a/B.class", "org/x/C$D.class", "META-INF/A.class",
           "META-INF/versions/9/A.class", "a b.class"]
SIGFILES = ["META-INF/K.SF", "META-INF/other.sf"]
BLOCKS = ["META-INF/K.RSA", "META-INF/K.DSA", "META-INF/k.ec",
          "META-INF/SIG-X"]
MANIFEST = "META-INF/MANIFEST.MF"

small = g.klass(max_fields=2, max_methods=1, max_insns=4)


@st.composite
def a_class(draw):
    left = draw(small)
    how = draw(st.integers(0, 5))
    s1, s2 = draw(st.tuples(st.integers(0, 10**6), st.integers(0, 10**6)))
    order = dm.relayout(left, s1)
    ld = cf.write_class(left, order=order)
    right = left
    if how == 0:
        order = dm.relayout(left, s2)
    elif how == 1:
        # nothing anybody looks at
        right = dict(left, attrs=dm.put(left["attrs"], "Raw", (
            "Raw", "NoOneCares", b"12")))
    else:
        kind = draw(st.sampled_from(["version", "deprecated", "lines",
                                     "shift", "added", "any"]))
        right = C10.mutate(left, kind, s2, left)
    return ld, cf.write_class(right, order=order)


short = mf.plain_value.map(lambda v: v[:20])


@st.composite
def a_manifest(draw, primary="Manifest-Version"):
    names = st.sampled_from(["a", "b/c", "n" * 80])
    l = draw(mf.manifest(short, names, 3, primary))
    how = draw(st.integers(0, 4))
    main, secs = l
    main, secs = list(main), list(secs)
    if how == 0:
        main.append(("Fresh", "1"))
    elif how == 1 and len(main) > 1:
        i = draw(st.integers(1, len(main) - 1))
        main[i] = (main[i][0], main[i][1] + "!")
    elif how == 2 and secs:
        secs.pop(draw(st.integers(0, len(secs) - 1)))
    elif how == 3 and secs:
        i = draw(st.integers(0, len(secs) - 1))
        secs[i] = (secs[i][0], secs[i][1] + (("Fresh", "1"),))
    r = (tuple(main), tuple(secs))
    s = draw(st.integers(0, 10**6))
    eol = draw(st.sampled_from([b"\n", b"\r\n"]))
    return (mf.write(l), mf.write(r, eol, 70, random.Random(s)))


@st.composite
def entries(draw):
    """ ({name: bytes}, {name: bytes}) """
    left, right = {}, {}
    what = [(n, "file") for n in NAMES] + [(n, "class") for n in CLASSES] + \
        [(n, "sf") for n in SIGFILES] + [(n, "block") for n in BLOCKS] + \
        [(MANIFEST, "mf")] * 2 + [(n, "nested") for n in NESTED]
    one = st.sampled_from(what)
    what = draw(st.lists(st.one_of(one, one, one, new_entry), min_size=1,
                         max_size=7, unique_by=lambda x: x[0]))
    ok = t.apart(n for n, _kind in what)
    for n, kind in [x for x in what if x[0] in ok]:
        if kind == "class":
            l, r = draw(a_class())
        elif kind in ("mf", "nested"):
            l, r = draw(a_manifest())
        elif kind == "sf":
            l, r = draw(a_manifest("Signature-Version"))
        else:
            l = draw(st.binary(max_size=9))
            r = draw(t.altered(l))
        where = draw(st.integers(0, 7))
        if where == 7:
            left[n] = l
        elif where == 6:
            right[n] = r
        elif where == 5:
            left[n] = right[n] = l
        else:
            left[n], right[n] = l, r
    return left, right


def kind_of(name):
    if name == MANIFEST:
        return "mf"
    parts = name.split("/")
    if len(parts) == 2 and parts[0] == "META-INF":
        up = parts[1].upper()
        if up.endswith(".SF"):
            return "sf"
        if up.startswith("SIG-") or up.endswith((".RSA", ".DSA", ".EC")):
            return "block"
    return "class" if name.endswith(".class") else "file"


new_entry = t.new_name.map(lambda n: (n, kind_of(n)))


TYPES = {
    ("mf", "S"): "JarManifestChange", ("mf", "D"): "JarManifestChange",
    ("mf", "L"): "JarContentRemoved", ("mf", "R"): "JarContentAdded",
    ("sf", "S"): "JarSignatureFileChange",
    ("sf", "D"): "JarSignatureFileChange",
    ("sf", "L"): "JarSignatureFileRemoved",
    ("sf", "R"): "JarSignatureFileAdded",
    ("block", "S"): "JarSignatureBlockFileChange",
    ("block", "D"): "JarSignatureBlockFileChange",
    ("block", "L"): "JarSignatureBlockFileRemoved",
    ("block", "R"): "JarSignatureBlockFileAdded",
    ("class", "S"): "JarClassChange", ("class", "D"): "JarClassChange",
    ("class", "L"): "JarClassRemoved", ("class", "R"): "JarClassAdded",
    ("file", "S"): "JarContentChange", ("file", "D"): "JarGenericFileChange",
    ("file", "L"): "JarContentRemoved", ("file", "R"): "JarContentAdded"}


def diff_manifest(ld, rd):
    """ (changed keys of main, {section: keys or "L"/"R"}) """
    (lm, ls), (rm, rs) = mf.parse(ld), mf.parse(rd)
    ls, rs = dict(ls), dict(rs)

    def keys(a, b):
        return {k.lower() for k, _v in set(a) ^ set(b)}

    secs = {}
    for n in set(ls) | set(rs):
        if n not in rs:
            secs[n] = "L"
        elif n not in ls:
            secs[n] = "R"
        elif keys(ls[n], rs[n]):
            secs[n] = keys(ls[n], rs[n])
    return keys(lm, rm), secs


def manifest_ignored(diff, o):
    if o["manifest"]:
        return True
    main, secs = diff
    ik = {k.lower() for k in o["keys"]}
    if main and not main <= ik:
        return False
    if not o["subsections"]:
        for s in secs.values():
            if s in ("L", "R") or not s <= ik:
                return False
    return True


def judge(name, event, ld, rd, o, coptions):
    """ (changed, ignored) of an entry """
    kind = kind_of(name)
    hit = any(fnmatch.fnmatch(name, p) for p in o["entries"])
    if event == "S":
        return False, hit
    if kind in ("sf", "block"):
        hit = hit or o["signature"]
    if event in "LR":
        return True, hit
    if kind == "class":
        d = classdiff.JavaClassChange(unpack_class(ld), unpack_class(rd))
        d.check()
        return d.is_change(), hit or d.is_ignored(coptions)
    if kind in ("mf", "sf"):
        diff = diff_manifest(ld, rd)
        if kind == "sf":
            return bool(diff[0] or diff[1]), hit
        return bool(diff[0] or diff[1]), hit or manifest_ignored(diff, o)
    return True, hit


@st.composite
def options(draw):
    """ (what is ignored, words of class options, command line) """
    o = {"manifest": draw(st.integers(0, 3)) == 3,
         "subsections": draw(st.integers(0, 2)) == 2,
         "signature": draw(st.booleans()),
         "keys": tuple(draw(st.lists(st.sampled_from(
             ["fresh", "FRESH", "X", "Created-by"]), max_size=2))),
         "entries": tuple(draw(st.lists(st.sampled_from(
             ["*.txt", "a/*", "META-INF/*", "*.class", "x.txt", "*.SF",
              "*", "?.class", "a/[bx].*", "nothing"]), max_size=2)))}
    words = draw(st.lists(st.sampled_from(C10.WORDS), unique=True,
                          max_size=4))
    args = []
    for k, w in (("manifest", "--ignore-manifest"),
                 ("subsections", "--ignore-manifest-subsections"),
                 ("signature", "--ignore-jar-signature")):
        if o[k]:
            args.append([w])
    args += [["--ignore-manifest-key", k] for k in o["keys"]]
    args += [["--ignore-jar-entry", e] for e in o["entries"]]
    args += [["--ignore=" + w] for w in words]
    args = draw(st.permutations(args))
    return o, tuple(words), tuple(x for a in args for x in a)


def section_items(m):
    return [(k, v) for k, v in m.items() if k != m.primary_key]


def check_sides(change, left, right):
    """ what is below a change of a file has the content of either side """
    for c in change.collect():
        for side, data, got in (("left", left, c.ldata),
                                ("right", right, c.rdata)):
            if isinstance(c, manifest.ManifestChange):
                main, secs = mf.parse(data)
                same(sorted((n, section_items(s))
                            for n, s in got.sub_sections.items()),
                     sorted((n, list(ps)) for n, ps in secs),
                     "sections on the %s" % side)
                check_sections(c, main, dict(secs), side)
            elif isinstance(c, classdiff.JavaClassChange):
                info = unpack_class(data)
                same([(x.get_this(), [m.get_name() for m in x.methods],
                       repr(x.cpool.consts)) for x in (got,)],
                     [(info.get_this(), [m.get_name() for m in info.methods],
                       repr(info.cpool.consts))], "class on the " + side)
            elif isinstance(got, bytes):
                same(got, data, "content on the " + side)
            elif isinstance(got, str):
                need(got in (data.decode("utf8", "replace"),
                             data.decode("latin-1")),
                     "text on the %s: %r, of %r", side, got, data)


def check_sections(change, main, secs, side):
    """ of one side of a ManifestChange """
    for c in change.collect():
        m = c.ldata if side == "left" else c.rdata
        if isinstance(c, manifest.ManifestMainChange):
            # (.SF files have a version of their own instead)
            same([x for x in m.items() if x[0] != m.primary_key],
                 [x for x in main if x[0] != m.primary_key],
                 "main section, " + side)
        elif m is not None:
            same(section_items(m), list(secs[m.primary()]),
                 "section %r, %s" % (m.primary(), side))
            need(m.primary() in c.get_description(), "%r isn't said in %r",
                 m.primary(), c.get_description())


def make(top, name, files, exploded, dirs, dir_entries, s):
    fn = os.path.join(top, name)
    if exploded:
        return t.write_tree(fn, files, empty=dirs)
    order = sorted(files)
    random.Random(s).shuffle(order)
    return t.write_zip(fn, files, dirs=dirs if dir_entries else (),
                       compress=s % 2, order=order,
                       comment=b"c" if s % 5 == 0 else b"")


def simple(delta):
    for c in delta.collect():
        if isinstance(c, jardiff.JarContentsChange):
            return c
    raise Violation("no contents in a JarChange")


def body(case, ctx):
    (left, right), (o, words, args), lx, rx, dirs_too, seed = case
    on = C10.expand(words)
    copts = {"ignore_" + w.replace("-", "_"): True for w in on}
    coptions = classdiff.default_classdiff_options(copts)
    dirs = t.dirs_of(list(left) + list(right))
    ev = t.events(left, right)
    want = {n: judge(n, e, left.get(n), right.get(n), o, coptions)
            for n, e in ev.items()}
    count = [n for n, (c, i) in want.items() if c and not i]
    rc = 1 if count or lx != rx else 0
    for n, e in ev.items():
        ctx.hit("%s %s" % (kind_of(n), e))
        if e == "D" and want[n] != (True, False):
            ctx.hit("ignored or immaterial " + kind_of(n))
            ctx.nontrivial_case()
        if e == "D" and kind_of(n) in ("mf", "sf", "class"):
            ctx.nontrivial_case()
    ctx.hit("exit %d" % rc)

    with Scratch() as d:
        l = make(d, "l.jar", left, lx, dirs, dirs_too, seed)
        r = make(d, "r.jar", right, rx, dirs, dirs_too, seed // 7)
        l, r = spellings(case, l, r)
        joptions = jardiff.default_jardiff_options(dict(
            copts, ignore_jar_entry=list(o["entries"]),
            ignore_jar_signature=o["signature"],
            ignore_manifest=o["manifest"],
            ignore_manifest_subsections=o["subsections"],
            ignore_manifest_key=list(o["keys"])))
        delta = jardiff.JarChange(l, r)
        delta.check()
        seen = {}
        for c in simple(delta).collect():
            n = c.entry
            if n.endswith("/"):
                # (a zip needs no entries for its directories)
                need(lx != rx or not c.is_change(),
                     "directory %r is on both sides", n)
                continue
            need(n not in seen, "%r is reported twice", n)
            seen[n] = c
        same(sorted(seen), sorted(ev), "entries reported")
        for n, c in seen.items():
            same(type(c).__name__, TYPES[kind_of(n), ev[n]],
                 "kind of change of %r" % n)
            truth(c.is_change(), want[n][0], "%r (%s) is a change" %
                  (n, ev[n]))
            if want[n][0]:
                truth(c.is_ignored(joptions), want[n][1],
                      "%r (%s) is ignored" % (n, ev[n]))
            if ev[n] == "D":
                check_sides(c, left[n], right[n])
        truth(delta.is_change(), lx != rx or any(
            c for c, _i in want.values()), "the JAR is a change")
        truth(delta.is_change() and not delta.is_ignored(joptions), rc,
              "the JAR is a change which counts")

        res = run_main(jardiff.main, ["jardiff"] + list(args) + [l, r])
        same(res.rc, rc, "exit code with %r" % (args,))
        res = run_main(jardiff.main, ["jardiff", "-q"] + list(args) + [l, r])
        same((res.rc, res.out), (rc, ""), "quiet run with %r" % (args,))
        if lx == rx:
            # nothing differs from itself
            res = run_main(jardiff.main, ["jardiff", l, l])
            same(res.rc, 0, "exit code for a JAR and itself")


case = st.tuples(
    entries(), options(), st.booleans(), st.booleans(), st.booleans(),
    st.integers(0, 10**6)).map(
        lambda c: c if c[5] % 4 == 0 else c[:3] + (c[2],) + c[4:])

PROPS = [
    Prop("jars", case, body, quick=3600, thorough=40000),
]
