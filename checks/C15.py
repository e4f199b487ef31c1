"""
C15: distdiff tells every file of two distributions apart by what it is
and whether it changed, and its exit code is 1 exactly when there is a
change which isn't ignored.
"""

import fnmatch
import os
import random
import re

from hypothesis import strategies as st

from javatools import classdiff, distdiff

from vlib import manifests as mf
from vlib import trees as t
from vlib.harness import Prop, Scratch
from vlib.util import need, same, truth, run_main, \
    spellings
from checks import C10, C13, C14

RULE = ("pairs of directory trees holding JARs of all kinds, classes, "
        "manifests, text and other files, which are added, removed, changed "
        "(materially or not) or the same, are compared with generated ignore "
        "options; files, their kind, and the exit code are compared with a "
        "model; non-trivial when a JAR, class, manifest or text file has "
        "different bytes")

JARS = ["lib/a.jar", "b.war", "x/y/c.ear", "d.sar", "e.rar"]
CLASSES = ["A.class", "classes/org/B.class", "c$D.class"]
MFS = ["MANIFEST.MF", "META-INF/MANIFEST.MF", "x/y/MANIFEST.MF"]
TEXTS = ["x.bat", "c.cert", "etc/y.cfg", "z.conf", "d.dtd", "doc/i.html",
         "w.ini", "p.properties", "bin/r.sh", "a.text", "README.txt",
         "x/y/pom.xml", "\u00e9.txt", ".xml", "x.jar.txt"]
FILES = ["data.bin", "A.JAR", "xMANIFEST.MF", "x.txt.gz", "bin/run", "Tjar",
         "manifest.mf", "lib/a.jar~", "x/class", "R.TXT", "META-INF/K.SF",
         "[a].dat"]
NAMES = [(n, "jar") for n in JARS] + [(n, "class") for n in CLASSES] + \
    [(n, "mf") for n in MFS] + [(n, "text") for n in TEXTS] + \
    [(n, "file") for n in FILES]


class Kinds(dict):
    def __missing__(self, name):
        base = name.split("/")[-1]
        ext = base[base.rfind("."):] if "." in base else None
        if ext in (".jar", ".war", ".ear", ".sar", ".rar"):
            return "jar"
        if ext == ".class":
            return "class"
        if ext in (".bat", ".cert", ".cfg", ".conf", ".dtd", ".html", ".ini",
                   ".properties", ".sh", ".text", ".txt", ".xml"):
            return "text"
        return "mf" if base == "MANIFEST.MF" else "file"


KIND = Kinds(NAMES)

new_entry = t.new_name.map(lambda n: (n, KIND[n]))

line = st.one_of(
    st.sampled_from([b"", b" ", b"a", b"a b", b"\ta", b"k=v", b"caf\xe9",
                     b"\xc3\xa9t\xc3\xa9", b"x\x0by", b"x\x1c\x1dy",
                     b"\xe2\x80\xa8", b"\x85x"]),
    st.binary(max_size=5).map(lambda b: re.sub(rb"[\r\n]", b"-", b)))
eols = st.sampled_from([b"\n", b"\r\n", b"\r"])


@st.composite
def a_text(draw):
    lines = draw(st.lists(line, max_size=5))
    eol = draw(eols)
    last = draw(st.sampled_from([b"", eol]))
    how = draw(st.integers(0, 8))
    left = eol.join(lines) + last
    if how < 2:
        lines = [x + draw(st.sampled_from([b"", b" ", b"\t ", b"\x0c"]))
                 for x in lines]
    elif how == 2:
        eol = draw(eols)
    elif how == 3:
        last = draw(st.sampled_from([b"", eol, eol * 2, b" " + eol, b"!",
                                     eol + b"x"]))
    elif how == 4 and lines:
        i = draw(st.integers(0, len(lines) - 1))
        lines[i] = draw(st.sampled_from([b" ", b"x", b"\t"])) + lines[i]
    elif how == 5:
        lines.insert(draw(st.integers(0, len(lines))), b"")
    elif how == 6 and lines:
        i = draw(st.integers(0, len(lines) - 1))
        lines[i] = lines[i][:1] + b" " + lines[i][1:]
    elif how == 7:
        lines = draw(st.lists(line, max_size=5))
    return left, eol.join(lines) + last


def stripped(data):
    lines = [re.sub(rb"[ \t\x0b\x0c]+$", b"", x)
             for x in re.split(rb"\r\n|\r|\n", data)]
    while lines and not lines[-1]:
        lines.pop()
    return lines


@st.composite
def a_jar(draw):
    left, right = draw(C13.entries())
    s = draw(st.integers(0, 10**6))
    return left, right, s, draw(st.sampled_from([s, s, s // 7]))


def jar_bytes(files, s):
    order = sorted(files)
    random.Random(s).shuffle(order)
    return t.zip_bytes(files, compress=s % 2, order=order,
                       date=(2000 + s % 9, 2, 3, 4, 5, 6))


@st.composite
def dists(draw, choice=NAMES, most=6):
    """ [(name, where, left, right)]; JARs are (entries, seed) """
    out = []
    one = st.sampled_from(choice)
    if choice is NAMES:
        one = st.one_of(one, one, new_entry)
    what = draw(st.lists(one, min_size=1, max_size=most,
                         unique_by=lambda x: x[0]))
    ok = t.apart(n for n, _kind in what)
    for n, kind in [x for x in what if x[0] in ok]:
        if kind == "jar":
            l, r, s1, s2 = draw(a_jar())
            l, r = (l, s1), (r, s2)
        elif kind == "class":
            l, r = draw(C13.a_class())
        elif kind == "mf":
            l, r = draw(C13.a_manifest())
        elif kind == "text":
            l, r = draw(a_text())
        else:
            l = draw(st.binary(max_size=9))
            r = draw(t.altered(l))
        out.append((n, draw(st.sampled_from("BBBBBBLRS")), l, r))
    return tuple(out)


def build(parts):
    left, right = {}, {}
    for n, where, l, r in parts:
        if KIND[n] == "jar":
            l, r = jar_bytes(*l), jar_bytes(*r)
        if where == "S":
            r = l
        if where != "R":
            left[n] = l
        if where != "L":
            right[n] = r
    return left, right


def jar_judge(l, r, o, coptions):
    ev = t.events(l, r)
    each = [C13.judge(n, e, l.get(n), r.get(n), o, coptions)
            for n, e in ev.items()]
    hot = [i for c, i in each if c]
    return bool(hot), all(hot)


def judge(name, event, ld, rd, l, r, o, coptions):
    """ (changed, ignored) """
    hit = any(fnmatch.fnmatchcase(name, p) for p in o["filenames"])
    if event == "S":
        return False, hit
    kind = "file" if o["shallow"] else KIND[name]
    if event in "LR" or kind == "file":
        return True, hit
    if kind == "text":
        return True, hit or (o["whitespace"] and
                             stripped(ld) == stripped(rd))
    if kind == "jar":
        c, i = jar_judge(l[0], r[0], o, coptions)
        return c, hit or i
    if kind == "class":
        c, i = C13.judge("x.class", "D", ld, rd, dict(o, entries=()),
                         coptions)
        return c, hit or i
    diff = C13.diff_manifest(ld, rd)
    return bool(diff[0] or diff[1]), hit or C13.manifest_ignored(diff, o)


PATTERNS = ["*.txt", "*", "lib/*", "*.jar", "a.jar", "*/MANIFEST.MF",
            "MANIFEST.MF", "*.class", "?.*", "*/y/*", "nothing", "[a-d].*",
            "[[]a].dat"]


@st.composite
def options(draw):
    o, words, args = draw(C13.options())
    o = dict(o, shallow=draw(st.integers(0, 4)) == 4,
             whitespace=draw(st.booleans()),
             filenames=tuple(draw(st.lists(st.sampled_from(PATTERNS),
                                           max_size=2))))
    more = [["--ignore-filenames", p] for p in o["filenames"]]
    if o["shallow"]:
        more.append(["--shallow"])
    if o["whitespace"]:
        more.append(["--ignore-trailing-whitespace"])
    args = [args] + more
    return o, words, tuple(x for a in args for x in a)


def api_options(o, words):
    copts = {"ignore_" + w.replace("-", "_"): True
             for w in C10.expand(words)}
    return distdiff.default_distdiff_options(dict(
        copts, ignore_jar_entry=list(o["entries"]),
        ignore_jar_signature=o["signature"],
        ignore_manifest=o["manifest"],
        ignore_manifest_subsections=o["subsections"],
        ignore_manifest_key=list(o["keys"]),
        ignore_filenames=list(o["filenames"]),
        ignore_trailing_whitespace=o["whitespace"],
        shallow=o["shallow"], processes=0))


NAME_OF = {"jar": "DistJar", "class": "DistClass", "mf": "DistManifest",
           "text": "DistText", "file": "DistContent"}


def type_of(name, event, shallow):
    kind = "file" if shallow else KIND[name]
    if event in "LR":
        how = "Removed" if event == "L" else "Added"
        if kind not in ("jar", "class"):
            kind = "file"
        return NAME_OF[kind] + how
    return NAME_OF[kind] + "Change"


def expect(parts, left, right, o, words):
    coptions = classdiff.default_classdiff_options(
        {"ignore_" + w.replace("-", "_"): True for w in C10.expand(words)})
    ev = t.events(left, right)
    models = {n: (l, r) for n, _w, l, r in parts}
    return ev, {n: judge(n, e, left.get(n), right.get(n), models[n][0],
                         models[n][1], o, coptions) for n, e in ev.items()}


def body(case, ctx):
    parts, (o, words, args), seed = case
    left, right = build(parts)
    ev, want = expect(parts, left, right, o, words)
    rc = 1 if any(c and not i for c, i in want.values()) else 0
    for n, e in ev.items():
        ctx.hit("%s %s" % (KIND[n], e))
        if e == "D" and KIND[n] != "file":
            ctx.nontrivial_case()
            if want[n] != (True, False):
                ctx.hit("ignored or immaterial " + KIND[n])
    ctx.hit("exit %d" % rc)
    coptions = api_options(o, words)
    with Scratch() as d:
        l = t.write_tree(os.path.join(d, "l"), left)
        r = t.write_tree(os.path.join(d, "r"), right)
        l, r = spellings(case, l, r)
        delta = distdiff.DistChange(l, r, o["shallow"])
        delta.check()
        seen = {}
        for c in delta.collect():
            need(c.entry not in seen, "%r is reported twice", c.entry)
            seen[c.entry] = c
        same(sorted(seen), sorted(ev), "files reported")
        for n, c in seen.items():
            same(type(c).__name__, type_of(n, ev[n], o["shallow"]),
                 "kind of change of %r" % n)
            truth(c.is_change(), want[n][0], "%r (%s) is a change" %
                  (n, ev[n]))
            if want[n][0]:
                truth(c.is_ignored(coptions), want[n][1],
                      "%r (%s) is ignored" % (n, ev[n]))
            if ev[n] == "D" and KIND[n] != "jar":
                C13.check_sides(c, left[n], right[n])
                if KIND[n] == "text" and not o["shallow"]:
                    texts = [x for x in c.collect()
                             if isinstance(x.ldata, str)]
                    same(len(texts), 1, "texts told of %r" % n)
        truth(delta.is_change(), any(c for c, _i in want.values()),
              "the distribution is a change")
        truth(delta.is_change() and not delta.is_ignored(coptions), rc,
              "the distribution is a change which counts")

        base = ["distdiff", "--processes=0"] + list(args)
        res = run_main(distdiff.main, base + [l, r])
        same(res.rc, rc, "exit code with %r" % (args,))
        if rc:
            for n, (c, i) in want.items():
                if c and not i:
                    shown = n.encode("ascii", "backslashreplace").decode()
                    need(shown in res.out, "%r, which changed, isn't mentioned",
                         n)
        res = run_main(distdiff.main, base + ["-q", l, r])
        same((res.rc, res.out), (rc, ""), "quiet run with %r" % (args,))
        if seed % 4 == 0:
            res = run_main(distdiff.main, base + [l, l])
            same(res.rc, 0, "exit code for a distribution and itself")
            res = run_main(distdiff.main, base + [r, l])
            if not words:
                same(res.rc, rc, "exit code the other way round")


# ---- links, and files which can't be read ----

def body_links(case, ctx):
    """ a distribution isn't the same when a file of it can't be read, or is
    a broken link """
    with Scratch() as d:
        guard = C14.Unprivileged(d)
        l, r = os.path.join(d, "l"), os.path.join(d, "r")
        want, closed = [], False
        for x in (l, r):
            os.makedirs(x)
        for i, (name, left, right) in enumerate(case):
            for top, thing in ((l, left), (r, right)):
                if thing is not None:
                    C14.put(top, name, thing, os.path.join(
                        d, "aside", "%s%d" % (top[-1], i)))
                    closed = closed or thing[0] == "closed"
            want += C14.wanted(name, left, right)
        rc = 1 if any(e != "S" for e, _n in want) else 0
        ctx.nontrivial_case(rc)
        with guard:
            try:
                got = run_main(distdiff.main, [
                    "distdiff", "--processes=0", l, r]).rc
            except OSError:
                # (files which are opened to see what changed)
                need(closed, "all files can be read")
                got = 1
        same(got, rc, "exit code")


thing = st.tuples(st.sampled_from(["file", "file", "link", "broken",
                                   "closed", "dir"]),
                  st.sampled_from([b"a", b"a", b"b"]))
case_links = st.lists(
    st.tuples(st.sampled_from(["a", "b.txt", "d/c.bin", "d/e/f.sh", "CVS"]),
              st.one_of(st.none(), thing, thing, thing), thing),
    max_size=3, unique_by=lambda x: x[0])


case = st.tuples(dists(), options(), st.integers(0, 10**6))

PROPS = [
    Prop("dists", case, body, quick=2400, thorough=30000),
    Prop("links", case_links, body_links, quick=800, thorough=10000),
]
