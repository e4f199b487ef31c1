"""
C17: reports: text, JSON and HTML, on the console or in files, say what
was found, all of it and all the same.
"""

import collections
import json
import os

from hypothesis import strategies as st

from javatools import classdiff, distdiff, jardiff, unpack_class
from javatools.change import Addition, Removal
from javatools.opcodes import get_opname_by_code, has_const_arg

from vlib import classfile as cf
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib import htmltool
from vlib import trees as t
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write, read, snapshot
from checks import C10, C13, C15

RULE = ("pairs of classes, JARs and distributions are compared with "
        "generated options, with and without reports in generated formats; "
        "console output and report files are parsed and compared with the "
        "tree of changes of the same pair, pages with tables and links as "
        "well; non-trivial when something changed")


def setup():
    htmltool.build()


# ---- the documents expected ----

REPORTS = {"JavaClassChange": "JavaClassReport", "JarChange": "JarReport",
           "JarContentsChange": "JarContentsReport",
           "DistChange": "DistReport"}
SQUASH = {"DistJarChange": "DistJarReport",
          "DistClassChange": "DistClassReport",
          "JarClassChange": "JarClassReport"}
SUBREPORT = {"DistJarReport": "JarReport",
             "DistClassReport": "JavaClassReport",
             "JarClassReport": "JavaClassReport"}


def plain(x):
    return json.loads(json.dumps(x, default=list))


class Tree(object):
    """ what is to be said of a change.  rep: with reports.  diffs: names
    of entries with different bytes (those have reports of their own) """

    def __init__(self, change, options, rep, diffs):
        cls = type(change).__name__
        self.cls = cls
        self.change = change
        self.changed = bool(change.is_change())
        self.ignored = bool(change.is_ignored(options))
        self.desc = change.get_description()
        self.label = change.label
        self.entry = change.entry
        self.old = self.new = None
        self.squashed = rep and cls in SQUASH and change.entry in diffs
        self.orig = None
        self.kids = []
        self.leaf = not isinstance(change, classdiff.SuperChange)
        if self.squashed:
            self.orig = SQUASH[cls]
            self.cls = "SquashedChange"
            return
        if rep:
            self.cls = REPORTS.get(cls, cls)
        if isinstance(change, classdiff.GenericChange):
            self.old = change.pretty_ldata()
            self.new = change.pretty_rdata()
        if not self.leaf:
            self.kids = [Tree(c, options, rep, diffs)
                         for c in change.collect()]

    def shown(self, o):
        return [k for k in self.kids if
                (o["show_ignored"] or not k.ignored if k.changed
                 else o["show_unchanged"])]

    def doc(self, o):
        d = {"class": self.cls, "is_change": self.changed,
             "is_ignored": self.ignored, "description": self.desc,
             "label": self.label}
        if isinstance(self.change, Addition):
            d["is_addition"] = True
        if isinstance(self.change, Removal):
            d["is_removal"] = True
        if self.entry:
            d["entry"] = self.entry
        if self.orig:
            d["original_class"] = self.orig
            return d
        if self.old is not None:
            d["old_data"] = plain(self.old)
        if self.new is not None:
            d["new_data"] = plain(self.new)
        if not self.leaf:
            d["children"] = [k.doc(o) for k in self.shown(o)]
        return d

    def text(self, o, depth=0):
        if self.changed:
            if self.ignored and not o["show_ignored"]:
                return ""
        elif not o["show_unchanged"]:
            return ""
        line = "  " * depth + self.desc.encode(
            "ascii", "backslashreplace").decode("ascii")
        if self.changed and self.ignored:
            line += " [IGNORED]"
        return line + "\n" + "".join(k.text(o, depth + 1)
                                     for k in self.kids)

    def divs(self, top=True):
        """ those of the page, in no order """
        out = []
        if not top and self.cls != "JarContentsReport":
            d = [self.cls]
            if self.orig:
                d.append(self.orig)
            d.append("is_changed" if self.changed else "is_unchanged")
            if self.changed and self.ignored:
                d.append("is_ignored")
            out.append(tuple(d))
        if self.cls in ("ClassInfoChange", "MethodCodeChange"):
            return out
        for k in self.kids:
            if self.cls in ("FieldChange", "MethodChange") and k.cls not in (
                    "FieldAnnotationsChange",
                    "FieldInvisibleAnnotationsChange",
                    "MethodAnnotationsChange",
                    "MethodInvisibleAnnotationsChange", "MethodCodeChange"):
                continue
            out.extend(k.divs(False))
        return out

    def every(self, cls):
        if self.cls == cls:
            yield self
        for k in self.kids:
            for x in k.every(cls):
                yield x


# ---- pages ----

def squeeze(text):
    return " ".join(text.split())


def instructions(code):
    out = []
    for off, op, args in (code.disassemble() if code else ()):
        if has_const_arg(op):
            shown = "#%s" % args[0]
        else:
            shown = ", ".join(map(str, args))
        out.append((str(off), get_opname_by_code(op), squeeze(shown)))
    return out


def check_class_page(page, tree):
    """ tables of the page of a class """
    pools = list(tree.every("ClassConstantPoolChange"))
    same(len(pools), 1, "constant pools")
    pool = pools[0].change
    lp, rp = pool.get_ldata(), pool.get_rdata()
    tables = [tb for tb in page.tables
              if tb[0] in ("constant-pool", "dual-constant-pool")]
    same(len(tables), 1, "tables of constants")
    rows = [[squeeze(c[1]) for c in r] for r in tables[0][1][1:]]
    want = []
    ls, rs = len(lp.consts), len(rp.consts)

    def const(p, size, i):
        if i >= size:
            return ["", ""]
        ty, v = p.pretty_const(i)
        # (an empty slot follows a long)
        return [ty or "", squeeze(str(v or ""))]

    if pool.is_change():
        same(tables[0][0], "dual-constant-pool", "table of constants")
        for i in range(1, max(ls, rs)):
            l, r = const(lp, ls, i), const(rp, rs, i)
            lx = lp.pretty_const(i) if i < ls else (None, None)
            rx = rp.pretty_const(i) if i < rs else (None, None)
            want.append([str(i)] + l + (["", ""] if lx == rx else r))
    else:
        want = [[str(i), ty or "", squeeze(str(v))]
                for i, ty, v in lp.pretty_constants()]
    same(rows, want, "table of constants")

    # every instruction of every method on both sides
    for k in tree.every("MethodCodeChange"):
        l, r = k.change.get_ldata(), k.change.get_rdata()
        lc = instructions(l)
        rc = instructions(r)
        if not k.changed:
            rc = []
        if lc or rc:
            missing = collections.Counter(lc + rc)
            missing.subtract(page.triples)
            miss = [x for x, n in missing.items() if n > 0]
            need(not miss, "instructions %r of a method aren't in the page",
                 miss[:3])

    # facts of the class and of members on both sides
    want = []
    for cls, labels in (("ClassInfoChange", CLASS_ROWS),
                        ("FieldChange", FIELD_ROWS),
                        ("MethodChange", METHOD_ROWS)):
        for k in tree.every(cls):
            want.append(facts(k, labels))
    for k in tree.every("MethodAdded"):
        want.append(method_facts(k.change.get_rdata()))
    for k in tree.every("MethodRemoved"):
        want.append(method_facts(k.change.get_ldata()))
    got = []
    for cl, rows in page.tables:
        if cl == "left-headers":
            table = []
            for row in rows:
                cells = [squeeze(c[1]) for c in row]
                if len(cells) == 2:
                    table.append(cells)
                else:
                    table[-1].extend(cells)
            got.append(table)
    same(sorted(map(none, got)), sorted(map(none, want)), "tables of facts")

    # annotations of members
    want = []
    for k in sum((list(tree.every(c)) for c in ANNOS), []):
        l, r = k.old or [], k.new or []
        rows = []
        for i in range(max(len(l), len(r) if k.changed else 0)):
            rows.append([str(i)] + [squeeze(x[i]) if i < len(x) else ""
                                    for x in ([l, r] if k.changed else [l])])
        want.append(rows)
    got = [[[squeeze(c[1]) for c in r] for r in rows
            if r and r[0][0] == "const-index"]
           for cl, rows in page.tables if cl == "annotations"]
    same(sorted(got), sorted(want), "tables of annotations")
    for cls in ("FieldChange", "MethodChange"):
        for k in tree.every(cls):
            nom = k.change.get_ldata().get_name()
            need(squeeze(nom) in squeeze(page.text),
                 "member %r isn't in the page", nom)


ANNOS = ("ClassAnnotationsChange", "ClassInvisibleAnnotationsChange",
         "FieldAnnotationsChange", "FieldInvisibleAnnotationsChange",
         "MethodAnnotationsChange", "MethodInvisibleAnnotationsChange")


def none(table):
    """ nothing may be shown in several ways """
    return [["" if x in ("None", "(None)") else x for x in row]
            for row in table]


def flags(c, side):
    return "0x%04x: %s" % (getattr(c, "get_%sdata" % side)(),
                           " ".join(getattr(c, "pretty_%sdata" % side)()))


def version(c, side):
    return "Major: %i, Minor: %i" % getattr(c, "get_%sdata" % side)()


def pretty(c, side):
    v = getattr(c, "pretty_%sdata" % side)()
    return "(None)" if v is None else str(v)


def joined(c, side):
    return ", ".join(getattr(c, "pretty_%sdata" % side)()) or "(None)"


def parens(c, side):
    return "(%s)" % ", ".join(getattr(c, "pretty_%sdata" % side)())


# (change, header, text of a side, only when it is there)
CLASS_ROWS = [("ClassNameChange", "Class Name", pretty, False),
              ("ClassAccessflagsChange", "Class Flags", flags, False),
              ("ClassSuperclassChange", "Extends", pretty, False),
              ("ClassInterfacesChange", "Implements", joined, True),
              ("ClassVersionChange", "Java Version", version, False),
              ("ClassPlatformChange", "Java Platform", pretty, False),
              ("ClassSignatureChange", "Generics Signature", pretty, True),
              ("ClassDeprecationChange", "Deprecated", pretty, True)]
FIELD_ROWS = [("FieldNameChange", "Field Name", pretty, False),
              ("FieldTypeChange", "Field Type", pretty, False),
              ("FieldAccessflagsChange", "Field Flags", flags, False),
              ("FieldSignatureChange", "Generics Signature", pretty, True),
              ("FieldConstvalueChange", "Const Value", pretty, True),
              ("FieldDeprecationChange", "Deprecated", pretty, True)]
METHOD_ROWS = [("MethodNameChange", "Method Name", pretty, False),
               ("MethodTypeChange", "Return Type", pretty, False),
               ("MethodParametersChange", "Argument Types", parens, False),
               ("MethodAccessflagsChange", "Method Flags", flags, False),
               ("MethodSignatureChange", "Generics Signature", pretty, True),
               ("MethodExceptionsChange", "Exceptions", parens, True),
               ("MethodAbstractChange", "Abstract", pretty, True),
               ("MethodDeprecationChange", "Deprecated", pretty, True)]


def facts(tree, labels):
    kids = {k.cls: k for k in tree.kids}
    out = []
    for cls, label, text, optional in labels:
        k = kids[cls]
        if k.changed:
            out.append([label, squeeze(text(k.change, "l")),
                        squeeze(text(k.change, "r"))])
        elif not optional or k.change.get_ldata():
            out.append([label, squeeze(text(k.change, "l"))])
    return out


def method_facts(m):
    args = "(%s)" % ", ".join(m.pretty_arg_types())
    out = [["Method Name", m.get_name()], ["Return Type", m.pretty_type()],
           ["Argument Types", args],
           ["Method Flags", "0x%04x: %s" % (
               m.access_flags, " ".join(m.pretty_access_flags()))]]
    if m.get_signature():
        out.append(["Generics Signature", m.get_signature()])
    if m.get_exceptions():
        out.append(["Exceptions", ", ".join(m.pretty_exceptions())])
    if not m.get_code():
        out.append(["Abstract", "True"])
    if m.is_deprecated():
        out.append(["Deprecated", "True"])
    return [[squeeze(x) for x in row] for row in out]


def parse_page(text):
    page = htmltool.Page(text)
    page.triples = collections.Counter()
    for cl, rows in page.tables:
        for row in rows:
            cells = [squeeze(c[1]) for c in row]
            for i in range(len(cells) - 2):
                page.triples[tuple(cells[i:i + 3])] += 1
    return page


def check_page(fn, tree, top, crumbs, ctx, src):
    page = parse_page(read(fn).decode("utf8"))
    same(page.bad, [], "unbalanced tags of a page")
    need(tree.cls in page.title, "title %r", page.title)
    same(sorted(page.divs), sorted(tree.divs()), "changes on a page")
    here = os.path.dirname(fn)
    want = ["%s/%s.html" % (k.entry, SUBREPORT[k.orig])
            for k in squashed(tree)]
    links = [x[0] for x in page.links]
    same(sorted(links[len(crumbs):]), sorted(want), "links of a page")
    same([os.path.normpath(os.path.join(here, x))
          for x in links[:len(crumbs)]], crumbs, "way back of a page")
    for x in links:
        need(os.path.isfile(os.path.join(here, x)), "dead link %r", x)
    # scripts and styles, those of this report besides the standard one
    same(sorted((k, x if "://" in x else
                 os.path.normpath(os.path.join(here, x)))
                for k, x in page.src if x and "googleapis" not in x),
         sorted(src), "scripts and styles of a page")
    for k in squashed(tree):
        need(squeeze(k.entry) in squeeze(page.text), "%r isn't on the page",
             k.entry)
    if tree.cls == "JavaClassReport":
        check_class_page(page, tree)
        ctx.hit("class page")
        for cls in ("MethodAdded", "MethodRemoved", "FieldAdded",
                    "MethodChange", "FieldChange"):
            if any(True for _x in tree.every(cls)):
                ctx.hit(cls + " on a page")
    for cls in ("JarContentsReport", "DistReport"):
        for x in tree.every(cls):
            for k in x.kids:
                need(squeeze(k.entry) in squeeze(page.text),
                     "%r isn't on the page", k.entry)


def squashed(tree):
    if tree.squashed:
        return [tree]
    return [x for k in tree.kids for x in squashed(k)]


# ---- running ----

FORMATS = [(), ("json",), ("text",), ("txt", "json"), ("html",), ("html",),
           ("json", "text", "html"), ("htm",), ("nonsense", "json")]
EXT = {"json": "json", "text": "text", "txt": "text", "html": "html",
       "htm": "html"}

options = st.fixed_dictionaries({
    "show_ignored": st.booleans(), "show_unchanged": st.booleans(),
    "formats": st.sampled_from(FORMATS), "json": st.booleans(),
    "indent": st.sampled_from([None, 0, 4]), "output": st.booleans(),
    "split": st.integers(0, 3), "copy": st.booleans(), "old": st.booleans(),
    "quiet": st.integers(0, 3).map(lambda n: n == 3),
    "js": st.sampled_from([(), (), ("x.js",), ("y/x.js", "x.css.js"),
                           ("y/../b.js", "./c.js", "@/y/d.js")]),
    "css": st.sampled_from([(), (), ("gone/x.css",), ("http://h/a.css?b",
                                                     "y z.css"),
                            ("rep/../b.css", "rep/c.css", "https://h/x.css",
                             "@/d.css")])})

OLD = b"nothing of now " * 999


def show_args(o):
    a = []
    if o["show_ignored"]:
        a.append("--show-ignored")
    if o["show_unchanged"]:
        a.append("--show-unchanged")
    if o["indent"] is not None:
        a.append("--json-indent=%i" % o["indent"])
    return a


def report_args(o, d):
    f = o["formats"]
    if not f:
        return []
    a = []
    if o["split"]:
        # given at once, one by one, or both
        n = o["split"]
        for x in f[:n]:
            a += ["--report", x]
        rest = f[n:]
        if rest:
            a += ["--report", ",".join(rest) +
                  ("," if len(rest) == 1 else "")]
    else:
        a.append("--report=" + ",".join(f))
    a += ["--report-dir", os.path.join(d, "rep")]
    if o["copy"]:
        a += ["--html-copy-data", os.path.join(d, "data")]
    for x in o["js"]:
        a += ["--html-javascript", x]
    for x in o["css"]:
        a += ["--html-stylesheet=" + x]
    return a


def sources(o, d, here):
    # (what isn't there is left as it is)
    out = [(k, x if "://" in x else
            os.path.normpath(os.path.join(here if "gone" in x else d, x)))
           for k in ("js", "css") for x in o[k]]
    if o["copy"]:
        out += [("css", os.path.join(d, "data", "report.css")),
                ("js", os.path.join(d, "data", "report.js"))]
    return out


def check_text(got, tree, o, what):
    same(got, tree.text(o), what + " as text")


def check_json(got, tree, o, what):
    doc = json.loads(got)
    same(doc["report"], tree.doc(o), what + " as JSON")
    opts = doc["runtime_options"]
    same((opts["show_ignored"], opts["show_unchanged"]),
         (o["show_ignored"], o["show_unchanged"]), what + " options")


def run_all(main, name, args, l, r, d, o, rc, trees, ctx, extra=()):
    """
    trees: (without reports, {report path: tree, ...}).
    """
    tree, reports = trees
    base = [name] + list(extra) + list(args) + show_args(o)

    # on the console
    for more, check in (([], check_text), (["--json"], check_json)):
        if o["output"]:
            fn = os.path.join(d, "out.%s" % check.__name__)
            if o["old"]:
                write(fn, OLD)
            res = run_main(main, base + more + ["-o", fn, l, r])
            same(res.out, "", "console output with -o")
            check(read(fn).decode("ascii"), tree, o, "-o")
        else:
            res = run_main(main, base + more + [l, r])
            check(res.out, tree, o, "console output")
        same(res.rc, rc, "exit code with %r" % more)
        if o["quiet"]:
            res = run_main(main, base + more + [("-q", "--quiet")[o["json"]],
                                                l, r])
            same((res.rc, res.out), (rc, ""), "quiet run with %r" % more)
            ctx.hit("quiet")
    if not o["formats"]:
        return

    # in files
    top = os.path.join(d, "rep")
    more = ["--json"] if o["json"] else []
    if o["quiet"]:
        more.append("-q")
    os.makedirs(os.path.join(d, "y"), exist_ok=True)
    os.makedirs(top, exist_ok=True)
    js, css = ([x.replace("@", d) for x in o[k]] for k in ("js", "css"))
    o = dict(o, js=js, css=css)
    for x in js + css:
        if "://" not in x and "gone" not in x:
            write(os.path.join(d, x), b"")
    if o["old"]:
        # left by an earlier run
        for p in reports:
            for f in o["formats"]:
                if f in EXT:
                    write("%s/%s.%s" % (top, p, EXT[f]), OLD)
        if o["copy"] and set(o["formats"]) & {"html", "htm"}:
            write(os.path.join(d, "data", "report.css"), OLD)
    with _cwd(d):
        res = run_main(main, base + more + report_args(o, d) + [l, r])
    same(res.rc, rc, "exit code with reports")
    root = [t_ for p, t_ in reports.items() if "/" not in p][0]
    check = check_json if o["json"] else check_text
    if o["quiet"]:
        same(res.out, "", "console output of a quiet run with reports")
    else:
        check(res.out, root, o, "console output with reports")
    have = sorted(n for n, data in snapshot(top).items()
                  if data is not None and n not in ("c.css",))
    exts = sorted({EXT[f] for f in o["formats"] if f in EXT})
    same(have, sorted("%s.%s" % (p, e) for p in reports for e in exts),
         "report files")
    for p, tr in reports.items():
        fn = os.path.join(top, p)
        if "text" in exts:
            check_text(read(fn + ".text").decode("ascii"), tr, o, p)
        if "json" in exts:
            check_json(read(fn + ".json").decode("ascii"), tr, o, p)
        if "html" in exts:
            check_page(fn + ".html", tr, top, crumbs_of(top, p, reports),
                       ctx, sources(o, d, os.path.dirname(fn)))
            ctx.hit("page")
    if o["copy"] and "html" in exts:
        src = os.path.join(os.path.dirname(classdiff.__file__), "cheetah",
                           "data")
        same(snapshot(os.path.join(d, "data")), snapshot(src),
             "data copied")


def crumbs_of(top, p, reports):
    """ pages above """
    out = []
    here = os.path.dirname(p)
    for q in reports:
        qd = os.path.dirname(q)
        if q != p and (qd == "" or here.startswith(qd + "/")) and qd != here:
            out.append(q)
    out.sort(key=lambda q: os.path.dirname(q).count("/") +
             bool(os.path.dirname(q)))
    return [os.path.join(top, q + ".html") for q in out]


class _cwd(object):
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *_e):
        os.chdir(self.old)


# ---- classes ----

def body_class(case, ctx):
    left, donor, muts, words, s1, s2, o = case
    right = left
    for kind, seed in muts:
        right = C10.mutate(right, kind, seed, donor)
    if s2 % 3 == 0:
        left, right = right, left
    order = dm.relayout(left, s1)
    ld = cf.write_class(left, order=order)
    rd = cf.write_class(right, order=order if s2 % 2 else
                        dm.relayout(right, s2))
    opts = classdiff.default_classdiff_options(
        {"ignore_" + w.replace("-", "_"): True for w in C10.expand(words)})
    delta = classdiff.JavaClassChange(unpack_class(ld), unpack_class(rd))
    delta.check()
    ctx.nontrivial_case(delta.is_change())
    rc = 1 if delta.is_change() and not delta.is_ignored(opts) else 0
    trees = (Tree(delta, opts, False, ()),
             {"JavaClassReport": Tree(delta, opts, True, ())})
    with Scratch() as d:
        l = write(os.path.join(d, "l.class"), ld)
        r = write(os.path.join(d, "r.class"), rd)
        run_all(classdiff.main, "classdiff", ["--ignore-" + w for w in words],
                l, r, d, o, rc, trees, ctx)


case_class = st.tuples(
    g.klass(max_fields=2, max_methods=3, max_insns=8),
    g.klass(max_fields=1, max_methods=1, max_insns=3),
    st.lists(st.tuples(st.sampled_from(
        ["version", "deprecated", "lines", "shift", "added", "any", "any",
         "any"]), st.integers(0, 2**31)), min_size=0, max_size=3).map(tuple),
    st.lists(st.sampled_from(C10.WORDS), unique=True, max_size=3).map(tuple),
    st.integers(0, 2**31), st.integers(0, 2**31), options)


# ---- JARs ----

def class_trees(prefix, l, r, opts):
    """ reports of the classes of a JAR """
    out = {}
    diffs = {n for n, e in t.events(l, r).items() if e == "D"}
    for n in diffs:
        if C13.kind_of(n) == "class":
            delta = classdiff.JavaClassChange(unpack_class(l[n]),
                                              unpack_class(r[n]))
            delta.check()
            out["%s%s/JavaClassReport" % (prefix, n)] = \
                Tree(delta, opts, True, ())
    return out, diffs


def body_jar(case, ctx):
    (left, right), (jo, words, args), exploded, seed, o = case
    opts = jardiff.default_jardiff_options(dict(
        {"ignore_" + w.replace("-", "_"): True for w in C10.expand(words)},
        ignore_jar_entry=list(jo["entries"]),
        ignore_jar_signature=jo["signature"],
        ignore_manifest=jo["manifest"],
        ignore_manifest_subsections=jo["subsections"],
        ignore_manifest_key=list(jo["keys"])))
    dirs = t.dirs_of(list(left) + list(right))
    with Scratch() as d:
        l = C13.make(d, "l.jar", left, exploded, dirs, False, seed)
        r = C13.make(d, "r.jar", right, exploded, dirs, False, seed // 7)
        delta = jardiff.JarChange(l, r)
        delta.check()
        ctx.nontrivial_case(delta.is_change())
        rc = 1 if delta.is_change() and not delta.is_ignored(opts) else 0
        subs, diffs = class_trees("", left, right, opts)
        for s in subs:
            ctx.hit("report of a class")
        subs["JarReport"] = Tree(delta, opts, True, diffs)
        run_all(jardiff.main, "jardiff", args, l, r, d, o, rc,
                (Tree(delta, opts, False, ()), subs), ctx)


case_jar = st.tuples(C13.entries(), C13.options(), st.booleans(),
                     st.integers(0, 10**6), options)


# ---- distributions ----

def dist_trees(parts, left, right, l, r, do, opts):
    """ (delta, without reports, reports) """
    delta = distdiff.DistChange(l, r, do["shallow"])
    delta.check()
    subs = {}
    diffs = {n for n, e in t.events(left, right).items() if e == "D"}
    models = {n: (a, b) for n, _w, a, b in parts}
    if not do["shallow"]:
        for c in delta.collect():
            n = c.entry
            if n not in diffs:
                continue
            kind = C15.KIND[n]
            if kind == "class":
                sub = classdiff.JavaClassChange(unpack_class(left[n]),
                                                unpack_class(right[n]))
                sub.check()
                subs[n + "/JavaClassReport"] = Tree(sub, opts, True, ())
            elif kind == "jar":
                sub = jardiff.JarChange(os.path.join(l, n),
                                        os.path.join(r, n))
                sub.check()
                more, jd = class_trees(n + "/", models[n][0][0],
                                       models[n][1][0], opts)
                subs.update(more)
                subs[n + "/JarReport"] = Tree(sub, opts, True, jd)
    subs["DistReport"] = Tree(delta, opts, True, diffs)
    return delta, Tree(delta, opts, False, ()), subs


def body_dist(case, ctx):
    parts, (do, words, args), o = case
    left, right = C15.build(parts)
    opts = C15.api_options(do, words)
    with Scratch() as d:
        l = t.write_tree(os.path.join(d, "l"), left)
        r = t.write_tree(os.path.join(d, "r"), right)
        delta, tree, subs = dist_trees(parts, left, right, l, r, do, opts)
        ctx.nontrivial_case(delta.is_change())
        if len(subs) > 1:
            ctx.hit("sub-reports")
        if any(s.count("/") > 1 for s in subs):
            ctx.hit("deep sub-reports")
        rc = 1 if delta.is_change() and not delta.is_ignored(opts) else 0
        run_all(distdiff.main, "distdiff", args, l, r, d, o, rc,
                (tree, subs), ctx, ["--processes=0"])


case_dist = st.tuples(C15.dists(), C15.options(), options)

# ---- merged tables ----

def by_lines(code):
    if code is None:
        return {}
    lnt = code.get_linenumbertable()
    out = {}
    for ins in code.disassemble():
        line = code.get_line_for_offset(ins[0]) if lnt else 1
        rel = line - lnt[0][1] if lnt else 1
        out.setdefault(rel, (line, []))[1].append(ins)
    return out


def body_merge(case, ctx):
    left, right, s1, s2 = case
    linfo = unpack_class(cf.write_class(left, order=dm.relayout(left, s1)))
    rinfo = unpack_class(cf.write_class(right, order=dm.relayout(right, s2)))
    codes = [[m.get_code() for m in x.methods] + [None]
             for x in (linfo, rinfo)]
    for l in codes[0]:
        for r in codes[1]:
            a, b = by_lines(l), by_lines(r)
            want = {k: (a.get(k), b.get(k)) for k in set(a) | set(b)}
            got = {k: tuple(x and (x[0], list(x[1])) for x in v)
                   for k, v in classdiff.merge_code(l, r).items()}
            same(got, want, "merged code")
            ctx.nontrivial_case(len(want) > 1)
    lp, rp = linfo.cpool, rinfo.cpool
    ls, rs = len(lp.consts), len(rp.consts)
    want = [(i,) + (lp.pretty_const(i) if i < ls else (None, None)) +
            (rp.pretty_const(i) if i < rs else (None, None))
            for i in range(1, max(ls, rs))]
    same([tuple(x) for x in classdiff.pretty_merge_constants(lp, rp)], want,
         "merged constants")


case_merge = st.tuples(
    g.klass(max_fields=1, max_methods=2, max_insns=10),
    g.klass(max_fields=1, max_methods=2, max_insns=10),
    st.integers(0, 2**31), st.integers(0, 2**31))

PROPS = [
    Prop("merge", case_merge, body_merge, quick=600, thorough=20000),
    Prop("classes", case_class, body_class, quick=800, thorough=20000),
    Prop("jars", case_jar, body_jar, quick=800, thorough=16000),
    Prop("dists", case_dist, body_dist, quick=800, thorough=16000),
]
