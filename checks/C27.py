"""
C27: classes a compiler makes are read as javap reads them, and the
changes reported of them are those of their sources.
"""

import os
import random

from hypothesis import strategies as st

from javatools import unpack_classfile, classdiff

from vlib import bytecode as bc
from vlib import classfile as cf
from vlib import classtree as tree
from vlib import diffmodel as dm
from vlib import gen_java as gj
from vlib import javap, jvm
from vlib.harness import Prop, Scratch
from vlib.util import need, same, truth, run_main, read, write
from checks import C01, C02, C03

RULE = ("Java programs are generated, compiled by javac with generated "
        "options, and read by the code and by javap, whose account is the "
        "oracle, as are class files of the platform picked at random; "
        "programs are edited and what classdiff reports is compared with "
        "the difference of javap's accounts; non-trivial when a method has "
        "code, or something differs")

setup = jvm.setup


class Pool(object):
    def __init__(self, pool):
        self.entries = sorted(pool.items())
        self.index = {c: i for i, c in self.entries}


class Info(object):
    def __init__(self, pool):
        self.pool = Pool(pool)
        self.codes, self.listings = {}, {}


def attr1(attrs, name):
    a = cf.find_attr(attrs, name)
    return a[1] if a else None


def check_common(obj, m, what):
    attrs = m["attrs"]
    same(obj.get_signature(), attr1(attrs, "Signature"), what + " signature")
    truth(obj.is_deprecated(), cf.find_attr(attrs, "Deprecated"),
          what + " is_deprecated")
    C03.check_holder(obj, attrs, what)


def check_class(ci, model, pool, ctx):
    info = Info(pool)
    same(tuple(ci.get_version()), (model["major"], model["minor"]),
         "version")
    same(ci.access_flags, model["access"], "access flags")
    for api, mask in C01.CLASS_FLAG_API.items():
        truth(getattr(ci, api)(), model["access"] & mask, api)
    same(ci.get_this(), model["this"], "this")
    same(ci.get_super(), model["super"] or "", "super")
    same(tuple(ci.get_interfaces()), model["interfaces"], "interfaces")
    check_common(ci, model, "class")
    attrs = model["attrs"]
    same(ci.get_sourcefile(), attr1(attrs, "SourceFile"), "source file")
    em = cf.find_attr(attrs, "EnclosingMethod")
    same(ci.get_enclosingmethod(), em and (
        "%s.%s%s" % ((em[1],) + em[2]) if em[2] else em[1]),
        "enclosing method")
    inner = attr1(attrs, "InnerClasses") or ()
    got = ci.get_innerclasses()
    same(len(got), len(inner), "number of inner classes")
    for g, (a, b, c, d) in zip(got, [x if len(x) == 4 else None
                                     for x in inner]):
        # flags, simple name, class, outer: javap leaves out what isn't
        if c is None:
            b, c = None, b
        same((g.inner_info_ref, g.name_ref, g.outer_info_ref),
             (c, b or 0, d or 0), "inner class")
        for w in ("public", "private", "protected", "static", "final"):
            truth(g.access_flags & gj.FLAGS[w], w in (a or "").split(),
                  "inner class is " + w)
    C01.check_pool(ci.cpool, info.pool)
    for kind, got in (("fields", ci.fields), ("methods", ci.methods)):
        want = model[kind]
        same(len(got), len(want), "number of " + kind)
        for m, w in zip(got, want):
            check_member(m, w, info, ctx)


def check_member(m, w, info, ctx):
    what = w["name"] + w["desc"]
    same(m.get_name(), w["name"], "name of " + what)
    same(m.get_descriptor(), w["desc"], "descriptor of " + what)
    same(m.access_flags, w["access"], "access flags of " + what)
    for api, mask in C01.MEMBER_FLAG_API.items():
        truth(getattr(m, api)(), w["access"] & mask, what + " " + api)
    check_common(m, w, what)
    attrs = w["attrs"]
    if w["desc"][0] != "(":
        cv = attr1(attrs, "ConstantValue")
        got = m.deref_constantvalue()
        if cv is None:
            same(got, None, "constant of " + what)
        else:
            if w["desc"] in "BCSZI":
                need(cv[0] == "Integer", "javap: %r", cv)
            need(cf.same_value(got, cf.value(cv)),
                 "constant of %s: %r, expected %r", what, got, cv)
        return
    args, ret = C01.split_desc(w["desc"])
    same(tuple(m.get_arg_type_descriptors()), args, "arguments of " + what)
    same(m.get_type_descriptor(), ret, "type of " + what)
    same(tuple(m.get_exceptions()), tuple(attr1(attrs, "Exceptions") or ()),
         "exceptions of " + what)
    default = cf.find_attr(attrs, "AnnotationDefault")
    truth(m.get_annotationdefault() is not None, default,
          what + " has a default")
    if default:
        ctx.hit("default of " + default[1][0])
        C03.same_plain(m.deref_annotationdefault(), C03.plain(default[1]),
                       what + " default")
    c = attr1(attrs, "Code")
    code = m.get_code()
    truth(code is not None, c is not None, what + " has code")
    if c is not None:
        raw, listing = bc.assemble(c["raw"], lambda x: x[1])
        info.codes[id(c)], info.listings[id(c)] = raw, listing
        C02.check_code(code, c, info, ctx)


def account(fn):
    return javap.read(jvm.tool("javap", "-v", "-p", fn), read(fn))


def read_both(fn, ctx):
    try:
        model, pool = account(fn)
    except javap.Unreadable:
        ctx.hit("can't tell")
        return None
    check_class(unpack_classfile(fn), model, pool, ctx)
    return model


def body_platform(case, ctx):
    seed, count = case
    with Scratch() as d:
        for name, fn in jvm.platform_classes(seed, count, d):
            model = read_both(fn, ctx)
            if model is None:
                continue
            ctx.hit("class of the platform")
            if attr1(model["attrs"], "RuntimeVisibleAnnotations"):
                ctx.hit("annotated")
            if model["access"] & 0x8000:
                ctx.hit("module")


def compile_java(src, opts, d, sub):
    """ [files], or None when it doesn't compile """
    out = os.path.join(d, sub)
    os.mkdir(out)
    fn = write(os.path.join(out, "A.java"), src.encode("utf8"))
    try:
        jvm.tool("javac", "-encoding", "UTF-8", "-nowarn", "-Xlint:none",
                 "-proc:none", "-d", out, *(opts + (fn,)))
    except jvm.JavaError as exc:
        if exc.cls != "java.lang.IllegalArgumentException":
            raise
        if os.environ.get("VERIF_JAVAC"):
            print(exc, src)
        return None
    out = os.path.join(out, "p")
    return {n: os.path.join(out, n) for n in sorted(os.listdir(out))}


DESC = dict((t, d) for t, (d, _v) in gj.TYPES.items())


def declared(cls):
    """ {(name, descriptor): flags} of the source, for classes """
    sup = cls[3]
    t = dict(DESC)
    if sup == "Exception":
        t["T"] = DESC["Object"]
    out = {}
    for m in cls[5]:
        flags = 0
        for w in m[2].split():
            flags |= gj.FLAGS[w]
        if m[0] == "f":
            out[m[1], t[m[3]]] = flags
        else:
            out[m[1], "(%s)%s" % ("".join(t[p] for p in m[4]),
                                  "V" if m[3] == "void" else t[m[3]])] = flags
    return out


def body_compiled(case, ctx):
    cls, opts = case
    with Scratch() as d:
        files = compile_java(gj.write(cls), opts, d, "a")
        if files is None:
            ctx.hit("doesn't compile")
            return
        ctx.hit(cls[0])
        for o in opts:
            ctx.hit(o)
        for fn in files.values():
            read_both(fn, ctx)
        if cls[0] != "class":
            return
        ci = unpack_classfile(files["A.class"])
        old = "17" not in opts
        got = {(m.get_name(), m.get_descriptor()):
               m.access_flags & (0xfff if old else 0x7ff)
               for m in tuple(ci.fields) + tuple(ci.methods)
               if not m.is_synthetic() and m.get_name() not in
               ("<init>", "<clinit>")}
        want = declared(cls)
        strict = "strictfp" in cls[2]
        for k in want:
            if not old:
                want[k] &= 0x7ff
            elif strict and k[1][0] == "(" and not want[k] & 0x400:
                want[k] |= 0x800
        same(got, want, "members declared")


options = st.tuples(
    st.sampled_from([("--release", "8"), ("--release", "17"),
                     ("--release", "11")]),
    st.sampled_from([("-g",), ("-g",), ("-g:none",), (), ("-g:lines",)]),
    st.sampled_from([(), (), ("-parameters",)])).map(lambda t: sum(t, ()))


# ---- edits ----

def edit(cls, seed, donor):
    """ (class, empty lines before) """
    rnd = random.Random(seed)
    cls = list(cls)
    members = list(cls[5])
    how = rnd.randrange(12)
    i = rnd.randrange(len(members)) if members else None
    if how == 0:
        return tuple(cls), rnd.randrange(1, 4)
    if how == 1:
        cls[2] = rnd.choice(["", "public", "public strictfp"])
    elif how == 2:
        cls[3] = rnd.choice(gj.SUPERS)
    elif how == 3:
        cls[4] = cls[4][1:] or (rnd.choice(gj.IFACES),)
    elif how == 4:
        cls[6] = "" if cls[6] else "@Deprecated"
    elif how == 5 and members:
        del members[i]
    elif how == 6:
        more = [m for m in donor[5] if m[1] not in
                [x[1] for x in members]]
        if more:
            members.insert(rnd.randrange(len(members) + 1), rnd.choice(more))
    elif how == 7 and members:
        members.append(members.pop(i))
    elif members:
        m = list(members[i])
        if m[0] == "f":
            if how == 8:
                m[2] = rnd.choice(gj.MODS_F)
            elif how == 9:
                m[3] = rnd.choice(sorted(gj.TYPES))
                m[4] = gj.TYPES[m[3]][1]
            else:
                m[4] = rnd.choice(gj.INITS.get(m[3], ["null"]))
            if "final" in m[2] and m[4] is None:
                m[4] = gj.TYPES[m[3]][1]
            if "static" in m[2] and m[3] == "T":
                return tuple(cls), 0
        elif how == 8:
            m[5] = m[5][1:] or (rnd.choice(gj.THROWS),)
        elif how == 9 and m[6] is not None:
            m[2] = rnd.choice(["", "public", "protected final"])
        elif how == 10 and "static" not in m[2]:
            m[4] = m[4][1:] or ("int[]",)
        elif m[6]:
            body = list(m[6])
            k = rnd.randrange(len(body))
            what = rnd.randrange(4)
            if what == 0:
                del body[k]
            elif what == 1:
                body[k] = (body[k][0], body[k][1] + 1, body[k][2])
            elif what == 2:
                body.insert(k, (rnd.randrange(len(gj.STMTS)), 3, 4))
            else:
                body.append(body.pop(k))
            m[6] = tuple(body)
        members[i] = tuple(m)
    cls[5] = tuple(members)
    return tuple(cls), 0


def body_edits(case, ctx):
    cls, donor, edits, lopts, ropts, swap = case
    right, before = cls, 0
    for e in edits:
        right, n = edit(right, e, donor)
        before += n
    with Scratch() as d:
        lf = compile_java(gj.write(cls), lopts, d, "l")
        rf = compile_java(gj.write(right, before), ropts, d, "r")
        if not lf or not rf:
            ctx.hit("doesn't compile")
            return
        if swap:
            lf, rf = rf, lf
        for n in sorted(set(lf) & set(rf)):
            if read(lf[n]) == read(rf[n]):
                ctx.hit("same class file")
            diff_both(lf[n], rf[n], ctx)


def diff_both(lfn, rfn, ctx):
    try:
        lm, _p = account(lfn)
        rm, _p = account(rfn)
    except javap.Unreadable:
        ctx.hit("can't tell")
        return
    want, unsure = dm.diff_class(lm, rm)
    hot = [p for p, w in want.items() if w is True]
    for p in hot:
        ctx.hit("changed " + p[-1])
    ctx.nontrivial_case(hot)
    delta = classdiff.JavaClassChange(unpack_classfile(lfn),
                                      unpack_classfile(rfn))
    delta.check()
    tree.compare(tree.changed(delta), want, unsure)
    tree.check_values(delta, lm, rm)
    res = run_main(classdiff.main, ["classdiff", "--ignore-pool", lfn, rfn])
    if not hot and not unsure and not any(
            w == dm.EITHER for w in want.values()):
        same(res.rc, 0, "exit code, nothing changed")
    elif hot:
        same(res.rc, 1, "exit code, changed %r" % hot)
    lines = {"CodeAbsoluteLines", "CodeRelativeLines"}
    if hot and not unsure and {p[-1] for p in hot} <= lines:
        ctx.hit("just lines")
        res = run_main(classdiff.main, ["classdiff", "--ignore-pool",
                                        "--ignore-lines", lfn, rfn])
        same(res.rc, 0, "exit code, just lines changed and ignored")


case_edits = st.tuples(
    gj.klass(), gj.klass(),
    st.lists(st.integers(0, 10**6), max_size=3).map(tuple),
    options, options, st.booleans()).map(
        lambda t: t if t[5] and len(t[2]) % 2 else
        t[:4] + (t[3],) + t[5:])


PROPS = [
    Prop("platform", st.tuples(st.integers(0, 10**9), st.just(3)),
         body_platform, quick=1200, thorough=40000),
    Prop("compiled", st.tuples(gj.klass(), options), body_compiled,
         quick=700, thorough=30000),
    Prop("edits", case_edits, body_edits, quick=500, thorough=20000),
]
