"""
C01: what a class file holds is what is reported of it.

A class model is generated, written out by our own class writer, read
by javatools and every fact compared with the model.
"""

import io
import os

from hypothesis import strategies as st

import javatools
from javatools import unpack_class, unpack_classfile, is_class, \
    is_class_file

from vlib import gen_class as g
from vlib import classfile as cf
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, write

RULE = ("class models generated from a grammar of the class-file format "
        "(versions, flags, names incl. non-ASCII/NUL/supplementary, fields, "
        "methods, attributes, all constant kinds, arbitrary constant order) "
        "are written by an independent class writer and read back; a case is "
        "non-trivial when the class has a member or an attribute, or the "
        "pool has a two-slot constant")

CLASS_FLAG_API = {
    "is_public": 0x1, "is_final": 0x10, "is_super": 0x20,
    "is_interface": 0x200, "is_abstract": 0x400, "is_annotation": 0x2000,
    "is_enum": 0x4000}

MEMBER_FLAG_API = {
    "is_public": 1, "is_private": 2, "is_protected": 4, "is_static": 8,
    "is_final": 0x10, "is_synchronized": 0x20, "is_volatile": 0x40,
    "is_bridge": 0x40, "is_transient": 0x80, "is_varargs": 0x80,
    "is_native": 0x100, "is_abstract": 0x400, "is_strict": 0x800,
    "is_enum": 0x4000, "is_module": 0x8000}


def has(attrs, name):
    return cf.find_attr(attrs, name) is not None


def attr1(attrs, name):
    a = cf.find_attr(attrs, name)
    return a[1] if a else None


def check_common(obj, model, what):
    attrs = model["attrs"]
    names = sorted(a[1] if a[0] == "Raw" else a[0] for a in attrs)
    same(sorted(obj.attribs.keys()), names, what + " attribute names")
    for a in attrs:
        if a[0] == "Raw":
            same(bytes(obj.get_attribute(a[1])), a[2], what + " raw attribute")
    same(obj.get_attribute("NoSuch"), None, what + " absent attribute")
    truth(obj.is_deprecated(), has(attrs, "Deprecated"),
          what + " is_deprecated")
    same(obj.get_signature(), attr1(attrs, "Signature"), what + " signature")


def split_desc(desc):
    """ our own descriptor splitter: (args, ret) """
    def one(s, i):
        j = i
        while s[j] == "[":
            j += 1
        if s[j] == "L":
            j = s.index(";", j)
        return s[i:j + 1], j + 1
    if desc[0] != "(":
        return None, desc
    args, i = [], 1
    while desc[i] != ")":
        a, i = one(desc, i)
        args.append(a)
    return tuple(args), desc[i + 1:]


def check_member(m, model, is_method, what):
    same(m.get_name(), model["name"], what + " name")
    same(m.get_descriptor(), model["desc"], what + " descriptor")
    same(m.access_flags, model["access"], what + " access flags")
    truth(m.is_method, is_method, what + " is_method")
    for api, mask in MEMBER_FLAG_API.items():
        truth(getattr(m, api)(), model["access"] & mask, what + " " + api)
    check_common(m, model, what)
    attrs = model["attrs"]
    truth(m.is_synthetic(),
          model["access"] & 0x1000 or has(attrs, "Synthetic"),
          what + " is_synthetic")

    args, ret = split_desc(model["desc"])
    same(m.get_type_descriptor(), ret, what + " type")
    same(tuple(m.get_arg_type_descriptors()), args or (),
         what + " argument types")

    if is_method:
        same(tuple(m.get_exceptions()),
             tuple(attr1(attrs, "Exceptions") or ()), what + " exceptions")
        truth(m.get_code() is not None, has(attrs, "Code"),
              what + " has code")
    else:
        cv = attr1(attrs, "ConstantValue")
        if cv is None:
            same(m.get_constantvalue(), None, what + " constant value")
            same(m.deref_constantvalue(), None, what + " constant value")
        else:
            got = m.deref_constantvalue()
            need(cf.same_value(got, cf.value(cv)),
                 "%s constant value: got %r, expected %r", what, got, cv)
            tag, _v = m.cpool.get_const(m.get_constantvalue())
            same(tag, cf.TAG[cv[0]], what + " constant value tag")


def check_class(ci, model, pool):
    same(tuple(ci.get_version()), (model["major"], model["minor"]),
         "version")
    same(ci.access_flags, model["access"], "access flags")
    for api, mask in CLASS_FLAG_API.items():
        truth(getattr(ci, api)(), model["access"] & mask, api)
    same(ci.get_this(), model["this"], "this")
    same(ci.get_super(), model["super"] or "", "super")
    same(tuple(ci.get_interfaces()), model["interfaces"], "interfaces")
    check_common(ci, model, "class")
    attrs = model["attrs"]
    same(ci.get_sourcefile(), attr1(attrs, "SourceFile"), "source file")

    same(ci.get_source_debug_extension(),
         attr1(attrs, "SourceDebugExtension") or None,
         "source debug extension")

    inner = attr1(attrs, "InnerClasses") or ()
    got = ci.get_innerclasses()
    same(len(got), len(inner), "number of inner classes")
    for gi, (iname, outer, simple, flags) in zip(got, inner):
        same(ci.deref_const(gi.inner_info_ref), iname, "inner class")
        same(gi.outer_info_ref and ci.deref_const(gi.outer_info_ref),
             outer or 0, "outer class")
        same(gi.access_flags, flags, "inner flags")
        same(gi.get_name(), simple, "inner simple name")

    em = cf.find_attr(attrs, "EnclosingMethod")
    if em is None:
        want = None
    elif em[2]:
        want = "%s.%s%s" % (em[1], em[2][0], em[2][1])
    else:
        want = em[1]
    same(ci.get_enclosingmethod(), want, "enclosing method")

    same(len(ci.fields), len(model["fields"]), "number of fields")
    for f, m in zip(ci.fields, model["fields"]):
        check_member(f, m, False, "field %r" % m["name"])
    same(len(ci.methods), len(model["methods"]), "number of methods")
    for f, m in zip(ci.methods, model["methods"]):
        check_member(f, m, True, "method %r%s" % (m["name"], m["desc"]))

    check_pool(ci.cpool, pool)
    check_lookup(ci, model)


def check_pool(cpool, pool):
    want = dict((i, c) for i, c in pool.entries)
    got = list(cpool.constants())
    same([i for i, _t, _v in got], sorted(want), "constant indices")
    for i, t, v in got:
        c = want[i]
        same(t, cf.TAG[c[0]], "tag of constant #%d" % i)
        need(cf.same_value(v, cf.value(c)),
             "constant #%d: got %r, expected %r", i, v, c)
        v2 = cpool.deref_const(i)
        need(cf.same_value(v2, cf.value(c)),
             "constant #%d: got %r, expected %r", i, v2, c)
        same(cpool.get_const(i)[0], cf.TAG[c[0]], "tag of #%d" % i)
    try:
        cpool.deref_const(0)
    except IndexError:
        pass
    else:
        raise Violation("constant 0 is dereferenced")


def check_lookup(ci, model):
    for name in {m["name"] for m in model["fields"]} | {"no such"}:
        want = [m for m in model["fields"] if m["name"] == name]
        got = ci.get_field_by_name(name)
        if not want:
            same(got, None, "field %r" % name)
        else:
            need(got is not None and got.get_name() == name,
                 "field %r is not found", name)
    seen = {(m["name"], split_desc(m["desc"])[0])
            for m in model["methods"]} | {("no such", ())}
    for name, args in sorted(seen):
        want = [m for m in model["methods"] if m["name"] == name]
        got = list(ci.get_methods_by_name(name))
        same([m.get_descriptor() for m in got], [m["desc"] for m in want],
             "methods named %r" % name)
        want = [m for m in want if split_desc(m["desc"])[0] == args]
        plain = [m["desc"] for m in want if not m["access"] & 0x40]
        bridges = [m["desc"] for m in want if m["access"] & 0x40]
        got = ci.get_method(name, list(args))
        if plain:
            need(got is not None and got.get_descriptor() in plain
                 and got.get_name() == name and not got.is_bridge(),
                 "method %r%r is not found", name, args)
        else:
            same(got, None, "method %r%r" % (name, args))
        for a in (args, list(args)):
            got = [m.get_descriptor() for m in ci.get_method_bridges(name, a)]
            same(got, bridges, "bridges of %r%r" % (name, args))


class Quiet:
    """ keeps no account """

    def hit(self, *_what):
        pass

    nontrivial_case = hit


def check_parts(ci, model, info):
    """ its code and annotations (C02 and C03 go further into these) """
    from checks import C02, C03
    for m, mm in zip(ci.methods, model["methods"]):
        c = attr1(mm["attrs"], "Code")
        if c is not None:
            C02.check_code(m.get_code(), c, info, Quiet())
    C03.check_all(ci, model, Quiet())


def relayout(model, shuffle):
    """ the constants in another order, ldc ones first """
    if shuffle is None:
        return ()
    order = cf.pool_order(model)
    ldc = cf.ldc_consts(model)
    rest = [c for c in order if c not in ldc]
    shuffle.shuffle(ldc)
    shuffle.shuffle(rest)
    return ldc + rest


def classify(model, pool, ctx):
    if model["fields"]:
        ctx.hit("has fields")
    if model["methods"]:
        ctx.hit("has methods")
    if any(m["access"] & 0x40 for m in model["methods"]):
        ctx.hit("has bridge")
    wide = any(c[0] in ("Long", "Double") for _i, c in pool.entries)
    if wide:
        ctx.hit("two-slot constants")
    for a in model["attrs"]:
        ctx.hit("class attr " + a[0])
    for m in model["fields"] + model["methods"]:
        for a in m["attrs"]:
            ctx.hit("member attr " + a[0])
    ctx.nontrivial_case(wide or model["fields"] or model["methods"] or
                        model["attrs"])


def body_read(case, ctx):
    model, order, how = case
    info = cf.Info()
    data = cf.write_class(model, order=order, info=info)
    need(is_class(data), "is_class says no")
    need(is_class(io.BytesIO(data)), "is_class of a stream says no")
    if how == "bytes":
        ci = unpack_class(data)
    elif how == "memoryview":
        ci = unpack_class(memoryview(data))
    elif how == "stream":
        ci = unpack_class(io.BytesIO(data))
    elif how == "magic tuple":
        s = io.BytesIO(data)
        ci = unpack_class(s, magic=tuple(s.read(4)))
        # (the stream is closed along with its unpacker)
    elif how == "magic bytes":
        s = io.BytesIO(data)
        ci = unpack_class(s, magic=s.read(4))
    else:
        with Scratch() as d:
            fn = write(os.path.join(d, "X.class"), data)
            need(is_class_file(fn), "is_class_file says no")
            ci = unpack_classfile(fn)
    ctx.hit("read from " + how)
    classify(model, info.pool, ctx)
    check_class(ci, model, info.pool)
    check_parts(ci, model, info)


@st.composite
def case_read(draw):
    model = draw(g.klass())
    if draw(st.booleans()):
        rnd = draw(st.randoms(use_true_random=False))
        order = tuple(relayout(model, rnd))
    else:
        order = ()
    how = draw(st.sampled_from(["bytes", "bytes", "memoryview", "stream",
                                "file", "magic tuple", "magic bytes"]))
    return model, order, how


def body_pool(case, ctx):
    """ many constants, few members: the pool itself """
    consts, dups = case
    model = {"major": 52, "minor": 0, "access": 1, "this": "T",
             "super": None, "interfaces": (), "fields": (), "methods": (),
             "attrs": (), "extra": consts}
    info = cf.Info()
    data = cf.write_class(model, order=tuple(consts[:dups]) + consts,
                          info=info)
    ci = unpack_class(data)
    classify(model, info.pool, ctx)
    for c in consts:
        ctx.hit("constant " + c[0])
    check_pool(ci.cpool, info.pool)
    same(ci.get_this(), "T", "this")
    # equality of pools is equality of their contents
    other = unpack_class(data)
    nan = any(c[0] in ("Float", "Double") and cf.value(c) != cf.value(c)
              for _i, c in info.pool.entries)
    need((ci.cpool == other.cpool) or nan,
         "two readings of the same pool differ")
    need(ci.cpool != 3 and not (ci.cpool == 3), "a pool equals a number")
    longer = unpack_class(cf.write_class(
        dict(model, extra=consts + (("Utf8", "the last of them"),)),
        order=tuple(consts[:dups]) + consts)).cpool
    need(ci.cpool != longer and not (ci.cpool == longer) and
         longer != ci.cpool and not (longer == ci.cpool),
         "a pool equals one with another constant")


def body_big(case, ctx):
    """ sizes beyond one byte: indices, lengths, counts """
    filler, nfields, slen, ch, rawlen, model = case
    more = tuple({"access": n % 16, "name": "f%d" % n, "desc": "I",
                  "attrs": ()} for n in range(nfields))
    model = dict(model, fields=more + tuple(
        f for f in model["fields"] if f["name"] not in
        {m["name"] for m in more}))
    model["attrs"] = tuple(a for a in model["attrs"] if a[0] != "Raw") + (
        ("Raw", "Big", b"\x5a" * rawlen),)
    text = ch * (slen // len(cf.mutf8(ch)))
    ldc = cf.ldc_consts(model)
    order = tuple(ldc) + tuple(("Integer", 10**6 + n) for n in range(filler))
    model["extra"] = model["extra"] + (("String", text),)
    info = cf.Info()
    data = cf.write_class(model, order=order, info=info)
    ci = unpack_class(io.BytesIO(data) if slen % 2 else data)
    ctx.nontrivial_case()
    if info.pool.next > 256:
        ctx.hit("more than 255 constants")
    if slen > 255:
        ctx.hit("long string")
    if slen > 32767:
        ctx.hit("string over 32767 bytes")
    if rawlen > 65535:
        ctx.hit("attribute over 65535 bytes")
    if len(model["fields"]) > 255:
        ctx.hit("more than 255 fields")
    check_class(ci, model, info.pool)


case_big = st.tuples(
    st.sampled_from([0, 250, 300, 700, 33000]),
    st.sampled_from([0, 3, 260]),
    st.sampled_from([0, 1, 255, 256, 40000, 65535]),
    st.sampled_from(["a", "\u00e9", "\u20ac", "\U0001f600", "\0"]),
    st.sampled_from([0, 255, 256, 70000]),
    g.klass(max_fields=2, max_methods=2, max_insns=5, extra=False))

case_pool = st.tuples(st.lists(g.any_const, min_size=1,
                               max_size=14).map(tuple), st.integers(0, 4))

PROPS = [
    Prop("read", case_read(), body_read, quick=2400, thorough=60000),
    Prop("big", case_big, body_big, quick=160, thorough=3000),
    Prop("pool", case_pool, body_pool, quick=3000, thorough=60000),
]
