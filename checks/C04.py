"""
C04: malformed class data is refused with the documented exceptions, and
the unpackers over bytes and streams are interchangeable.
"""

import io
import os
import struct

from hypothesis import strategies as st

import javatools
from javatools import (unpack_class, unpack_classfile, is_class,
                       is_class_file, UnpackException, ClassUnpackException,
                       Unimplemented, UnknownConstantPoolTagException)
from javatools import pack

from vlib import gen_class as g
from vlib import classfile as cf
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, write

RULE = ("valid class files are cut at every kind of place, given wrong "
        "magic, unknown constant tags, random byte edits and dangling "
        "references, attribute bodies are cut short; unpacker operation "
        "histories run on bytes, memoryview, stream and a model; non-trivial "
        "when the class has members, or the history has three operations or "
        "more")

MAGIC = b"\xca\xfe\xba\xbe"
DOCUMENTED = (UnpackException, ClassUnpackException, Unimplemented,
              UnknownConstantPoolTagException)


# a place in the data; as an integer, so that it is spread evenly
FRAC = trees.fraction


def outcome(fun, *args):
    try:
        return "ok", fun(*args)
    except DOCUMENTED as exc:
        return type(exc).__name__, exc


def sources(data):
    yield "bytes", lambda: unpack_class(data)
    yield "memoryview", lambda: unpack_class(memoryview(data))
    yield "stream", lambda: unpack_class(io.BytesIO(data))


def body_prefix(case, ctx):
    model, frac = case
    data = cf.write_class(model)
    cut = int(frac * len(data)) % len(data)
    ctx.nontrivial_case(bool(model["fields"] or model["methods"] or
                             model["attrs"]))
    ctx.hit("cut in the header" if cut < 10 else
            "cut in the last bytes" if cut > len(data) - 4 else
            "cut in the middle")
    part = data[:cut]
    for name, fun in sources(part):
        kind, _x = outcome(fun)
        same(kind, "UnpackException",
             "%s cut at %d of %d" % (name, cut, len(data)))
    with Scratch() as d:
        fn = write(os.path.join(d, "X"), part)
        kind, _x = outcome(unpack_classfile, fn)
        same(kind, "UnpackException", "file cut at %d" % cut)
        same(is_class_file(fn), cut >= 4, "is_class_file")
    same(is_class(part), cut >= 4, "is_class")


case_prefix = st.tuples(g.klass(max_insns=6), st.one_of(
    FRAC, FRAC, st.sampled_from([0.0, 0.99999, 0.999999])))


def body_magic(case, ctx):
    head, tail = case
    data = head + tail
    ok = data[:4] == MAGIC
    ctx.hit("right magic" if ok else "short" if len(data) < 4 else "wrong")
    ctx.nontrivial_case(len(data) >= 4)
    same(is_class(data), ok, "is_class")
    same(is_class(io.BytesIO(data)), ok, "is_class of a stream")
    with Scratch() as d:
        fn = write(os.path.join(d, "X"), data)
        same(is_class_file(fn), ok, "is_class_file")
    for name, fun in sources(data):
        kind, _x = outcome(fun)
        if len(data) < 4:
            same(kind, "UnpackException", name)
        elif not ok:
            same(kind, "ClassUnpackException", name)
    if len(data) >= 4 and not ok:
        for magic in (data[:4], tuple(data[:4])):
            kind, _x = outcome(lambda: unpack_class(data[4:], magic=magic))
            same(kind, "ClassUnpackException", "magic passed along")


@st.composite
def case_magic(draw):
    head = draw(st.one_of(
        st.binary(max_size=6),
        st.just(MAGIC),
        st.builds(lambda i, b: MAGIC[:i] + bytes([b]) + MAGIC[i + 1:],
                  st.integers(0, 3), st.integers(0, 255)),
        st.permutations(list(MAGIC)).map(bytes)))
    valid = cf.write_class({
        "major": 52, "minor": 0, "access": 1, "this": "T", "super": None,
        "interfaces": (), "fields": (), "methods": (), "attrs": (),
        "extra": ()})
    return head, draw(st.one_of(st.just(valid[4:]), st.binary(max_size=8)))


def body_tag(case, ctx):
    model, which, tag = case
    info = cf.Info()
    data = cf.write_class(model, info=info)
    # find the place of the tag of the chosen constant
    off = 10
    entries = info.pool.entries
    n = which % len(entries)
    for _i, c in entries[:n]:
        off += len(info.pool._entry(c))
    assert data[off] == cf.TAG[entries[n][1][0]]
    ctx.nontrivial_case(n > 0)
    bad = data[:off] + bytes([tag]) + data[off + 1:]
    for name, fun in sources(bad):
        kind, exc = outcome(fun)
        same(kind, "UnknownConstantPoolTagException",
             "%s, constant %d with tag %d" % (name, n + 1, tag))


UNKNOWN_TAGS = [t for t in range(256)
                if t not in cf.KIND and t not in (13,)]
case_tag = st.tuples(g.klass(max_fields=1, max_methods=1, max_insns=4),
                     st.integers(0, 200), st.sampled_from(UNKNOWN_TAGS))


def body_mutate(case, ctx):
    model, edits = case
    data = bytearray(cf.write_class(model))
    for where, val in edits:
        data[4 + int(where * (len(data) - 4))] = val
    data = bytes(data)
    ctx.nontrivial_case()
    kinds = []
    for name, fun in sources(data):
        kind, x = outcome(fun)      # anything undocumented escapes
        kinds.append(kind)
        if kind == "ok":
            need(isinstance(x, javatools.JavaClassInfo), "%s gave %r",
                 name, x)
    same(len(set(kinds)), 1, "outcomes over the sources %r" % kinds)
    ctx.hit("outcome " + kinds[0])


case_mutate = st.tuples(
    g.klass(max_fields=2, max_methods=2, max_insns=5),
    st.lists(st.tuples(FRAC, st.one_of(
        st.sampled_from([0, 1, 255]), st.integers(0, 255))),
        min_size=1, max_size=4))


# ---------------------------------------------------------------------
# attributes named by constants which are none

def name_const(kind, refs):
    p = struct.pack
    if kind in ("Integer", "Float"):
        return bytes([cf.TAG[kind]]) + p(">HH", *refs)
    if kind in ("Class", "String", "MethodType", "Module", "Package"):
        return bytes([cf.TAG[kind]]) + p(">H", refs[0])
    if kind == "MethodHandle":
        return bytes([cf.TAG[kind], 1]) + p(">H", refs[0])
    if kind in ("Long", "Double"):
        return bytes([cf.TAG[kind]]) + p(">HHHH", 0, 0, *refs)
    if kind == "Utf8":
        return bytes([1]) + p(">H", 1) + b"a"
    return bytes([cf.TAG[kind]]) + p(">HH", *refs)


def body_nameref(case, ctx):
    kinds, refs, name, where = case
    consts, index = b"", 1
    at = {}
    for k, r in zip(kinds, refs):
        at[index] = k, r
        consts += name_const(k, r)
        index += 2 if k in ("Long", "Double") else 1
    p = struct.pack
    none = p(">H", 0)
    attr = p(">HHI", 1, name, 0)
    member = p(">HHHH", 1, 1, 1, 1) + attr
    body = {"class": none * 3 + attr,
            "field": none + member + none * 2,
            "method": none * 2 + member + none}[where]
    data = MAGIC + p(">HHH", 0, 52, index) + consts + p(">HHH", 1, 1, 0) + \
        body

    def good(i, seen=()):
        """ whether it says anything """
        if i not in at or i in seen:
            return False
        k, r = at[i]
        seen = seen + (i,)
        if k in ("Utf8", "Integer", "Float", "Long", "Double"):
            return True
        if k in ("Class", "String", "MethodType", "Module", "Package",
                 "MethodHandle"):
            return good(r[0], seen)
        if k in ("InvokeDynamic", "Dynamic"):
            return good(r[1], seen)
        return good(r[0], seen) and good(r[1], seen)

    ok = good(name)
    ctx.nontrivial_case(not ok and name in at)
    ctx.hit("readable" if ok else "circular or gone" if name in at else
            "no such constant")
    for source, fun in sources(data):
        kind, _x = outcome(fun)
        need((kind == "ok") == ok, "%s: %s", source, kind)


case_nameref = st.integers(1, 6).flatmap(lambda n: st.tuples(
    st.lists(st.sampled_from(sorted(cf.TAG)), min_size=n, max_size=n),
    st.lists(st.tuples(st.integers(0, n + 1), st.integers(0, n + 1)),
             min_size=n, max_size=n),
    st.integers(0, n + 2), st.sampled_from(["class", "field", "method"])))


# ---------------------------------------------------------------------
# attribute bodies cut short

def accessor(a):
    return {
        "Code": lambda o: o.get_code(),
        "Exceptions": lambda o: o.get_exceptions(),
        "ConstantValue": lambda o: o.get_constantvalue(),
        "Signature": lambda o: o.get_signature(),
        "SourceFile": lambda o: o.get_sourcefile(),
        "InnerClasses": lambda o: o.get_innerclasses(),
        "EnclosingMethod": lambda o: o.get_enclosingmethod(),
        "RuntimeVisibleAnnotations": lambda o: o.get_annotations(),
        "RuntimeInvisibleAnnotations":
            lambda o: o.get_invisible_annotations(),
        "RuntimeVisibleParameterAnnotations":
            lambda o: o.get_parameter_annotations(),
        "RuntimeInvisibleParameterAnnotations":
            lambda o: o.get_invisible_parameter_annotations(),
        "LineNumberTable": lambda o: o.get_linenumbertable(),
        "LocalVariableTable": lambda o: o.get_localvariabletable(),
        "LocalVariableTypeTable": lambda o: o.get_localvariabletypetable(),
        "AnnotationDefault": lambda o: o.get_annotationdefault(),
    }.get(a)


def all_attrs(model):
    for a in model["attrs"]:
        yield ("class",), a
    for kind in ("fields", "methods"):
        for i, m in enumerate(model[kind]):
            for a in m["attrs"]:
                yield (kind, i), a
                if a[0] == "Code":
                    for b in a[1]["attrs"]:
                        yield (kind, i, "code"), b


def body_cutattr(case, ctx):
    model, which, frac = case
    choice = [(p, a) for p, a in all_attrs(model) if accessor(a[0])]
    if not choice:
        return
    path, a = choice[which % len(choice)]
    # the body this attribute has in place, from an untouched writing
    info = cf.Info()
    cf.write_class(model, info=info)
    body = cf.write_attr(a, info.pool, info)[6:]
    cut = int(frac * len(body))
    if cut >= len(body):
        return
    raw = ("Raw", a[0], body[:cut])

    def swap(attrs):
        return tuple(raw if x is a else x for x in attrs)
    new = dict(model)
    order = cf.pool_order(model)
    if path[0] == "class":
        new["attrs"] = swap(model["attrs"])
    else:
        m = dict(model[path[0]][path[1]])
        if len(path) == 3:
            m["attrs"] = tuple(
                ("Code", dict(x[1], attrs=swap(x[1]["attrs"])))
                if x[0] == "Code" else x for x in m["attrs"])
        else:
            m["attrs"] = swap(m["attrs"])
        ms = list(model[path[0]])
        ms[path[1]] = m
        new[path[0]] = tuple(ms)
    ci = unpack_class(cf.write_class(new, order=order))
    if path[0] == "class":
        obj = ci
    else:
        obj = getattr(ci, path[0])[path[1]]
        if len(path) == 3:
            obj = obj.get_code()
    same(bytes(obj.get_attribute(a[0])), body[:cut], "attribute bytes")
    kind, got = outcome(accessor(a[0]), obj)
    same(kind, "UnpackException",
         "%s cut at %d of %d (gave %r)" % (a[0], cut, len(body), got))
    ctx.hit("cut " + a[0])
    ctx.nontrivial_case(cut > 0)


case_cutattr = st.tuples(g.klass(max_fields=2, max_methods=2, max_insns=5),
                         st.integers(0, 60), FRAC)


# ---------------------------------------------------------------------
# values of annotations of any kind, known or not

class Refused(Exception):
    pass


def read_value(data, i):
    """ (the value, as javatools has it, the place after it) """
    def u2(k):
        if k + 2 > len(data):
            raise Refused("UnpackException")
        return data[k] * 256 + data[k + 1]

    if i >= len(data):
        raise Refused("UnpackException")
    t = chr(data[i])
    i += 1
    if t in "BCDFIJSZsc":
        return (t, u2(i)), i + 2
    if t == "e":
        if i + 4 > len(data):
            raise Refused("UnpackException")
        return (t, (u2(i), u2(i + 2))), i + 4
    if t == "[":
        n, i, out = u2(i), i + 2, []
        for _n in range(n):
            v, i = read_value(data, i)
            out.append(v)
        return (t, out), i
    if t == "@":
        v, i = read_anno(data, i)
        return (t, v), i
    raise Refused("Unimplemented")


def read_anno(data, i):
    if i + 4 > len(data):
        raise Refused("UnpackException")
    kind, n, i = data[i:i + 2], data[i + 2] * 256 + data[i + 3], i + 4
    out = []
    for _n in range(n):
        if i + 2 > len(data):
            raise Refused("UnpackException")
        v, i = read_value(data, i + 2)
        out.append(v)
    return (kind, out), i


def plain_value(v):
    tag, data = v
    if tag == "@":
        data = (struct.pack(">H", data.type_ref),
                [plain_value(x) for _k, x in data.items()])
    elif tag == "[":
        data = [plain_value(x) for x in data]
    return tag, data


TAGS = b"BCDFIJSZsec@["
p16 = struct.Struct(">H").pack


@st.composite
def value_bytes(draw, depth=3):
    t = draw(st.one_of(
        st.sampled_from(TAGS), st.sampled_from(b"[@" if depth else TAGS),
        st.sampled_from(b"AbSZz]\0 ?\xff")))
    c = chr(t)
    if c == "e":
        return b"e" + p16(3) + p16(3)
    if c == "[" and depth:
        vs = draw(st.lists(value_bytes(depth - 1), max_size=3))
        return b"[" + p16(len(vs)) + b"".join(vs)
    if c == "@" and depth:
        vs = draw(st.lists(value_bytes(depth - 1), max_size=2))
        return b"@" + p16(3) + p16(len(vs)) + b"".join(
            p16(6 + i) + v for i, v in enumerate(vs))
    return bytes([t]) + p16(draw(st.sampled_from([3, 3, 3, 0])))


def body_values(case, ctx):
    value, where, cut = case
    value = value[:len(value) - cut]
    # 1, 3, 6 to 9: texts.  5: the class
    if where == "AnnotationDefault":
        raw = value
    else:
        raw = p16(1) + p16(3) + p16(1) + p16(6) + value
        if "Parameter" in where:
            raw = b"\x01" + raw
    consts = b"".join(b"\x01" + p16(len(x)) + x for x in
                      (where.encode(), b"A", b"LT;")) + \
        b"\x07" + p16(2) + b"\x03\0\0\0\1" + \
        b"".join(b"\x01\0\1" + x for x in (b"a", b"b", b"c"))
    attr = p16(1) + p16(1) + struct.pack(">I", len(raw)) + raw
    data = MAGIC + struct.pack(">HHH", 0, 52, 9) + consts + \
        p16(0x21) + p16(4) + p16(0) + p16(0) + p16(0) + \
        p16(1) + p16(1) + p16(6) + p16(2) + attr + p16(0)
    ci = unpack_class(data)
    kind, got = outcome(accessor(where), ci.methods[0])
    try:
        want, _end = read_value(value, 0)
    except Refused as exc:
        same(kind, str(exc), "outcome for %r" % value)
        ctx.hit(kind)
        ctx.nontrivial_case(len(value) > 3)
        return
    same(kind, "ok", "outcome for %r" % value)
    if where != "AnnotationDefault":
        if "Parameter" in where:
            got, = got
        got, = got
        (key, got), = got.items()
        same(key, "a", "key")
    same(plain_value(got), want, "value of %r" % value)
    ctx.hit("readable")


case_values = st.tuples(
    value_bytes(), st.sampled_from(
        ["AnnotationDefault", "RuntimeVisibleAnnotations",
         "RuntimeInvisibleParameterAnnotations"]),
    st.sampled_from([0, 0, 0, 1, 2, 3]))


# ---------------------------------------------------------------------
# the unpackers

FMTS = [">B", ">H", ">HH", ">I", ">BH", ">q", ">BBBB", ">HHI", ">b", ">i",
        ">d"]


class Model(object):
    def __init__(self, data):
        self.data, self.off = data, 0

    def take(self, n):
        left = len(self.data) - self.off
        if left < n:
            raise Short(n, left)
        self.off += n
        return self.data[self.off - n:self.off]

    def unpack(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))


class Short(Exception):
    pass


class Obj(object):
    def __init__(self, fmt, extra=None):
        self.fmt, self.extra, self.val = fmt, extra, None

    def unpack(self, up):
        self.val = up.unpack(self.fmt)


def step(up, op, real):
    """ one operation; array operations give a list """
    what, arg = op
    if what == "unpack":
        return up.unpack(arg)
    if what == "struct":
        return up.unpack_struct(pack.compile_struct(arg)) if real \
            else up.unpack(arg)
    if what == "read":
        return bytes(up.read(arg)) if real else up.take(arg)
    out = []
    if not real:
        n, = up.unpack(">H")
        for _ in range(n):
            out.append(up.unpack(arg))
    elif what == "array":
        out.extend(up.unpack_array(arg))
    elif what == "struct_array":
        out.extend(up.unpack_struct_array(pack.compile_struct(arg)))
    else:
        out.extend(o.val for o in up.unpack_objects(Obj, arg, extra=3))
    return out


def body_unpackers(case, ctx):
    data, ops = case
    ctx.nontrivial_case(len(ops) >= 3)
    ups = [("bytes", pack.unpack(data)),
           ("memoryview", pack.unpack(memoryview(data))),
           ("offset", pack.BufferUnpacker(b"zzz" + data, 3)),
           ("stream", pack.unpack(io.BytesIO(data)))]
    model = Model(data)
    done = 0
    for op in ops:
        try:
            want = step(model, op, False)
            short = None
        except Short as exc:
            short = exc.args
        for name, up in ups:
            try:
                got = step(up, op, True)
            except UnpackException as exc:
                need(short is not None, "%s: %r fails (%s)", name, op, exc)
                same((exc.bytes_wanted, exc.bytes_present), short,
                     "%s: %r wanted and present" % (name, op))
            else:
                need(short is None, "%s: %r gives %r past the end", name, op,
                     got)
                need(repr(got) == repr(want), "%s: %r gives %r, not %r",
                     name, op, got, want)
        if short is not None:
            ctx.hit("ran out of data")
            break
        done += 1
        ctx.hit("op " + op[0])
    for name, up in ups:
        up.close()
        try:
            up.unpack(">B")
        except UnpackException:
            pass
        else:
            raise Violation("%s unpacks after close" % name)


def _ops():
    return st.lists(st.one_of(
        st.tuples(st.sampled_from(["unpack", "struct", "array",
                                   "struct_array", "objects"]),
                  st.sampled_from(FMTS)),
        st.tuples(st.just("read"), st.integers(0, 9))), min_size=1,
        max_size=8)


case_unpackers = st.tuples(
    st.lists(st.one_of(st.just(b"\0\1"), st.just(b"\0\2"), st.just(b"\0\0"),
                       st.binary(max_size=8)), max_size=14).map(b"".join),
    _ops())


def body_bad_source(case, ctx):
    ctx.nontrivial_case()
    x, = case
    try:
        pack.unpack(x)
    except TypeError:
        return
    raise Violation("unpack(%r) is accepted" % (x,))


PROPS = [
    Prop("prefix", case_prefix, body_prefix, quick=1200, thorough=40000),
    Prop("magic", case_magic(), body_magic, quick=800, thorough=20000),
    Prop("tag", case_tag, body_tag, quick=500, thorough=20000),
    Prop("mutate", case_mutate, body_mutate, quick=1600, thorough=60000),
    Prop("attribute names", case_nameref, body_nameref, quick=1200,
         thorough=30000),
    Prop("cut attribute", case_cutattr, body_cutattr, quick=1400,
         thorough=40000),
    Prop("annotation values", case_values, body_values, quick=1200,
         thorough=30000),
    Prop("unpackers", case_unpackers, body_unpackers, quick=3000,
         thorough=80000),
    Prop("source type", st.tuples(st.one_of(
        st.none(), st.integers(), st.text(max_size=3), st.just([1]))),
        body_bad_source, quick=40, thorough=100),
]
