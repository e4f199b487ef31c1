"""
C03: annotations are reported as they were written: their type, element
names and values, on classes, members and parameters; two annotations
are equal exactly when they mean the same, wherever their constants
are in the pool.
"""

import random

from hypothesis import strategies as st

from javatools import unpack_class

from vlib import gen_class as g
from vlib import classfile as cf
from vlib import near
from vlib.harness import Prop, Violation
from vlib.util import need, same, truth
from checks.C01 import relayout

RULE = ("annotation trees (all value kinds, nested annotations and arrays) "
        "are attached to classes, fields, methods and parameters, read back "
        "and compared with the model; pairs differing in one leaf are "
        "compared for equality across different pool layouts; non-trivial "
        "when some annotation has an element")


def check_val(got, want, cpool, what):
    tag, data = got
    same(tag, want[0], what + " tag")
    if tag in "BCDFIJSZ":
        need(cf.same_value(cpool.deref_const(data), cf.value(want[1])),
             "%s: got %r, expected %r", what, cpool.deref_const(data), want)
    elif tag in "sc":
        same(cpool.deref_const(data), want[1], what)
    elif tag == "e":
        same(tuple(cpool.deref_const(i) for i in data),
             (want[1], want[2]), what)
    elif tag == "@":
        check_anno(data, want[1], what + "@")
    else:
        same(len(data), len(want[1]), what + " array length")
        for n, (a, b) in enumerate(zip(data, want[1])):
            check_val(a, b, cpool, "%s[%d]" % (what, n))


def plain(v):
    """ dereferenced value of a model annotation value """
    if v[0] in "BCDFIJSZ":
        return cf.value(v[1])
    if v[0] in "sc":
        return v[1]
    if v[0] == "e":
        return (v[1], v[2])
    if v[0] == "@":
        return v
    return [plain(x) for x in v[1]]


def same_plain(got, want, what):
    if isinstance(want, list):
        same(len(got), len(want), what + " length")
        for a, b in zip(got, want):
            same_plain(a, b, what)
    elif isinstance(want, tuple) and want[0] == "@":
        check_anno(got, want[1], what)
    else:
        need(cf.same_value(got, want), "%s: got %r, expected %r", what, got,
             want)


def pretty_type(desc):
    dims = len(desc) - len(desc.lstrip("["))
    d = desc[dims:]
    names = {"B": "byte", "C": "char", "D": "double", "F": "float",
             "I": "int", "J": "long", "S": "short", "Z": "boolean",
             "V": "void"}
    return (names[d] if d in names else
            d[1:-1].replace("/", ".")) + "[]" * dims


def check_anno(got, want, what):
    typ, elems = want
    same(got.cpool.deref_const(got.type_ref), typ, what + " type")
    same(got.pretty_type(), pretty_type(typ), what + " pretty type")
    same(list(got.keys()), [n for n, _v in elems], what + " element names")
    for n, v in elems:
        check_val(got[n], v, got.cpool, "%s.%s" % (what, n))
    p = got.pretty_annotation()
    need(p.startswith(pretty_type(typ) + "(") and p.endswith(")"),
         "%s pretty annotation %r", what, p)
    pe = got.pretty_elements()
    same([e.split("=", 1)[0] for e in pe if "=" in e],
         [n.split("=", 1)[0] for n, _v in elems], what + " pretty elements")
    need(", ".join(pe) in p, "%s pretty annotation %r lacks %r", what, p, pe)


def check_annos(got, want, what):
    got = tuple(got)
    same(len(got), len(want), "number of " + what)
    for n, (a, b) in enumerate(zip(got, want)):
        check_anno(a, b, "%s %d" % (what, n))


def check_holder(obj, attrs, what):
    vis = cf.find_attr(attrs, "RuntimeVisibleAnnotations")
    inv = cf.find_attr(attrs, "RuntimeInvisibleAnnotations")
    for _twice in (0, 1):
        check_annos(obj.get_annotations(), vis[1] if vis else (),
                    what + " annotations")
        check_annos(obj.get_invisible_annotations(), inv[1] if inv else (),
                    what + " invisible annotations")


def elements(attrs):
    for a in attrs:
        if a[0] in cf.ANNO_ATTRS:
            yield from a[1]
        elif a[0] in cf.PARAM_ANNO_ATTRS:
            for x in a[1]:
                yield from x


def check_all(ci, cls, ctx):
    check_holder(ci, cls["attrs"], "class")
    hold = list(cls["attrs"])
    for obj, m in list(zip(ci.fields, cls["fields"])) + \
            list(zip(ci.methods, cls["methods"])):
        what = "member %r" % m["name"]
        check_holder(obj, m["attrs"], what)
        hold.extend(m["attrs"])
    for obj, m in zip(ci.methods, cls["methods"]):
        what = "method %r" % m["name"]
        for name, got in (
                (cf.PARAM_ANNO_ATTRS[0], obj.get_parameter_annotations()),
                (cf.PARAM_ANNO_ATTRS[1],
                 obj.get_invisible_parameter_annotations())):
            a = cf.find_attr(m["attrs"], name)
            want = a[1] if a else ()
            same(len(got), len(want), "%s parameters of %s" % (name, what))
            for i, (x, y) in enumerate(zip(got, want)):
                check_annos(x, y, "%s parameter %d" % (what, i))
            if a and any(a[1]):
                ctx.hit("parameter annotations")
        a = cf.find_attr(m["attrs"], "AnnotationDefault")
        got = obj.deref_annotationdefault()
        if a is None:
            same(got, None, what + " default")
            same(obj.get_annotationdefault(), None, what + " default")
        else:
            same_plain(got, plain(a[1]), what + " default")
            ctx.hit("default " + a[1][0])
    return hold


def body_read(case, ctx):
    cls, rnd = case
    order = relayout(cls, random.Random(rnd)) if rnd is not None else ()
    ci = unpack_class(cf.write_class(cls, order=order))
    hold = check_all(ci, cls, ctx)
    n = 0
    for _t, es in elements(hold):
        for _n, v in es:
            n += 1
            ctx.hit("value " + v[0])
    ctx.nontrivial_case(n)


@st.composite
def case_read(draw):
    def attrs(param=False):
        out = []
        for n in cf.ANNO_ATTRS:
            if draw(st.booleans()):
                out.append((n, draw(g.annos)))
        if param:
            for n in cf.PARAM_ANNO_ATTRS:
                if draw(st.booleans()):
                    out.append((n, tuple(draw(st.lists(
                        st.lists(g.anno, max_size=2).map(tuple),
                        max_size=3)))))
            if draw(st.booleans()):
                out.append(("AnnotationDefault", draw(g.anno_val)))
        return tuple(out)
    cls = {"major": 52, "minor": 0, "access": 1, "this": "T",
           "super": "java/lang/Object", "interfaces": (),
           "fields": ({"access": 1, "name": "f", "desc": "I",
                       "attrs": attrs()},),
           "methods": ({"access": 0x401, "name": "m", "desc": "(II)V",
                        "attrs": attrs(True)},),
           "attrs": attrs(), "extra": tuple(draw(st.lists(
               g.any_const, max_size=3)))}
    return cls, draw(st.one_of(st.none(), st.integers(0, 10**6)))


# ---------------------------------------------------------------------
# equality

def leaves(v, path=()):
    """ paths of the changeable places in an annotation """
    t, elems = v
    yield path + ("type",)
    for i, (n, val) in enumerate(elems):
        yield path + ("name", i)
        yield from val_leaves(val, path + ("val", i))
    yield path + ("add",)
    if elems:
        yield path + ("drop",)


def val_leaves(val, path):
    if val[0] == "@":
        yield from leaves(val[1], path + ("@",))
    elif val[0] == "[":
        for i, x in enumerate(val[1]):
            yield from val_leaves(x, path + ("[", i))
        yield path + ("len",)
        if len(val[1]) > 1 and val[1][0] != val[1][-1]:
            yield path + ("rev",)
    else:
        yield path + ("leaf",)


def edit_anno(a, path, rnd):
    t, elems = a
    h = path[0]
    if h == "type":
        return (near.desc(t, rnd), elems)
    if h == "add":
        return (t, elems + (("added element", ("I", ("Integer", 7))),))
    if h == "drop":
        return (t, elems[:-1])
    if h == "name":
        i = path[1]
        n = near.ident(elems[i][0], rnd)
        if n in [x[0] for x in elems]:
            n = elems[i][0] + "2x"
        return (t, elems[:i] + ((n, elems[i][1]),) + elems[i + 1:])
    i = path[1]
    return (t, elems[:i] + ((elems[i][0], edit_val(elems[i][1], path[2:],
                                                  rnd)),)
            + elems[i + 1:])


def edit_val(v, path, rnd):
    h = path[0]
    if h == "@":
        return ("@", edit_anno(v[1], path[1:], rnd))
    if h == "[":
        i = path[1]
        return ("[", v[1][:i] + (edit_val(v[1][i], path[2:], rnd),) +
                v[1][i + 1:])
    if h == "len":
        return ("[", v[1] + (("s", "more"),))
    if h == "rev":
        return ("[", v[1][::-1])
    t = v[0]
    if t in "BCISZ":
        # the tag alone, or the value
        if v[1][1] % 2:
            return ("BCISZ"["BCISZ".index(t) - 1], v[1])
        return (t, ("Integer", v[1][1] ^ 1))
    if t == "J":
        return (t, ("Long", v[1][1] ^ 1))
    if t in "FD":
        return (t, (v[1][0], edit_bits(v[1], rnd)))
    if t == "e":
        if rnd.random() < .5:
            return (t, v[1], near.text(v[2], rnd))
        return (t, near.desc(v[1], rnd), v[2])
    if t == "c":
        return (t, near.desc(v[1], rnd))
    return (t, near.text(v[1], rnd))


def edit_bits(c, rnd):
    nbits = 32 if c[0] == "Float" else 64
    top = 1 << (nbits - 1)
    if cf.value(c) == 0.0 or cf.value(c) != cf.value(c):
        # another number altogether; the signs of zero are further down
        return c[1] ^ top if cf.value(c) == 0.0 else 0
    return c[1] ^ rnd.choice([top, 1])


def canon(a):
    """ the annotation with float bits of NaN made one, order of the
    elements dropped """
    return (a[0], frozenset((n, canon_val(v)) for n, v in a[1]))


def canon_val(v):
    if v[0] == "@":
        return ("@", canon(v[1]))
    if v[0] == "[":
        return ("[", tuple(canon_val(x) for x in v[1]))
    if v[0] in "FD":
        x = cf.value(v[1])
        return (v[0], "nan" if x != x else v[1][1])
    return v


def one_class(a, order_seed, extra):
    cls = {"major": 52, "minor": 0, "access": 1, "this": "T",
           "super": "java/lang/Object", "interfaces": (), "fields": (),
           "methods": (), "attrs": (("RuntimeVisibleAnnotations", (a,)),),
           "extra": extra}
    order = relayout(cls, random.Random(order_seed))
    return unpack_class(cf.write_class(cls, order=order))


def body_eq(case, ctx):
    a, b, s1, s2, extra, perm = case
    left = one_class(a, s1, ()).get_annotations()[0]
    if perm:
        b = (b[0], b[1][::-1])
    right = one_class(b, s2, extra).get_annotations()[0]
    want = canon(a) == canon(b)
    ctx.hit("equal" if want else "different")
    ctx.nontrivial_case(len(a[1]))
    for x, y in ((left, right), (right, left)):
        truth(x == y, want, "annotations %r and %r are equal" % (a, b))
        truth(x != y, not want, "annotations %r and %r differ" % (a, b))
    need(left == left and not left != left, "annotation unlike itself")
    need(left != a and left != dict(left), "annotation like a mere dict")


@st.composite
def case_eq(draw):
    a = draw(g.anno)
    if draw(st.integers(0, 2)) == 0:
        b = a
    else:
        paths = list(leaves(a))
        b = edit_anno(a, draw(st.sampled_from(paths)),
                      random.Random(draw(st.integers(0, 10**6))))
    return (a, b, draw(st.integers(0, 999)), draw(st.integers(0, 999)),
            tuple(draw(st.lists(g.any_const, max_size=4))),
            draw(st.booleans()))


PROPS = [
    Prop("read", case_read(), body_read, quick=1600, thorough=50000),
    Prop("equality", case_eq(), body_eq, quick=3000, thorough=80000),
]
