"""
C05: types, names and constants in readable form: what the pretty forms
say is what the descriptors, flags and constants mean.
"""

import ast
import itertools
import signal

from hypothesis import strategies as st

import javatools
from javatools import unpack_class, platform_from_version, Unimplemented

from vlib import gen_class as g
from vlib import classfile as cf
from vlib.harness import Prop, Enum, Violation
from vlib.util import need, same, truth
from checks.C01 import split_desc

RULE = ("descriptors, flag words, class names and constants of every kind "
        "are generated, put in a class file, and the readable forms compared "
        "with a reference formatter; platform names are compared for every "
        "version boundary; non-trivial when a member has an array or class "
        "type or arguments, or a constant refers to others")

BASE = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int",
        "J": "long", "S": "short", "Z": "boolean", "V": "void"}


def ptype(desc):
    dims = len(desc) - len(desc.lstrip("["))
    d = desc[dims:]
    return (BASE.get(d) or d[1:-1].replace("/", ".")) + "[]" * dims


def pclass(n):
    return n.replace("/", ".")


CLASS_WORDS = ((1, "public"), (0x10, "final"), (0x400, "abstract"),
               (0x4000, "enum"))
COMMON_WORDS = ((1, "public"), (2, "private"), (4, "protected"),
                (8, "static"), (0x10, "final"), (0x800, "strict"),
                (0x100, "native"), (0x400, "abstract"), (0x4000, "enum"),
                (0x8000, "module"))
METHOD_WORDS = ((0x20, "synchronized"),)
FIELD_WORDS = ((0x80, "transient"), (0x40, "volatile"))


def words(flags, *tables):
    return sorted(w for t in tables for m, w in t if flags & m)


def check_member(m, model, is_method):
    what = "%r %s" % (model["name"], model["desc"])
    args, ret = split_desc(model["desc"])
    flags = list(m.pretty_access_flags())
    acc = model["access"]
    want = words(acc, COMMON_WORDS, METHOD_WORDS if is_method
                 else FIELD_WORDS)
    same(sorted(flags), want, "flags of " + what)
    if is_method:
        extra = words(acc, ((0x40, "bridge"), (0x80, "varargs")))
    else:
        extra = []
    if acc & 0x1000 or cf.find_attr(model["attrs"], "Synthetic"):
        extra = extra + ["synthetic"]
    same(sorted(m.pretty_access_flags(showall=True)), sorted(want + extra),
         "all flags of " + what)

    same(m.pretty_type(), ptype(ret), "type of " + what)
    pargs = [ptype(a) for a in args or ()]
    same(list(m.pretty_arg_types()), pargs, "argument types of " + what)
    exc = cf.find_attr(model["attrs"], "Exceptions")
    exc = [pclass(e) for e in exc[1]] if exc else []
    same(list(m.pretty_exceptions()), exc, "exceptions of " + what)

    name = model["name"]
    if is_method:
        sig = "%s(%s)" % (name, ",".join(pargs))
        same(m.pretty_identifier(), "%s:%s" % (sig, ptype(ret)),
             "identifier of " + what)
    else:
        sig = name
        same(m.pretty_identifier(), "%s:%s" % (name, ptype(ret)),
             "identifier of " + what)
    p = list(flags)
    if name != "<init>":
        p.append(ptype(ret))
    p.append(sig)
    if exc:
        p.append("throws " + ",".join(exc))
    same(m.pretty_descriptor(), " ".join(p), "descriptor of " + what)


def body_members(case, ctx):
    fields, methods = case
    cls = {"major": 50, "minor": 0, "access": 1, "this": "a/T",
           "super": "java/lang/Object", "interfaces": (), "fields": fields,
           "methods": methods, "attrs": (), "extra": ()}
    ci = unpack_class(cf.write_class(cls))
    for m, model in zip(ci.fields, fields):
        check_member(m, model, False)
        ctx.nontrivial_case(model["desc"][0] in "[L")
    for m, model in zip(ci.methods, methods):
        check_member(m, model, True)
        ctx.nontrivial_case("()" not in model["desc"])
    # members which differ in name or argument types are told apart
    for kind in (ci.fields, ci.methods):
        ids = {}
        for m in kind:
            key = (m.get_name(), tuple(m.get_arg_type_descriptors()))
            if m.access_flags & 0x40 and m.is_method:
                key += (m.get_type_descriptor(),)
            ids.setdefault(m.get_identifier(), set()).add(key)
        for i, keys in ids.items():
            same(len(keys), 1, "members identified by %r: %r" % (i, keys))
        for m in kind:
            same([x for x in kind if x.get_identifier() == m.get_identifier()
                  and x.get_descriptor() == m.get_descriptor()][0]
                 .get_name(), m.get_name(), "identifier")


@st.composite
def plain_member(draw, is_method):
    attrs = []
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("Synthetic",))
    if is_method and draw(st.booleans()):
        attrs.append(("Exceptions", tuple(draw(st.lists(
            g.safe_class, max_size=3)))))
    return {"access": draw(g.flags(g.METHOD_FLAGS + [0x4000, 0x8000]
                                   if is_method else
                                   g.FIELD_FLAGS + [0x8000])),
            "name": draw(st.one_of(g.ident, st.sampled_from(
                ["<init>", "<clinit>"])) if is_method else g.ident),
            "desc": draw(g.method_desc() if is_method else g.field_desc),
            "attrs": tuple(attrs)}


@st.composite
def methods(draw):
    """ some may have overloads, and bridges to other types """
    out = draw(st.lists(plain_member(True), min_size=1, max_size=4))
    for _ in range(draw(st.integers(0, 3))):
        m = draw(st.sampled_from(out))
        args, ret = split_desc(m["desc"])
        how = draw(st.integers(0, 2))
        if how:
            ret = draw(g.field_desc)
        else:
            args = draw(st.permutations(list(args) + ["I"]))
        out.append(dict(
            m, access=m["access"] | 0x40 if how == 1 else m["access"],
            desc="(%s)%s" % ("".join(args), ret)))
    return tuple({(m["name"], m["desc"]): m for m in out}.values())


case_members = st.tuples(
    st.lists(plain_member(False), max_size=3).map(tuple), methods())


def body_class(case, ctx):
    acc, this, sup, ifs, version = case
    cls = {"major": version[0], "minor": version[1], "access": acc,
           "this": this, "super": sup, "interfaces": ifs, "fields": (),
           "methods": (), "attrs": (), "extra": ()}
    ci = unpack_class(cf.write_class(cls))
    ctx.nontrivial_case("/" in this or ifs)
    same(ci.pretty_this(), pclass(this), "pretty this")
    same(ci.pretty_super(), pclass(sup or ""), "pretty super")
    pifs = [pclass(i) for i in ifs]
    same(list(ci.pretty_interfaces()), pifs, "pretty interfaces")
    flags = list(ci.pretty_access_flags())
    want = words(acc, CLASS_WORDS)
    if acc & 0x200:
        want = sorted(want + ["@interface" if acc & 0x2000 else "interface"])
    same(sorted(flags), want, "class flags %#x" % acc)
    d = ci.pretty_descriptor()
    want = " ".join(flags)
    if not acc & 0x200:
        want += " class"
    want += " %s extends %s" % (pclass(this), pclass(sup or ""))
    if pifs:
        want += " implements " + ",".join(pifs)
    same(d, want, "class descriptor")
    same(ci.get_platform(), platform(*version), "platform")


PLATFORM = {46: "1.2", 47: "1.3", 48: "1.4", 49: "1.5", 50: "1.6",
            51: "1.7", 52: "1.8"}


def platform(major, minor):
    if major == 45:
        return "1.0.2" if minor <= 3 else "1.1"
    return PLATFORM.get(major)


case_class = st.tuples(
    g.flags(g.CLASS_FLAGS), g.any_class,
    st.one_of(st.none(), g.safe_class),
    st.lists(g.safe_class, max_size=3, unique=True).map(tuple),
    st.tuples(st.integers(43, 54), st.sampled_from([0, 1, 3, 4, 65535])))


def body_platform(case, ctx):
    major, minor = case
    ctx.nontrivial_case()
    # versions later than those known here may be given a name by a
    # later table
    if major > 52:
        return
    same(platform_from_version(major, minor), platform(major, minor),
         "platform of %d.%d" % case)


def cases_platform():
    return itertools.product(range(0, 56),
                             [0, 1, 2, 3, 4, 5, 100, 65534, 65535])


# ---------------------------------------------------------------------

PRETTY_KIND = {
    "Utf8": "Utf8", "Integer": "int", "Float": "float", "Long": "long",
    "Double": "double", "Class": "class", "String": "String",
    "Fieldref": "Field", "Methodref": "Method",
    "InterfaceMethodref": "InterfaceMethod", "NameAndType": "NameAndType",
    "MethodHandle": "MethodHandle", "MethodType": "MethodType",
    "InvokeDynamic": "InvokeDynamic", "Dynamic": "Dynamic",
    "Module": "Module", "Package": "Package"}


def psig(desc):
    args, ret = split_desc(desc)
    if args is None:
        return ptype(desc)
    return "(%s)%s" % (",".join(ptype(a) for a in args), ptype(ret))


def check_deref(got, c, what):
    k = c[0]
    if k in ("Utf8", "String", "Integer", "Long", "Float", "Double"):
        need(cf.same_value(got, cf.value(c)), "%s: got %r, expected %r",
             what, got, c)
    elif k == "Class":
        same(got, pclass(c[1]), what)
    elif k == "Fieldref":
        same(got, "%s.%s:%s" % (pclass(c[1]), c[2], ptype(c[3])), what)
    elif k in ("Methodref", "InterfaceMethodref"):
        args, ret = split_desc(c[3])
        same(got, "%s.%s(%s):%s" % (pclass(c[1]), c[2],
                                    ",".join(map(ptype, args)), ptype(ret)),
             what)
    elif k == "NameAndType":
        same(got, "%s:%s" % (c[1], psig(c[2])), what)
    elif k in ("Module", "Package"):
        need(c[1] in got or pclass(c[1]) in got, "%s: %r lacks %r", what,
             got, c[1])
    elif k == "MethodType":
        need(c[1] in got or psig(c[1]) in got, "%s: %r lacks %r", what, got,
             c[1])
    else:
        need(isinstance(got, str) and got, "%s: got %r", what, got)
        ref = c[2][1:] if k == "MethodHandle" else c[2:]
        nums = "".join(x if x.isdigit() else " " for x in got).split()
        need(str(c[1]) in nums, "%s: %r lacks %r", what, got, c[1])
        for x in ref:
            need(any(f in got or repr(f)[1:-1] in got
                     for f in (x, pclass(x)) +
                     ((psig(x),) if x is ref[-1] else ())),
                 "%s: %r lacks %r", what, got, x)


def unquote(val):
    for q in "'\"":
        try:
            return ast.literal_eval(q + val + q)
        except (SyntaxError, ValueError):
            continue
    return None


def check_pretty(got, c, pool, what):
    t, v = got
    k = c[0]
    same(t, PRETTY_KIND[k], what + " type")
    if k == "Utf8":
        same(unquote(v), c[1], what)
    elif k == "Integer":
        same(int(v), c[1], what)
    elif k == "Long":
        need(v[-1] == "l" and int(v[:-1]) == c[1], "%s: %r", what, v)
    elif k in ("Float", "Double"):
        need(v == "%f%s" % (cf.value(c), k[0].lower()), "%s: %r", what, v)
    else:
        nums = [int("".join(n)) for d, n in itertools.groupby(
            str(v), str.isdigit) if d]
        want = [pool.index[x] for x in cf.parts(c)]
        if k in ("Dynamic", "InvokeDynamic", "MethodHandle"):
            want.insert(0, c[1])
        same(nums, want, what + " references in %r" % (v,))


def body_consts(case, ctx):
    consts, = case
    cls = {"major": 55, "minor": 0, "access": 1, "this": "T",
           "super": None, "interfaces": (), "fields": (), "methods": (),
           "attrs": (), "extra": consts}
    info = cf.Info()
    ci = unpack_class(cf.write_class(cls, info=info))
    want = dict(info.pool.entries)
    got = list(ci.cpool.pretty_constants())
    same([x[0] for x in got], sorted(want), "indices")
    for i, t, v in got:
        c = want[i]
        what = "constant %r" % (c,)
        ctx.hit(c[0])
        ctx.nontrivial_case(cf.parts(c))
        check_pretty((t, v), c, info.pool, what)
        same(tuple(ci.cpool.pretty_const(i)), (t, v), what)
        check_deref(ci.cpool.pretty_deref_const(i), c, what)
        if c[0] in ("Long", "Double"):
            same(tuple(ci.cpool.pretty_const(i + 1)), (None, None),
                 "second slot")
            same(ci.cpool.pretty_deref_const(i + 1), "", "second slot")


case_consts = st.tuples(st.lists(g.any_const, min_size=1,
                                 max_size=8).map(tuple))


# ---------------------------------------------------------------------

def body_malformed(case, ctx):
    """ garbage for a descriptor ends in an answer or an error """
    desc, = case
    cls = {"major": 50, "minor": 0, "access": 1, "this": "T",
           "super": None, "interfaces": (),
           "fields": ({"access": 1, "name": "f", "desc": desc,
                       "attrs": ()},),
           "methods": ({"access": 1, "name": "m", "desc": "(%s)V" % desc,
                        "attrs": ()},),
           "attrs": (), "extra": ()}
    ci = unpack_class(cf.write_class(cls))

    def late(*_a):
        raise Violation("no answer for descriptor %r" % desc)
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(20)
    ctx.nontrivial_case(len(desc) > 1)
    try:
        for fun in (ci.fields[0].get_type_descriptor,
                    ci.fields[0].pretty_type,
                    ci.methods[0].get_arg_type_descriptors,
                    ci.methods[0].pretty_descriptor):
            try:
                fun()
                ctx.hit("answer")
            except (Unimplemented, IndexError):
                ctx.hit("error")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


case_malformed = st.tuples(st.text(st.sampled_from("[LI;(.)aJV/"),
                                   max_size=7))

PROPS = [
    Enum("platform", cases_platform, body_platform),
    Prop("members", case_members, body_members, quick=2400, thorough=60000),
    Prop("class", case_class, body_class, quick=1200, thorough=30000),
    Prop("constants", case_consts, body_consts, quick=3000, thorough=60000),
    Prop("malformed descriptors", case_malformed, body_malformed, quick=1200,
         thorough=30000),
]
