"""
Hypothesis strategies for class models (see classfile.py).
"""

from hypothesis import strategies as st

from . import bytecode as bc

PLAIN_IDS = ["a", "b", "c", "foo", "bar", "Foo", "x1", "value", "$s", "_u",
             "run", "get"]
ODD_IDS = ["\u00e9t\u00e9", "\u540d\u524d", "na\u00efve", "\U0001d4b3y",
           "x\u0000y", "o\u0300k", "\u00ff", "a-b", "with space", "\u2028z"]

ident = st.one_of(
    st.sampled_from(PLAIN_IDS),
    st.sampled_from(PLAIN_IDS),
    st.sampled_from(ODD_IDS),
    st.text(st.sampled_from("abcXYZ01$_\u00e9\u03a9"), min_size=1,
            max_size=6))

pkg = st.sampled_from(["", "", "java/lang/", "a/b/", "a/" * 12, "org/exa/mple/",
                       "p/"])
class_name = st.builds(lambda a, b: a + b, pkg, ident)
inner_name = st.builds(lambda a, b, c: a + b + "$" + c, pkg, ident, ident)
any_class = st.one_of(class_name, class_name, inner_name)
safe_class = st.one_of(
    st.sampled_from(["java/lang/Object", "java/lang/String", "a/b/Foo",
                     "Top", "p/Q$R", "a$/b", "a/b$$", "$/$"]), any_class)

base_type = st.sampled_from(list("BCDFIJSZ"))
field_desc = st.recursive(
    st.one_of(base_type, safe_class.map(lambda c: "L%s;" % c)),
    lambda t: t.map(lambda d: "[" + d), max_leaves=3)


# (a strategy of lists of names, see flatten)
more_classes = safe_class.map(
    lambda c: tuple("%s%d" % (c, n) for n in range(11)))


def flatten(names):
    """ names and tuples of names, as one tuple of different ones """
    out = []
    for n in names:
        out.extend(n if isinstance(n, tuple) else [n])
    return tuple(dict.fromkeys(out))


def maybe_many(some, times):
    """ the same list many times over, seldom """
    return st.tuples(some, st.integers(0, 15)).map(
        lambda x: x[0] * times if x[1] == 15 else x[0])


@st.composite
def method_desc(draw):
    args = draw(maybe_many(st.lists(field_desc, max_size=4), 10))
    ret = draw(st.one_of(st.just("V"), field_desc))
    return "(%s)%s" % ("".join(args), ret)


text = st.one_of(
    st.sampled_from(["", "hello", "x", "a b", "\u00e9", "\0", "a\0b",
                     "\U0001f600 smile", "tab\there", "nl\nhere",
                     "\u0000\U00010000", "<&>\"'", "% %s %d", "\u07ff\u0800"]),
    st.text(st.characters(blacklist_categories=("Cs",)), max_size=12),
    # surrogates without the other of their pair
    st.text("a\0\u00e9\ud800\udbff\udc00\udfff\U00010000", max_size=4).map(
        lambda t: t.encode("utf-16", "surrogatepass").decode(
            "utf-16", "surrogatepass")))

i32 = st.one_of(st.sampled_from([0, 1, -1, 2**31 - 1, -2**31, 42]),
                st.integers(-2**31, 2**31 - 1))
i64 = st.one_of(st.sampled_from([0, 1, -1, 2**63 - 1, -2**63, 2**40]),
                st.integers(-2**63, 2**63 - 1))
f32 = st.one_of(st.sampled_from([0, 0x80000000, 0x3f800000, 0x7f800000,
                                 0xff800000, 0x7fc00000, 0x40490fdb, 1]),
                st.integers(0, 2**32 - 1))
f64 = st.one_of(st.sampled_from([0, 1 << 63, 0x3ff0000000000000,
                                 0x7ff0000000000000, 0xfff0000000000000,
                                 0x7ff8000000000000, 1,
                                 0x400921fb54442d18]),
                st.integers(0, 2**64 - 1))

c_int = st.tuples(st.just("Integer"), i32)
c_float = st.tuples(st.just("Float"), f32)
c_long = st.tuples(st.just("Long"), i64)
c_double = st.tuples(st.just("Double"), f64)
c_string = st.tuples(st.just("String"), text)
c_class = st.tuples(st.just("Class"), st.one_of(
    safe_class, safe_class,
    field_desc.map(lambda d: "[" + d)))
c_field = st.tuples(st.just("Fieldref"), safe_class, ident, field_desc)
c_meth = st.tuples(st.just("Methodref"),
                   safe_class, st.one_of(ident, st.just("<init>")),
                   method_desc())
c_imeth = st.tuples(st.just("InterfaceMethodref"), safe_class, ident,
                    method_desc())
c_mtype = st.tuples(st.just("MethodType"), method_desc())
c_mhandle = st.one_of(
    st.tuples(st.just("MethodHandle"), st.sampled_from([1, 2, 3, 4]),
              c_field),
    st.tuples(st.just("MethodHandle"), st.sampled_from([5, 6, 7, 8]),
              c_meth),
    st.tuples(st.just("MethodHandle"), st.just(9), c_imeth))
bootstrap = st.sampled_from([0, 1, 2, 3, 255, 256, 65535])
c_indy = st.tuples(st.just("InvokeDynamic"), bootstrap, ident,
                   method_desc())
c_dyn = st.tuples(st.just("Dynamic"), bootstrap, ident, field_desc)
c_module = st.tuples(st.just("Module"), st.sampled_from(
    ["java.base", "m", "org.x.y"]))
c_package = st.tuples(st.just("Package"), st.sampled_from(
    ["java/lang", "p", "org/x"]))
c_utf8 = st.tuples(st.just("Utf8"), text)
c_nat = st.one_of(st.tuples(st.just("NameAndType"), ident, field_desc),
                  st.tuples(st.just("NameAndType"), ident, method_desc()))

any_const = st.one_of(c_int, c_float, c_long, c_double, c_string, c_class,
                      c_field, c_meth, c_imeth, c_mtype, c_mhandle, c_indy,
                      c_dyn, c_module, c_package, c_utf8, c_nat)

ldc_const = st.one_of(c_int, c_float, c_string, c_class, c_mtype)
ldc2_const = st.one_of(c_long, c_double)

u1 = st.one_of(st.sampled_from([0, 1, 127, 128, 255]), st.integers(0, 255))
s1 = st.one_of(st.sampled_from([0, 1, -1, 127, -128]),
               st.integers(-128, 127))
u2 = st.one_of(st.sampled_from([0, 1, 255, 256, 65535]),
               st.integers(0, 65535))
s2 = st.one_of(st.sampled_from([0, 3, -3, 32767, -32768]),
               st.integers(-32768, 32767))

_plain = st.tuples(st.sampled_from(sorted(bc.PLAIN)))


@st.composite
def _tableswitch(draw):
    low = draw(st.one_of(st.integers(-5, 5),
                         st.sampled_from([-2**31, 2**31 - 9])))
    offs = draw(st.lists(i32, min_size=1, max_size=5))
    return ("tableswitch", draw(i32), low, tuple(offs))


@st.composite
def _lookupswitch(draw):
    pairs = draw(st.lists(st.tuples(i32, i32), max_size=5,
                          unique_by=lambda x: x[0]))
    return ("lookupswitch", draw(i32), tuple(sorted(pairs)))


insn = st.one_of(
    _plain, _plain,
    st.tuples(st.sampled_from(sorted(bc.U1)), u1),
    st.tuples(st.just("bipush"), s1),
    st.tuples(st.just("sipush"), s2),
    st.tuples(st.sampled_from(sorted(bc.BRANCH2)), s2),
    st.tuples(st.sampled_from(sorted(bc.BRANCH4)), i32),
    st.tuples(st.just("ldc"), ldc_const),
    st.tuples(st.just("ldc_w"), ldc_const),
    st.tuples(st.just("ldc2_w"), ldc2_const),
    st.tuples(st.sampled_from(["getstatic", "putstatic", "getfield",
                               "putfield"]), c_field),
    st.tuples(st.sampled_from(["invokevirtual", "invokespecial",
                               "invokestatic"]), c_meth),
    st.tuples(st.sampled_from(["new", "anewarray", "checkcast",
                               "instanceof"]), c_class),
    st.tuples(st.just("invokeinterface"), c_imeth, st.integers(1, 255)),
    st.tuples(st.just("invokedynamic"), c_indy),
    st.tuples(st.just("multianewarray"), c_class, st.integers(1, 255)),
    st.tuples(st.just("iinc"), u1, s1),
    st.tuples(st.just("wide"), st.sampled_from(sorted(bc.WIDE_U2)), u2),
    st.tuples(st.just("wide"), st.just("iinc"), u2, s2),
    _tableswitch(), _lookupswitch())

# instructions of the same opcode may have several lengths
sized = st.one_of(
    _tableswitch(), _lookupswitch(), _lookupswitch(),
    st.tuples(st.just("wide"), st.sampled_from(sorted(bc.WIDE_U2)), u2),
    st.tuples(st.just("wide"), st.just("iinc"), u2, s2),
    st.tuples(st.just("iload"), u1), _plain,
    st.tuples(st.just("ldc"), ldc_const))


@st.composite
def line_table(draw, insns, unsorted=True):
    """ [(pc, line)], pcs distinct and at instruction starts """
    offs, _end = bc.offsets(insns)
    pcs = draw(st.lists(st.sampled_from(offs), unique=True, min_size=1,
                        max_size=min(8, len(offs))))
    if draw(st.booleans()) and offs[0] not in pcs:
        pcs.append(offs[0])
    pcs.sort()
    base = draw(st.integers(1, 60000))
    lines = [base + draw(st.integers(0, 6)) for _ in pcs]
    table = list(zip(pcs, lines))
    if unsorted and draw(st.integers(0, 7)) == 7:
        table = draw(st.permutations(table))
    return tuple(table)


@st.composite
def code(draw, max_insns=14, unsorted=True):
    insns = tuple(draw(st.lists(insn, min_size=1, max_size=max_insns)))
    offs, end = bc.offsets(insns)
    attrs = []
    if draw(st.integers(0, 3)):
        attrs.append(("LineNumberTable", draw(line_table(insns, unsorted))))
    if draw(st.integers(0, 2)) == 2:
        lvt = draw(st.lists(st.tuples(
            st.sampled_from(offs), st.integers(0, end), ident, field_desc,
            st.integers(0, 9)), max_size=3))
        attrs.append(("LocalVariableTable", tuple(lvt)))
    if draw(st.integers(0, 4)) == 4:
        lvt = draw(st.lists(st.tuples(
            st.sampled_from(offs), st.integers(0, end), ident,
            st.just("TT;"), st.integers(0, 9)), max_size=2))
        attrs.append(("LocalVariableTypeTable", tuple(lvt)))
    exc = []
    if draw(st.integers(0, 2)) == 2:
        exc = draw(st.lists(st.tuples(
            st.sampled_from(offs), st.sampled_from(offs + [end]),
            st.sampled_from(offs), st.one_of(st.none(), safe_class)),
            max_size=3))
    return {"max_stack": draw(u2), "max_locals": draw(u2), "insns": insns,
            "exceptions": tuple(exc), "attrs": tuple(attrs)}


anno_type = safe_class.map(lambda c: "L%s;" % c)
_anno_leaf = st.one_of(
    st.tuples(st.sampled_from(list("BCISZ")), c_int),
    st.tuples(st.just("J"), c_long),
    st.tuples(st.just("F"), c_float),
    st.tuples(st.just("D"), c_double),
    st.tuples(st.just("s"), text),
    st.tuples(st.just("e"), anno_type, ident),
    st.tuples(st.just("c"), st.one_of(field_desc, st.just("V"))))


def _anno_of(vals):
    return st.tuples(anno_type, st.lists(
        st.tuples(ident, vals), max_size=3,
        unique_by=lambda x: x[0]).map(tuple))


anno_val = st.recursive(
    _anno_leaf,
    lambda v: st.one_of(
        st.tuples(st.just("["), st.lists(v, max_size=3).map(tuple)),
        st.tuples(st.just("@"), _anno_of(v))),
    max_leaves=4)
anno = _anno_of(st.one_of(
    anno_val, anno_val, anno_val, st.tuples(st.just("["), maybe_many(
        st.lists(_anno_leaf, min_size=1, max_size=3), 30).map(tuple))))
annos = maybe_many(st.lists(anno, min_size=1, max_size=3), 7).map(tuple)


@st.composite
def common_attrs(draw):
    attrs = []
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("Deprecated",))
    if draw(st.integers(0, 5)) == 5:
        attrs.append(("Synthetic",))
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("Signature", draw(st.sampled_from(
            ["TT;", "<T:Ljava/lang/Object;>Ljava/lang/Object;",
             "Ljava/util/List<TT;>;", "()TT;"]))))
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("RuntimeVisibleAnnotations", draw(annos)))
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("RuntimeInvisibleAnnotations", draw(annos)))
    if draw(st.integers(0, 5)) == 5:
        attrs.append(("Raw", draw(st.sampled_from(
            ["Custom", "X\u00e9", "deprecated", "Deprecated ", "", "Cod\u00e9",
             "signature", "Runtime", " Synthetic", "a.b.SourceFile"])),
                      draw(st.binary(max_size=9))))
    return attrs


FIELD_FLAGS = [1, 2, 4, 8, 0x10, 0x40, 0x80, 0x1000, 0x4000]
METHOD_FLAGS = [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x400, 0x800,
                0x1000]
CLASS_FLAGS = [1, 0x10, 0x20, 0x200, 0x400, 0x1000, 0x2000, 0x4000, 0x8000]


def flags(choices):
    return st.one_of(
        st.just(1), st.just(0),
        st.lists(st.sampled_from(choices), unique=True).map(sum))


def const_for(desc):
    if desc in ("B", "C", "I", "S", "Z"):
        return c_int
    if desc == "J":
        return c_long
    if desc == "F":
        return c_float
    if desc == "D":
        return c_double
    return c_string


@st.composite
def field(draw):
    desc = draw(field_desc)
    attrs = draw(common_attrs())
    if draw(st.integers(0, 2)) == 2:
        attrs.append(("ConstantValue", draw(const_for(desc))))
    return {"access": draw(flags(FIELD_FLAGS)), "name": draw(ident),
            "desc": desc, "attrs": tuple(draw(st.permutations(attrs)))}


@st.composite
def method(draw, max_insns=14, unsorted=True):
    desc = draw(method_desc())
    attrs = draw(common_attrs())
    acc = draw(flags(METHOD_FLAGS))
    if draw(st.integers(0, 4)):
        acc &= ~0x500
        attrs.append(("Code", draw(code(max_insns, unsorted))))
    if draw(st.integers(0, 2)) == 2:
        attrs.append(("Exceptions", tuple(draw(maybe_many(st.lists(
            safe_class, max_size=3), 9)))))
    if draw(st.integers(0, 5)) == 5:
        attrs.append(("RuntimeVisibleParameterAnnotations", tuple(
            draw(st.lists(st.lists(anno, max_size=2).map(tuple),
                          max_size=3)))))
    if draw(st.integers(0, 5)) == 5:
        attrs.append(("RuntimeInvisibleParameterAnnotations", tuple(
            draw(st.lists(st.lists(anno, max_size=2).map(tuple),
                          max_size=3)))))
    if draw(st.integers(0, 7)) == 7:
        attrs.append(("AnnotationDefault", draw(anno_val)))
    name = draw(st.one_of(ident, ident, st.sampled_from(
        ["<init>", "<clinit>"])))
    return {"access": acc, "name": name, "desc": desc,
            "attrs": tuple(draw(st.permutations(attrs)))}


def unique_members(ms, key):
    seen, out = set(), []
    for m in ms:
        k = key(m)
        if k not in seen:
            seen.add(k)
            out.append(m)
    return tuple(out)


VERSIONS = [(45, 0), (45, 3), (45, 4), (45, 65535), (46, 0), (47, 0),
            (48, 0), (49, 0), (50, 0), (51, 0), (52, 0), (52, 65535),
            (53, 0), (61, 0), (44, 9)]


@st.composite
def klass(draw, max_fields=4, max_methods=4, max_insns=14, extra=True,
          unsorted=True):
    this = draw(any_class)
    fields = draw(st.lists(field(), max_size=max_fields))
    methods = draw(st.lists(method(max_insns, unsorted),
                            max_size=max_methods))
    attrs = draw(common_attrs())
    if draw(st.booleans()):
        attrs.append(("SourceFile", draw(st.sampled_from(
            ["Foo.java", "\u00e9.java", "", " .java", "x.java\0"]))))
    if draw(st.integers(0, 4)) == 4:
        attrs.append(("SourceDebugExtension", draw(st.one_of(
            st.sampled_from(["SMAP\nx.java\n", "", "plain", "a\0", " b "]),
            text))))
    if draw(st.integers(0, 2)) == 2:
        attrs.append(("InnerClasses", tuple(draw(st.lists(st.tuples(
            inner_name, st.one_of(st.none(), class_name),
            st.one_of(st.none(), ident), flags(CLASS_FLAGS)),
            max_size=3)))))
    if draw(st.integers(0, 3)) == 3:
        attrs.append(("EnclosingMethod", draw(class_name), draw(st.one_of(
            st.none(), st.tuples(ident, method_desc())))))
    major, minor = draw(st.one_of(
        st.sampled_from(VERSIONS),
        st.tuples(st.integers(45, 66), st.sampled_from([0, 0, 3, 65535]))))
    return {
        "major": major, "minor": minor, "access": draw(flags(CLASS_FLAGS)),
        "this": this,
        "super": draw(st.one_of(st.just("java/lang/Object"), safe_class,
                                st.none())),
        "interfaces": draw(st.lists(
            st.one_of(safe_class, safe_class, safe_class, more_classes),
            max_size=3, unique=True).map(flatten)),
        "fields": unique_members(fields,
                                 lambda m: (m["name"], m["desc"])),
        "methods": unique_members(methods,
                                  lambda m: (m["name"], m["desc"])),
        "attrs": tuple(draw(st.permutations(attrs))),
        "extra": tuple(draw(st.lists(any_const, max_size=6)))
        if extra else (),
    }
