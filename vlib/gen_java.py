"""
Java programs: a model of a class, what it is written as, and small edits.

A class is (kind, name, mods, extends, implements, members, annotated).
A member is ("f", name, mods, type, init) or
("m", name, mods, type, params, throws, statements, deprecated).
A statement is (template number, n, m).
"""

from hypothesis import strategies as st

# type: (descriptor, a value of it)
TYPES = {
    "int": ("I", "0"), "long": ("J", "0L"), "boolean": ("Z", "false"),
    "byte": ("B", "(byte) 0"), "char": ("C", "'c'"),
    "short": ("S", "(short) 1"), "float": ("F", "0f"),
    "double": ("D", "0d"), "String": ("Ljava/lang/String;", "null"),
    "Object": ("Ljava/lang/Object;", "null"), "int[]": ("[I", "null"),
    "String[][]": ("[[Ljava/lang/String;", "null"),
    "java.util.List<String>": ("Ljava/util/List;", "null"),
    "java.util.Map<String, ? super int[]>": ("Ljava/util/Map;", "null"),
    "T": ("Ljava/lang/Comparable;", "null")}

# {n} and {m} are numbers of 1 and more; a, b are ints, l a long, s a
# String, o an Object
STMTS = [
    "a += {n};",
    "b = a * {n} - b % {m};",
    "l ^= (long) a << {n};",
    "if (a > {n}) b--; else b++;",
    "for (int i = 0; i < {n}; i++) a += i;",
    "while (a > 0 && b < {n}) {{ a--; b++; }}",
    "do {{ a--; }} while (a > {n});",
    "switch (a) {{ case 0: b = {m}; break; case {n}: b = 2; default: b = 3; }}",
    "switch (a) {{ case 1: b = 1; break; case 2: case 3: b = {n}; break; "
    "case 5: b++; }}",
    "switch (s) {{ case \"x{n}\": a = 1; break; case \"y\": a = {m}; }}",
    "try {{ a = s.length(); }} catch (RuntimeException e) {{ a = {n}; }} "
    "finally {{ b++; }}",
    "try {{ b = {n}; }} finally {{ a++; }}",
    "synchronized (o) {{ a += {n}; }}",
    "if (a == {n}) throw new IllegalStateException(\"no {m}\");",
    "s = s + a + \"t{n}\" + l;",
    "o = new int[{n}][2];",
    "o = new long[]{{ {n}, a }};",
    "Runnable r = () -> System.out.println({n});",
    "java.util.function.Function<String, Integer> f = String::length; "
    "a = f.apply(\"{n}\");",
    "o = o instanceof String ? (Object) s : Integer.valueOf({n});",
    "double d = a / {n}.5; l = (long) d;",
    "float f = {n}.25f; b = (int) (f * b);",
    "boolean z = a > b ^ l != {n}L; b = z ? 1 : {m};",
    "char c = s.charAt({n}); byte y = (byte) c; short h = (short) a; "
    "a = y + h;",
    "assert a > {n};",
    "label: for (;;) {{ for (;;) {{ if (a++ > {n}) break label; }} }}",
    "int[] q = {{1, 2, {n}}}; for (int x : q) b += x;",
    "for (Object x : java.util.Arrays.asList({n}, s)) o = x;",
    "o = new Object() {{ public String toString() {{ return \"{n}\"; }} }};",
    "class L {{ int v = {n}; }} o = new L();",
    "s = \"\\u20ac\\0\\ud83d\\ude00{n}\";",
    "long {longs}; l50 += {n};",
    "int {ints}; v290 += {n} * 100; a = v290; a++;",
    "a = -{n}; l = -{n}00000000000L; double d = -{n}e10; float f = 1f / 0;",
    "l = a == {n} ? Long.MAX_VALUE : l >>> {m};",
    "System.out.printf(\"%d %s%n\", a, s);",
    "o = String[].class; o = int.class;",
    "o = (Comparable<String> & java.io.Serializable) x -> {n};",
    "synchronized (o) {{ synchronized (s) {{ l = {n}; }} }}",
    "{{ int k = {n}; b = k; }} {{ int k = {m}; b += k; }}",
]
CONSTS = sorted(
    ["o = \"k%d\";" % i for i in range(10)])

MODS_F = ["", "public", "private static", "protected", "static final",
          "private final", "public static final", "transient", "volatile",
          "static"]
MODS_M = ["", "public", "private", "protected final", "static",
          "public static synchronized", "strictfp", "synchronized",
          "private static final", "native", "abstract", "public abstract"]
INITS = {
    "int": ["5", "-1", "100000", "0x7fffffff"],
    "long": ["5L", "-500000000000L"], "boolean": ["true", "false"],
    "byte": ["-3"], "char": ["'x'", "'\\u20ac'"], "short": ["-300"],
    "float": ["1.5f", "0f / 0", "-0f"],
    "double": ["0.1", "1d / 0", "0d / 0"],
    "String": ["\"\"", "\"a b\\t\\\"\"", "\"\\u20ac\\ud83d\\ude00\"",
               "null", "\"it's \\\\ \" + 1"]}
FLAGS = {"public": 1, "private": 2, "protected": 4, "static": 8,
         "final": 0x10, "synchronized": 0x20, "volatile": 0x40,
         "transient": 0x80, "native": 0x100, "abstract": 0x400,
         "strictfp": 0x800}
THROWS = ["java.io.IOException", "Exception", "Error",
          "InterruptedException"]
SUPERS = ["", "", "java.util.ArrayList<String>", "Thread", "Exception"]
IFACES = ["java.io.Serializable", "Cloneable", "java.util.RandomAccess"]

num = st.one_of(st.integers(1, 6), st.sampled_from([127, 128, 200, 32767,
                                                    32768, 65536]))
stmt = st.tuples(st.integers(0, len(STMTS) - 1), num, num)
types = st.sampled_from(sorted(TYPES))


@st.composite
def field(draw, i):
    t = draw(types)
    mods = draw(st.sampled_from(MODS_F))
    init = draw(st.one_of(st.none(), st.sampled_from(INITS.get(t, ["null"]))))
    if "final" in mods and init is None:
        init = TYPES[t][1]
    if t == "T" and "static" in mods:
        t = "String"
    return ("f", "%s%d" % (draw(st.sampled_from(["f", "f", "\u00e9l", "$v"])),
                           i), mods, t, init)


@st.composite
def method(draw, i):
    mods = draw(st.sampled_from(MODS_M))
    t = draw(st.one_of(st.just("void"), types))
    ps = draw(st.lists(types, max_size=3))
    if "static" in mods:
        t = "int" if t == "T" else t
        ps = [p if p != "T" else "Object" for p in ps]
    body = None if "native" in mods or "abstract" in mods else \
        tuple(draw(st.lists(stmt, max_size=6)))
    return ("m", "%s%d" % (draw(st.sampled_from(["m", "m", "run_",
                                                 "\u540d"])), i),
            mods, t, tuple(ps),
            tuple(draw(st.lists(st.sampled_from(THROWS), max_size=2,
                                unique=True))),
            body, draw(st.sampled_from([False, False, True])))


@st.composite
def klass(draw):
    n = draw(st.integers(0, 4))
    k = draw(st.integers(0, 4))
    members = [draw(field(i)) for i in range(n)] + \
        [draw(method(i)) for i in range(k)]
    return (draw(st.sampled_from(["class", "class", "class", "enum",
                                  "interface"])), "A",
            draw(st.sampled_from(["", "public", "public strictfp"])),
            draw(st.sampled_from(SUPERS)),
            tuple(draw(st.lists(st.sampled_from(IFACES), max_size=2,
                                unique=True))),
            tuple(members), draw(st.sampled_from(["", "", "@Deprecated"])))


def body_of(stmts, indent):
    out = []
    for k, n, m in stmts:
        text = STMTS[k].format(
            n=n, m=m,
            longs=", ".join("l%d = %d" % (i, i) for i in range(60)),
            ints=", ".join("v%d = %d" % (i, i) for i in range(300)))
        out.append("%s{ %s }\n" % (indent, text))
    return "".join(out)


def write_member(kind, m):
    if m[0] == "f":
        _f, name, mods, t, init = m
        if kind == "interface":
            t = "String" if t == "T" else t
            mods, init = "", init or TYPES[t][1]
        return "  %s %s %s%s;\n" % (mods, t, name,
                                    "" if init is None else " = " + init)
    _m, name, mods, t, ps, throws, body, dep = m
    if kind == "interface":
        if body is None:
            mods = ""
        elif "static" in mods:
            mods = "static"
        else:
            mods = "default"
    elif kind == "enum" and "abstract" in mods:
        mods = mods.replace("abstract", "native")
    gen = "<T extends Comparable<T>> " if kind != "class" and \
        "T" in ps + (t,) else ""
    out = "  %s%s %s%s %s(%s)%s" % (
        "@Deprecated " if dep else "", mods, gen, t, name,
        ", ".join("%s p%d" % (p, i) for i, p in enumerate(ps)),
        " throws " + ", ".join(throws) if throws else "")
    if body is None:
        return out + ";\n"
    return out + " {\n    int a = 1, b = 2; long l = 3; String s = \"s\"; " \
        "Object o = s;\n" + body_of(body, "    ") + \
        ("" if t == "void" else "    return %s;\n" % TYPES[t][1]) + "  }\n"


def write(cls, before=0):
    kind, name, mods, sup, ifs, members, anno = cls
    abstract = kind == "class" and any(
        m[0] == "m" and "abstract" in m[2] for m in members)
    if kind != "class":
        mods = mods.replace(" strictfp", "")
    if kind == "interface":
        sup = ""
        word = "extends"
    else:
        word = "implements"
    out = "package p;\n" + "\n" * before + "%s %s %s%s %s%s%s%s {\n" % (
        anno, mods, "abstract " if abstract else "", kind, name,
        "<T extends Comparable<T>>" if kind == "class" and
        "Exception" != sup else "",
        " extends " + sup if sup and kind == "class" else "",
        " %s %s" % (word, ", ".join(ifs)) if ifs else "")
    if kind == "enum":
        out += "  ONE, TWO;\n"
    for m in members:
        if sup == "Exception" and kind == "class":
            m = tuple("Object" if x == "T" else
                      tuple("Object" if y == "T" else y for y in x)
                      if isinstance(x, tuple) and x is not m[-2] else x
                      for x in m)
        out += write_member(kind, m)
    return out + "}\n"
