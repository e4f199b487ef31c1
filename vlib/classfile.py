"""
A model of a Java class (plain data) and a writer producing class files
from it, written from JVM specification chapter 4 and sharing nothing
with the code under test.

Constants of the model are tuples:

  ("Utf8", text) ("Integer", n) ("Float", bits) ("Long", n)
  ("Double", bits) ("Class", name) ("String", text)
  ("Fieldref", cls, name, desc) ("Methodref", ...)
  ("InterfaceMethodref", ...) ("NameAndType", name, desc)
  ("MethodHandle", kind, refconst) ("MethodType", desc)
  ("Dynamic", bsm, name, desc) ("InvokeDynamic", bsm, name, desc)
  ("Module", name) ("Package", name)

A class is a dict: major minor access this super interfaces fields
methods attrs extra (unused constants put in the pool).
A member is a dict: access name desc attrs.
Attributes are tuples, see write_attr.
"""

import math
import struct

from . import bytecode

p = struct.pack

TAG = {"Utf8": 1, "Integer": 3, "Float": 4, "Long": 5, "Double": 6,
       "Class": 7, "String": 8, "Fieldref": 9, "Methodref": 10,
       "InterfaceMethodref": 11, "NameAndType": 12, "MethodHandle": 15,
       "MethodType": 16, "Dynamic": 17, "InvokeDynamic": 18,
       "Module": 19, "Package": 20}
KIND = {v: k for k, v in TAG.items()}


def mutf8(text):
    """ Java's modified UTF-8 """
    out = bytearray()
    for ch in text:
        c = ord(ch)
        if c == 0:
            out += b"\xc0\x80"
        elif c >= 0x10000:
            c -= 0x10000
            for u in (0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF)):
                out += bytes([0xE0 | (u >> 12), 0x80 | ((u >> 6) & 0x3F),
                              0x80 | (u & 0x3F)])
        else:
            out += ch.encode("utf8", "surrogatepass")
    return bytes(out)


def parts(const):
    """ constants which const refers to """
    k = const[0]
    if k in ("Class", "String", "MethodType", "Module", "Package"):
        return (("Utf8", const[1]),)
    if k in ("Fieldref", "Methodref", "InterfaceMethodref"):
        return (("Class", const[1]), ("NameAndType", const[2], const[3]))
    if k == "NameAndType":
        return (("Utf8", const[1]), ("Utf8", const[2]))
    if k == "MethodHandle":
        return (const[2],)
    if k in ("Dynamic", "InvokeDynamic"):
        return (("NameAndType", const[2], const[3]),)
    return ()


def value(const):
    """ what the fully dereferenced constant is worth """
    k = const[0]
    if k == "Float":
        return struct.unpack(">f", p(">I", const[1]))[0]
    if k == "Double":
        return struct.unpack(">d", p(">Q", const[1]))[0]
    if k in ("Utf8", "Integer", "Long", "Class", "String", "MethodType",
             "Module", "Package"):
        return const[1]
    if k in ("Fieldref", "Methodref", "InterfaceMethodref"):
        return (const[1], (const[2], const[3]))
    if k == "NameAndType":
        return (const[1], const[2])
    if k == "MethodHandle":
        return (const[1], value(const[2]))
    if k in ("Dynamic", "InvokeDynamic"):
        return (const[1], (const[2], const[3]))
    raise ValueError(k)


def same_value(a, b):
    """ equality of dereferenced values, of floats by bits (any NaN is
    any NaN: widening may quieten it) """
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return p(">d", a) == p(">d", b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same_value, a, b))
    return type(a) is type(b) and a == b


class Pool(object):

    def __init__(self, order=()):
        """ order: constants to place first, in that order.  The same
        constant may be given twice: the later one is a duplicate entry,
        and the one that gets used """
        self.index = {}
        self.entries = []          # (index, const)
        self.next = 1
        self.used = []             # encounter order
        for c in order:
            self._place(c)

    def _place(self, const):
        i = self.next
        self.next += 2 if const[0] in ("Long", "Double") else 1
        self.entries.append((i, const))
        self.index[const] = i
        return i

    def __call__(self, const):
        i = self.index.get(const)
        if i is None:
            i = self._place(const)
            for c in parts(const):
                self(c)
        return i

    def utf8(self, text):
        return self(("Utf8", text))

    def bytes(self):
        # parts of constants placed by order may not be there yet
        n = 0
        while n < len(self.entries):
            for c in parts(self.entries[n][1]):
                self(c)
            n += 1
        out = [p(">H", self.next)]
        for _i, c in self.entries:
            out.append(self._entry(c))
        return b"".join(out)

    def _entry(self, c):
        k = c[0]
        tag = bytes([TAG[k]])
        ix = self.index
        if k == "Utf8":
            b = mutf8(c[1])
            return tag + p(">H", len(b)) + b
        if k == "Integer":
            return tag + p(">i", c[1])
        if k == "Float":
            return tag + p(">I", c[1])
        if k == "Long":
            return tag + p(">q", c[1])
        if k == "Double":
            return tag + p(">Q", c[1])
        if k in ("Dynamic", "InvokeDynamic"):
            return tag + p(">HH", c[1], ix[parts(c)[0]])
        if k == "MethodHandle":
            return tag + p(">BH", c[1], ix[c[2]])
        return tag + b"".join(p(">H", ix[x]) for x in parts(c))


def write_anno_val(v, pool):
    """ ("B".."Z", const) ("s", text) ("e", type, name) ("c", desc)
    ("@", anno) ("[", [vals]) """
    t = v[0]
    b = t.encode("ascii")
    if t in "BCDFIJSZ":
        return b + p(">H", pool(v[1]))
    if t in "sc":
        return b + p(">H", pool.utf8(v[1]))
    if t == "e":
        return b + p(">HH", pool.utf8(v[1]), pool.utf8(v[2]))
    if t == "@":
        return b + write_anno(v[1], pool)
    if t == "[":
        return b + p(">H", len(v[1])) + b"".join(
            write_anno_val(x, pool) for x in v[1])
    raise ValueError(t)


def write_anno(a, pool):
    """ (type descriptor, [(name, val), ...]) """
    out = p(">HH", pool.utf8(a[0]), len(a[1]))
    for n, v in a[1]:
        out += p(">H", pool.utf8(n)) + write_anno_val(v, pool)
    return out


def write_annos(annos, pool):
    return p(">H", len(annos)) + b"".join(write_anno(a, pool)
                                          for a in annos)


ANNO_ATTRS = ("RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations")
PARAM_ANNO_ATTRS = ("RuntimeVisibleParameterAnnotations",
                    "RuntimeInvisibleParameterAnnotations")


def write_attr(a, pool, info):
    n = a[0]
    if n == "Raw":
        name, body = a[1], a[2]
    else:
        name = n
        name_i = pool.utf8(name)
        if n in ("Deprecated", "Synthetic"):
            body = b""
        elif n in ("Signature", "SourceFile"):
            body = p(">H", pool.utf8(a[1]))
        elif n == "SourceDebugExtension":
            body = mutf8(a[1])
        elif n == "ConstantValue":
            body = p(">H", pool(a[1]))
        elif n == "Exceptions":
            body = p(">H", len(a[1])) + b"".join(
                p(">H", pool(("Class", c))) for c in a[1])
        elif n == "InnerClasses":
            body = p(">H", len(a[1]))
            for inner, outer, iname, flags in a[1]:
                body += p(">HHHH", pool(("Class", inner)),
                          pool(("Class", outer)) if outer else 0,
                          pool.utf8(iname) if iname else 0, flags)
        elif n == "EnclosingMethod":
            body = p(">HH", pool(("Class", a[1])),
                     pool(("NameAndType",) + tuple(a[2])) if a[2] else 0)
        elif n in ANNO_ATTRS:
            body = write_annos(a[1], pool)
        elif n in PARAM_ANNO_ATTRS:
            body = p(">B", len(a[1])) + b"".join(
                write_annos(x, pool) for x in a[1])
        elif n == "AnnotationDefault":
            body = write_anno_val(a[1], pool)
        elif n == "Code":
            body = write_code(a[1], pool, info)
        elif n == "LineNumberTable":
            body = p(">H", len(a[1])) + b"".join(p(">HH", *x) for x in a[1])
        elif n in ("LocalVariableTable", "LocalVariableTypeTable"):
            body = p(">H", len(a[1]))
            for start, ln, name_, desc, idx in a[1]:
                body += p(">HHHHH", start, ln, pool.utf8(name_),
                          pool.utf8(desc), idx)
        else:
            raise ValueError(n)
        return p(">HI", name_i, len(body)) + body
    return p(">HI", pool.utf8(name), len(body)) + body


def write_attrs(attrs, pool, info):
    return p(">H", len(attrs)) + b"".join(
        write_attr(a, pool, info) for a in attrs)


def write_code(c, pool, info):
    """ dict: max_stack max_locals insns exceptions attrs """
    code, listing = bytecode.assemble(c["insns"], pool)
    info.listings[id(c)] = listing
    info.codes[id(c)] = code
    out = p(">HHI", c["max_stack"], c["max_locals"], len(code)) + code
    out += p(">H", len(c["exceptions"]))
    for s, e, h, t in c["exceptions"]:
        out += p(">HHHH", s, e, h, pool(("Class", t)) if t else 0)
    return out + write_attrs(c["attrs"], pool, info)


def write_member(m, pool, info):
    return p(">HHH", m["access"], pool.utf8(m["name"]),
             pool.utf8(m["desc"])) + write_attrs(m["attrs"], pool, info)


class Info(object):
    """ what was written where: pool, bytecode listings """

    def __init__(self):
        self.listings = {}
        self.codes = {}
        self.pool = None


def ldc_consts(cls):
    """ constants which need an index below 256 """
    out = []
    for m in cls["methods"]:
        for a in m["attrs"]:
            if a[0] == "Code":
                for ins in a[1]["insns"]:
                    if ins[0] == "ldc" and ins[1] not in out:
                        out.append(ins[1])
    return out


def write_class(cls, order=(), info=None):
    """ bytes of the class file.  order: see Pool """

    info = info or Info()
    pool = info.pool = Pool(order)
    for c in ldc_consts(cls):
        pool.index.get(c) or pool._place(c)
    body = p(">HHH", cls["access"], pool(("Class", cls["this"])),
             pool(("Class", cls["super"])) if cls["super"] else 0)
    body += p(">H", len(cls["interfaces"]))
    for i in cls["interfaces"]:
        body += p(">H", pool(("Class", i)))
    for kind in ("fields", "methods"):
        body += p(">H", len(cls[kind]))
        for m in cls[kind]:
            body += write_member(m, pool, info)
    body += write_attrs(cls["attrs"], pool, info)
    for c in cls["extra"]:
        pool(c)
    pb = pool.bytes()
    if pool.next > 65535:
        raise ValueError("too many constants")
    return (b"\xca\xfe\xba\xbe" + p(">HH", cls["minor"], cls["major"]) +
            pb + body)


def pool_order(cls):
    """ the constants of the class, in the order the writer lays them """
    info = Info()
    write_class(cls, info=info)
    return [c for _i, c in info.pool.entries]


def find_attr(attrs, name):
    for a in attrs:
        if a[0] == name:
            return a
    return None
