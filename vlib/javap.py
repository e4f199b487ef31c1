""" What javap says of a class, as a class model (see classfile.py) """

import re
import struct

from . import bytecode as bc
from .harness import HarnessError

NEWARRAY = {"boolean": 4, "char": 5, "float": 6, "double": 7, "byte": 8,
            "short": 9, "int": 10, "long": 11}
MODIFIERS = ("public", "protected", "private", "static", "final", "abstract",
             "native", "strictfp", "synchronized", "default")
ESC = {"t": "\t", "n": "\n", "r": "\r", "b": "\b", "f": "\f", '"': '"',
       "'": "'", "\\": "\\"}


class Unreadable(Exception):
    """ something this reader doesn't know """


def unescape(s):
    return re.sub(r"\\(u[0-9a-fA-F]{4}|.)", lambda m:
                  chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "u" and
                  len(m.group(1)) > 1 else ESC[m.group(1)], s)


def java_float(s):
    return float(s.replace("Infinity", "inf"))


class Reader(object):

    def __init__(self, text, blanks=None):
        self.lines = text.split("\n")
        self.blanks = blanks or {}
        self.raw = {}        # index: (kind, text)
        self.pool = {}       # index: constant of the model
        self.i = 0

    # --- constants

    def read_pool(self):
        rx = re.compile(r"^ *#(\d+) = (\w+) *")
        while True:
            ln = self.lines[self.i]
            m = rx.match(ln)
            if not m:
                break
            at = ln.index("= ") + 2 + 19
            n = int(m.group(1))
            self.raw[n] = (m.group(2),
                           ln[at:] + " " * self.blanks.get(n, 0))
            self.i += 1
        for n in self.raw:
            self.pool[n] = self.const(n)

    def refs(self, text):
        return [int(x) for x in re.findall(r"[#:](\d+)|(\d+)",
                                           text.split(" ", 1)[0])]

    def utf8(self, n):
        return unescape(self.raw[n][1])

    def const(self, n):
        kind, text = self.raw[n]
        if kind == "Utf8":
            return ("Utf8", unescape(text))
        word = text.split(" ", 1)[0]
        if kind == "Integer":
            return (kind, int(word))
        if kind == "Long":
            return (kind, int(word[:-1]))
        if kind == "Float":
            return (kind, struct.unpack(
                ">I", struct.pack(">f", java_float(word[:-1])))[0])
        if kind == "Double":
            return (kind, struct.unpack(
                ">Q", struct.pack(">d", java_float(word[:-1])))[0])
        ids = [int(x) for x in re.findall(r"\d+", word)]
        if kind in ("Class", "String", "MethodType", "Module", "Package"):
            return (kind, self.utf8(ids[0]))
        if kind == "NameAndType":
            return (kind, self.utf8(ids[0]), self.utf8(ids[1]))
        if kind in ("Fieldref", "Methodref", "InterfaceMethodref"):
            return (kind, self.const(ids[0])[1]) + self.const(ids[1])[1:]
        if kind == "MethodHandle":
            return (kind, ids[0], self.const(ids[1]))
        if kind in ("Dynamic", "InvokeDynamic"):
            return (kind, ids[0]) + self.const(ids[1])[1:]
        raise Unreadable(kind)

    # --- the rest

    def klass(self):
        header = self.lines[self.i - 1]
        out = {"interfaces": (), "fields": (), "methods": (), "attrs": (),
               "extra": ()}
        while self.lines[self.i] != "Constant pool:":
            ln = self.lines[self.i].strip()
            if ln.startswith("minor version: "):
                out["minor"] = int(ln[15:])
            elif ln.startswith("major version: "):
                out["major"] = int(ln[15:])
            elif ln.startswith("flags: (0x"):
                out["access"] = int(ln[10:14], 16)
            elif ln.startswith("this_class: #"):
                this = int(ln[13:].split(" ")[0])
            elif ln.startswith("super_class: #"):
                sup = int(ln[14:].split(" ")[0])
            elif ln.startswith("interfaces: "):
                out["interfaces"] = self.interfaces(header)
                self.counts = [int(x) for x in re.findall(r"\d+", ln)]
            self.i += 1
        self.i += 1
        self.read_pool()
        out["this"] = self.pool[this][1]
        out["super"] = self.pool[sup][1] if sup else None
        if self.lines[self.i] != "{":
            raise HarnessError("javap: %r" % self.lines[self.i])
        self.i += 1
        fields, methods = [], []
        while self.lines[self.i] != "}":
            if not self.lines[self.i]:
                self.i += 1
                continue
            m = self.member()
            (methods if m["desc"][0] == "(" else fields).append(m)
        self.i += 1
        out["fields"], out["methods"] = tuple(fields), tuple(methods)
        out["attrs"] = self.attributes(0)
        return out

    def interfaces(self, header):
        last = None
        while header != last:
            last, header = header, re.sub(r"<[^<>]*>", "", header)
        word = "extends" if " interface " in " " + header or \
            header.startswith("@interface") or " @interface " in header \
            else "implements"
        _a, sep, rest = header.partition(" %s " % word)
        if not sep:
            return ()
        return tuple(unescape(n.strip()).replace(".", "/")
                     for n in rest.split(","))

    def block(self, indent):
        """ the lines indented by more than that """
        out = []
        while self.i < len(self.lines):
            ln = self.lines[self.i]
            if not ln.startswith(" " * (indent + 1)):
                break
            out.append(ln)
            self.i += 1
        return out

    def member(self):
        decl = self.lines[self.i].strip()
        self.i += 1
        if not self.lines[self.i].startswith("    descriptor: "):
            raise Unreadable("declaration %r" % decl)
        desc = unescape(self.lines[self.i][16:])
        m = re.match(r"    flags: \(0x([0-9a-f]{4})\)",
                     self.lines[self.i + 1])
        self.i += 2
        out = {"access": int(m.group(1), 16), "desc": desc, "decl": decl,
               "name": self.name_of(decl, desc)}
        out["attrs"] = self.attributes(4)
        return out

    def name_of(self, decl, desc):
        if decl.endswith("{};"):
            return "<clinit>"
        if desc[0] != "(":
            return unescape(decl.rstrip(";").split(" ")[-1])
        rest = decl.split("(")[0]
        words = rest.split(" ")
        while words[0] in MODIFIERS:
            del words[0]
        rest = " ".join(words)
        while rest.startswith("<"):
            depth = 0
            for k, ch in enumerate(rest):
                depth += (ch == "<") - (ch == ">")
                if not depth:
                    break
            rest = rest[k + 1:].lstrip()
        if " " not in rest:
            return "<init>"
        return unescape(words[-1])

    def attributes(self, ind):
        out = []
        while self.i < len(self.lines):
            ln = self.lines[self.i]
            if not ind and (not ln or ln[0] == " "):
                # (components of records are told apart by empty lines)
                self.i += 1
                continue
            if not ln or not ln.startswith(" " * ind) or \
                    ln[ind:ind + 1] in (" ", "}"):
                break
            head, _c, rest = ln[ind:].partition(":")
            rest = rest.strip()
            self.i += 1
            sub = self.block(ind)
            a = self.attribute(head, rest, sub, ind)
            if a:
                out.append(a)
        return tuple(out)

    def constant(self, text):
        kind, _s, text = text.partition(" ")
        if kind == "int":
            return ("Integer", int(text))
        if kind == "long":
            return ("Long", int(text[:-1]))
        if kind == "float":
            return ("Float", struct.unpack(
                ">I", struct.pack(">f", java_float(text[:-1])))[0])
        if kind == "double":
            return ("Double", struct.unpack(
                ">Q", struct.pack(">d", java_float(text[:-1])))[0])
        text = unescape(text)
        # (javap leaves out the blanks at the end)
        same = {c for c in self.pool.values()
                if c[0] == kind and c[1].rstrip(" ") == text}
        if len(same) != 1:
            raise Unreadable("%r is one of %r" % (text, same))
        return same.pop()

    def ref(self, rest):
        return self.pool[int(re.match(r"#(\d+)", rest).group(1))][1]

    def attribute(self, head, rest, sub, ind):
        if head == "Code":
            return ("Code", self.code(sub))
        if head == "ConstantValue":
            return (head, self.constant(rest))
        if head == "Exceptions":
            names = sub[0].strip()[len("throws "):]
            return (head, tuple(unescape(n).replace(".", "/")
                                for n in names.split(", ")))
        if head == "Signature":
            return (head, self.ref(rest))
        if head in ("Deprecated", "Synthetic"):
            return (head,)
        if head == "SourceFile":
            return (head, unescape(rest[1:-1]))
        if head == "EnclosingMethod":
            c, m = re.match(r"#(\d+)\.#(\d+)", rest).groups()
            return (head, self.pool[int(c)][1],
                    self.pool[int(m)][1:] if int(m) else None)
        if head == "InnerClasses":
            rx = re.compile(
                r" *((?:\w+ )*)#(\d+)(?:= #(\d+)(?: of #(\d+))?)?;")
            return (head, tuple(
                tuple(m and (m if k == 0 else int(m)) for k, m in
                      enumerate(rx.match(ln).groups())) for ln in sub))
        if head in ("RuntimeVisibleAnnotations",
                    "RuntimeInvisibleAnnotations"):
            return (head, tuple(self.annotation(ln) for ln in sub
                                if re.match(r" *\d+: #", ln)))
        if head == "AnnotationDefault":
            val, _p = self.element(sub[0].split("default_value: ", 1)[1], 0)
            return (head, val)
        if head == "Module":
            return (head, self.ref(sub[0].strip()))
        return ("Other", head)

    # --- annotations, as #n(#name=value,...)

    def annotation(self, ln):
        text = ln.split(": ", 1)[1]
        a, _p = self.anno(text, 0)
        return a

    def number(self, s, p):
        m = re.compile(r"#(\d+)").match(s, p)
        return int(m.group(1)), m.end()

    def anno(self, s, p):
        t, p = self.number(s, p)
        out = []
        if s[p] != "(":
            raise Unreadable(s)
        p += 1
        while s[p] != ")":
            n, p = self.number(s, p)
            v, p = self.element(s, p + 1)
            out.append((self.utf8(n), v))
            if s[p] == ",":
                p += 1
        return (self.utf8(t), tuple(out)), p + 1

    def element(self, s, p):
        t = s[p]
        if t == "[":
            out = []
            p += 1
            while s[p] != "]":
                v, p = self.element(s, p)
                out.append(v)
                if s[p] == ",":
                    p += 1
            return ("[", tuple(out)), p + 1
        if t == "@":
            a, p = self.anno(s, p + 1)
            return ("@", a), p
        n, p = self.number(s, p + 1)
        if t == "e":
            n2, p = self.number(s, p + 1)
            return ("e", self.utf8(n), self.utf8(n2)), p
        if t in "sc":
            return (t, self.utf8(n)), p
        return (t, self.pool[n]), p

    # --- code

    def code(self, sub):
        m = re.match(r" *stack=(\d+), locals=(\d+), args_size=\d+", sub[0])
        raw, table, attrs = [], [], []
        k = 1
        while k < len(sub):
            ln = sub[k]
            m2 = re.match(r"^ +(\d+): (\w+) *(.*?)$", ln)
            if not m2:
                break
            pc, op, rest = int(m2.group(1)), m2.group(2), m2.group(3)
            k += 1
            if op.endswith("switch"):
                cases = []
                while sub[k].strip() != "}":
                    cases.append(sub[k].split(":"))
                    k += 1
                k += 1
                cases = [(a.strip(), int(b) - pc) for a, b in cases]
                raw.append(self.switch(op, cases, rest))
            else:
                raw.append(self.insn(pc, op, rest.split("//")[0].strip()))
        while k < len(sub):
            head = sub[k].strip()
            k += 1
            body = []
            # (sections have their own lines indented further)
            while k < len(sub) and sub[k].startswith(" " * 8):
                body.append(sub[k])
                k += 1
            if head == "Exception table:":
                for ln in body[1:]:
                    a, b, c, t = ln.split(None, 3)
                    table.append((int(a), int(b), int(c),
                                  None if t == "any" else
                                  unescape(t[len("Class "):]
                                           .strip('"')).replace(".", "/")))
            elif head == "LineNumberTable:":
                rows = [ln.split() for ln in body]
                attrs.append(("LineNumberTable", tuple(
                    (int(r[2]), int(r[1][:-1])) for r in rows)))
            elif head in ("LocalVariableTable:", "LocalVariableTypeTable:"):
                rows = [ln.split() for ln in body[1:]]
                attrs.append((head[:-1], tuple(
                    (int(r[0]), int(r[1]), unescape(r[3]), unescape(r[4]),
                     int(r[2])) for r in rows)))
        return {"max_stack": int(m.group(1)), "max_locals": int(m.group(2)),
                "raw": tuple(raw), "exceptions": tuple(table),
                "insns": tuple(self.resolved(i) for i in raw),
                "attrs": tuple(attrs)}

    def switch(self, op, cases, rest):
        default = dict(cases)["default"]
        keys = [(int(a), b) for a, b in cases if a != "default"]
        if op == "lookupswitch":
            return (op, default, tuple(keys))
        low = int(re.search(r"// (-?\d+) to", rest).group(1))
        return (op, default, low, tuple(b for _a, b in keys))

    def insn(self, pc, op, rest):
        args = [a.strip() for a in rest.split(",")] if rest else []
        if op.endswith("_w") and op not in bc.CODE:
            return ("wide", op[:-2]) + tuple(int(a) for a in args)
        if op in bc.BRANCH2 or op in bc.BRANCH4:
            return (op, int(args[0]) - pc)
        if op == "newarray":
            return (op, NEWARRAY[args[0]])
        out = [op]
        for a in args:
            out.append(("#", int(a[1:])) if a[0] == "#" else int(a))
        if op == "invokedynamic":
            out = out[:2]
        return tuple(out)

    def resolved(self, ins):
        return tuple(self.pool[x[1]] if isinstance(x, tuple) and
                     x[:1] == ("#",) else x for x in ins)


LONE = re.compile(b"\xed[\xa0-\xaf][\x80-\xbf](?!\xed[\xb0-\xbf])|"
                  b"(?<!\xed[\xa0-\xaf][\x80-\xbf])\xed[\xb0-\xbf]")


def trailing_blanks(data):
    """ {index of a Utf8: blanks it ends with}, as javap leaves them out """
    if LONE.search(data):
        # written as ?
        raise Unreadable("surrogates")
    out = {}
    n, = struct.unpack_from(">H", data, 8)
    at, i = 10, 1
    sizes = {3: 4, 4: 4, 5: 8, 6: 8, 7: 2, 8: 2, 9: 4, 10: 4, 11: 4, 12: 4,
             15: 3, 16: 2, 17: 4, 18: 4, 19: 2, 20: 2}
    while i < n:
        tag = data[at]
        at += 1
        if tag == 1:
            size, = struct.unpack_from(">H", data, at)
            text = data[at + 2:at + 2 + size]
            blanks = size - len(text.rstrip(b" "))
            if blanks:
                out[i] = blanks
            at += 2 + size
        else:
            at += sizes[tag]
        i += 2 if tag in (5, 6) else 1
    return out


def read(text, data=None):
    """ (model, pool by index) """
    r = Reader(text, trailing_blanks(data) if data else None)
    start = next(i for i, ln in enumerate(r.lines)
                 if ln.startswith("  minor version: "))
    r.i = start
    return r.klass(), r.pool
