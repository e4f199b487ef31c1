""" what a classdiff says, as {path: changed} like diffmodel's """

import ast

from javatools.classdiff import JavaClassChange, ClassInfoChange, \
    ClassFieldsChange, ClassMethodsChange, ClassConstantPoolChange, \
    MethodCodeChange, FieldChange, MethodChange, FieldAdded, \
    FieldRemoved, MethodAdded, MethodRemoved
from javatools.change import SuperChange
from javatools.opcodes import get_opname_by_code, get_opcode_by_name

from . import bytecode as bc
from . import classfile as cf
from . import diffmodel as dm
from .harness import Violation
from .util import truth, need, same
from .diffmodel import EITHER


def fact(change):
    n = type(change).__name__
    return n[:-len("Change")] if n.endswith("Change") else n


def facts(delta):
    """ {path: Change}, checking on the way that a change of a part is
    a change of the whole, and nothing else is """
    out = {}

    def one_sided(c):
        return isinstance(c, MethodCodeChange) and \
            (c.get_ldata() is None) != (c.get_rdata() is None)

    def whole(c):
        if one_sided(c):
            truth(c.is_change(), True, "method lost or gained its code")
        else:
            truth(c.is_change(), any(x.is_change() for x in c.collect()),
                  "%s is a change" % type(c).__name__)

    def put(path, c):
        need(path not in out, "%r reported twice", path)
        out[path] = c

    def walk(c, prefix):
        if isinstance(c, SuperChange):
            whole(c)
            if one_sided(c):
                return
            for x in c.collect():
                walk(x, prefix)
        else:
            put(prefix + (fact(c),), c)

    need(isinstance(delta, JavaClassChange), "%r", delta)
    whole(delta)
    for c in delta.collect():
        if isinstance(c, (ClassFieldsChange, ClassMethodsChange)):
            kind = "fields" if isinstance(c, ClassFieldsChange) \
                else "methods"
            whole(c)
            for m in c.collect():
                l, r = m.ldata, m.rdata
                if isinstance(m, (FieldAdded, MethodAdded)):
                    need(l is None, "added member with a left side")
                    put((kind, r.get_name(), None, r.get_descriptor(),
                         "Added"), m)
                elif isinstance(m, (FieldRemoved, MethodRemoved)):
                    need(r is None, "removed member with a right side")
                    put((kind, l.get_name(), l.get_descriptor(), None,
                         "Removed"), m)
                elif isinstance(m, (FieldChange, MethodChange)):
                    walk(m, (kind, l.get_name(), l.get_descriptor(),
                             r.get_descriptor()))
                else:
                    raise Violation("unexpected %r among %s" % (m, kind))
        else:
            walk(c, ())
    return out


def changed(delta):
    return {p: bool(c.is_change()) for p, c in facts(delta).items()}


def compare(got, want, unsure):
    """ got: {path: changed} from the tool; want: from diff_class """
    groups = {}
    for kind, ls, rs in unsure:
        for m in ls + rs:
            groups[kind, m["name"], m["desc"]] = (kind, id(ls))

    # members whose pairing isn't settled: something has to be said of
    # each of them
    said = set()
    for path, c in got.items():
        if len(path) == 5 and c:
            for d in path[2:4]:
                said.add((path[0], path[1], d))
    for kind, ls, rs in unsure:
        for m in ls + rs:
            need((kind, m["name"], m["desc"]) in said,
                 "%s %r %r was added or removed or changed its type, but "
                 "nothing is reported", kind, m["name"], m["desc"])

    for path, w in want.items():
        if w == EITHER:
            continue
        g = got.get(path)
        if w and not g:
            raise Violation("%r has changed, but is reported as %s" %
                            (path, "unchanged" if path in got else
                             "nothing"))
        if not w and g:
            raise Violation("%r is the same, but reported as changed" %
                            (path,))
    for path, g in got.items():
        if not g or path in want or path == ("ClassConstantPool",):
            continue
        if len(path) == 5:
            if any((path[0], path[1], d) in groups for d in path[2:4]):
                continue
            if any(w and p[:4] == path[:4] for p, w in want.items()):
                # (code of a method which lost or gained it)
                continue
        raise Violation("%r is reported as changed" % (path,))


# ---- what is said of either side ----

def dots(name):
    return name.replace("/", ".")


def pretty_type(desc):
    dims = len(desc) - len(desc.lstrip("["))
    base = desc[dims:]
    names = {"B": "byte", "C": "char", "D": "double", "F": "float",
             "I": "int", "J": "long", "S": "short", "Z": "boolean",
             "V": "void"}
    return (names[base] if base in names else dots(base[1:-1])) + "[]" * dims


def split_desc(desc):
    """ (types of the arguments, of the result) """
    args, i = [], 1
    while desc[i] != ")":
        j = i
        while desc[j] == "[":
            j += 1
        j = desc.index(";", j) + 1 if desc[j] == "L" else j + 1
        args.append(desc[i:j])
        i = j
    return tuple(args), desc[i + 1:]


def annos(attrs, which):
    return [pretty_type(a[0]) for a in dm.attr1(attrs, which) or ()]


def common(m, prefix):
    attrs = m["attrs"]
    return {
        prefix + "Signature": dm.attr1(attrs, "Signature"),
        prefix + "Deprecation": bool(dm.find(attrs, "Deprecated")),
        prefix + "Annotations": annos(attrs, "RuntimeVisibleAnnotations"),
        prefix + "InvisibleAnnotations":
        annos(attrs, "RuntimeInvisibleAnnotations")}


def opname(n):
    # (two of them are spelled in another way)
    return get_opname_by_code(bc.CODE[n])


def of_class(m):
    return dict(common(m, "Class"), **{
        "ClassName": dots(m["this"]),
        "ClassVersion": (m["major"], m["minor"]),
        "ClassSuperclass": dots(m["super"] or ""),
        "ClassInterfaces": tuple(map(dots, m["interfaces"]))})


def of_field(m):
    return dict(common(m, "Field"), **{
        "FieldName": m["name"], "FieldType": pretty_type(m["desc"])})


def of_method(m):
    args, ret = split_desc(m["desc"])
    c = dm.attr1(m["attrs"], "Code")
    out = dict(common(m, "Method"), **{
        "MethodName": m["name"], "MethodType": pretty_type(ret),
        "MethodParameters": tuple(map(pretty_type, args)),
        "MethodAbstract": c is None,
        "MethodExceptions": tuple(
            map(dots, dm.attr1(m["attrs"], "Exceptions") or ()))})
    if c is not None:
        out.update({
            "CodeAbsoluteLines": dm.lines(c),
            "CodeRelativeLines": dm.rel_lines(c),
            "CodeStack": c["max_stack"], "CodeLocals": c["max_locals"],
            "CodeException": tuple(
                tuple(x[:3]) + (x[3] and dots(x[3]),)
                for x in c["exceptions"]),
            "CodeBody": [(o, opname(n))
                         for o, n in dm.ops(c["insns"])[0]]})
    return out


def shown(kind, data):
    """ the same of what is reported """
    if kind.endswith("Annotations"):
        return [a.split("(", 1)[0] for a in data]
    if kind in ("ClassInterfaces", "MethodExceptions", "MethodParameters"):
        return tuple(data)
    if kind in ("CodeAbsoluteLines", "CodeRelativeLines"):
        return tuple(map(tuple, data))
    if kind == "ClassVersion":
        return tuple(data)
    if kind == "CodeException":
        return tuple((a, b, c, None if d == "any" else
                      d[6:] if d.startswith("Class ") else d)
                     for a, b, c, d in ast.literal_eval(data))
    if kind == "CodeBody":
        return [tuple(x[:2]) for x in data]
    if kind.endswith("Deprecation") or kind == "MethodAbstract":
        return bool(data)
    return data


def constants(lc, rc):
    """ where code differs in operands """
    offs, _end = bc.offsets(lc["insns"])
    return [(o, opname(i[0])) for o, i, j in zip(offs, lc["insns"], rc["insns"])
            if dm.canon_insn(i) != dm.canon_insn(j)]


def check_values(delta, lm, rm):
    """ changes have the values of their sides """
    members = [{(k, m["name"], m["desc"]): m for k in ("fields", "methods")
                for m in x[k]} for x in (lm, rm)]
    for path, c in facts(delta).items():
        kind = path[-1]
        if len(path) == 1:
            sides = (lm, rm)
            of = of_class
        elif path[2] is None or path[3] is None:
            continue
        else:
            sides = [x.get(path[:2] + (d,))
                     for x, d in zip(members, path[2:4])]
            of = of_field if path[0] == "fields" else of_method
        if None in sides:
            # (paired by something else than their names)
            continue
        for side, m, get in (("left", sides[0], c.pretty_ldata),
                             ("right", sides[1], c.pretty_rdata)):
            want = of(m)
            if kind in want:
                got = get()
                if kind.endswith("Code") or got is None and \
                        not want[kind]:
                    continue
                same(shown(kind, got), want[kind],
                     "%s of %s, on the %s" % (kind, path[:-1], side))
            elif kind == "FieldConstvalue":
                cv = dm.attr1(m["attrs"], "ConstantValue")
                same(get(), repr(cv and cf.value(cv)),
                     "constant of %r, on the %s" % (path[:-1], side))
            elif kind == "CodeConstants" and c.is_change():
                codes = [dm.attr1(x["attrs"], "Code") for x in sides]
                if dm.ops(codes[0]["insns"]) == dm.ops(codes[1]["insns"]):
                    where = {o for o, _n in constants(*codes)}
                    got = get() or ()
                    same([tuple(x[:2]) for x in got],
                         [(o, n) for o, n in constants(*codes)
                          if bc.NAMES[get_opcode_by_name(n)]
                          in bc.HAS_CONST],
                         "constants of %r, on the %s" % (path[:-1], side))
                    need(where, "no operand of %r differs", path)
