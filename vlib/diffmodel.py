"""
What changed between two class models: an independent account of which
facts of a class differ, and mutations to make such pairs from one
class model and a donor of parts.
"""

import random

from . import bytecode as bc
from . import classfile as cf
from . import near

# a fact may be left undecided: the same things in another order
EITHER = "either"

PLATFORM = {46: "1.2", 47: "1.3", 48: "1.4", 49: "1.5", 50: "1.6",
            51: "1.7", 52: "1.8"}


def platform(major, minor):
    if major == 45:
        return "1.0.2" if minor <= 3 else "1.1"
    return PLATFORM.get(major)


def split_args(desc):
    return desc[:desc.index(")") + 1], desc[desc.index(")") + 1:]


def find(attrs, name):
    return cf.find_attr(attrs, name)


def attr1(attrs, name):
    a = cf.find_attr(attrs, name)
    return a[1] if a else None


def canon(const):
    """ constants are the same when of one kind and worth the same """
    return (const[0], repr(cf.value(const)))


def canon_val(v):
    t = v[0]
    if t in "BCDFIJSZ":
        return (t, canon(v[1]))
    if t == "@":
        return (t, canon_anno(v[1]))
    if t == "[":
        return (t, tuple(canon_val(x) for x in v[1]))
    return tuple(v)


def canon_anno(a):
    return (a[0], tuple(sorted((n, canon_val(v)) for n, v in a[1])))


def canon_insn(ins):
    return tuple(canon(x) if isinstance(x, tuple) and x and
                 isinstance(x[0], str) and x[0] in cf.TAG else x
                 for x in ins)


def ordered(left, right):
    """ of sequences: equal, different, or just in another order """
    if left == right:
        return False
    if sorted(map(repr, left)) == sorted(map(repr, right)):
        return EITHER
    return True


def diff_annos(la, ra, which):
    left = [canon_anno(a) for a in attr1(la, which) or ()]
    right = [canon_anno(a) for a in attr1(ra, which) or ()]
    return ordered(left, right)


def diff_common(lm, rm, prefix):
    la, ra = lm["attrs"], rm["attrs"]
    return {
        prefix + "Deprecation": bool(find(la, "Deprecated")) !=
        bool(find(ra, "Deprecated")),
        prefix + "Signature": attr1(la, "Signature") !=
        attr1(ra, "Signature"),
        prefix + "Annotations":
        diff_annos(la, ra, "RuntimeVisibleAnnotations"),
        prefix + "InvisibleAnnotations":
        diff_annos(la, ra, "RuntimeInvisibleAnnotations")}


def lines(code):
    return tuple(attr1(code["attrs"], "LineNumberTable") or ())


def rel_lines(code):
    t = lines(code)
    return tuple((pc, n - t[0][1]) for pc, n in t)


def ops(insns):
    offs, end = bc.offsets(insns)
    return [(o, i[0]) for o, i in zip(offs, insns)], end


def diff_code(lc, rc):
    """ {fact: differs} of two code attributes """
    lb, rb = ops(lc["insns"]), ops(rc["insns"])
    lx = [tuple(x) for x in lc["exceptions"]]
    rx = [tuple(x) for x in rc["exceptions"]]
    same_ops = lb == rb
    same_insns = [canon_insn(i) for i in lc["insns"]] == \
        [canon_insn(i) for i in rc["insns"]]
    return {
        "AbsoluteLines": ordered(lines(lc), lines(rc)),
        "RelativeLines": ordered(rel_lines(lc), rel_lines(rc)),
        "Stack": lc["max_stack"] != rc["max_stack"],
        "Locals": lc["max_locals"] != rc["max_locals"],
        "Exception": lx != rx,
        "Body": not same_ops,
        # (the opcodes are the same, but not their operands)
        "Constants": EITHER if not same_ops else not same_insns}


def diff_field(lm, rm):
    d = diff_common(lm, rm, "Field")
    lv = attr1(lm["attrs"], "ConstantValue")
    rv = attr1(rm["attrs"], "ConstantValue")
    differ = (lv and canon(lv)) != (rv and canon(rv))
    if differ and lv and rv and lm["desc"] != rm["desc"] and \
            cf.value(lv) == cf.value(rv):
        # 0 of one type and 0 of another
        differ = EITHER
    d.update({"FieldName": lm["name"] != rm["name"],
              "FieldType": lm["desc"] != rm["desc"],
              "FieldAccessflags": lm["access"] != rm["access"],
              "FieldConstvalue": differ})
    return d


def diff_method(lm, rm):
    d = diff_common(lm, rm, "Method")
    largs, lret = split_args(lm["desc"])
    rargs, rret = split_args(rm["desc"])
    lc, rc = attr1(lm["attrs"], "Code"), attr1(rm["attrs"], "Code")
    d.update({
        "MethodName": lm["name"] != rm["name"],
        "MethodType": lret != rret,
        "MethodParameters": largs != rargs,
        "MethodAccessflags": lm["access"] != rm["access"],
        "MethodExceptions": ordered(
            tuple(attr1(lm["attrs"], "Exceptions") or ()),
            tuple(attr1(rm["attrs"], "Exceptions") or ())),
        "MethodAbstract": bool(lc) != bool(rc)})
    if lc and rc:
        for k, v in diff_code(lc, rc).items():
            d["Code" + k] = v
    return d


def identifier(m):
    if m["desc"][0] != "(":
        return m["name"]
    ident = m["name"] + split_args(m["desc"])[0]
    return ident + m["desc"] if m["access"] & 0x40 else ident


def pair_members(left, right):
    """
    (pairs, added, removed, unsure): members with the same name and
    descriptor are one and the same.  What is left may be told to be
    the same one with another type when only the name (and arguments)
    agree; unsure when there are several of them.
    """
    key = lambda m: (m["name"], m["desc"])
    lk = {key(m): m for m in left}
    rk = {key(m): m for m in right}
    pairs = [(lk[k], rk[k]) for k in lk if k in rk]
    lrest = [m for k, m in lk.items() if k not in rk]
    rrest = [m for k, m in rk.items() if k not in lk]
    added, removed, unsure = [], [], []
    names = {}
    for side, ms in ((0, lrest), (1, rrest)):
        for m in ms:
            # (a bridge has an identifier of its own)
            base = m["name"] + (split_args(m["desc"])[0]
                                if m["desc"][0] == "(" else "")
            names.setdefault(base, ([], []))[side].append(m)
    for ls, rs in names.values():
        if not ls:
            added.extend(rs)
        elif not rs:
            removed.extend(ls)
        elif len(ls) == len(rs) == 1 and \
                not (ls[0]["access"] | rs[0]["access"]) & 0x40:
            pairs.append((ls[0], rs[0]))
        else:
            unsure.append((ls, rs))
    return pairs, added, removed, unsure


def diff_info(lm, rm):
    """ {fact: differs} of the class as such """
    d = {k: v for k, v in diff_common(lm, rm, "Class").items()}
    lv, rv = (lm["major"], lm["minor"]), (rm["major"], rm["minor"])
    d.update({"ClassName": lm["this"] != rm["this"],
              "ClassVersion": lv != rv,
              "ClassSuperclass": lm["super"] != rm["super"],
              "ClassInterfaces": ordered(lm["interfaces"],
                                         rm["interfaces"]),
              "ClassAccessflags": lm["access"] != rm["access"]})
    if lv == rv:
        d["ClassPlatform"] = False
    elif max(lv, rv) < (53, 0) and min(lv, rv) >= (45, 0):
        d["ClassPlatform"] = platform(*lv) != platform(*rv)
    else:
        d["ClassPlatform"] = EITHER
    return d


def diff_class(lm, rm):
    """
    {path: differs} where path is (fact,) of the class itself, or
    (kind, name, desc, desc on the right, fact).  Members which were
    added or removed have the fact "Added" and "Removed"; those of
    which it isn't sure which one they became are not listed
    """
    out = {(k,): v for k, v in diff_info(lm, rm).items()}
    unsure = []
    for kind, diff in (("fields", diff_field), ("methods", diff_method)):
        pairs, added, removed, un = pair_members(lm[kind], rm[kind])
        for l, r in pairs:
            for k, v in diff(l, r).items():
                out[kind, l["name"], l["desc"], r["desc"], k] = v
        for m in added:
            out[kind, m["name"], None, m["desc"], "Added"] = True
        for m in removed:
            out[kind, m["name"], m["desc"], None, "Removed"] = True
        unsure.extend((kind, ls, rs) for ls, rs in un)
    return out, unsure


# ---- making pairs ----

def put(attrs, name, val):
    """ set, replace (or with None: drop) an attribute """
    out = tuple(a for a in attrs if a[0] != name)
    return out if val is None else out + (val,)


def tweak_const(c, rnd):
    k = c[0]
    if k in ("Integer",):
        return (k, c[1] ^ (1 << rnd.randrange(31)))
    if k in ("Float", "Double"):
        # (one bit, but never from one NaN to another)
        bits = 32 if k == "Float" else 64
        if rnd.random() < .4:
            # from a zero to the other zero, which `==` has as the same
            zeros = (0, 1 << (bits - 1))
            if c[1] in zeros:
                return (k, c[1] ^ zeros[1])
            return (k, rnd.choice(zeros))
        for _n in range(50):
            n = (k, c[1] ^ rnd.choice([1, 1 << rnd.randrange(bits)]))
            if canon(n) != canon(c):
                return n
        return (k, 0x3f800000)
    if k == "Long":
        return (k, c[1] ^ (1 << rnd.randrange(63)))
    if k == "MethodHandle":
        if rnd.random() < .3:
            kinds = range(1, 5) if c[2][0] == "Fieldref" else range(5, 9)
            return (k, rnd.choice([x for x in kinds if x != c[1]]), c[2])
        return (k, c[1], tweak_const(c[2], rnd))
    if k in ("Dynamic", "InvokeDynamic"):
        if rnd.random() < .4:
            return (k, (c[1] + 1) % 65536) + c[2:]
        if rnd.random() < .5:
            return (k, c[1], near.ident(c[2], rnd), c[3])
        return c[:3] + (near.desc(c[3], rnd),)
    if k in ("Fieldref", "Methodref", "InterfaceMethodref"):
        n = rnd.randrange(3)
        if n == 2:
            return c[:3] + (near.desc(c[3], rnd),)
        return c[:n + 1] + ((near.ident if n else near.name)(
            c[n + 1], rnd),) + c[n + 2:]
    if k == "MethodType":
        return (k, near.desc(c[1], rnd))
    if k == "Class":
        return (k, near.name(c[1], rnd))
    return c[:1] + (near.text(c[1], rnd),) + c[2:]


def kind_swap(c, rnd):
    """ worth the same, but of another kind """
    k = c[0]
    if k == "String":
        return ("Class", c[1]) if c[1] and c[1][0] != "[" else None
    if k == "Class":
        return ("String", c[1])
    if k == "Methodref":
        return ("InterfaceMethodref",) + c[1:]
    if k == "InterfaceMethodref":
        return ("Methodref",) + c[1:]
    return None


def tweak_insn(ins, rnd):
    n = ins[0]
    out = list(ins)
    if n in bc.HAS_CONST and (len(ins) < 3 or rnd.random() < .7):
        c = None
        if rnd.random() < .3:
            c = kind_swap(ins[1], rnd)
        out[1] = c or tweak_const(ins[1], rnd)
    elif n in ("invokeinterface", "multianewarray"):
        out[2] = 1 + ins[2] % 255
    elif n == "bipush":
        out[1] = (ins[1] + 129) % 256 - 128
    elif n == "sipush" or n in bc.BRANCH2:
        out[1] = ins[1] ^ (1 << rnd.randrange(15))
    elif n in bc.BRANCH4:
        out[1] = ins[1] ^ (1 << rnd.randrange(31))
    elif n in bc.U1:
        out[1] = ins[1] ^ (1 << rnd.randrange(8))
    elif n == "iinc":
        if rnd.random() < .5:
            out[1] = ins[1] ^ (1 << rnd.randrange(8))
        else:
            out[2] = (ins[2] + 129) % 256 - 128
    elif n == "wide":
        what = rnd.randrange(3)
        if what == 0 and ins[1] != "iinc":
            out[1] = "istore" if ins[1] != "istore" else "fload"
        elif what == 1 and ins[1] == "iinc":
            out[3] = ins[3] ^ (1 << rnd.randrange(15))
        else:
            out[2] = ins[2] ^ (1 << rnd.randrange(16))
    elif n == "tableswitch":
        if rnd.random() < .5:
            out[1] = ins[1] ^ (1 << rnd.randrange(31))
        elif rnd.random() < .3 and ins[2] < 2**31 - 1 - len(ins[3]):
            # the same targets for other numbers
            out[2] = ins[2] + 1
        else:
            offs = list(ins[3])
            i = rnd.randrange(len(offs))
            offs[i] ^= 1 << rnd.randrange(31)
            out[3] = tuple(offs)
    elif n == "lookupswitch":
        pairs = [list(x) for x in ins[2]]
        if pairs and rnd.random() < .6:
            i = rnd.randrange(len(pairs))
            if rnd.random() < .4 and i == len(pairs) - 1 and \
                    pairs[i][0] < 2**31 - 1:
                pairs[i][0] += 1
            else:
                pairs[i][1] ^= 1 << rnd.randrange(31)
            out[2] = tuple(tuple(x) for x in pairs)
        else:
            out[1] = ins[1] ^ (1 << rnd.randrange(31))
    else:
        return ("nop",) if n != "nop" else ("dup",)
    return tuple(out)


def tweak_val(v, rnd):
    t = v[0]
    if t in "BCDFIJSZ":
        same_int = [x for x in "BCISZ" if x != t]
        if t in "BCISZ" and rnd.random() < .4:
            return (rnd.choice(same_int), v[1])
        return (t, tweak_const(v[1], rnd))
    if t == "s":
        return (t, near.text(v[1], rnd))
    if t == "c":
        return (t, near.desc(v[1], rnd))
    if t == "e":
        if rnd.random() < .5:
            return (t, near.desc(v[1], rnd), v[2])
        return (t, v[1], near.text(v[2], rnd))
    if t == "@":
        return (t, tweak_anno(v[1], rnd))
    vals = list(v[1])
    if vals and rnd.random() < .6:
        i = rnd.randrange(len(vals))
        vals[i] = tweak_val(vals[i], rnd)
    elif vals and rnd.random() < .5:
        vals.pop()
    else:
        vals.append(("s", "more"))
    return (t, tuple(vals))


def tweak_anno(a, rnd):
    vals = list(a[1])
    what = rnd.randrange(6)
    if what == 4:
        return (near.desc(a[0], rnd), a[1])
    if vals and what == 5:
        i = rnd.randrange(len(vals))
        n = near.ident(vals[i][0], rnd)
        if n not in [x[0] for x in vals]:
            vals[i] = (n, vals[i][1])
            return (a[0], tuple(vals))
    if vals and what < 2:
        i = rnd.randrange(len(vals))
        vals[i] = (vals[i][0], tweak_val(vals[i][1], rnd))
    elif vals and what == 2:
        vals.pop(rnd.randrange(len(vals)))
    elif what == 3:
        return ("La/Other;" if a[0] != "La/Other;" else "La/B;", a[1])
    else:
        vals.append(("fresh" + "x" * len(vals), ("s", "")))
    return (a[0], tuple(vals))


def mutate_attrs(obj, rnd, donor):
    """ one of the attributes any of class, field, method may have """
    attrs = obj["attrs"]
    what = rnd.randrange(4)
    if what == 0:
        new = put(attrs, "Deprecated",
                  None if find(attrs, "Deprecated") else ("Deprecated",))
    elif what == 1:
        old = attr1(attrs, "Signature")
        val = rnd.choice([None, "TT;", "Ljava/util/List<TX;>;",
                          "Ljava/util/List<TY;>;",
                          near.text(old or "TT;", rnd)])
        new = put(attrs, "Signature", val and ("Signature", val))
        if val == old:
            new = put(attrs, "Signature", ("Signature", "TFresh;"))
    else:
        n = cf.ANNO_ATTRS[what - 2]
        annos = list(attr1(attrs, n) or ())
        other = list(attr1(donor["attrs"], n) or ())
        how = rnd.randrange(3)
        if annos and how == 0:
            i = rnd.randrange(len(annos))
            annos[i] = tweak_anno(annos[i], rnd)
        elif annos and how == 1:
            annos.pop(rnd.randrange(len(annos)))
        else:
            annos += other[:1] or [("La/Fresh;", ())]
        new = put(attrs, n, (n, tuple(annos)) if annos or rnd.random() < .5
                  else None)
    return dict(obj, attrs=new)


def mutate_lines(code, rnd):
    tab = list(lines(code))
    how = rnd.randrange(5)
    if not tab:
        tab = [(0, 7)]
    elif how == 0:
        d = rnd.choice([1, 2, 100])
        tab = [(pc, n + d) for pc, n in tab]
    elif how == 1:
        i = rnd.randrange(len(tab))
        tab[i] = (tab[i][0], tab[i][1] + 1)
    elif how == 2:
        tab.pop(rnd.randrange(len(tab)))
    elif how == 3:
        tab.pop(0)
    else:
        tab = []
    val = ("LineNumberTable", tuple(tab)) if tab else None
    return dict(code, attrs=put(code["attrs"], "LineNumberTable", val))


def clean_lines(code):
    """ drop the lines, variables and handlers which are off the code """
    offs, end = bc.offsets(code["insns"])
    attrs = []
    for a in code["attrs"]:
        if a[0] == "LineNumberTable":
            tab = tuple(x for x in a[1] if x[0] in offs)
            if tab:
                attrs.append((a[0], tab))
        elif a[0] in ("LocalVariableTable", "LocalVariableTypeTable"):
            attrs.append((a[0], tuple(x for x in a[1] if x[0] in offs)))
        else:
            attrs.append(a)
    exc = tuple(x for x in code["exceptions"]
                if x[0] in offs and x[2] in offs and
                (x[1] in offs or x[1] == end))
    return dict(code, attrs=tuple(attrs), exceptions=exc)


def mutate_code(code, rnd, donor):
    how = rnd.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8])
    insns = list(code["insns"])
    if how == 0:
        return dict(code, max_stack=(code["max_stack"] + 1) % 65536)
    if how == 1:
        return dict(code, max_locals=(code["max_locals"] + 1) % 65536)
    if how == 2:
        return mutate_lines(code, rnd)
    if how == 3:
        exc = [list(x) for x in code["exceptions"]]
        offs, end = bc.offsets(insns)
        if exc and rnd.random() < .7:
            i = rnd.randrange(len(exc))
            j = rnd.choice([0, 1, 2, 3, 3])
            if j == 3:
                exc[i][3] = rnd.choice(
                    [None, "a/Exc", "java/lang/Exc",
                     near.name(exc[i][3] or "a/Exc", rnd)])
            else:
                exc[i][j] = rnd.choice(offs + ([end] if j == 1 else []))
        else:
            exc.append([offs[0], end, rnd.choice(offs),
                        rnd.choice([None, "a/Exc"])])
        return dict(code, exceptions=tuple(tuple(x) for x in exc))
    if how == 4 and len(insns) > 1:
        insns.pop(rnd.randrange(len(insns)))
    elif how == 5:
        pool = [i for m in donor["methods"]
                for i in (attr1(m["attrs"], "Code") or
                          {"insns": ()})["insns"]] or [("nop",)]
        insns.insert(rnd.randrange(len(insns) + 1), rnd.choice(pool))
    else:
        i = rnd.randrange(len(insns))
        insns[i] = tweak_insn(insns[i], rnd)
    return clean_lines(dict(code, insns=tuple(insns)))


def mutate_field(f, rnd, donor):
    how = rnd.randrange(6)
    if how == 0:
        return dict(f, access=f["access"] ^ rnd.choice(
            [1, 2, 4, 8, 0x10, 0x40, 0x80, 0x1000, 0x4000]))
    if how == 1:
        return dict(f, desc=near.desc(f["desc"], rnd),
                    attrs=put(f["attrs"], "ConstantValue", None))
    if how in (2, 3):
        old = attr1(f["attrs"], "ConstantValue")
        if old is None:
            kind = {"J": ("Long", 5), "F": ("Float", 1 << 31),
                    "D": ("Double", 1 << 63)}.get(
                        f["desc"], ("Integer", 5) if f["desc"] in "BCISZ"
                        else ("String", "s"))
            new = ("ConstantValue", kind)
        elif rnd.random() < .8:
            new = ("ConstantValue", tweak_const(old, rnd))
        else:
            new = None
        return dict(f, attrs=put(f["attrs"], "ConstantValue", new))
    return mutate_attrs(f, rnd, donor)


def mutate_method(m, rnd, donor):
    how = rnd.randrange(10)
    code = attr1(m["attrs"], "Code")
    if how == 0:
        return dict(m, access=m["access"] ^ rnd.choice(
            [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x400, 0x1000]))
    if how == 1:
        args, ret = split_args(m["desc"])
        return dict(m, desc=args + near.typ(ret, rnd)
                    if rnd.random() < .7 else near.desc(m["desc"], rnd))
    if how == 2:
        exc = list(attr1(m["attrs"], "Exceptions") or ())
        if exc and rnd.random() < .6:
            i = rnd.randrange(len(exc))
            exc[i] = near.name(exc[i], rnd)
        else:
            exc.append("a/NewExc")
        return dict(m, attrs=put(m["attrs"], "Exceptions",
                                 ("Exceptions", tuple(exc))))
    if how == 3:
        return mutate_attrs(m, rnd, donor)
    if code is None:
        if how == 4:
            code = {"max_stack": 1, "max_locals": 1,
                    "insns": (("return",),), "exceptions": (), "attrs": ()}
            return dict(m, attrs=put(m["attrs"], "Code", ("Code", code)))
        return mutate_attrs(m, rnd, donor)
    if how == 4 and rnd.random() < .4:
        return dict(m, attrs=put(m["attrs"], "Code", None))
    return dict(m, attrs=put(m["attrs"], "Code",
                             ("Code", mutate_code(code, rnd, donor))))


CLASS_BITS = [1, 0x10, 0x20, 0x200, 0x400, 0x1000, 0x2000, 0x4000]


def mutate_class(cls, seed, donor):
    """ one change somewhere in the class """
    rnd = random.Random(seed)
    how = rnd.randrange(14)
    if how == 0:
        return dict(cls, this=near.name(cls["this"], rnd))
    if how == 1:
        how = rnd.randrange(3)
        if how == 0:
            return dict(cls, minor=(cls["minor"] + 1) % 65536)
        return dict(cls, major=max(44, cls["major"] + rnd.choice(
            [-2, -1, 1, 2])))
    if how == 2:
        return dict(cls, super=near.name(cls["super"], rnd)
                    if cls["super"] else "java/lang/Object")
    if how == 3:
        ifs = list(cls["interfaces"])
        if ifs and rnd.random() < .5:
            i = rnd.randrange(len(ifs))
            n = near.name(ifs[i], rnd)
            if n in ifs or rnd.random() < .4:
                ifs.pop(i)
            else:
                ifs[i] = n
        elif "a/Iface" not in ifs:
            ifs.append("a/Iface")
        return dict(cls, interfaces=tuple(ifs))
    if how == 4:
        return dict(cls, access=cls["access"] ^ rnd.choice(CLASS_BITS))
    if how == 5:
        return mutate_attrs(cls, rnd, donor)
    kind = "fields" if how < 9 else "methods"
    ms = list(cls[kind])
    what = rnd.randrange(10)
    if what == 0 and ms:
        ms.pop(rnd.randrange(len(ms)))
    elif what == 1 or not ms:
        have = {(m["name"], m["desc"]) for m in ms}
        for m in donor[kind] or ({"access": 1, "name": "fresh", "desc":
                                  "I" if kind == "fields" else "()V",
                                  "attrs": ()},):
            if (m["name"], m["desc"]) not in have:
                ms.append(m)
                break
    elif what == 2:
        i = rnd.randrange(len(ms))
        new = dict(ms[i], name=near.ident(ms[i]["name"], rnd))
        if not any((m["name"], m["desc"]) == (new["name"], new["desc"])
                   for m in ms):
            ms[i] = new
    elif what == 3:
        # an overload, told apart by its (return) type alone
        m = rnd.choice(ms)
        if kind == "fields":
            d = near.desc(m["desc"], rnd)
        else:
            args, ret = split_args(m["desc"])
            d = args + ("I" if ret != "I" else "V")
        if not any((x["name"], x["desc"]) == (m["name"], d) for x in ms):
            ms.append(dict(m, desc=d, attrs=put(
                m["attrs"], "ConstantValue", None)))
    else:
        i = rnd.randrange(len(ms))
        new = (mutate_field if kind == "fields" else mutate_method)(
            ms[i], rnd, donor)
        if not any((m["name"], m["desc"]) == (new["name"], new["desc"])
                   for j, m in enumerate(ms) if j != i):
            ms[i] = new
    return dict(cls, **{kind: tuple(ms)})


def relayout(model, seed):
    """ an order for the constants, ldc ones first """
    rnd = random.Random(seed)
    order = cf.pool_order(model)
    ldc = cf.ldc_consts(model)
    rest = [c for c in order if c not in ldc]
    rnd.shuffle(ldc)
    rnd.shuffle(rest)
    return tuple(ldc + rest)


def rearrange(cls, seed):
    """ the same class: members and attributes in another order, other
    constants nobody uses, and other debug information """
    rnd = random.Random(seed)

    def mix(seq):
        seq = list(seq)
        rnd.shuffle(seq)
        return tuple(seq)

    def member(m):
        attrs = mix(m["attrs"])
        code = attr1(attrs, "Code")
        if code:
            attrs = put(attrs, "Code", ("Code", dict(
                code, attrs=mix(code["attrs"]))))
        return dict(m, attrs=attrs)

    return dict(cls, fields=mix(member(m) for m in cls["fields"]),
                methods=mix(member(m) for m in cls["methods"]),
                attrs=mix(cls["attrs"]),
                extra=cls["extra"] + (("Integer", rnd.randrange(9)),
                                      ("String", "unused")))
