"""
C02: method bodies: the disassembly, line numbers, handlers and local
variable tables are those of the bytecode.
"""

import bisect
import random

from hypothesis import strategies as st

import javatools
from javatools import unpack_class, opcodes

from vlib import bytecode as bc
from vlib import gen_class as g
from vlib import classfile as cf
from vlib.harness import Prop, Enum, Violation
from vlib.trees import fraction
from vlib.util import need, same, truth

RULE = ("instruction sequences over all 202 opcodes (wide forms, switches at "
        "every alignment, constants, branches) are assembled by an "
        "independent assembler and disassembled by javatools; code "
        "attributes with generated line tables (in and out of order), "
        "handlers and variable tables are written and read back; non-trivial "
        "when there are two or more instructions with operands, or a line "
        "table with two or more entries")

OTHER = {"monitorenter": "monitorentry"}


def flat(args):
    """ the operand values in order, however they are nested: jump
    tables come as a sequence of numbers, or of tuples of them """
    out = []
    for a in args:
        if isinstance(a, (list, tuple)):
            out.extend(flat(a))
        else:
            out.append(a)
    return tuple(out)


def check_listing(got, want):
    got = [(o, c, flat(a)) for o, c, a in got]
    want = [(o, c, flat(a)) for o, c, a in want]
    if got == want:
        return
    for i, (x, y) in enumerate(zip(got, want)):
        if x != y:
            raise Violation("instruction %d is %r, expected %r" % (i, x, y))
    raise Violation("%d instructions, expected %d" % (len(got), len(want)))


def body_dis(case, ctx):
    insns, = case
    ops = {}

    def index(c):
        return ops.setdefault(c, len(ops) + 1)
    code, listing = bc.assemble(insns, index)
    ctx.nontrivial_case(sum(1 for x in listing if x[2]) >= 2)
    for ins in insns:
        if ins[0] in ("tableswitch", "lookupswitch", "wide"):
            ctx.hit(ins[0])
    for kind in (bytes, memoryview, bytearray):
        check_listing(list(opcodes.disassemble(kind(code))), listing)
    for _o, c, _a in listing:
        n = opcodes.get_opname_by_code(c)
        same(opcodes.get_opcode_by_name(n), c, "code of " + n)
        same(opcodes.get_opcode_by_name(n.upper()), c, "code of " + n)


def cases_ops():
    # every opcode: its name, size and whether it has a constant
    return [(n,) for n in bc.NAMES]


def body_op(case, ctx):
    name, = case
    c = bc.CODE[name]
    ctx.nontrivial_case()
    need(opcodes.get_opname_by_code(c) in (name, OTHER.get(name)),
         "name of opcode %#x", c)
    same(opcodes.get_opcode_by_name(opcodes.get_opname_by_code(c)), c,
         "code of " + name)
    truth(opcodes.has_const_arg(c), name in bc.HAS_CONST,
          "%s has a constant argument" % name)
    truth(opcodes.get_arg_format(c), name not in bc.PLAIN,
          "%s has arguments" % name)
    const = getattr(opcodes, "OP_" + OTHER.get(name, name))
    same(const, c, "OP_" + name)


# ---------------------------------------------------------------------

def expected_line(table, pc):
    """ line of the last entry at or before pc; 0 without one """
    line = 0
    for start, l in sorted(table):
        if start <= pc:
            line = l
    return line


def body_code(case, ctx):
    cls, = case
    m = cls["methods"][0]
    c = cf.find_attr(m["attrs"], "Code")[1]
    info = cf.Info()
    data = cf.write_class(cls, info=info)
    ci = unpack_class(data)
    code = ci.methods[0].get_code()
    need(code is not None, "no code")
    check_code(code, c, info, ctx)


def check_code(code, c, info, ctx):
    same(code.max_stack, c["max_stack"], "max_stack")
    same(code.max_locals, c["max_locals"], "max_locals")
    same(bytes(code.code), info.codes[id(c)], "bytecode")
    listing = info.listings[id(c)]
    check_listing(code.disassemble(), listing)

    same(len(code.exceptions), len(c["exceptions"]), "handlers")
    for e, (s, t, h, cls) in zip(code.exceptions, c["exceptions"]):
        same((e.start_pc, e.end_pc, e.handler_pc), (s, t, h), "handler")
        same(e.get_catch_type(), cls, "caught type")
        same(e.pretty_catch_type(),
             "Class " + cls.replace("/", ".") if cls else "any",
             "pretty caught type")

    lnt = cf.find_attr(c["attrs"], "LineNumberTable")
    lnt = lnt[1] if lnt else ()
    same(tuple(code.get_linenumbertable()), tuple(lnt), "line table")
    base = lnt[0][1] if lnt else 0
    same(tuple(code.get_relativelinenumbertable()),
         tuple((o, l - base) for o, l in lnt), "relative line table")
    for name, got in (("LocalVariableTable", code.get_localvariabletable()),
                      ("LocalVariableTypeTable",
                       code.get_localvariabletypetable())):
        a = cf.find_attr(c["attrs"], name)
        want = a[1] if a else ()
        ix = info.pool.index
        want = tuple((s, ln, ix[("Utf8", n)], ix[("Utf8", d)], i)
                     for s, ln, n, d, i in want)
        same(tuple(got), want, name)

    for off, _c, _a in listing:
        same(code.get_line_for_offset(off),
             expected_line(lnt, off), "line of offset %d" % off)

    # grouping by line loses no instruction, keeps their order, and the
    # groups are the maximal runs of a line
    groups = [(a, r, list(d)) for a, r, d in code.iter_code_by_lines()]
    check_listing([i for _a, _r, d in groups for i in d], listing)
    if lnt:
        prev = None
        for absl, rel, dis in groups:
            need(len(dis) > 0, "an empty group for line %r", absl)
            need(absl != prev, "two adjoining groups for line %r", absl)
            prev = absl
            same(rel, absl - base, "relative line of %r" % absl)
            for i in dis:
                same(expected_line(lnt, i[0]), absl,
                     "line of the instruction at %d" % i[0])
        ctx.hit("line table")
        if list(lnt) != sorted(lnt):
            ctx.hit("line table out of order")
        if lnt[0][0] and list(lnt) == sorted(lnt):
            ctx.hit("first line starts late")
        if len({a for a, _r, _d in groups}) < len(groups):
            ctx.hit("line seen in several runs")
    else:
        same(len(groups), 1, "groups without a line table")
    if c["exceptions"]:
        ctx.hit("handlers")
    ctx.nontrivial_case(len(lnt) > 1 or
                        sum(1 for x in listing if x[2]) >= 2)


@st.composite
def case_code(draw):
    c = draw(g.code(20))
    return (one_method(c),)


def body_long(case, ctx):
    """ methods as long as they may be, with long tables """
    n, step, run, seed, at = case
    rnd = random.Random(seed)
    insns = [("nop",), ("sipush", 7), ("pop",)] * (n // 3)
    offs, end = bc.offsets(insns)
    lnt = [(o, (i // run) % 65536) for i, o in enumerate(offs[::step])]
    how = seed % 3
    if how == 1:
        lnt.reverse()
    elif how == 2:
        rnd.shuffle(lnt)
    c = {"max_stack": 65535, "max_locals": 65535, "insns": tuple(insns),
         "exceptions": tuple((offs[i], end, offs[-1 - i], None)
                             for i in range(0, len(offs), 97)),
         "attrs": (("LineNumberTable", tuple(lnt)),)}
    info = cf.Info()
    ci = unpack_class(cf.write_class(one_method(c), info=info))
    code = ci.methods[0].get_code()
    same(bytes(code.code), info.codes[id(c)], "bytecode")
    listing = info.listings[id(c)]
    check_listing(code.disassemble(), listing)
    same(tuple((e.start_pc, e.end_pc, e.handler_pc)
               for e in code.exceptions),
         tuple(x[:3] for x in c["exceptions"]), "handlers")
    same(tuple(code.get_linenumbertable()), tuple(lnt), "line table")
    base = lnt[0][1]
    same(tuple(code.get_relativelinenumbertable()),
         tuple((o, l - base) for o, l in lnt), "relative line table")
    table = sorted(lnt)
    for i in {len(offs) - 1, 0} | {int(x * (len(offs) - 1)) for x in at}:
        k = bisect.bisect_right(table, (offs[i], 65536)) - 1
        same(code.get_line_for_offset(offs[i]), table[k][1],
             "line of offset %d" % offs[i])
    ctx.nontrivial_case(n > 4096)


def one_method(c):
    return {"major": 52, "minor": 0, "access": 1, "this": "T",
            "super": "java/lang/Object", "interfaces": (), "fields": (),
            "methods": ({"access": 1, "name": "m", "desc": "()V",
                         "attrs": (("Code", c),)},),
            "attrs": (), "extra": ()}


case_long = st.tuples(
    fraction.map(lambda x: 99 + int(x * 39000)), st.sampled_from([1, 1, 2, 5]),
    st.sampled_from([1, 2, 300]), st.integers(0, 999),
    st.lists(fraction, max_size=5))

def body_handlers(case, ctx):
    """ handlers of two classes: what they are, and which are the same """
    handlers, extra, insns = case
    got = []
    for hs, ex, more in ((handlers, extra, ()),
                         (handlers[::-1], extra[::-1], extra[:1])):
        c = {"max_stack": 1, "max_locals": 1, "insns": insns,
             "exceptions": hs, "attrs": ()}
        cls = dict(one_method(c), extra=ex, interfaces=tuple(
            x[1] for x in more if x[0] == "Class"))
        code = unpack_class(cf.write_class(cls)).methods[0].get_code()
        same(len(code.exceptions), len(hs), "handlers")
        got.extend(zip(code.exceptions, hs))
    for e, (start, end, at, catch) in got:
        same(tuple(e.info()), (start, end, at, catch), "handler")
        same((e.start_pc, e.end_pc, e.handler_pc), (start, end, at),
             "handler")
        same(e.get_catch_type(), catch, "caught type")
    for a, x in got:
        for b, y in got:
            same(bool(a == b), x == y, "%r is the same as %r" % (x, y))
            same(bool(a != b), x != y, "%r isn't the same as %r" % (x, y))
    need(not got or got[0][0] != None, "a handler is None")  # noqa: E711
    ctx.nontrivial_case(len(set(handlers)) > 1)
    if len(set(handlers)) < len(handlers):
        ctx.hit("handlers which are the same")
    if any(h[3] is None for h in handlers):
        ctx.hit("any")


pcs = st.sampled_from([0, 1, 1, 2, 255, 256, 65535])
case_handlers = st.tuples(
    st.lists(st.tuples(pcs, pcs, pcs, st.sampled_from(
        [None, "a/E", "a/e", "b/E", "E", "any", "java/lang/Throwable",
         "[I", "None"])), min_size=1, max_size=5).map(tuple),
    st.lists(st.sampled_from([
        ("Class", "a/E"), ("Class", "b/E"), ("Integer", 1), ("Long", 1),
        ("Class", "java/lang/Throwable"), ("Utf8", "E"), ("Double", 0)]),
        unique=True, max_size=5).map(tuple),
    st.sampled_from([(("nop",),), (("return",),) * 3, (("nop",),) * 300]))

PROPS = [
    Prop("handlers", case_handlers, body_handlers, quick=800,
         thorough=20000),
    Enum("opcodes", cases_ops, body_op),
    Prop("disassemble", st.tuples(st.lists(g.insn, min_size=1, max_size=25)
                                  .map(tuple)), body_dis,
         quick=2500, thorough=80000),
    Prop("code", case_code(), body_code, quick=2500, thorough=60000),
    Prop("long", case_long, body_long, quick=60, thorough=1500),
]
