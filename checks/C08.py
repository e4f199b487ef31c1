"""
C08: classdiff reports no difference where there is none: not between
two readings of a class, and nothing but the constant pool when merely
the constants are laid out differently.
"""

import os
import random

from hypothesis import strategies as st

from javatools import classdiff, unpack_class

from vlib import classfile as cf
from vlib import classtree as tree
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib import near
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write

RULE = ("a generated class is compared with itself and with copies whose "
        "constants, members, attributes and debug names are laid out "
        "differently; non-trivial when the class has a member or annotation "
        "and the two files differ")


def check_pair(ld, rd, pool_same, ctx):
    delta = classdiff.JavaClassChange(unpack_class(ld), unpack_class(rd))
    delta.check()
    for path, c in tree.changed(delta).items():
        if path == ("ClassConstantPool",) and not pool_same:
            continue
        need(not c, "%r is the same, but reported as changed", path)
    if pool_same:
        need(not delta.is_change(), "the class is reported as changed")
    with Scratch() as d:
        l = write(os.path.join(d, "l.class"), ld)
        r = write(os.path.join(d, "r.class"), rd)
        res = run_main(classdiff.main, ["classdiff", "--ignore-pool", l, r])
        same(res.rc, 0, "exit code with --ignore-pool (%s)" % res.out)
        res = run_main(classdiff.main, ["classdiff", "-q", "--ignore=pool",
                                        l, r])
        same((res.rc, res.out), (0, ""), "quiet with --ignore=pool")
        if pool_same:
            res = run_main(classdiff.main, ["classdiff", l, r])
            same(res.rc, 0, "exit code (%s)" % res.out)


def body_self(case, ctx):
    model, seed = case
    data = cf.write_class(model, order=dm.relayout(model, seed))
    ctx.nontrivial_case(model["fields"] or model["methods"] or
                        model["attrs"])
    check_pair(data, data, True, ctx)


def body_relayout(case, ctx):
    model, s1, s2 = case
    li, ri = cf.Info(), cf.Info()
    ld = cf.write_class(model, order=dm.relayout(model, s1), info=li)
    rd = cf.write_class(model, order=dm.relayout(model, s2), info=ri)
    ctx.nontrivial_case(ld != rd and (
        model["fields"] or model["methods"] or model["attrs"]))
    check_pair(ld, rd, ld == rd, ctx)


def body_rearranged(case, ctx):
    model, s1, s2 = case
    other = dm.rearrange(model, s2)
    ld = cf.write_class(model, order=dm.relayout(model, s1))
    rd = cf.write_class(other, order=dm.relayout(other, s2))
    ctx.nontrivial_case(ld != rd and (
        model["fields"] or model["methods"] or model["attrs"]))
    check_pair(ld, rd, False, ctx)


@st.composite
def with_overloads(draw):
    """ members told apart by their type alone """
    model = draw(g.klass())
    seed = draw(st.integers(0, 10**6))
    rnd = random.Random(seed)
    for kind in ("fields", "methods"):
        ms = list(model[kind])
        have = {(m["name"], m["desc"]) for m in ms}
        for m in list(ms):
            if rnd.random() < .5:
                if kind == "fields":
                    d = near.desc(m["desc"], rnd)
                else:
                    args, ret = dm.split_args(m["desc"])
                    d = args + ("I" if ret != "I" else "V")
                if (m["name"], d) not in have:
                    have.add((m["name"], d))
                    ms.append(dict(m, desc=d, attrs=dm.put(
                        m["attrs"], "ConstantValue", None)))
        rnd.shuffle(ms)
        model = dict(model, **{kind: tuple(ms)})
    return model


seeds = st.integers(0, 10**6)

PROPS = [
    Prop("self", st.tuples(with_overloads(), seeds), body_self,
         quick=700, thorough=20000),
    Prop("relayout", st.tuples(g.klass(), seeds, seeds), body_relayout,
         quick=900, thorough=25000),
    Prop("rearranged", st.tuples(with_overloads(), seeds, seeds),
         body_rearranged, quick=900, thorough=25000),
]
