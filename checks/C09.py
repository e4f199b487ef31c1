"""
C09: classdiff misses no change: every fact of the class, its members
and their code which differs is reported, under that very member, and
only those are.
"""

import os
import random

from hypothesis import strategies as st

from javatools import classdiff, unpack_class

from vlib import bytecode as bc
from vlib import classfile as cf
from vlib import classtree as tree
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write

RULE = ("a generated class is changed by one to three generated mutations "
        "(flags, types, values, annotations, lines, handlers, single "
        "operands, members ...) or replaced by an independent class sharing "
        "members; the changes reported are compared with an independent "
        "model of what differs; non-trivial when something differs")


def compare(left, right, ctx, s1, s2):
    ld = cf.write_class(left, order=dm.relayout(left, s1))
    rd = cf.write_class(right, order=dm.relayout(right, s2))
    want, unsure = dm.diff_class(left, right)
    hot = [p for p, w in want.items() if w is True]
    for p in hot:
        ctx.hit("changed " + p[-1])
    if unsure:
        ctx.hit("ambiguous pairing")
    ctx.nontrivial_case(hot or unsure)

    delta = classdiff.JavaClassChange(unpack_class(ld), unpack_class(rd))
    delta.check()
    tree.compare(tree.changed(delta), want, unsure)
    tree.check_values(delta, left, right)
    if hot or unsure:
        need(delta.is_change(), "the class has changed, %r", hot)
        with Scratch() as d:
            l = write(os.path.join(d, "l.class"), ld)
            r = write(os.path.join(d, "r.class"), rd)
            res = run_main(classdiff.main, ["classdiff", "--ignore-pool",
                                            l, r])
            same(res.rc, 1, "exit code, changed %r" % hot)


def body_mutant(case, ctx):
    model, donor, muts, s1, s2 = case
    right = model
    for m in muts:
        right = dm.mutate_class(right, m, donor)
    if s2 % 2:
        model, right = right, model
    compare(model, right, ctx, s1, s2)


def body_other(case, ctx):
    left, right, share, s1, s2 = case
    for kind in ("fields", "methods"):
        have = {(m["name"], m["desc"]) for m in right[kind]}
        more = tuple(m for i, m in enumerate(left[kind])
                     if share >> i & 1 and (m["name"], m["desc"])
                     not in have)
        right = dict(right, **{kind: right[kind] + more})
    compare(left, right, ctx, s1, s2)


def one_member(kind, member, attrs=()):
    return {"major": 52, "minor": 0, "access": 1, "this": "a/T",
            "super": "java/lang/Object", "interfaces": (),
            "fields": (), "methods": (), "attrs": attrs, "extra": (),
            kind: (member,)}


def body_code(case, ctx):
    """ one change of one method's code """
    code, other, muts, s1, s2 = case
    donor = one_member("methods", {"attrs": (("Code", other),)})
    rcode = code
    for m in muts:
        rcode = dm.mutate_code(rcode, random.Random(m), donor)
    lm, rm = [one_member("methods", {
        "access": 1, "name": "m", "desc": "()V", "attrs": (("Code", c),)})
        for c in (code, rcode)]
    if s2 % 2:
        lm, rm = rm, lm
    compare(lm, rm, ctx, s1, s2)


def body_annos(case, ctx):
    """ one change of one annotation """
    annos, kind, which, seed, s1, s2 = case
    rnd = random.Random(seed)
    rannos = list(annos)
    i = rnd.randrange(len(rannos))
    rannos[i] = dm.tweak_anno(rannos[i], rnd)
    pair = []
    for a in (annos, tuple(rannos)):
        attrs = (("RuntimeVisibleAnnotations" if which else
                  "RuntimeInvisibleAnnotations", a),)
        if kind == "class":
            pair.append(one_member("fields", {
                "access": 1, "name": "f", "desc": "I", "attrs": ()}, attrs))
        else:
            pair.append(one_member(kind, {
                "access": 1, "name": "f", "attrs": attrs,
                "desc": "I" if kind == "fields" else "()I"}))
    if s2 % 2:
        pair.reverse()
    compare(pair[0], pair[1], ctx, s1, s2)


def body_moved(case, ctx):
    """ the same instructions in another order """
    insns, perm, how, s1, s2 = case
    left = list(insns)
    right = list(insns)
    if how == "shuffle":
        right = [insns[i] for i in perm]
    else:
        # those of the same kind among themselves
        for n in {i[0] for i in insns}:
            at = [i for i in range(len(insns)) if insns[i][0] == n]
            for a, b in zip(at, [i for i in perm if i in at]):
                right[a] = insns[b]
        if left != right and [i[0] for i in left] == [i[0] for i in right]:
            if bc.offsets(left)[0] != bc.offsets(right)[0]:
                ctx.hit("same opcodes at other offsets")
    lm, rm = [one_member("methods", {
        "access": 1, "name": "m", "desc": "()V", "attrs": (("Code", {
            "max_stack": 1, "max_locals": 1, "insns": tuple(x),
            "exceptions": (), "attrs": ()}),)}) for x in (left, right)]
    compare(lm, rm, ctx, s1, s2)


@st.composite
def moved(draw):
    insns = tuple(draw(st.lists(g.sized, min_size=2, max_size=6)))
    return (insns, tuple(draw(st.permutations(range(len(insns))))),
            draw(st.sampled_from(["shuffle", "kind", "kind"])),
            draw(seeds), draw(seeds))


def body_values(case, ctx):
    """ one value and another which is near it """
    (desc, l, r), where, extra, s1, s2 = case
    pair = []
    for v in (l, r):
        if where == "field":
            c = one_member("fields", {
                "access": 25, "name": "f", "desc": desc,
                "attrs": (("ConstantValue", v),) if v else ()})
        else:
            n = "ldc2_w" if desc in "JD" else where
            c = one_member("methods", {
                "access": 1, "name": "f", "desc": "()V", "attrs": (("Code", {
                    "max_stack": 2, "max_locals": 1, "insns":
                    ((n, v),) if v else (("nop",),), "exceptions": (),
                    "attrs": ()}),)})
        pair.append(dict(c, extra=extra if v is l else extra[::-1]))
    if l and r and l != r and dm.cf.value(l) == dm.cf.value(r):
        ctx.hit("equal, but not the same")
    if l and l == r and desc in "FD" and dm.cf.value(l) != dm.cf.value(r):
        ctx.hit("NaN")
    compare(pair[0], pair[1], ctx, s1, s2)


def near_values():
    f = [0, 1 << 31, 0x3f800000, 0xbf800000, 1, 0x7fc00000, 0x7f800000,
         0xff800000, 0x3f800001]
    d = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 1,
         0x7ff8000000000000, 0x7ff0000000000000, 0xfff0000000000000,
         0x3ff0000000000001]
    i = [0, 1, -1, 127, 128, -2**31, 2**31 - 1]
    j = i + [2**31, 2**32, 2**32 + 1, -2**63, 2**63 - 1, 2**53, 2**53 + 1]
    s = ["", " ", "0", "null", "None", "a", "A", "a ", "\0", "\u00e9",
         "e\u0301", "\U0001f600", "\n", "\\n"]
    out = []
    for desc, kind, vals in (
            ("F", "Float", f), ("D", "Double", d), ("I", "Integer", i),
            ("J", "Long", j), ("Ljava/lang/String;", "String", s)):
        out.extend((desc, a, b) for a in [None] + [(kind, v) for v in vals]
                   for b in [None] + [(kind, v) for v in vals])
    return out


seeds = st.integers(0, 2**31)
small = g.klass(max_fields=2, max_methods=2, max_insns=8)

PROPS = [
    Prop("mutant", st.tuples(g.klass(), small, st.lists(
        seeds, min_size=1, max_size=3).map(tuple), seeds, seeds),
        body_mutant, quick=1400, thorough=60000),
    Prop("code", st.tuples(g.code(), g.code(4), st.lists(
        seeds, min_size=1, max_size=2).map(tuple), seeds, seeds),
        body_code, quick=1800, thorough=60000),
    Prop("annotations", st.tuples(g.annos, st.sampled_from(
        ["class", "fields", "methods"]), st.booleans(), seeds, seeds,
        seeds), body_annos, quick=1000, thorough=30000),
    Prop("other", st.tuples(small, small, st.integers(0, 15), seeds, seeds),
         body_other, quick=500, thorough=20000),
    Prop("values", st.tuples(
        st.sampled_from(near_values()), st.sampled_from(
            ["field", "field", "ldc", "ldc_w"]),
        st.lists(st.sampled_from([
            ("Integer", 0), ("Integer", 1), ("Float", 0), ("String", ""),
            ("String", "a"), ("Long", 0), ("Double", 0), ("Utf8", "")]),
            unique=True, max_size=4).map(tuple), seeds, seeds),
        body_values, quick=800, thorough=20000),
    Prop("moved", moved(), body_moved, quick=800, thorough=20000),
]
