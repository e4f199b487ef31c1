"""
C10: ignoring changes of classes: the exit code of classdiff is 1
exactly when there is a change which no option given says to ignore.
"""

import itertools
import os
import random

from hypothesis import strategies as st

from javatools import classdiff, jardiff, distdiff, unpack_class

from vlib import classfile as cf
from vlib import classtree as tree
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib.harness import Prop, Enum, Scratch
from vlib.util import need, same, truth, run_main, write

RULE = ("pairs of classes differing in versions, lines, deprecation, the "
        "constant pool, members or anything else are compared with "
        "generated ignore options in their various spellings; exit code "
        "and what is ignored are compared with a model of the options; "
        "non-trivial when an option given applies to a change there is")

SINGLE = ("version-up", "version-down", "platform-up", "platform-down",
          "absolute-lines", "relative-lines", "deprecated", "pool", "added")
GROUPS = {"lines": ("absolute-lines", "relative-lines"),
          "version": ("version-up", "version-down"),
          "platform": ("platform-up", "platform-down")}
WORDS = SINGLE + tuple(sorted(GROUPS))


def expand(words):
    out = set()
    for w in words:
        out.update(GROUPS.get(w, (w,)))
    return out


def ignored(path, on, left, right):
    """ is a change of this fact ignored """
    lv = (left["major"], left["minor"])
    rv = (right["major"], right["minor"])
    way = "up" if lv < rv else "down"
    f = path[-1]
    if f == "ClassVersion":
        return "version-" + way in on
    if f == "ClassPlatform":
        # (it is but the name of the version)
        return bool({"version-" + way, "platform-" + way} & on)
    if f == "CodeAbsoluteLines":
        return "absolute-lines" in on
    if f == "CodeRelativeLines":
        return "relative-lines" in on
    if f in ("ClassDeprecation", "FieldDeprecation", "MethodDeprecation"):
        return "deprecated" in on
    if f == "ClassConstantPool":
        return "pool" in on
    if f == "Added":
        return "added" in on
    return False


def mutate(cls, kind, seed, donor):
    rnd = random.Random(seed)
    if kind == "version":
        return dict(cls, major=max(44, cls["major"] + rnd.choice(
            [-3, -1, 0, 1, 4])), minor=rnd.choice([0, 3, cls["minor"]]))
    if kind == "deprecated":
        i = rnd.randrange(3)
        ms = list(cls[("fields", "methods")[i - 1]])
        if i == 0 or not ms:
            objs = [cls]
        else:
            objs = ms
        j = rnd.randrange(len(objs))
        a = objs[j]["attrs"]
        objs[j] = dict(objs[j], attrs=dm.put(
            a, "Deprecated", None if dm.find(a, "Deprecated")
            else ("Deprecated",)))
        if objs is ms:
            return dict(cls, **{("fields", "methods")[i - 1]: tuple(ms)})
        return objs[0]
    if kind == "lines":
        ms = []
        for m in cls["methods"]:
            code = dm.attr1(m["attrs"], "Code")
            if code and rnd.random() < .7:
                m = dict(m, attrs=dm.put(m["attrs"], "Code", (
                    "Code", dm.mutate_lines(code, rnd))))
            ms.append(m)
        return dict(cls, methods=tuple(ms))
    if kind == "shift":
        d = rnd.randrange(1, 9)
        ms = []
        for m in cls["methods"]:
            code = dm.attr1(m["attrs"], "Code")
            if code and dm.lines(code):
                m = dict(m, attrs=dm.put(m["attrs"], "Code", ("Code", dict(
                    code, attrs=dm.put(code["attrs"], "LineNumberTable", (
                        "LineNumberTable", tuple(
                            (pc, n + d) for pc, n in dm.lines(code))))))))
            ms.append(m)
        return dict(cls, methods=tuple(ms))
    if kind == "added":
        kind = rnd.choice(["fields", "methods"])
        have = {(m["name"], m["desc"]) for m in cls[kind]}
        more = tuple(m for m in donor[kind]
                     if (m["name"], m["desc"]) not in have)
        return dict(cls, **{kind: cls[kind] + more})
    return dm.mutate_class(cls, seed, donor)


def spell(words, how, rnd):
    """ the same options, in several spellings """
    if how == 0:
        return ["--ignore-" + w for w in words]
    if how == 1:
        return ["--ignore=" + ",".join(words)] if words else []
    if how == 2:
        return [x for w in words for x in ("--ignore", " %s ," % w)]
    out = []
    for w in words:
        out.append(rnd.choice(["--ignore-", "--ignore="]) + w)
    return out


def body(case, ctx):
    left, donor, muts, words, how, s1, s2 = case
    right = left
    for kind, seed in muts:
        right = mutate(right, kind, seed, donor)
    if s2 % 3 == 0:
        left, right = right, left
    check(left, right, words, how, s1, s1, s2, ctx)


def check(left, right, words, how, seed, s1, s2, ctx):
    order = dm.relayout(left, s1)
    ld = cf.write_class(left, order=order)
    # often the same pool, so that it isn't the pool which makes it 1
    rd = cf.write_class(right, order=order if s2 % 2 else
                        dm.relayout(right, s2))
    on = expand(words)

    delta = classdiff.JavaClassChange(unpack_class(ld), unpack_class(rd))
    delta.check()
    facts = tree.facts(delta)
    options = classdiff.default_classdiff_options(
        {"ignore_" + w.replace("-", "_"): True for w in on})
    rnd = random.Random(seed)
    args = spell(words, how, rnd)
    parsed = classdiff.create_optparser("classdiff").parse_args(
        args + ["l", "r"])
    rest = 0
    for path, c in facts.items():
        if not c.is_change():
            continue
        if path[-1].startswith("Code") and len(path) == 5 and \
                path[1:4] == (None, None, None):
            continue
        want = ignored(path, on, left, right)
        truth(c.is_ignored(options), want, "%r is ignored with %r" %
              (path, sorted(on)))
        truth(c.is_ignored(parsed), want, "%r is ignored with %r" %
              (path, args))
        if want:
            ctx.hit("ignored " + path[-1])
            ctx.nontrivial_case()
        else:
            rest += 1
    truth(delta.is_change() and not delta.is_ignored(options), rest,
          "there is a change which counts, with %r" % sorted(on))

    extra = rnd.choice([[], ["-q"], ["-v"], ["-j"], ["--show-ignored"],
                        ["--show-unchanged"]])
    with Scratch() as d:
        l = write(os.path.join(d, "l.class"), ld)
        r = write(os.path.join(d, "r.class"), rd)
        res = run_main(classdiff.main, ["classdiff"] + args + extra + [l, r])
    same(res.rc, 1 if rest else 0, "exit code with %r" % (args + extra))
    ctx.hit("exit %d" % res.rc)
    if extra == ["-q"]:
        same(res.out, "", "output of a quiet run")


case = st.tuples(
    g.klass(max_fields=2, max_methods=3, max_insns=8),
    g.klass(max_fields=1, max_methods=1, max_insns=3),
    st.lists(st.tuples(st.sampled_from(
        ["version", "version", "deprecated", "deprecated", "lines",
         "lines", "shift", "added", "any"]), st.integers(0, 2**31)),
        min_size=1, max_size=3).map(tuple),
    st.tuples(st.permutations(WORDS), st.integers(0, 12)).map(
        lambda x: tuple(x[0][:x[1]])),
    st.integers(0, 3), st.integers(0, 2**31), st.integers(0, 2**31))


def vals(options, without):
    return {k: v for k, v in vars(options).items() if k not in without}


def body_defaults(case, ctx):
    """ the options of the API are those of the command line """
    name, update = case
    mod = {"classdiff": classdiff, "jardiff": jardiff,
           "distdiff": distdiff}[name]
    default = getattr(mod, "default_%s_options" % name)
    pos = {"classdiff": "classfile", "jardiff": "jar", "distdiff": "dist"}
    parser = mod.create_optparser(name)
    want = vals(parser.parse_args(["l", "r"]), {pos[name]})
    same(vals(default(), {pos[name]}), want, "default options")
    if update:
        ctx.nontrivial_case()
        got = vals(default(dict(update)), {pos[name]})
        want.update(update)
        same(got, want, "options updated with %r" % (update,))
        want = vals(parser.parse_args(["l", "r"]), {pos[name]})
        same(vals(default(), {pos[name]}), want, "default options later on")


def cases_defaults():
    updates = [{}, {"ignore_pool": True}, {"silent": True},
               {"show_ignored": True, "ignore_version_up": True},
               {"json_indent": 4, "report_dir": "x"}]
    return itertools.product(["classdiff", "jardiff", "distdiff"], updates)


def body_version(case, ctx):
    lv, rv, words, how, s1 = case
    cls = {"access": 1, "this": "a/T", "super": "java/lang/Object",
           "interfaces": (), "fields": (), "methods": (), "attrs": (),
           "extra": ()}
    left, right = [dict(cls, major=v[0], minor=v[1]) for v in (lv, rv)]
    check(left, right, words, how, s1, 0, 0, ctx)


NAMES = ["<init>", "<clinit>", "access$000", "lambda$m$0", "this$0", "$x",
         "serialVersionUID", "main", "values", "m", "f", "val$a", "$values"]


def body_added(case, ctx):
    """ members which one of the sides has """
    kind, news, other, words, how, s1, s2 = case
    cls = {"major": 52, "minor": 0, "access": 1, "this": "a/T",
           "super": "java/lang/Object", "interfaces": (), "fields": (),
           "methods": (), "attrs": (), "extra": ()}
    if other:
        cls[other] = ({"access": 1, "name": "here", "desc": "I"
                       if other == "fields" else "()I", "attrs": ()},)
    have = {(m["name"], m["desc"]) for m in cls[kind]}
    members = []
    for access, name, desc, attrs in news:
        d = desc if kind == "fields" else "(%s)V" % desc
        if (name, d) not in have:
            have.add((name, d))
            members.append({"access": access, "name": name, "desc": d,
                            "attrs": tuple((a,) for a in attrs)})
    right = dict(cls, **{kind: cls[kind] + tuple(members)})
    if s2 % 4 == 0:
        cls, right = right, cls
        ctx.hit("removed")
    check(cls, right, words, how, s1, s1, s2, ctx)


case_added = st.tuples(
    st.sampled_from(["fields", "methods"]),
    st.lists(st.tuples(
        st.one_of(st.sampled_from([0] + [1 << i for i in range(16)]),
                  st.lists(st.sampled_from([1 << i for i in range(16)]),
                           unique=True).map(sum)),
        st.sampled_from(NAMES), st.sampled_from(["I", "J", "[B", "La/T;"]),
        st.sampled_from([(), (), ("Deprecated",), ("Synthetic",)])),
        min_size=1, max_size=2).map(tuple),
    st.sampled_from([None, None, "fields", "methods"]),
    st.lists(st.sampled_from(WORDS), max_size=2, unique=True).map(
        lambda w: tuple(dict.fromkeys(["added", "pool"] + w)) if len(w) < 2
        else tuple(w)),
    st.integers(0, 3), st.integers(0, 2**31), st.integers(0, 2**31))

version = st.tuples(st.integers(44, 70), st.sampled_from([0, 3, 65535]))
case_version = st.tuples(
    version, version,
    st.lists(st.sampled_from([w for w in WORDS if "v" in w or "m" in w] +
                             ["pool"]), min_size=1, max_size=2, unique=True).map(tuple),
    st.integers(0, 3), st.integers(0, 2**31))


PROPS = [
    Prop("version", case_version, body_version, quick=800, thorough=10000),
    Prop("added", case_added, body_added, quick=800, thorough=20000),
    Prop("ignore", case, body, quick=2600, thorough=60000),
    Enum("defaults", cases_defaults, body_defaults),
]
