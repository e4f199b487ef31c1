"""
C11: trees of changes: a change of a part is a change of the whole,
ignored only when every changed part is; summaries, squashed trees and
documents keep exactly that.
"""

import io
import json
import sys

from hypothesis import strategies as st

from javatools import change as ch
from javatools.report import JSONReportFormat, TextReportFormat, \
    quick_report

from vlib.harness import Prop
from vlib.util import need, same, truth, captured, Output

RULE = ("trees of changes are generated (depth, sides, additions and "
        "removals, ignorable or not, empty groups), checked, summarised, "
        "squashed and rendered, and compared with a model of the tree; "
        "non-trivial when the tree has a change below a group")


class Options(object):
    def __init__(self, ignore, show_ignored, show_unchanged):
        self.ignored = ignore
        self.show_ignored = show_ignored
        self.show_unchanged = show_unchanged
        self.json_indent = 2
        self.output = None


class IgnoreMixin(object):
    def is_ignored(self, options):
        return self.key in options.ignored


class Leaf(IgnoreMixin, ch.GenericChange):
    pass


class OtherLeaf(Leaf):
    def fn_data(self, c):
        return c % 10

    def fn_pretty(self, c):
        return "pretty %i" % self.fn_data(c)

    def fn_pretty_desc(self, c):
        return "%i!" % self.fn_data(c)


class Added(IgnoreMixin, ch.Addition):
    pass


class Removed(IgnoreMixin, ch.Removal):
    pass


class Group(ch.SuperChange):
    def collect_impl(self):
        self.calls = getattr(self, "calls", 0) + 1
        for n in self.children:
            yield build(n)


class Bare(ch.SuperChange):
    """ has nothing to look into, as a method without code """

    def collect_impl(self):
        return ()

    def check_impl(self):
        return self.ldata != self.rdata, None


class Told(OtherLeaf):
    """ has a way to tell of itself which is all its own """

    def get_description(self):
        return "%s told of %s" % (self.label, self.is_change())


KINDS = {"bare": Bare, "told": Told, "leaf": Leaf, "other": OtherLeaf, "add": Added,
         "rem": Removed, "group": Group}


def build(node):
    kind, label, entry, key, l, r, children = node
    c = KINDS[kind](l, r)
    c.label = label
    c.entry = entry
    c.key = key
    c.children = children
    return c


# ---- the model ----

def m_change(n):
    kind, _label, _entry, _key, l, r, children = n
    if kind in ("add", "rem"):
        return True
    if kind in ("leaf", "bare"):
        return l != r
    if kind in ("other", "told"):
        return l % 10 != r % 10
    return any(map(m_change, children))


def m_ignored(n, o):
    if n[0] not in ("group", "bare"):
        return n[3] in o.ignored
    hot = [c for c in n[6] if m_change(c)]
    return bool(hot) and all(m_ignored(c, o) for c in hot)


def m_desc(n):
    kind, label, _entry, _key, l, r, _children = n
    if kind == "told":
        return "%s told of %s" % (label, m_change(n))
    if kind == "leaf" and l != r:
        return "%s changed: %s to %s" % (label, l, r)
    if kind == "other" and l % 10 != r % 10:
        return "%s changed: %i! to %i!" % (label, l % 10, r % 10)
    return label + (" changed" if m_change(n) else " unchanged")


def m_shown(n, o):
    """ children which a document of the group lists """
    out = []
    for c in n[6]:
        if m_change(c):
            if o.show_ignored or not m_ignored(c, o):
                out.append(c)
        elif o.show_unchanged:
            out.append(c)
    return out


def m_doc(n, o):
    kind, label, entry, _key, l, r, _children = n
    d = {"class": KINDS[kind].__name__, "is_change": m_change(n),
         "is_ignored": m_ignored(n, o), "description": m_desc(n),
         "label": label}
    if kind == "add":
        d["is_addition"] = True
    if kind == "rem":
        d["is_removal"] = True
    if entry:
        d["entry"] = entry
    if kind == "leaf":
        d.update(old_data=l, new_data=r)
    if kind in ("other", "told"):
        d.update(old_data="pretty %i" % (l % 10),
                 new_data="pretty %i" % (r % 10))
    if kind in ("group", "bare"):
        d["children"] = [m_doc(c, o) for c in m_shown(n, o)]
    return d


def walk(c, n, o):
    what = "%s %r" % (n[0], n[1])
    truth(c.is_change(), m_change(n), what + " is a change")
    # (as each set of options has it, also when asked in turns)
    for opts in (o, Options(("k2",), False, False), Options((), True, True),
                 o, Options(("k1", "k2", "k3"), False, True)):
        truth(c.is_ignored(opts), m_ignored(n, opts),
              "%s is ignored by %r" % (what, opts.ignored))
    same(c.get_description(), m_desc(n), what + " description")
    if n[0] == "group":
        kids = c.collect()
        same(len(kids), len(n[6]), what + " children")
        for x, m in zip(kids, n[6]):
            walk(x, m, o)
        need(kids is c.collect() or list(kids) == list(c.collect()),
             "children differ from one look to the next")
        same(c.calls, 1, "times the children of %s were collected" % what)
        d = c.simplify(o)
        same([type(x) for x in d["children"]],
             [KINDS[m[0]] for m in m_shown(n, o)], what + " summary")
    else:
        same(list(c.collect()), [], what + " children")


def label_tree(n, o, ctx, depth=0):
    if n[0] == "group":
        if not n[6]:
            ctx.hit("empty group")
        if m_change(n):
            ctx.nontrivial_case()
            ctx.hit("ignored group" if m_ignored(n, o) else "changed group")
        for c in n[6]:
            label_tree(c, o, ctx, depth + 1)
        if depth > 1:
            ctx.hit("deep")


def body_tree(case, ctx):
    node, (ign, si, su) = case
    o = Options(ign, si, su)
    label_tree(node, o, ctx)
    c = build(node)
    c.check()
    walk(c, node, o)

    # the JSON document says the same
    out = Output()
    with captured(out):
        quick_report(JSONReportFormat, c, o)
    doc = json.loads(out.out)
    same(doc["report"], m_doc(node, o), "JSON document")

    # so does a summary in its place
    for opts in (o, None):
        s = ch.squash(c, options=opts) if opts else \
            ch.squash(c, is_ignored=si)
        truth(s.is_change(), m_change(node), "squashed is a change")
        truth(s.is_ignored(o), m_ignored(node, o) if opts else si,
              "squashed is ignored")
        same(s.get_description(), m_desc(node), "squashed description")
        same(s.label, node[1], "squashed label")
        same(s.entry, node[2], "squashed entry")
        truth(isinstance(s, ch.Addition), node[0] == "add", "addition")
        truth(isinstance(s, ch.Removal), node[0] == "rem", "removal")
        same(list(s.collect()), [], "children of squashed")
        same(s.simplify(o)["original_class"], KINDS[node[0]].__name__,
             "original class")

    if node[0] == "group":
        before = [x.get_description() for x in c.collect()]
        c.squash_children(o)
        truth(c.is_change(), m_change(node), "with squashed children")
        truth(c.is_ignored(o), m_ignored(node, o),
              "ignored with squashed children")
        same([x.get_description() for x in c.collect()], before,
             "descriptions of squashed children")
        same(c.calls, 1, "times the children were collected")
        same([(x.is_change(), x.is_ignored(o)) for x in c.collect()],
             [(m_change(m), m_ignored(m, o)) for m in node[6]],
             "squashed children")
        same([x.get_description() for x in c.simplify(o)["children"]],
             [m_desc(m) for m in m_shown(node, o)],
             "summary of squashed children")
        c.collect(force=True)
        same(c.calls, 2, "times the children were collected when forced")
    c.clear()
    need(c.ldata is None and c.rdata is None, "cleared change keeps data")


def body_types(case, ctx):
    """ groups made of types: each gets the data of both sides """
    types, l, r = case

    class Whole(ch.SuperChange):
        change_types = tuple(type(k, (KINDS[k],), {
            "key": None, "children": ()}) for k in types)

    w = Whole(l, r)
    w.check()
    kids = w.collect()
    same([type(k) for k in kids], list(Whole.change_types), "children")
    for k in kids:
        same((k.ldata, k.rdata), (l, r), "data of " + type(k).__name__)
    ctx.nontrivial_case(len(types) > 1)
    want = any(m_change((k, "", None, None, l, r, ())) for k in types)
    truth(w.is_change(), want, "%r is a change" % (types,))


class A(object):
    def __init__(self, n):
        self.n = n


class B(A):
    pass


class C(object):
    def __init__(self, n):
        self.n = n


CLASSES = {"A": A, "B": B, "C": C, "int": int, "str": str}


def body_buckets(case, ctx):
    names, order = case
    objs = [CLASSES[k](i) for i, k in enumerate(names)]
    types = [CLASSES[k] for k in order]
    ctx.nontrivial_case(len(set(names)) > 1)

    want = {}
    for o in objs:
        want.setdefault(type(o), []).append(o)
    same(ch.collect_by_type(iter(objs)), want, "collect_by_type")
    same(ch.collect_by_typename(iter(objs)),
         {t.__name__: v for t, v in want.items()}, "collect_by_typename")
    half = len(objs) // 2
    cache = {}
    ch.collect_by_type(objs[:half], cache)
    got = ch.collect_by_type(objs[half:], cache)
    same(got, want, "collect_by_type in two goes")

    @ch.yield_sorted_by_type(*types)
    def fun(seq):
        """ doc of fun """
        for x in seq:
            yield x

    for res in (list(ch.iterate_by_type(objs, types)), list(fun(objs))):
        same(sorted(map(id, res)), sorted(map(id, objs)),
             "objects given back")
        listed = [o for t in types for o in want.get(t, ())]
        same(res[:len(listed)], listed, "order of listed types")
        rest = res[len(listed):]
        seen = []
        for o in rest:
            if not seen or seen[-1] is not type(o):
                need(type(o) not in seen, "type %r is in two groups",
                     type(o))
                seen.append(type(o))
        for t in seen:
            same([o for o in rest if type(o) is t], want[t],
                 "order within a type")
    same(fun.__name__, "fun", "name of the decorated")


labels = st.sampled_from(["Name", "Type", "", "\u00e9t\u00e9"])
entries = st.sampled_from([None, None, "a/b", "x"])
keys = st.sampled_from(["k1", "k2", "k3", None])
nums = st.integers(0, 12)
leaf = st.tuples(st.sampled_from(["leaf", "leaf", "other", "told", "add",
                                  "rem", "bare"]),
                 labels, entries, keys, nums, nums, st.just(()))
leaf = st.one_of(leaf, leaf.map(lambda n: n[:5] + (n[4],) + n[6:]))


def groups(kids):
    return st.tuples(st.just("group"), labels, entries, st.none(), nums,
                     nums, st.lists(kids, max_size=4).map(tuple))


node = st.recursive(leaf, groups, max_leaves=12)
node = st.one_of(groups(node), groups(node), node)
options = st.tuples(st.sets(st.sampled_from(["k1", "k2", "k3"])).map(
    lambda s: tuple(sorted(s))), st.booleans(), st.booleans())

PROPS = [
    Prop("tree", st.tuples(node, options), body_tree, quick=4000,
         thorough=100000),
    Prop("types", st.tuples(st.lists(st.sampled_from(
        ["leaf", "other", "add", "rem", "bare"]), max_size=5).map(tuple), nums,
        nums), body_types, quick=500, thorough=5000),
    Prop("buckets", st.tuples(
        st.lists(st.sampled_from(sorted(CLASSES)), max_size=9).map(tuple),
        st.lists(st.sampled_from(sorted(CLASSES)), unique=True).map(tuple)),
        body_buckets, quick=1500, thorough=20000),
]
