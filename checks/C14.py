"""
C14: comparison of directory trees, and copying them.
"""

import os

from hypothesis import strategies as st

from javatools import dirutils as du

from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, snapshot, write, \
    spellings

RULE = ("pairs of generated trees (nested, hidden and oddly named files, a "
        "file where the other has a directory, empty directories, the same "
        "size and modification time) are compared, and the events checked "
        "against dictionary comparison of contents; trees are copied and the "
        "copy compared byte by byte; links, broken links and files without "
        "permission to read are compared with a model; non-trivial when a "
        "file is in both trees or is nested two deep, or such a thing is")

LETTER = {du.LEFT: "L", du.RIGHT: "R", du.DIFF: "D", du.SAME: "S"}


def body_compare(case, ctx):
    (left, right), ldirs, rdirs, times, omit = case
    ldirs = [x for x in ldirs if not clashes(x, left)]
    rdirs = [x for x in rdirs if not clashes(x, right)]
    with Scratch() as d:
        lfn = trees.write_tree(os.path.join(d, "l"), left, ldirs, times[0])
        rfn = trees.write_tree(os.path.join(d, "r"), right, rdirs, times[1])
        want = trees.events(left, right)
        for e in want.values():
            ctx.hit("event " + e)
        if any(n in right and left[n] != right[n] and
               len(left[n]) == len(right[n]) for n in left) and \
                times[0] == times[1] is not None:
            ctx.hit("differs with same size and time")
        if trees.dirs_of(left) & set(right) or \
                trees.dirs_of(right) & set(left):
            ctx.hit("file against directory")
        ctx.nontrivial_case(set(left) & set(right) or
                            any(n.count("/") > 1 for n in want))
        lfn, rfn = spellings(case, lfn, rfn)
        check(du.compare(lfn, rfn), want, "compare")
        swap = {"L": "R", "R": "L"}
        check(du.compare(rfn, lfn),
              {n: swap.get(e, e) for n, e in want.items()},
              "compare, sides swapped")
        check(du.compare(lfn, lfn), {n: "S" for n in left},
              "compare with itself")
        # a trailing slash, and relative names, make no difference
        check(du.compare(lfn + "/", rfn + "/"), want, "compare with /")
        check_groups(du.collect_compare(lfn, rfn), want, "collect_compare")
        groups = [None if k in omit else [] for k in "RLDS"]
        got = du.collect_compare_into(lfn, rfn, *groups)
        for a, b in zip(got, groups):
            need(a is b, "collect_compare_into returns other lists")
        check_groups(groups, want, "collect_compare_into")


def check(got, want, what):
    got = [(LETTER[e], os.path.normpath(n)) for e, n in got]
    same(sorted(got), sorted((e, n) for n, e in want.items()), what)


def check_groups(groups, want, what):
    for letters, group in zip("RLDS", groups):
        if group is not None:
            same(sorted(map(os.path.normpath, group)),
                 sorted(n for n, e in want.items() if e == letters),
                 "%s (%s)" % (what, letters))


def clashes(dirname, files):
    """ is the directory, or one above it, a file """
    return any(dirname == n or dirname.startswith(n + "/") for n in files)


empties = st.lists(st.sampled_from(["empty", "e/m", "d/x/y", "a", "CVS"]),
                   max_size=2)
times = st.sampled_from([(None, None), (10**9, 10**9), (10**9, 10**9),
                         (10**9, 10**9 + 5)])
case_compare = st.tuples(trees.pair(), empties, empties, times,
                         st.sets(st.sampled_from("RLDS")))


def body_copy(case, ctx):
    files, dirs, over, deep = case
    dirs = [x for x in dirs if not clashes(x, files)]
    over = {n: v for n, v in over.items()
            if not clashes(n, {k: 0 for k in files if k != n}) and
            not any(k.startswith(n + "/") for k in list(files) + dirs) and
            n not in dirs}
    with Scratch() as d:
        src = trees.write_tree(os.path.join(d, "src"), files, dirs)
        dst = os.path.join(d, *(["x", "y"] if deep else ["dst"]))
        if over:
            trees.write_tree(dst, over)
        before = snapshot(src)
        src, dst = spellings(case, src, dst)
        copied = du.copydir(src, dst)
        same(snapshot(src), before, "the tree copied from")
        want = dict(before)
        for n, v in over.items():
            want.setdefault(n, v)
            for x in trees.dirs_of([n]):
                want.setdefault(x, None)
        same(snapshot(dst), want, "the copy")
        same(sorted(tuple(map(os.path.abspath, x)) for x in copied),
             sorted((os.path.abspath(os.path.join(src, n)),
                     os.path.abspath(os.path.join(dst, n)))
                    for n in files), "list of copied files")
        ctx.nontrivial_case(any("/" in n for n in files))
        if over:
            ctx.hit("into a directory with files")
        if any(n.count("/") > 1 for n in files):
            ctx.hit("nested twice")


case_copy = st.tuples(
    trees.pair(clash=False).map(lambda p: p[0]), empties,
    st.dictionaries(st.sampled_from(["keep", "a", "d/keep", "x.txt"]),
                    st.binary(max_size=4), max_size=2),
    st.booleans())


# ---- links, and files which can't be read ----

NOBODY = 65534


class Unprivileged(object):
    """ within it files without permissions can't be read, by root either """

    def __init__(self, d):
        self.root = os.geteuid() == 0
        if self.root:
            for x in (os.path.dirname(d), d):
                os.chmod(x, 0o755)

    def __enter__(self):
        if self.root:
            os.seteuid(NOBODY)

    def __exit__(self, *_exc):
        if self.root:
            os.seteuid(0)


def put(top, name, thing, aside):
    kind, data = thing
    fn = os.path.join(top, name)
    if kind == "dir":
        write(os.path.join(fn, "in"), data)
    elif kind == "link":
        write(aside, data)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        os.symlink(aside, fn)
    elif kind == "broken":
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        os.symlink("no-such-" + data.decode(), fn)
    else:
        write(fn, data)
        if kind == "closed":
            os.chmod(fn, 0)


def wanted(name, left, right):
    """ events for one name """
    def entry(thing):
        return name + "/in" if thing[0] == "dir" else name

    if left is None or right is None:
        return [("R", entry(right))] if left is None else \
            [("L", entry(left))]
    (lk, ld), (rk, rd) = left, right
    if (lk == "dir") != (rk == "dir") or (lk == "broken") != (rk == "broken"):
        return [("L", entry(left)), ("R", entry(right))]
    if lk == "broken":
        # links which lead to the same place
        return [] if ld == rd else [("L", name), ("R", name)]
    if "closed" in (lk, rk) or ld != rd:
        return [("D", entry(left))]
    return [("S", entry(left))]


def body_links(case, ctx):
    with Scratch() as d:
        guard = Unprivileged(d)
        l, r = os.path.join(d, "l"), os.path.join(d, "r")
        want, back = [], []
        for x in (l, r):
            os.makedirs(x)
        for i, (name, left, right) in enumerate(case):
            for top, thing, side in ((l, left, "l"), (r, right, "r")):
                if thing is not None:
                    put(top, name, thing,
                        os.path.join(d, "aside", "%s%d" % (side, i)))
            want += wanted(name, left, right)
            back += wanted(name, right, left)
            kinds = sorted(x[0] if x else "none" for x in (left, right))
            ctx.hit("-".join(kinds))
            ctx.nontrivial_case("file" not in kinds and "none" not in kinds)
        with guard:
            got = [(LETTER[e], os.path.normpath(n))
                   for e, n in du.compare(l, r)]
            same(sorted(got), sorted(want), "events")
            got = [(LETTER[e], os.path.normpath(n))
                   for e, n in du.compare(r, l)]
            same(sorted(got), sorted(back), "events, sides swapped")
            groups = du.collect_compare(l, r)
            for letters, group in zip("RLDS", groups):
                same(sorted(map(os.path.normpath, group)),
                     sorted(n for e, n in want if e == letters),
                     "group " + letters)


thing = st.tuples(st.sampled_from(["file", "file", "link", "broken",
                                   "closed", "dir"]),
                  st.sampled_from([b"a", b"a", b"b", b"cc"]))
case_links = st.lists(
    st.tuples(st.sampled_from(["a", "b.txt", "d/c", "d/e/f", "g/h", "CVS",
                               "x.jar"]),
              st.one_of(st.none(), thing, thing, thing), thing)
    .map(lambda x: x if x[2][1] != b"cc" or x[1] is None else
         (x[0], x[2], x[1])), max_size=5, unique_by=lambda x: x[0])


def body_match(case, ctx):
    entry, patterns = case
    import fnmatch
    import re
    want = any(p and re.match(fnmatch.translate(p), entry)
               for p in patterns)
    truth(du.fnmatches(entry, *patterns), want, "fnmatches(%r, %r)" %
          (entry, patterns))
    ctx.nontrivial_case(len(patterns) > 1)
    ctx.hit("match" if want else "no match")


glob = st.one_of(
    st.sampled_from(["", "*", "*.class", "a*", "?", "[ab]*", "*/x", "x.txt",
                     "META-INF/*", "*.[jw]ar"]),
    st.text(st.sampled_from("ab*?.[]!/"), max_size=5))
case_match = st.tuples(
    st.one_of(trees.names(1).map(lambda n: n[0] if n else ""),
              st.text(st.sampled_from("ab./"), max_size=5)),
    st.lists(glob, max_size=4))

PROPS = [
    Prop("compare", case_compare, body_compare, quick=2000, thorough=40000),
    Prop("links", case_links, body_links, quick=2000, thorough=40000),
    Prop("copydir", case_copy, body_copy, quick=800, thorough=15000),
    Prop("fnmatches", case_match, body_match, quick=1500, thorough=30000),
]
