"""
C20: comparing manifests finds just the attributes and sections which
differ, however the two are laid out.
"""

import random

from argparse import Namespace

from hypothesis import strategies as st

from javatools import manifest
from javatools.manifest import Manifest, SignatureManifest

from vlib import manifests as mf
from vlib.harness import Prop
from vlib.util import need, same, truth
from checks import C13

RULE = ("a generated manifest is changed in up to four places, both sides "
        "are laid out differently (folding, line ends, empty lines, order "
        "of sections), parsed and compared; the changes found and those "
        "ignored by generated options are compared with a model; "
        "non-trivial when a section differs or all that differs is layout")

some = st.one_of(mf.value, mf.plain_value)


@st.composite
def pair(draw):
    sig = draw(st.integers(0, 3)) == 3
    primary = "Signature-Version" if sig else "Manifest-Version"
    left = draw(mf.manifest(some, mf.section_name, 5, primary))
    main, secs = list(left[0]), list(left[1])
    for _n in range(draw(st.integers(0, 4))):
        how = draw(st.integers(0, 7))
        target = draw(st.integers(-1, len(secs) - 1))
        ps = main if target < 0 else list(secs[target][1])
        first = 1 if target < 0 else 0
        if how == 0:
            if draw(st.booleans()):
                k = draw(st.sampled_from(["Fresh", "x-added"]))
            else:
                k = draw(mf.key)
            if k.lower() not in {x.lower() for x, _v in ps} | {"name"}:
                ps.append((k, draw(some)))
        elif how in (1, 2) and len(ps) > first:
            i = draw(st.integers(first, len(ps) - 1))
            v = draw(st.one_of(some, st.sampled_from([
                ps[i][1] + " ", " " + ps[i][1], ps[i][1] + "!",
                ps[i][1][1:], ps[i][1].swapcase()])))
            ps[i] = (ps[i][0], v)
        elif how == 3 and len(ps) > first:
            ps.pop(draw(st.integers(first, len(ps) - 1)))
        elif how == 4 and target >= 0:
            secs.pop(target)
            continue
        elif how == 5:
            n = draw(mf.section_name)
            if n not in {x for x, _p in secs}:
                secs.append((n, draw(mf.pairs(some, 2, ("Name",)))))
            continue
        elif how == 6 and target >= 0:
            # a section under another name
            n = secs[target][0] + "2"
            if n not in {x for x, _p in secs}:
                secs[target] = (n, secs[target][1])
            continue
        elif how == 7 and len(ps) > first:
            i = draw(st.integers(first, len(ps) - 1))
            k = ps[i][0].swapcase()[:68]
            ps[i] = (k, ps[i][1])
        if target >= 0:
            secs[target] = (secs[target][0], tuple(ps))
    secs = draw(st.permutations(secs))
    right = (tuple(main), tuple(secs))
    if draw(st.booleans()):
        left, right = right, left
    keys = {k for s in (left, right) for ps in
            [s[0]] + [p for _n, p in s[1]] for k, _v in ps}
    ignore = draw(st.lists(st.sampled_from(sorted(keys) + ["Fresh"]),
                           max_size=3))
    ignore = [k.lower() if draw(st.booleans()) else k for k in ignore]
    o = {"manifest": draw(st.integers(0, 5)) == 5,
         "subsections": draw(st.integers(0, 4)) == 4,
         "keys": tuple(ignore), "signature": draw(st.integers(0, 3)) == 3,
         "show": draw(st.tuples(st.booleans(), st.booleans()))}
    lay = tuple((draw(st.sampled_from([b"\n", b"\r\n", b"\r"])),
                 draw(st.sampled_from([70, 72, 60, 300])),
                 draw(st.integers(0, 10**6)), draw(st.sampled_from([1, 1, 2])))
                for _s in "lr")
    return sig, left, right, o, lay


def load(model, lay, sig):
    eol, width, seed, blank = lay
    m = (SignatureManifest if sig else Manifest)()
    rnd = random.Random(seed) if seed % 3 else None
    data = mf.write(model, eol, width, rnd, blank)
    m.parse(data)
    return data, m


KIND = {"ManifestSectionAdded": "R", "ManifestSectionRemoved": "L"}


def found(change):
    """ (main differs?, {section: S, D, L or R}) as reported """
    main = []
    secs = {}
    for c in change.collect():
        n = type(c).__name__
        if n == "ManifestMainChange":
            main.append(c.is_change())
            continue
        side = c.rdata if n == "ManifestSectionAdded" else c.ldata
        name = side.primary()
        need(name not in secs, "section %r is reported twice", name)
        secs[name] = KIND.get(n) or ("D" if c.is_change() else "S")
        if n == "ManifestSectionAdded":
            need(c.ldata is None and c.is_change(), "added section")
        elif n == "ManifestSectionRemoved":
            need(c.rdata is None and c.is_change(), "removed section")
        else:
            same(n, "ManifestSectionChange", "kind of change")
            same(c.rdata.primary(), name, "section compared with")
        need(name in c.get_description(), "description %r of section %r",
             c.get_description(), name)
    same(len(main), 1, "number of main sections")
    return main[0], secs


def body_compare(case, ctx):
    sig, left, right, o, lay = case
    ld, lm = load(left, lay[0], sig)
    rd, rm = load(right, lay[1], sig)
    main, secs = C13.diff_manifest(ld, rd)
    names = {n for n, _p in left[1]} | {n for n, _p in right[1]}
    want = (bool(main), {n: "S" if n not in secs else
                         secs[n] if secs[n] in ("L", "R") else "D"
                         for n in names})
    if main or secs:
        ctx.nontrivial_case(secs)
    else:
        ctx.nontrivial_case(ld != rd)
        ctx.hit("layout only")
    for v in want[1].values():
        ctx.hit("section " + v)
    cls = manifest.SignatureManifestChange if sig else manifest.ManifestChange
    change = cls(lm, rm)
    change.check()
    same(found(change), want, "changes found")
    for side, data in (("left", ld), ("right", rd)):
        lmain, lsecs = mf.parse(data)
        C13.check_sections(change, lmain, dict(lsecs), side)
    same(change.is_change(), bool(main or secs), "is_change")

    # the other way around
    back = cls(rm, lm)
    back.check()
    flip = {"L": "R", "R": "L"}
    same(found(back), (want[0], {n: flip.get(v, v)
                                 for n, v in want[1].items()}),
         "changes found the other way around")
    same(back.is_change(), change.is_change(), "is_change")
    # with itself
    for data, m in ((ld, lm), (rd, rm)):
        again = (SignatureManifest if sig else Manifest)()
        again.parse(data)
        c = cls(m, again)
        c.check()
        truth(c.is_change(), False, "change of a manifest and itself")

    # options
    opts = Namespace(ignore_manifest=o["manifest"],
                     ignore_manifest_subsections=o["subsections"],
                     ignore_manifest_key=list(o["keys"]),
                     ignore_jar_signature=o["signature"])
    if sig:
        ignored = o["signature"] or C13.manifest_ignored(
            (main, secs), dict(o, manifest=False))
    else:
        ignored = C13.manifest_ignored((main, secs), o)
    if main or secs:
        for c in (change, back):
            truth(c.is_ignored(opts), ignored, "is_ignored")
        ctx.hit("ignored" if ignored else "not ignored")
        if ignored and not (o["manifest"] or o["signature"]):
            ctx.hit("ignored by keys or sections")
    ik = {k.lower() for k in o["keys"]}
    for c in change.collect():
        n = type(c).__name__
        if not c.is_change():
            continue
        if n == "ManifestMainChange":
            truth(c.is_ignored(opts), main <= ik, "main section is_ignored")
        else:
            d = secs[(c.ldata or c.rdata).primary()]
            truth(c.is_ignored(opts), o["subsections"] or
                  d not in ("L", "R") and d <= ik, "section is_ignored")
    # what was found is kept when squashed
    opts.show_ignored, opts.show_unchanged = o["show"]
    facts = [(type(c).__name__, c.is_change(), bool(c.is_ignored(opts)),
              c.get_description()) for c in change.collect()]
    shown = sorted(f for f in facts if
                   (not f[2] or o["show"][0] if f[1] else o["show"][1]))
    same(sorted((type(c).__name__, c.is_change(), bool(c.is_ignored(opts)),
                 c.get_description())
                for c in change.simplify(opts)["children"]), shown,
         "changes shown")
    change.squash_children(opts)
    same(change.is_change(), bool(main or secs), "is_change when squashed")
    if main or secs:
        truth(change.is_ignored(opts), ignored, "is_ignored when squashed")
    simple = [c.simplify(opts) for c in change.simplify(opts)["children"]]
    same(sorted((x["original_class"], x["is_change"],
                 bool(x["is_ignored"]), x["description"]) for x in simple),
         shown, "changes shown when squashed")
    for x in simple:
        same((x.get("is_addition", False), x.get("is_removal", False)),
             (x["original_class"] == "ManifestSectionAdded",
              x["original_class"] == "ManifestSectionRemoved"),
             "addition or removal when squashed")


PROPS = [Prop("compare", pair(), body_compare, quick=3500, thorough=90000)]
