"""
C29: a signature file takes a manifest exactly as far as its digests are
those of the manifest, or of sections of it.
"""

import hashlib
import os
import random

from hypothesis import strategies as st

from javatools import manifest
from javatools.manifest import Manifest, SignatureManifest

from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch
from vlib.util import same, truth, write

RULE = ("generated manifests in generated layouts are judged by signature "
        "files with right, wrong and missing digests of the whole, of the "
        "main section and of each section (written by hand from the very "
        "bytes, or made by the library and then verified against altered or "
        "rearranged manifests); the sections failing are compared with a "
        "model; non-trivial when the whole digest doesn't decide and there "
        "are sections of both kinds; digests asked for of streams of pieces "
        "and of trees are those of the contents")

EOLS = [b"\n", b"\r\n", b"\r"]
WHOLE = "-Digest-Manifest"
MAIN = WHOLE + "-Main-Attributes"
ALG = sorted(sg.ALGS)
ALGORITHMS = {a: getattr(hashlib, n) for a, n in sg.ALGS.items()}
SELF = ["META-INF/MANIFEST.MF"]


def load(data, cls=Manifest):
    m = cls()
    m.parse(data)
    return m


@st.composite
def a_model(draw):
    """ sections named in a way which isn't changed by reading """
    return draw(mf.manifest(mf.plain_value, max_sections=6))


def pieces_of(model, eol, width, s, blank):
    """ bytes of a manifest, and those of each section with the one blank
    line which ends it """
    rnd = random.Random(s) if s else None
    main, secs = model
    out = [mf.write_pairs(main, eol, width, rnd) + eol]
    for n, ps in secs:
        out.append(mf.write_pairs((("Name", n),) + ps, eol, width, rnd) + eol)
    return (eol * (blank - 1)).join(out + [b""]), out


@st.composite
def digests(draw):
    """ ((alg, right?), ...), at times none """
    how = draw(st.integers(0, 8))
    if how == 0:
        return ()
    algs = draw(st.lists(st.sampled_from(ALG), min_size=1, max_size=3,
                         unique=True))
    if how < 4:
        return tuple((a, False) for a in algs)
    return tuple((a, draw(st.booleans())) for a in algs)


sections = st.lists(st.one_of(st.none(), digests(), digests(), digests()),
                    max_size=6)


def wrong(alg, data, how, other):
    """ other: the bytes of another part """
    right = sg.b64(alg, data)
    if other.strip(b"\r\n") == data.strip(b"\r\n"):
        other = data + b"y"
    return {7: sg.b64(alg, other), 0: sg.b64(alg, data + b"x"), 1: sg.b64(alg, data[1:]),
            2: "", 3: right[:-1], 4: right.swapcase(), 5: right + "=",
            6: sg.b64(alg, b"")}[how]


def state(ds):
    return "none" if not ds else "right" if any(ok for _a, ok in ds) \
        else "wrong"


def body_hand(case, ctx):
    model, layout, whole, main, secs, extra, order, bad, attrs = case
    eol, width, s, blank = layout
    data, parts = pieces_of(model, eol, width, s, blank)

    def value(alg, ok, of):
        # (at times the digest of the part next to it)
        i = (parts.index(of) if of in parts else -1) + 1
        return sg.b64(alg, of) if ok else \
            wrong(alg, of, bad, parts[i % len(parts)])

    head = [("Signature-Version", "1.0")]
    more = [(a + WHOLE, value(a, ok, data)) for a, ok in whole]
    more += [(a + MAIN, value(a, ok, parts[0])) for a, ok in main]
    more += [(k, sg.b64("SHA1", b"")) for k in attrs]
    random.Random(order).shuffle(more)
    body = []
    states = {}
    for (n, _ps), part, ds in zip(model[1], parts[1:],
                                  secs + [None] * len(parts)):
        states[n] = state(ds)
        if ds is None:
            continue
        ps = [(a + "-Digest", value(a, ok, part)) for a, ok in ds]
        ps += [(k + "-X", "v") for k in attrs]
        body.append((n, tuple(ps)))
    for n in extra:
        if n not in states:
            body.append((n, (("SHA1-Digest", sg.b64("SHA1", b"x")),)))
    random.Random(order).shuffle(body)
    sf_data = mf.write((tuple(head + more), tuple(body)), EOLS[order % 3])

    m = load(data)
    sf = load(sf_data, SignatureManifest)
    before = m.get_data(), sf.get_data()
    truth(sf.verify_manifest_main_checksum(m, data), state(whole) == "right",
          "the digest of the whole verifies")
    truth(sf.verify_manifest_main_attributes_checksum(m, data),
          state(main) == "right", "the digest of the main section verifies")
    failing = {
        strict: sorted(n for n, x in states.items()
                       if x == "wrong" or x == "none" and strict)
        for strict in (True, False)}
    for strict in (True, False):
        same(sorted(sf.verify_manifest_entry_checksums(
            m, strict=strict, data=data)), failing[strict],
            "sections failing, strict=%r" % strict)
    same(sorted(sf.verify_manifest_entry_checksums(m, data=data)),
         failing[True], "sections failing")
    if state(whole) == "right":
        want = []
    elif state(main) != "right":
        want = SELF
    else:
        want = failing[True]
        ctx.hit("sections decide")
        ctx.nontrivial_case(len(set(states.values())) > 1)
    same(sorted(sf.verify_manifest(m, data)), want, "result")
    same((m.get_data(), sf.get_data()), before,
         "the manifest and signature file, once verified")
    ctx.hit("whole " + state(whole))
    ctx.hit("main " + state(main))


case_hand = st.tuples(
    a_model(),
    st.tuples(st.sampled_from(EOLS), st.sampled_from([70, 70, 72, 300]),
              st.integers(0, 50), st.sampled_from([1, 1, 1, 2, 3])),
    st.one_of(st.just(()), digests()), digests(), sections,
    st.lists(st.sampled_from(["gone", "gone/x"]), max_size=1),
    st.integers(0, 10**6), st.integers(0, 7),
    st.lists(st.sampled_from(["Digest", "SHA1-Digest-x", "Created-By",
                              "SHA1-Digest-Manifest-x"]),
             max_size=2, unique=True))


# ---- signature files made by the library ----

def alter(model, edits):
    """ an altered model """
    main, secs = model
    secs = list(secs)
    for kind, i, v in edits:
        if kind == "main":
            main = tuple(p for p in main if p[0] != "Added") + (("Added", v),)
        elif kind == "add":
            n = "added/%d" % i
            if n not in dict(secs):
                secs.insert(i % (len(secs) + 1), (n, (("A", v),)))
        elif secs:
            i %= len(secs)
            n, ps = secs[i]
            if kind == "drop":
                del secs[i]
            elif kind == "attr":
                secs[i] = n, tuple(p for p in ps if p[0] != "Edited") + \
                    (("Edited", v),)
            elif kind == "less":
                secs[i] = n, ps[:-1]
            else:
                j = (i + 1) % len(secs)
                secs[i], secs[j] = (n, secs[j][1]), (secs[j][0], ps)
    return main, tuple(secs)


def body_made(case, ctx):
    model, edits, (eol, width, s, blank), algs, how = case
    data, _parts = pieces_of(model, eol, 70, 0, 1)
    m = load(data)
    # (stored in its own layout)
    sf = SignatureManifest(
        linesep=[None, "\n", "\r\n", "\r"][(s + how) % 4])
    for a in algs:
        sf.digest_manifest(m, a)
    same(sorted(sf.sub_sections), sorted(n for n, _ps in model[1]),
         "sections of the signature file")
    for part in [sf] + list(sf.sub_sections.values()):
        same(sorted(part.keys_with_suffix(
            WHOLE if part is sf else "-Digest")), sorted(algs),
            "digests of a section")
    # the digests are those of the manifest as it is stored
    stored = m.get_data()
    for a in algs:
        same(sf[a + WHOLE], sg.b64(a, stored), "digest of the whole")
        same(sf[a + MAIN], sg.b64(a, sg.split_sections(stored)[0]),
             "digest of the main section")
    same({n: {a: x[a + "-Digest"] for a in algs}
          for n, x in sf.sub_sections.items()},
         {n: {a: sg.b64(a, part) for a in algs}
          for (n, _ps), part in zip(mf.parse(stored)[1],
                                    sg.split_sections(stored)[1:])},
         "digests of sections")
    same(sf.verify_manifest(m), [], "result for the manifest signed")
    if how % 2:
        sf = load(sf.get_data(), SignatureManifest)

    # other layouts of the same are taken
    data2, _p = pieces_of(model, eol, width, s, blank)
    again = load(data2)
    same(sf.verify_manifest(again), [], "result for another layout")
    same(sf.verify_manifest(again, data2), [],
         "result for another layout, with its bytes")
    truth(sf.verify_manifest_main_checksum(again), True,
          "the whole, in another layout, verifies")

    model2 = alter(model, edits)
    was = {n: dict(ps) for n, ps in model[1]}
    now = {n: dict(ps) for n, ps in model2[1]}
    bad = {n for n in now if now[n] != was.get(n)}
    first = dict(model2[0]) != dict(model[0])
    changed = first or now != was
    data3, _p = pieces_of(model2, eol, width, s, blank)
    other = load(data3)
    if not changed:
        want = []
    elif first:
        want = SELF
    else:
        want = sorted(bad)
    for more in ((), (data3,)):
        truth(sf.verify_manifest_main_checksum(other, *more), not changed,
              "the whole verifies")
        truth(sf.verify_manifest_main_attributes_checksum(other, *more),
              not first, "the main section verifies")
        same(sorted(sf.verify_manifest(other, *more)), want,
             "result for the altered one")
    for data4 in (None, data3):
        for strict in (True, False):
            same(sorted(sf.verify_manifest_entry_checksums(
                other, strict=strict, data=data4)),
                sorted(n for n in bad if strict or n in was),
                "sections failing, strict=%r" % strict)
    ctx.nontrivial_case(0 < len(bad) < len(now))
    ctx.hit("altered" if changed else "as it was")
    if first:
        ctx.hit("main section altered")


edits = st.lists(st.tuples(
    st.sampled_from(["attr", "attr", "attr", "less", "swap", "add", "drop",
                     "main"]),
    st.integers(0, 9), st.sampled_from(["v", "w", "x" * 90])), max_size=3)
case_made = st.tuples(
    a_model(), edits,
    st.tuples(st.sampled_from(EOLS), st.sampled_from([70, 72, 300]),
              st.integers(0, 50), st.sampled_from([1, 1, 2])),
    st.sampled_from(ALG).map(lambda a: [a]), st.integers(0, 1))


# ---- digests of streams and files ----

def body_streams(case, ctx):
    content, pieces, algs, singles = case
    whole = b"".join(pieces)
    got = manifest.digest_chunks(
        iter(pieces), [ALGORITHMS[a] for a in algs])
    same(list(got), [sg.b64(a, whole) for a in algs],
         "digests of a stream")
    for a in algs:
        same(manifest.b64_encoded_digest(whole, ALGORITHMS[a]),
             sg.b64(a, whole), "digest of bytes")
    with Scratch() as d:
        top = os.path.join(d, "t")
        trees.write_tree(top, content)
        paths = [top]
        want = [(os.path.join(top, n), v) for n, v in content.items()]
        for i in range(singles):
            fn = os.path.join(d, "f%d" % i)
            write(fn, whole[i:])
            paths.insert(i // 2, fn)
            want.append((fn, whole[i:]))
        got = [(n, b"".join(chunks()))
               for n, chunks in manifest.multi_path_generator(paths)]
        same(sorted(got), sorted(want), "files found and their content")
    ctx.nontrivial_case(len(pieces) > 1 or len(want) > 1)


case_streams = st.tuples(
    st.dictionaries(st.sampled_from(["a", "b/c", "b/d/e.x", "\u00e9"]),
                    trees.content(), max_size=4),
    st.lists(st.one_of(st.binary(max_size=40), st.just(b"x" * 20000)),
             max_size=5),
    st.lists(st.sampled_from(ALG), min_size=1, max_size=5, unique=True),
    st.integers(0, 2))


PROPS = [
    Prop("by hand", case_hand, body_hand, quick=2500, thorough=80000),
    Prop("made", case_made, body_made, quick=2500, thorough=80000),
    Prop("streams", case_streams, body_streams, quick=500, thorough=10000),
]
