"""
C18: manifests keep every attribute, byte for byte, and what is written
keeps the format's rules.
"""

import io
import os
import random
import zipfile

from hypothesis import strategies as st

from javatools import manifest
from javatools.manifest import Manifest, SignatureManifest, \
    ManifestSection, ManifestKeyException, MalformedManifest

from vlib import manifests as mf
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, write

RULE = ("manifests with generated attributes and sections (long, non-ASCII, "
        "with blanks and odd separators) are written by an independent "
        "writer with any folding and line ends, parsed, stored and parsed "
        "again by the code and by an independent reader, or made with the "
        "API step by step next to a model; arbitrary and mutated bytes are "
        "parsed as well; non-trivial when a line is folded, a character is "
        "outside ASCII, or there is a section")

EOLS = [b"\n", b"\r\n", b"\r"]


def read_back(m):
    return (tuple(m.items()),
            {n: tuple(s.items()) for n, s in m.sub_sections.items()})


def want_of(model):
    main, secs = model
    return (main, {n: (("Name", n),) + ps for n, ps in secs})


def check_format(data, eol, what):
    """ the rules for a manifest as written """
    need(data.endswith(eol), "%s doesn't end with a line end", what)
    rest = data.replace(eol, b"")
    need(b"\r" not in rest and b"\n" not in rest,
         "%s has several kinds of line ends", what)
    lines = data.split(eol)
    for x in lines:
        need(len(x) + len(eol) <= 72, "%s: line of %i bytes: %r", what,
             len(x) + len(eol), x)
    need(not lines[0].startswith(b" "), "%s starts with a continuation",
         what)
    need(eol * 3 not in data, "%s has empty sections", what)


def label(model, data, ctx):
    main, secs = model
    if any(ord(c) > 127 for k, v in main for c in v):
        ctx.hit("non-ASCII")
        ctx.nontrivial_case()
    if b"\n " in data or b"\r " in data:
        ctx.hit("folded")
        ctx.nontrivial_case()
    if secs:
        ctx.hit("sections")
        ctx.nontrivial_case()


def as_model(data):
    main, secs = mf.parse(data)
    return (main, {n: (("Name", n),) + ps for n, ps in secs})


def body_parse(case, ctx):
    model, eol, width, seed, blank, sig, last = case
    if sig:
        main = (("Signature-Version", model[0][0][1]),) + model[0][1:]
        model = (main, model[1])
    rnd = random.Random(seed) if seed % 3 else None
    data = mf.write(model, eol, width, rnd, blank)
    if last:
        # the last empty line may be missing
        while data.endswith(eol * 2):
            data = data[:-len(eol)]
    label(model, data, ctx)
    cls = SignatureManifest if sig else Manifest
    want = want_of(model)
    m = cls()
    if seed % 5 == 0:
        # the separator is found in what is read, whatever it was before
        m = cls(linesep=EOLS[seed % 3].decode())
    elif seed % 5 == 1:
        # used for another one before
        m.parse(mf.write((model[0] + (("Before", "x"),),
                          (("a", ()), ("before", (("X", "y"),)))),
                         EOLS[seed % 3]))
        m.clear()
        ctx.hit("used again")
    with Scratch() as d:
        how = seed % 4
        if how == 0:
            m.parse_file(write(os.path.join(d, "M.MF"), data))
        elif how == 1 and not sig:
            fn = os.path.join(d, "x.jar")
            with zipfile.ZipFile(fn, "w") as zf:
                zf.writestr("META-INF/MANIFEST.MF", data)
            m.load_from_jar(fn)
        else:
            m.parse(data)
    same(read_back(m), want, "manifest as parsed")
    same(m.linesep, eol.decode(), "line separator")
    for n, s in m.sub_sections.items():
        same(s.primary(), n, "name of a section")
    same(m.primary(), model[0][0][1], "primary value")

    out = m.get_data()
    check_format(out, eol, "manifest")
    same(as_model(out), want, "manifest as stored")
    # stable from then on
    again = cls()
    again.parse(out)
    same(read_back(again), want, "manifest as parsed again")
    same(again.get_data(), out, "manifest as stored again")
    need(out.startswith(m.get_main_section()), "main section isn't first")
    same(as_model(m.get_main_section()), (want[0], {}), "main section")
    size = len(m.get_main_section())
    for s in m.sub_sections.values():
        part = s.get_data(m.linesep)
        need(part in out, "a section isn't stored as it is")
        size += len(part)
    same(size, len(out), "size of the manifest")

    # with any line separator
    for x in EOLS:
        data = m.get_data(x.decode())
        check_format(data, x, "manifest")
        same(as_model(data), want, "manifest stored with %r" % x)
        stream = io.BytesIO()
        m.store(stream, x.decode())
        same(stream.getvalue(), data, "manifest stored in a stream")
        wrapped = io.TextIOWrapper(io.BytesIO())
        m.store(wrapped, x.decode())
        same(wrapped.buffer.getvalue(), data, "stored in a text stream")


case_parse = st.tuples(
    mf.manifest(), st.sampled_from(EOLS), st.sampled_from([70, 70, 71, 72,
                                                           40, 500]),
    st.integers(0, 10**6), st.sampled_from([1, 1, 2, 3]), st.booleans(),
    st.booleans())


# ---- the API, step by step ----

names = st.sampled_from(["a", "b/c.class", "\u00e9", "x" * 75])
ops = st.one_of(
    st.tuples(st.just("set"), st.one_of(st.none(), names),
              st.one_of(mf.key, st.sampled_from(["k" * 68, "k" * 69, "",
                                                   "two words"])),
              st.one_of(mf.value, st.integers(-5, 5))),
    st.tuples(st.just("set"), st.one_of(st.none(), names),
              st.sampled_from(["X", "Y", "Created-By"]), mf.value),
    st.tuples(st.just("create"), names, st.booleans()),
    st.tuples(st.just("del"), st.one_of(st.none(), names),
              st.sampled_from(["X", "Y", "Created-By"])),
    st.tuples(st.just("store"), st.sampled_from(["\n", "\r\n"])),
    st.tuples(st.just("clear")))


def body_api(case, ctx):
    version, steps = case
    m = Manifest(version)
    main = {"Manifest-Version": version}
    secs = {}
    for op in steps:
        if op[0] == "set":
            _o, name, key, val = op
            if name is not None and name not in secs:
                continue
            target = m if name is None else m.sub_sections[name]
            model = main if name is None else secs[name]
            try:
                target[key] = val
                need(len(key) <= 68, "key of %i characters", len(key))
                model[key] = str(val)
            except ManifestKeyException:
                need(len(key) > 68, "key %r refused", key)
                ctx.hit("long key")
        elif op[0] == "create":
            _o, name, over = op
            s = m.create_section(name, overwrite=over)
            if over or name not in secs:
                secs[name] = {"Name": name}
            else:
                ctx.hit("kept a section")
            need(s is m.sub_sections[name], "section isn't in the manifest")
            same(s.primary(), name, "name of a section")
        elif op[0] == "del":
            _o, name, key = op
            model = main if name is None else secs.get(name, {})
            if key in model:
                del model[key]
                del (m if name is None else m.sub_sections[name])[key]
        elif op[0] == "clear":
            m.clear()
            m["Manifest-Version"] = version
            main, secs = {"Manifest-Version": version}, {}
        else:
            bad = [k for d in [main] + list(secs.values()) for k in d
                   if not k]
            try:
                data = m.get_data(op[1])
            except ManifestKeyException:
                need(bad, "can't be stored")
                ctx.hit("bad key")
                return
            need(not bad, "stored an empty key")
            check_format(data, op[1].encode(), "manifest")
            got = as_model(data)
            same((dict(got[0]), {n: dict(x) for n, x in got[1].items()}),
                 (main, secs), "manifest as stored")
            ctx.nontrivial_case(secs)
        same(dict(m.items()), main, "main section")
        same({n: dict(s.items()) for n, s in m.sub_sections.items()}, secs,
             "sections")
        for d, s in [(main, m)] + [(secs[n], m.sub_sections[n])
                                   for n in secs]:
            for suffix in ("y", "-By", "Name"):
                same(sorted(s.keys_with_suffix(suffix)),
                     sorted(k[:-len(suffix)] for k in d
                            if k.endswith(suffix)), "keys with a suffix")


case_api = st.tuples(st.sampled_from(["1.0", "2.0"]),
                     st.lists(ops, min_size=2, max_size=14).map(tuple))


# ---- anything at all ----

BITS = [b"\r", b"\n", b"\r\n", b" ", b":", b": ", b"\0", b"\xff", b"\xc3",
        b"Name: a", b"A: b", b"A", b"\n\n", b" x", b"\x0b", b"\x85",
        "\u2028".encode("utf8"), b"k" * 70]


@st.composite
def junk(draw):
    if draw(st.booleans()):
        return b"".join(draw(st.lists(st.one_of(
            st.sampled_from(BITS), st.sampled_from(BITS),
            st.binary(max_size=4)), max_size=12)))
    model = draw(mf.manifest())
    data = mf.write(model, draw(st.sampled_from(EOLS)))
    for _n in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(data)))
        j = i + draw(st.integers(0, 3))
        data = data[:i] + draw(st.sampled_from(BITS + [b""])) + data[j:]
    return data


def body_junk(data, ctx):
    m = Manifest()
    # the format, in short
    lines = [x.replace(b"\0", b"") for x in
             data.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")]
    bad = False
    within = False
    keys = []
    for x in lines:
        if not x:
            within = False
        elif x[:1] == b" ":
            bad = bad or not within
        else:
            within = True
            bad = bad or b":" not in x
            keys.append(x.split(b":")[0])
    try:
        m.parse(data)
    except MalformedManifest:
        need(bad, "parsing refused %r", data)
        ctx.hit("malformed")
        ctx.nontrivial_case()
        return
    except ManifestKeyException:
        need(any(len(k) > 68 for k in keys), "key refused in %r", data)
        ctx.hit("long key")
        return
    need(not bad, "parsing accepted %r", data)
    ctx.nontrivial_case(m.sub_sections)
    ctx.hit("accepted")
    # what is read can be stored and read again
    have = read_back(m)
    if any(not k for s in [m] + list(m.sub_sections.values()) for k in s) \
            or any(len(k.encode("utf8")) > 68
                   for s in [m] + list(m.sub_sections.values()) for k in s):
        return
    out = m.get_data()
    again = Manifest()
    again.parse(out)
    if any(ch in k for s in [m] + list(m.sub_sections.values()) for k in s
           for ch in " "):
        # (a key with a blank in front would be a continuation)
        return
    same(read_back(again), have, "manifest parsed again")


PROPS = [
    Prop("parse", case_parse, body_parse, quick=3000, thorough=80000),
    Prop("api", case_api, body_api, quick=1600, thorough=40000),
    Prop("junk", junk(), body_junk, quick=3000, thorough=80000),
]
