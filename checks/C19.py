"""
C19: the digests of a manifest are those of the content, and verification
finds just the entries whose content has another one.
"""

import fnmatch
import os
import zipfile

from hypothesis import strategies as st

from javatools import manifest
from javatools.manifest import Manifest

from vlib import manifests as mf
from vlib import trees
from vlib.signing import ALGS, b64 as digest, skipped
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write, read, snapshot, \
    spellings

RULE = ("directories and archives with generated names and contents are "
        "made into a manifest with generated options, which is read by an "
        "independent reader and compared with digests of the contents; "
        "manifests with right, wrong, several and missing digests are "
        "verified against the contents; sections and attributes are "
        "queried; non-trivial when there is a nested entry, a digest is "
        "wrong, or a value is queried")

METHODS = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]


def make_jar(fn, entries, method=zipfile.ZIP_DEFLATED):
    """ entries: [(name, data)] """
    with zipfile.ZipFile(fn, "w", method) as zf:
        for n, v in entries:
            zf.writestr(n, v)
    return fn


extra_names = st.sampled_from(
    ["META-INF/x.txt", "META-INF/K.SF", "META-INF/k.rsa", "META-INF/SIG-a",
     "META-INF/d/K.SF", "a/META-INF/x", "K.SF", "META-INF/MANIFEST.MF.x",
     "META-INF/K.SF.txt", "META-INF/rsa", "meta-inf/y.txt",
     "a/META-INF/MANIFEST.MF", "b/META-INF/K.SF", "META-INF/xDSA",
     "MANIFEST.MF", "a/META-INF/SIG-b"])


@st.composite
def files(draw, max_files=6):
    # (no META-INF as a file, and no manifest)
    out = {n: draw(trees.content()) for n in draw(trees.names(max_files))
           if n.upper().split("/")[0] != "META-INF"}
    for n in draw(st.lists(extra_names, max_size=2)):
        out[n] = draw(st.binary(max_size=5))
    return {n: v for n, v in out.items()
            if not any(k.startswith(n + "/") for k in out)}


patterns = st.sampled_from(["*.class", "a*", "*/x", "?", "[ab]", "x.txt",
                            "b/*", "*.jar", "META-INF/*", "zz"])
ignores = st.lists(st.lists(patterns, min_size=1, max_size=2), max_size=2)
digests_opt = st.one_of(
    st.none(), st.none(),
    st.lists(st.sampled_from(sorted(ALGS)), min_size=1, max_size=3,
             unique=True))


def body_create(case, ctx):
    content, dirs, how, ign, digs, out_to, tail, rec, alter = case
    with Scratch() as d:
        src = os.path.join(d, "in")
        if how == "dir":
            trees.write_tree(src, content, dirs)
        else:
            entries = [(x + "/", b"") for x in dirs] + sorted(content.items())
            make_jar(src, entries, METHODS[how == "deflated"])
        before = snapshot(d)
        args = ["manifest", ["create", "c", "crea"][tail],
                spellings(case, src)[0]]
        if rec:
            args.append("-r")
        for x in ign:
            args += ["-i"] + list(x)
        if digs:
            args += ["-d", ",".join(digs)]
        if out_to:
            fn = os.path.join(d, *out_to.split("/"))
            args += ["--manifest", fn]
        res = run_main(manifest.main, args)
        same(res.rc, 0, "exit code")
        if out_to:
            data = read(fn)
            same(res.out, "", "console output")
        else:
            data = res.out_bytes
        after = snapshot(d)
        need(all(after[k] == v for k, v in before.items()),
             "files have been changed")
        main, secs = mf.parse(data)
        globs = ["META-INF/*"] + [p for x in ign for p in x]
        use = digs or ["MD5", "SHA1"]
        want = {n: {a + "-Digest": digest(a, v) for a in use}
                for n, v in content.items()
                if not any(fnmatch.fnmatchcase(n, p) for p in globs)}
        same({n: dict(ps) for n, ps in secs}, want, "sections")
        same(len(secs), len(want), "number of sections")
        same(main, (("Manifest-Version", "1.0"),), "main section")
        ctx.nontrivial_case(any("/" in n for n in want))
        if len(want) < len(content):
            ctx.hit("ignored")
        if any(len(v) > 2 ** 14 for v in content.values()):
            ctx.hit("several chunks")
        ctx.hit(how)

        # and it verifies for just that content
        jar = {n: v for n, v in content.items()}
        for n in sorted(jar)[:1]:
            if alter:
                jar[n] = jar[n] + b"!"
        bad = [n for n in sorted(jar) if not skipped(n) and
               (n not in want or jar[n] != content[n])]
        fn = make_jar(os.path.join(d, "t.jar"),
                      [("META-INF/MANIFEST.MF", data)] + sorted(jar.items()))
        m = Manifest()
        m.load_from_jar(fn)
        same(m.verify_jar_checksums(fn), bad, "entries failing")
        res = run_main(manifest.main, ["manifest", "verify", fn])
        same(res.rc, 1 if bad else 0, "exit code of verify")
        if bad:
            need(", ".join(bad).encode("utf8") in res.out_bytes,
                 "entries failing are not printed: %r", res.out)
            ctx.hit("verify failed")
        else:
            same(res.out, "", "output of verify")
        # adding digests of the entries makes it right again
        a = use[0]
        for s in m.sub_sections.values():
            s["Kept"] = s.primary()[:9]
        had = {n: dict(s) for n, s in m.sub_sections.items()}
        m.add_jar_entries(fn, a)
        for n, s in had.items():
            s[a + "-Digest"] = None
            got = dict(m.sub_sections[n])
            got[a + "-Digest"] = None
            same(got, s, "other attributes after digests are added")
        same(m.verify_jar_checksums(fn), [], "entries failing after add")
        for n, v in jar.items():
            if not skipped(n):
                same(m.sub_sections[n].get(a + "-Digest"), digest(a, v),
                     "digest added of " + n)


case_create = st.tuples(
    files(), st.lists(st.sampled_from(["q-empty", "q-e/mpty"]), max_size=1)
    .map(tuple), st.sampled_from(["dir", "stored", "deflated"]), ignores,
    digests_opt, st.sampled_from([None, None, "M.MF", "new/dir/M.MF"]),
    st.integers(0, 2), st.booleans(), st.booleans())


# ---- verification against a manifest of any kind ----

@st.composite
def section(draw):
    """ how the section of an entry is: {alg: right?} or None """
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return None
    if kind == 1:
        return ()
    algs = draw(st.lists(st.sampled_from(sorted(ALGS)), min_size=1,
                         max_size=3, unique=True))
    return tuple((a, draw(st.sampled_from([True, True, False])))
                 for a in algs)


def body_verify(case, ctx):
    content, secs, extra, order, attrs, wrong = case
    names = sorted(content)
    if order:
        names.reverse()
    parts = []
    state = {}
    for n, how in zip(names, secs + [None] * len(names)):
        if how is None:
            state[n] = "none"
            continue
        ps = [(a + "-Digest",
               digest(a, content[n]) if ok else
               {0: digest(a, content[n] + b"."),
                1: digest(a, content[n])[:-4], 2: "",
                3: digest(a, content[n]).swapcase(),
                4: digest(a, content[n])[:-1],
                5: digest(a, content[n]) + "="}[wrong])
              for a, ok in how]
        parts.append((n, tuple(ps[:1]) + tuple(attrs) + tuple(ps[1:])))
        state[n] = "none" if not how else \
            "right" if any(ok for a, ok in how) else "wrong"
        if len({ok for a, ok in how}) > 1:
            ctx.hit("right and wrong")
    for n in extra:
        if n not in content:
            parts.append((n, (("SHA1-Digest", digest("SHA1", b"x")),)))
    data = mf.write(((("Manifest-Version", "1.0"),), tuple(parts)),
                    b"\r\n" if order else b"\n")
    with Scratch() as d:
        fn = make_jar(os.path.join(d, "t.jar"),
                      [("META-INF/MANIFEST.MF", data)] +
                      [("dir/", b"")] + [(n, content[n]) for n in names])
        bytes_before = read(fn)
        m = Manifest()
        m.load_from_jar(fn)
        stored = m.get_data()
        for strict in (True, False):
            want = [n for n in names if not skipped(n) and
                    (state[n] == "wrong" or state[n] == "none" and strict)]
            same(m.verify_jar_checksums(fn, strict=strict), want,
                 "entries failing, strict=%r" % strict)
        same(m.get_data(), stored, "manifest after it was verified")
        want = [n for n in names if not skipped(n) and state[n] != "right"]
        same(m.verify_jar_checksums(fn), want, "entries failing")
        res = run_main(manifest.main, ["manifest", "v", fn])
        same(res.rc, 1 if want else 0, "exit code")
        if want:
            need(", ".join(want).encode("utf8") in res.out_bytes,
                 "entries failing are not printed: %r", res.out)
        same(read(fn), bytes_before, "the JAR")
    for s in set(state.values()):
        ctx.hit(s)
    if any(skipped(n) for n in names):
        ctx.hit("skipped entry")
    ctx.nontrivial_case("wrong" in state.values())


other_attrs = st.lists(st.sampled_from(
    [("Sealed", "yes"), ("SHA1-Digest-x", "abc"), ("Digest", "x"),
     ("X-Digest-Y", "1")]), max_size=2, unique=True).map(tuple)
case_verify = st.tuples(
    files(5), st.lists(section(), max_size=8),
    st.lists(st.sampled_from(["gone", "gone/x"]), max_size=1), st.booleans(),
    other_attrs, st.integers(0, 5))


# ---- queries ----

def body_query(case, ctx):
    model, extra, picks = case
    main, secs = model
    qs = []
    want = []
    for kind, i, j in picks:
        if kind == 0:
            k, v = main[i % len(main)]
            if ":" in k:
                continue
            qs.append(k)
            want.append("%s = %s" % (k, v))
        elif kind == 1 and secs:
            n, ps = secs[i % len(secs)]
            ps = (("Name", n),) + ps
            k, v = ps[j % len(ps)]
            if ":" in n:
                continue
            qs.append(n + ":" + k)
            want.append("%s:%s = %s" % (n, k, v))
        elif kind == 2:
            qs.append(extra)
            want.append("%s = None" % extra)
        elif kind == 3 and secs:
            n = secs[i % len(secs)][0]
            if ":" in n:
                continue
            qs.append(n + ":" + extra)
            want.append("%s:%s = None" % (n, extra))
        elif kind == 4:
            qs.append("no-such:" + extra)
            want.append("no-such:%s : No such section" % extra)
    if not qs:
        return
    if any(q.startswith("-h") for q in qs):
        return
    ctx.nontrivial_case(any("= None" not in w for w in want))
    with Scratch() as d:
        fn = make_jar(os.path.join(d, "t.jar"), [
            ("x", b""), ("META-INF/MANIFEST.MF", mf.write(model))])
        before = read(fn)
        res = run_main(manifest.main, ["manifest", "query", fn] + qs)
        same(res.rc, 0, "exit code")
        same(res.out_bytes, "".join(w + "\n" for w in want)
             .encode("utf8"), "output")
        same(read(fn), before, "the JAR")


case_query = st.tuples(
    mf.manifest(), st.sampled_from(["Not-There", "no"]),
    st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9),
                       st.integers(0, 9)), min_size=1, max_size=5))


PROPS = [
    Prop("create", case_create, body_create, quick=1200, thorough=30000),
    Prop("verify", case_verify, body_verify, quick=1600, thorough=40000),
    Prop("query", case_query, body_query, quick=800, thorough=20000),
]
