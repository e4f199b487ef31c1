"""
C26: signatures and manifests work with those of Java, either way.
"""

import os
import random
import zipfile

from hypothesis import strategies as st

from javatools import jarutil
from javatools.manifest import Manifest

from vlib import jvm
from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch
from vlib.util import need, same, read, write
from checks import C19, C21, C22

RULE = ("JARs with generated contents are signed by Java's own JarSigner and "
        "verified here, or signed here and verified by java.util.jar, as "
        "they are and tampered with; generated manifests are read by both, "
        "as written by both and by an independent writer; non-trivial when "
        "there is a signed entry, or an attribute is folded or in a section")

setup = jvm.setup

EOLS = [b"\n", b"\r\n", b"\r\n"]

SIGALGS = {"rsa": ["-", "SHA1withRSA", "SHA256withRSA", "SHA512withRSA"],
           "dsa": ["-", "SHA256withDSA"],
           "ec": ["-", "SHA1withECDSA", "SHA256withECDSA"],
           "ec384": ["-", "SHA256withECDSA", "SHA384withECDSA"],
           "leaf": ["-", "SHA256withRSA"]}


def p12(k):
    return os.path.join(sg.KEYS, k + ".p12")


def signable(entries):
    return [n for n, _v in entries if not sg.skipped(n)]


def java_signed(fn, k, names):
    """ all the entries are signed, for Java """
    states = dict(jvm.verify(fn, sg.cert(k)))
    same({n: states[n] for n in names}, {n: "S" for n in names},
         "entries signed with " + k)


@st.composite
def jar(draw):
    content = draw(C19.files(5))
    main = (("Manifest-Version", "1.0"),) + draw(
        mf.pairs(skip=("Manifest-Version", "Name", "Signature-Version")))
    attrs = tuple((n, draw(mf.pairs(mf.plain_value, 2, ("Name",))))
                  for n in sorted(content)
                  # (Java wants digests of a signature it makes anew)
                  if not sg.skipped(n) and draw(st.integers(0, 2)) == 2)
    data = mf.write((main, attrs), draw(st.sampled_from(EOLS)))
    dirs = draw(st.lists(st.sampled_from(["META-INF", "empty", "e/mpty"]),
                         max_size=2, unique=True))
    return tuple([(sg.MANIFEST, data)] + [(x + "/", b"") for x in dirs] +
                 [e for e in sorted(content.items())
                  # signature files before there is a signature
                  if not (sg.skipped(e[0]))])


# ---- by Java ----

def body_java_signs(case, ctx):
    """ what Java signs verifies, and not when altered """
    entries, k, digest, i, name, seed = case
    sigalg = SIGALGS[k][i % len(SIGALGS[k])]
    with Scratch() as d:
        fn = sg.write_jar(os.path.join(d, "in.jar"), entries)
        out = os.path.join(d, "out.jar")
        jvm.sign(fn, out, p12(k), name, digest, sigalg)
        ctx.hit(k)
        ctx.hit(digest)
        ctx.hit("signature " + sigalg)
        names = signable(entries)
        ctx.nontrivial_case(names)
        got = sg.read_jar(out)
        for how in ("api", "v"):
            same(C21.verifies(out, k, None, how), None,
                 "failure to verify what Java signed")
            need(C21.verifies(out, "rsa2", None, how), "verified as someone "
                 "else's")
        m = Manifest()
        m.load_from_jar(out)
        same(m.verify_jar_checksums(out), [], "entries failing")
        same(sorted(n for n in m.sub_sections),
             sorted(set(names) | set(mf.parse(entries[0][1])[1] and
                                     [n for n, _p in
                                      mf.parse(entries[0][1])[1]])),
             "sections")
        if not names:
            return
        rnd = random.Random(seed)
        bad = rnd.choice(names)
        new = [(n, v + b"!" if n == bad else v) for n, v in got]
        fn = sg.write_jar(os.path.join(d, "bad.jar"), new)
        need(C21.verifies(fn, k), "verified with another %s" % bad)
        # signed once more, here, by the same alias (what Java folds its
        # own way is folded anew, so another's signature wouldn't last)
        jarutil.sign(out, sg.cert("rsa"), sg.key("rsa"), name,
                     digest=digest)
        same(C21.verifies(out, "rsa", name + ".SF"), None,
             "failure to verify when signed once more")
        java_signed(out, "rsa", names)


case_java_signs = st.tuples(
    jar(), st.sampled_from(sorted(SIGALGS)),
    st.sampled_from(["SHA-256", "SHA1", "SHA-512", "SHA-384", "MD5"]),
    st.integers(0, 5), st.sampled_from(["KEY", "A_B-1", "K"]),
    st.integers(0, 10**6))


# ---- by the code ----

def body_java_verifies(case, ctx):
    """ what is signed here is signed for Java """
    entries, steps = case
    with Scratch() as d:
        fn = sg.write_jar(os.path.join(d, "in.jar"), entries)
        names = signable(entries)
        ctx.nontrivial_case(names)
        good = []
        for stp in steps:
            # (with another digest the manifest isn't that of before)
            if good and stp[2] != steps[0][2]:
                continue
            was = dict(sg.read_jar(fn))[sg.MANIFEST]
            C21.sign(fn, stp[:4] + (None, stp[5]), None)
            if dict(sg.read_jar(fn))[sg.MANIFEST] != was:
                good = []
            good = [g for g in good if g[1] != stp[1]] + [stp[:2]]
            ctx.hit(stp[0])
            ctx.hit(stp[2])
        for k in sorted(set(k for k, _a in good)):
            java_signed(fn, k, names)


def java_step(s):
    return s[1] not in ("SIG-X",)


case_java_verifies = st.tuples(
    jar(), st.lists(C21.step().filter(java_step), min_size=1, max_size=2)
    .map(tuple))


# ---- tampered with ----

def body_tamper(case, ctx):
    """ what verifies here is all signed for Java too """
    p, op, seed = case
    if p[7] == b"\r":
        p = p[:7] + (b"\n",) + p[8:]
    if p[4] == "whole only":
        # (Java takes just those entries the signature file names)
        p = p[:4] + ("full",) + p[5:]
    with Scratch() as d:
        entries = C22.signed(p, d)
        t = C22.Tamper(list(entries), p, random.Random(seed), d)
        want = getattr(t, op)()
        if want is False:
            return
        k, alias = p[5], p[8]
        fn = sg.write_jar(os.path.join(d, "x.jar"), t.entries, t.method,
                          t.comment)
        bad = C21.verifies(fn, k, alias + ".SF") \
            if sg.MANIFEST in dict(t.entries) else "no manifest"
        try:
            states = dict(jvm.verify(fn, sg.cert(k)))
            java = all(states[n] == "S" for n in signable(t.entries))
        except jvm.JavaError as exc:
            states = exc
            need(exc.cls == "java.lang.SecurityException" or
                 exc.cls.startswith("java."), "%s", exc)
            java = False
        ctx.hit("%s, Java: %s" % ("refused" if bad else "verified", java))
        ctx.nontrivial_case()
        if not bad:
            need(java, "verifies, but isn't all signed for Java (%s): %r",
                 op, states)


case_tamper = st.tuples(C22.parts(), st.sampled_from(C22.OPS),
                        st.integers(0, 10**6))


# ---- manifests ----

# (Java drops blanks at the end of a section's name only on some paths)
names = st.one_of(
    st.sampled_from(["a", "a/b.class", "org/x/", "\u00e9/\u540d.txt",
                     "n" * 80, "sp ace.txt", "\u20ac" * 30, "z:y"]),
    trees.names(1).map(lambda ns: sorted(ns)[0] if ns else "x"))


def body_manifests(case, ctx):
    model, eol, width, seed = case
    main, secs = model
    data = mf.write(model, eol, width,
                    random.Random(seed) if seed % 2 else None)
    with Scratch() as d:
        fn = write(os.path.join(d, "A.MF"), data)
        java = jvm.read_manifest(fn)
        m = Manifest()
        m.parse_file(fn)
        got = dict(m), {n: {k: v for k, v in s.items() if k != "Name"}
                        for n, s in m.sub_sections.items()}
        same(got, java, "manifest as read here and by Java")
        # as written here, for Java
        with open(os.path.join(d, "B.MF"), "wb") as fd:
            m.store(fd)
        same(jvm.read_manifest(os.path.join(d, "B.MF")), java,
             "manifest as written here, read by Java")
        # as written by Java
        jvm.rewrite_manifest(fn, os.path.join(d, "C.MF"))
        again = Manifest()
        again.parse_file(os.path.join(d, "C.MF"))
        want = dict(m)
        got = dict(again)
        if not main[0][1]:
            # Java doesn't write a main section without a version
            pass
        else:
            same(got, want, "main section written by Java")
        same({n: dict(s) for n, s in again.sub_sections.items()},
             {n: dict(s) for n, s in m.sub_sections.items()},
             "sections written by Java")
        ctx.nontrivial_case(secs or b"\n " in data)
        if b"\n " in data:
            ctx.hit("folded")
        if secs:
            ctx.hit("sections")


case_manifests = st.tuples(
    mf.manifest(names=names), st.sampled_from(EOLS),
    st.sampled_from([70, 70, 60, 300]), st.integers(0, 10**6))


PROPS = [
    Prop("java signs", case_java_signs, body_java_signs, quick=800,
         thorough=20000),
    Prop("java verifies", case_java_verifies, body_java_verifies, quick=600,
         thorough=20000),
    Prop("tamper", case_tamper, body_tamper, quick=1000, thorough=40000),
    Prop("manifests", case_manifests, body_manifests, quick=2000,
         thorough=40000),
]
