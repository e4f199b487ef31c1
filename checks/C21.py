"""
C21: what has been signed verifies, whatever is in it, and signing keeps
everything else.
"""

import os
import random
import zipfile

from hypothesis import strategies as st

from javatools import jarutil
from javatools.manifest import Manifest

from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, run_main, read
from checks import C19

RULE = ("JARs with generated contents and manifests (with sections and "
        "digests, right and wrong) are signed up to three times with "
        "generated keys, aliases, digests and options; every entry, each "
        "digest of manifest and signature file is looked at independently, "
        "and the result verified by the code and at times by openssl; "
        "non-trivial when an entry has a digest and the manifest had "
        "sections or attributes, or it is signed again")

KEYS = ["rsa", "dsa", "ec", "rsa2", "ec384", "leaf", "codesign"]
ALIASES = ["KEY", "KEY", "k", "OTHER", "a.b", "SIG-X", "My Key"]


@st.composite
def step(draw):
    k = draw(st.sampled_from(KEYS))
    return (k, draw(st.sampled_from(ALIASES)),
            draw(st.sampled_from(sg.DIGESTS[k])),
            draw(st.sampled_from(["api", "cli", "cli"])),
            draw(st.sampled_from([None, None, "out.jar"])),
            draw(st.booleans()))


@st.composite
def jar(draw):
    content = draw(C19.files(5))
    names = sorted(content)
    m = draw(mf.manifest(
        names=st.one_of(mf.section_name, st.sampled_from(names))
        if names else mf.section_name))
    main, secs = m
    # digests which may be wrong
    secs = [(n, ps if not draw(st.booleans()) else
             tuple(p for p in ps if "digest" not in p[0].lower()) +
             ((draw(st.sampled_from(["SHA-256", "SHA1", "MD5"])) + "-Digest",
               draw(st.sampled_from(["", "wrong", sg.b64("SHA1", b"")]))),))
            for n, ps in secs]
    dirs = draw(st.lists(st.sampled_from(["META-INF", "empty", "e/mpty"]),
                         max_size=2, unique=True))
    order = draw(st.integers(0, 10**6))
    eol = draw(st.sampled_from([b"\r\n", b"\n", b"\n", b"\r"]))
    data = mf.write((main, tuple(secs)), eol,
                    draw(st.sampled_from([70, 70, 60, 200])),
                    random.Random(order) if order % 2 else None,
                    draw(st.sampled_from([1, 1, 2])))
    entries = [(sg.MANIFEST, data)] + [(x + "/", b"") for x in dirs] + \
        sorted(content.items())
    if order % 3 == 0:
        random.Random(order).shuffle(entries)
    return (tuple(entries), (main, tuple(secs)),
            draw(st.sampled_from([zipfile.ZIP_STORED,
                                  zipfile.ZIP_DEFLATED])),
            draw(st.sampled_from([b"", b"", b"comment"])))


def sign(fn, stp, out):
    k, alias, alg, how, _out, extra = stp
    extras = []
    if k == "leaf":
        extras = [sg.cert("int")] + ([sg.cert("ca")] if extra else [])
    elif extra:
        extras = [sg.cert("rsa2")]
    if how == "api":
        kwds = {}
        if extras:
            kwds["extra_certs"] = extras
        if alg != "SHA-256":
            kwds["digest"] = alg
        if out:
            kwds["output"] = out
        same(jarutil.sign(fn, sg.cert(k), sg.key(k), alias, **kwds), None,
             "result of sign")
        return
    args = ["jarutil", "sign" if extra else "s", fn, sg.cert(k), sg.key(k),
            alias]
    if alg != "SHA-256" or extra:
        args += ["-d", alg]
    for x in extras:
        args += ["-c", x]
    if out:
        args += ["-o", out]
    res = run_main(jarutil.main, args)
    same((res.rc, res.out), (0, ""), "signing")


def trust_of(k):
    return sg.cert("ca" if k == "leaf" else k)


def verifies(fn, k, sf=None, how="api"):
    """ None or a message """
    if how == "api":
        try:
            got = jarutil.verify(trust_of(k), fn, sf)
        except jarutil.VerificationError as exc:
            return str(exc) or "failed"
        same(got, None, "result of verify")
        return None
    args = ["jarutil", how, fn, trust_of(k)] + ([sf] if sf else [])
    res = run_main(jarutil.main, args)
    if res.rc == 0:
        same(res.out, "Jar verified.\n", "output of verify")
        return None
    same(res.rc, 1, "exit code of verify")
    need(res.out.strip() and "verified." not in res.out,
         "output when verifying failed: %r", res.out)
    return res.out


def check_signed(fn, before, stp, model):
    """ the entries of a signed JAR, and the model of its manifest """
    k, alias, alg = stp[:3]
    after = sg.read_jar(fn)
    own = ["META-INF/%s.SF" % alias, "META-INF/%s.%s" % (alias, sg.ext(k))]
    gone = {"META-INF/%s.%s" % (alias, x)
            for x in ("SF", "RSA", "DSA", "EC")} | {sg.MANIFEST}
    rest = [(n, v) for n, v in before if n not in gone]
    same([n for n, _v in after],
         [sg.MANIFEST] + own + [n for n, _v in rest], "entries")
    same(after[3:], rest, "contents of the entries")
    manifest, sf, block = (v for _n, v in after[:3])

    main, secs = mf.parse(manifest)
    same(main, model[0], "main section of the manifest")
    want = {n: dict(ps) for n, ps in model[1]}
    for n, v in before:
        if not sg.skipped(n):
            want.setdefault(n, {})[alg + "-Digest"] = sg.b64(alg, v)
    same({n: dict(ps) for n, ps in secs}, want, "sections of the manifest")
    same(len(secs), len(want), "number of sections")
    sg.check_sf(sf, manifest, alg)
    return after, (main, secs), sf, block


def body_sign(case, ctx):
    (entries, model, method, comment), steps = case
    with Scratch() as d:
        fn = sg.write_jar(os.path.join(d, "in.jar"), entries, method,
                          comment)
        before = list(entries)
        good = {}
        signed = any(not sg.skipped(n) for n, _v in before)
        ctx.nontrivial_case(
            signed and (model[1] or len(model[0]) > 1) or len(steps) > 1)
        for i, stp in enumerate(steps):
            k, alias, alg, how, out, extra = stp
            out = out and os.path.join(d, "%i%s" % (i, out))
            old = read(fn)
            was = dict(before)[sg.MANIFEST]
            sign(fn, stp, out)
            if out:
                same(read(fn), old, "the JAR signed to elsewhere")
                ctx.hit("output")
                fn = out
            before, model, sf, block = check_signed(fn, before, stp, model)
            same(sg.digests_of_block(block), {alg},
                 "digests of the signature block")
            ctx.hit(k)
            ctx.hit(alg)
            if alias in good:
                ctx.hit("same alias again")
            if was != dict(before)[sg.MANIFEST]:
                # (other signers' digests are of the former one)
                good = {}
            elif set(good) - {alias}:
                ctx.hit("several valid signatures")
            good[alias] = k
            sfs = [n for n, _v in before if sg.skipped(n) and
                   n.upper().endswith(".SF")]
            content = read(fn)
            for a, key in sorted(good.items()):
                for way in ("api", ["verify", "v"][extra]):
                    if len(sfs) == 1:
                        same(verifies(fn, key, None, way), None,
                             "failure to verify")
                    same(verifies(fn, key, a + ".SF", way), None,
                         "failure to verify for " + a)
            if len(sfs) > 1:
                need(verifies(fn, k), "verified without a choice")
            # nobody else's
            other = "rsa2" if k != "rsa2" else "ec"
            need(verifies(fn, other, alias + ".SF"), "verified as someone "
                 "else's")
            same(read(fn), content, "the JAR verified")
            if len(content) % 8 == 0:
                ok, msg = sg.openssl_verifies(block, sf, trust_of(k), d)
                need(ok, "openssl refused the block: %r", msg)
                ctx.hit("openssl")
            m = Manifest()
            m.load_from_jar(fn)
            same(m.verify_jar_checksums(fn), [], "entries failing")


case_sign = st.tuples(jar(), st.lists(step(), min_size=1, max_size=3)
                      .map(tuple))


def body_refused(case, ctx):
    """ what can't be signed stays as it is """
    (entries, _m, method, comment), what, how, to = case
    entries = list(entries)
    if what == "manifest":
        entries = [e for e in entries if e[0] != sg.MANIFEST]
    c, k = sg.cert("rsa"), sg.key("rsa")
    if what == "key":
        k = sg.cert("rsa")
    elif what == "no key":
        k = sg.key("not-there")
    with Scratch() as d:
        fn = sg.write_jar(os.path.join(d, "in.jar"), entries, method,
                          comment)
        out = os.path.join(d, "out.jar") if to else None
        old = read(fn)
        if how == "api":
            try:
                jarutil.sign(fn, c, k, "KEY", output=out)
            except jarutil.MissingManifestError:
                same(what, "manifest", "reason")
            except jarutil.CannotFindKeyTypeError:
                need(what in ("key", "no key"), "key type not found")
            else:
                raise Violation("signed all the same")
        else:
            res = run_main(jarutil.main, ["jarutil", "s", fn, c, k, "KEY"] +
                           (["-o", out] if to else []))
            same(res.rc, 2 if what == "manifest" else 1, "exit code")
            need(res.out, "no message")
        ctx.hit(what)
        ctx.nontrivial_case()
        same(read(fn), old, "the JAR")
        need(not to or not os.path.exists(out), "there is output")


case_refused = st.tuples(
    jar(), st.sampled_from(["manifest", "key", "no key"]),
    st.sampled_from(["api", "cli"]), st.booleans())


PROPS = [
    Prop("sign", case_sign, body_sign, quick=1500, thorough=30000),
    Prop("refused", case_refused, body_refused, quick=150, thorough=2000),
]
