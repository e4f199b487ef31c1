"""
C23: a signature is taken for the signer who was asked for, and only when
the certificate given stands for it.
"""

import os
import random

from hypothesis import strategies as st

from javatools import crypto, jarutil

from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, read, write
from checks import C21, C22

RULE = ("JARs are signed by several signers, whose certificates are plain, "
        "chained, restricted in use or time, or of the same name as "
        "another's; each combination of signer asked for and certificate "
        "trusted has the outcome that a table of certificates says; blocks "
        "are altered, cut, of other kinds and other contents, and fail with "
        "the error documented; non-trivial when there are several signers, "
        "or the certificate isn't the signer's")

# signer: (certificate, key, the trust it verifies with)
SIGNERS = {
    "rsa": ("rsa", "rsa", {"rsa"}), "rsa2": ("rsa2", "rsa2", {"rsa2"}),
    "dsa": ("dsa", "dsa", {"dsa"}), "ec": ("ec", "ec", {"ec"}),
    "ec384": ("ec384", "ec384", {"ec384"}),
    "evil-rsa": ("evil-rsa", "evil-rsa", {"evil-rsa"}),
    "evil-dsa": ("evil-dsa", "evil-dsa", {"evil-dsa"}),
    "evil-ec": ("evil-ec", "evil-ec", {"evil-ec"}),
    "email": ("email", "email", {"email"}),
    "codesign": ("codesign", "codesign", {"codesign"}),
    "nosign": ("nosign", "nosign", set()),
    "expired": ("expired", "rsa2", set()),
    "future": ("future", "rsa2", set()),
    # (with the certificate between it and the root, or not)
    "leaf": ("leaf", "leaf", {"ca", "chain"}),
    "leaf alone": ("leaf", "leaf", {"chain"}),
    # meant for signing, and not
    "nonrep": ("nonrep", "leaf", {"nonrep"}),
    "ekuonly": ("ekuonly", "leaf", {"ekuonly"}),
    "kuonly": ("kuonly", "leaf", {"kuonly"}),
    "encemail": ("encemail", "leaf", set()),
    "enconly": ("enconly", "leaf", set()),
    "leaf-code": ("leaf-code", "leaf", {"ca", "chain"}),
    "leaf-enc": ("leaf-enc", "leaf", set()),
    # by a certificate which is meant for something else, may not issue
    # any, or has expired, or isn't to issue those which do
    "leaf-eku": ("leaf-eku", "leaf", set()),
    "leaf-noca": ("leaf-noca", "leaf", set()),
    "leaf-use": ("leaf-use", "leaf", set()),
    "leaf-old": ("leaf-old", "leaf", set()),
    "leaf-path": ("leaf-path", "leaf", set()),
    "leaf-low": ("leaf-low", "leaf", {"pathca"})}
TRUST = sorted({c for c, _k, _t in SIGNERS.values()} |
               {"ca", "int", "chain", "pathca"})
ALIASES = ["A", "B", "C-1", "lower"]


def extras(signer, more):
    if signer == "leaf alone":
        return []
    if signer in ("leaf", "leaf-code", "leaf-enc"):
        out = ["int"]
    elif signer.startswith("leaf-") and signer != "leaf-low":
        out = [signer.replace("leaf", "int")]
    else:
        out = []
    return out + list(more)


signer = st.sampled_from(sorted(SIGNERS))
extra_certs = st.lists(st.sampled_from(["ca", "rsa", "rsa2", "evil-rsa",
                                        "ec"]), max_size=2, unique=True)


def trusted(s, trust):
    """ a trust file may hold several certificates """
    good = SIGNERS[s][2]
    have = set(trust)
    if "chain" in have:
        have |= {"ca", "int"}
    if {"ca", "int"} <= have:
        have.add("chain")
    return bool(good & have)


def body_trust(case, ctx):
    signers, more, trust, blob, names, own = case
    if own:
        # that of one of them
        s = signers[own % len(signers)]
        trust = (SIGNERS[s][0],) if own % 3 == 0 else \
            tuple(sorted(SIGNERS[s][2]))[:1] or trust
    with Scratch() as d:
        fn = sg.write_jar(os.path.join(d, "a.jar"), [
            (sg.MANIFEST, b"Manifest-Version: 1.0\r\n\r\n"), ("x", blob)])
        by = dict(zip(names, signers))
        for alias, s in by.items():
            c, k, _t = SIGNERS[s]
            jarutil.sign(fn, sg.cert(c), sg.key(k), alias,
                         extra_certs=[sg.cert(x) for x in extras(s, more)])
        tf = os.path.join(d, "trust.pem")
        write(tf, b"".join(read(sg.cert(t)) for t in trust))
        ctx.nontrivial_case(len(by) > 1)
        for alias in sorted(by) + ["NONE"]:
            for sf in (alias + ".SF", alias):
                try:
                    jarutil.verify(tf, fn, sf)
                    got = None
                except jarutil.VerificationError as exc:
                    got = type(exc).__name__
                if alias == "NONE" or sf == alias:
                    need(got, "verified for a signer who isn't there")
                    if len(by) == 1:
                        need(got in ("VerificationError",
                                     "JarSignatureMissingError"),
                             "reason %r", got)
                    continue
                s = by[alias]
                ok = trusted(s, trust)
                ctx.hit("%s %s" % (s, "verifies" if ok else "refused"))
                if not ok:
                    ctx.nontrivial_case()
                same(got, None if ok else
                     "SignatureBlockFileVerificationError",
                     "outcome for %s, trusting %s" % (s, "+".join(trust)))
        try:
            jarutil.verify(tf, fn)
            got = None
        except jarutil.VerificationError as exc:
            got = type(exc).__name__
        if len(by) > 1:
            same(got, "VerificationError", "outcome without a choice")
        else:
            same(got, None if trusted(signers[0], trust) else
                 "SignatureBlockFileVerificationError", "outcome")


case_trust = st.integers(1, 3).flatmap(lambda n: st.tuples(
    st.lists(signer, min_size=n, max_size=n).map(tuple), extra_certs,
    st.one_of(
        st.lists(st.sampled_from(TRUST), min_size=1, max_size=2,
                 unique=True),
        st.lists(st.sampled_from(TRUST), min_size=1, max_size=1)),
    st.binary(max_size=3),
    st.permutations(ALIASES).map(lambda x: tuple(x[:n])),
    st.integers(0, 12)))


def body_own(case, ctx):
    """ each signer and its own certificate, and those of its name """
    s, alg, content, more = case
    c, k, good = SIGNERS[s]
    if alg not in sg.DIGESTS.get(k, ()):
        alg = "SHA-256"
    block = crypto.create_signature_block(
        C22.OPENSSL[alg], sg.cert(c), sg.key(k),
        [sg.cert(x) for x in extras(s, more)] or None, content)
    for t in TRUST:
        try:
            crypto.verify_signature_block(sg.cert(t), content, block)
            got = True
        except crypto.SignatureBlockVerificationError:
            got = False
        same(got, trusted(s, [t]), "trusting %s the signature of %s" % (t, s))
        for other in (content + b" ", content[:-1] + b"\1", b""):
            if other == content or not got:
                continue
            try:
                crypto.verify_signature_block(sg.cert(t), other, block)
            except crypto.SignatureBlockVerificationError:
                continue
            raise Violation("signature of %r is taken for %r" %
                            (content, other))
    ctx.hit(s)
    ctx.nontrivial_case(good)
    same(crypto.private_key_type(sg.key(k)), sg.ext(k), "type of key")


case_own = st.tuples(signer, st.sampled_from(sg.ALL),
                     st.binary(max_size=300), extra_certs)


def verify_in_child(trust, content, block):
    """ the outcome, in a process of its own: it is C code """
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                crypto.verify_signature_block(trust, content, block)
                out = "ok"
            except BaseException as exc:
                out = type(exc).__name__
            os.write(w, out.encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fd:
            out = fd.read().decode()
    finally:
        _pid, status = os.waitpid(pid, 0)
    need(os.WIFEXITED(status), "killed by signal %i", status & 0x7f)
    return out


def body_block(case, ctx):
    k, kind, seed, content, flips = case
    r = random.Random(seed)
    alg = r.choice(sg.DIGESTS[k])
    block = crypto.create_signature_block(
        C22.OPENSSL[alg], sg.cert(k), sg.key(k), None, content)
    trust = k
    want = "SignatureBlockVerificationError"
    if kind == "flip":
        new = C22.flipped(block, flips)
        want = None if new != block else "ok"
        block = new
    elif kind == "cut":
        block = block[:r.randrange(len(block))]
    elif kind == "junk":
        block = bytes(r.randrange(256) for _i in range(r.randrange(80)))
    elif kind == "der":
        # something well-formed
        block = r.choice([b"\5\0", b"0\0", b"0\x03\x02\x01\x05",
                          b"\x04\x02ab", b"0\x80\0\0",
                          b"\x30\x0b\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01"
                          b"\x07" + bytes([r.randrange(8)])])
    elif kind == "text":
        block = read(sg.cert(k))
    elif kind == "tail":
        block = block + b"\0" * r.randrange(1, 4)
        want = None
    else:
        trust, content = "rsa", b"data"
        block = read(os.path.join(sg.KEYS, "blocks", kind + ".der"))
        if kind == "attrs":
            want = "ok"
            if seed % 2:
                content, want = b"other", "SignatureBlockVerificationError"
    got = verify_in_child(sg.cert(trust), content, block)
    if want:
        same(got, want, "outcome for a block: " + kind)
    else:
        need(got in ("ok", "SignatureBlockVerificationError"),
             "error %s for a block", got)
    ctx.hit(kind)
    ctx.hit(got)
    ctx.nontrivial_case(kind in ("flip", "attrs", "degen", "attached"))
    if got == "ok" and kind == "flip":
        # whatever it was, it isn't one of something else
        same(verify_in_child(sg.cert(trust), content + b"x", block),
             "SignatureBlockVerificationError", "outcome for other content")
        same(verify_in_child(sg.cert("ec384"), content, block),
             "SignatureBlockVerificationError", "outcome for other trust")


case_block = st.tuples(
    st.sampled_from(["rsa", "ec", "dsa"]),
    st.sampled_from(["flip", "flip", "flip", "cut", "junk", "der", "text",
                     "tail", "degen", "attached", "attrs", "nocerts",
                     "env"]),
    st.integers(0, 10**6), st.binary(max_size=40),
    st.lists(st.tuples(trees.fraction, st.integers(0, 4),
                       st.integers(0, 255)), min_size=1,
             max_size=2).map(tuple))


def body_keys(case, ctx):
    k, how, seed = case
    data = read(sg.key(k))
    r = random.Random(seed)
    with Scratch() as d:
        bad = True
        if how == "same":
            bad = False
        elif how == "crlf":
            data, bad = data.replace(b"\n", b"\r\n"), False
        elif how == "before":
            # things in front of it are skipped
            data, bad = b"some text\n" + data, False
        elif how == "cert before":
            data, bad = read(sg.cert(k)) + data, False
        elif how == "short":
            data = data[:r.randrange(len(data) - 40)]
        elif how == "cert":
            data = read(sg.cert(k))
        elif how == "junk":
            data = bytes(r.randrange(256) for _i in range(r.randrange(99)))
        fn = os.path.join(d, "k.key")
        if how != "nothing":
            write(fn, data)
        try:
            got = crypto.private_key_type(fn)
        except crypto.CannotFindKeyTypeError:
            got = None
        same(got, None if bad else sg.ext(k), "type of key")
        ctx.hit(how)
        ctx.nontrivial_case(not bad)


case_keys = st.tuples(
    st.sampled_from(["rsa", "dsa", "ec", "ec384", "leaf", "evil-ec"]),
    st.sampled_from(["same", "crlf", "before", "cert before", "short",
                     "cert", "junk", "nothing"]),
    st.integers(0, 10**6))


PROPS = [
    Prop("trust", case_trust, body_trust, quick=900, thorough=20000),
    Prop("own", case_own, body_own, quick=500, thorough=15000),
    Prop("block", case_block, body_block, quick=1500, thorough=60000),
    Prop("keys", case_keys, body_keys, quick=300, thorough=5000),
]
