"""
C22: a signed JAR which has been tampered with doesn't verify.
"""

import os
import random
import zipfile
import zlib

from hypothesis import strategies as st

from javatools import crypto, jarutil
from javatools.manifest import Manifest

from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, run_main, read, write
from checks import C19

RULE = ("JARs with generated content are signed, by the code or with "
        "signature files of other shapes made independently, and altered in "
        "one of many ways, or some of their bytes are; those altered in what "
        "is signed must not verify, and fail for the reason they have; those "
        "with harmless changes must; non-trivial when what was altered is "
        "signed")

KEYS = ["rsa", "rsa", "ec", "dsa"]
SHAPES = ["own", "own", "full", "no whole", "whole only", "two"]


@st.composite
def parts(draw):
    """ what is signed """
    content = {n: v for n, v in draw(C19.files(4)).items()
               if not (sg.skipped(n) and n.upper().endswith(".SF"))}
    content.setdefault("always.txt", draw(st.binary(max_size=4)))
    content.setdefault("d/always", draw(trees.content()))
    main = (("Manifest-Version", "1.0"),) + draw(
        mf.pairs(skip=("Manifest-Version", "Name")))
    extra = draw(st.lists(mf.section_name, max_size=1))
    attrs = {n: draw(mf.pairs(mf.plain_value, 2, ("Name",)))
             for n in sorted(content) if draw(st.integers(0, 3)) == 3}
    k = draw(st.sampled_from(KEYS))
    return (content, main, tuple(n for n in extra if n not in content),
            attrs, draw(st.sampled_from(SHAPES)), k,
            draw(st.sampled_from(sg.DIGESTS[k])),
            draw(st.sampled_from([b"\n", b"\r\n", b"\r\n", b"\r"])),
            draw(st.sampled_from(["KEY", "a.b"])),
            # how others lay out their manifests
            draw(st.sampled_from([70, 70, 72, 60])),
            draw(st.booleans()))


OPENSSL = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256",
           "SHA-384": "sha384", "SHA-512": "sha512"}


def make_sf(manifest, shape, alg, eol, secs):
    main, msecs = mf.parse(manifest)
    pieces = sg.split_sections(manifest)
    algs = [alg] + (["MD5"] if alg != "MD5" else ["SHA1"]) \
        if shape == "two" else [alg]
    top = [("Signature-Version", "1.0")]
    out = {}
    for a in algs:
        if shape != "no whole":
            top.append((a + "-Digest-Manifest", sg.b64(a, manifest)))
        if shape != "whole only":
            top.append((a + "-Digest-Manifest-Main-Attributes",
                        sg.b64(a, pieces[0])))
            for (n, _ps), piece in zip(msecs, pieces[1:]):
                out.setdefault(n, []).append(
                    (a + "-Digest", sg.b64(a, piece)))
    return mf.write((tuple(top), tuple((n, tuple(ps))
                                       for n, ps in out.items())), eol)


def block(k, alg, sf):
    return crypto.create_signature_block(OPENSSL[alg], sg.cert(k),
                                         sg.key(k), None, sf)


def hash_of(name):
    return zlib.crc32(name.encode("utf8"))


def signed(p, d):
    """ the entries of the signed JAR """
    content, main, extra, attrs, shape, k, alg, eol, alias, width, srt = p
    names = sorted(content)
    files = [(n, content[n]) for n in names]
    secs = [(n, tuple(attrs.get(n, ())) + ((alg + "-Digest",
                                            sg.b64(alg, content[n])),))
            for n in names if not sg.skipped(n)]
    secs += [(n, (("X", "1"),)) for n in extra]
    # in the order of what they are written as, or any other
    secs.sort(key=lambda s: hash_of(s[0]))
    if srt:
        secs.sort(key=lambda s: mf.write_pairs((("Name", s[0]),) + s[1],
                                               b"\n", 70, None) + b"\n")
    if shape == "own":
        raw = mf.write((main, tuple((n, attrs.get(n, ()))
                                    for n, _s in secs)), eol, width)
        fn = sg.write_jar(os.path.join(d, "own.jar"),
                          [(sg.MANIFEST, raw)] + files)
        jarutil.sign(fn, sg.cert(k), sg.key(k), alias, digest=alg)
        return sg.read_jar(fn)
    manifest = mf.write((main, tuple(secs)), eol, width)
    sf = make_sf(manifest, shape, alg, eol, secs)
    return [(sg.MANIFEST, manifest), ("META-INF/%s.SF" % alias, sf),
            ("META-INF/%s.%s" % (alias, sg.ext(k)), block(k, alg, sf))] + \
        files


SIG, MAN, JAR, MISS, NOMAN, ANY = (
    "SignatureBlockFileVerificationError", "ManifestChecksumError",
    "JarChecksumError", "JarSignatureMissingError", "MissingManifestError",
    "any")


class Tamper(object):
    """ each method alters the entries in its way, and returns the error
    there must be, None when there must be none, or False when it does
    not apply """

    def __init__(self, entries, p, rnd, d):
        self.entries = entries
        (self.content, self.main, self.extra, self.attrs, self.shape,
         self.k, self.alg, self.eol, self.alias, self.width,
         _sorted) = p
        if self.shape == "own":
            self.width = 70
        self.rnd = rnd
        self.dir = d
        self.sf = "META-INF/%s.SF" % self.alias
        self.blk = "META-INF/%s.%s" % (self.alias, sg.ext(self.k))
        self.comment = b""
        self.method = zipfile.ZIP_DEFLATED

    def get(self, name):
        return dict(self.entries)[name]

    def put(self, name, data, new=None):
        self.entries = [(new or n if n == name else n,
                         data if n == name else v)
                        for n, v in self.entries]

    def drop(self, *names):
        self.entries = [e for e in self.entries if e[0] not in names]

    def files(self):
        return [n for n, _v in self.entries if not sg.skipped(n)]

    def pick(self):
        return self.rnd.choice(self.files())

    def altered(self, data):
        r = self.rnd
        how = r.randrange(5)
        if how == 0 or not data:
            return data + bytes([r.randrange(256)])
        i = r.choice([0, len(data) - 1, r.randrange(len(data))])
        if how == 1:
            return data[:i] + data[i + 1:]
        if how == 2 and len(data) > 8:
            i = r.randrange(len(data) - 5)
            new = data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
            return trees.forge(new, i + 1, zlib.crc32(data))
        return data[:i] + bytes([data[i] ^ (1 << r.randrange(8))]) + \
            data[i + 1:]

    def manifest(self, fun):
        """ replaces the manifest by that fun makes of its model """
        main, secs = mf.parse(self.get(sg.MANIFEST))
        main, secs = list(main), [(n, list(ps)) for n, ps in secs]
        if fun(main, secs) is False:
            return False
        self.put(sg.MANIFEST, mf.write(
            (tuple(main), tuple((n, tuple(ps)) for n, ps in secs)),
            self.eol, self.width))
        return MAN

    def resection(self, name, data):
        """ the manifest's digests of an entry are put right """
        def fun(main, secs):
            for n, ps in secs:
                if n == name:
                    ps[:] = [(k, v if not k.endswith("-Digest") else
                              sg.b64(k[:-7], data)) for k, v in ps]
        return self.manifest(fun)

    def resign(self):
        """ the signature file's digests of the manifest are put right """
        m = self.get(sg.MANIFEST)
        self.put(self.sf, make_sf(
            m, {"own": "full"}.get(self.shape, self.shape), self.alg,
            self.eol, None))

    # --- of entries

    def modify(self):
        n = self.pick()
        self.put(n, self.altered(self.get(n)))
        return JAR

    def add(self):
        n = self.rnd.choice(["new", "d/new", "META-INF/new.txt",
                             "META-INF/d/K.SF", "x/META-INF/MANIFEST.MF",
                             "meta-inf.SF", "META-INF/MANIFEST.MF.x"])
        self.entries.insert(self.rnd.randrange(len(self.entries) + 1),
                            (n, b""))
        return JAR if dict(self.entries)[n] == b"" and \
            n not in self.content else False

    def rename(self):
        n = self.pick()
        new = self.rnd.choice([n + "2", n.swapcase(), "d/" + n])
        if new in dict(self.entries) or new in self.extra:
            return False
        self.put(n, self.get(n), new)
        return JAR

    def swap(self):
        a, b = self.pick(), self.pick()
        va, vb = self.get(a), self.get(b)
        if va == vb:
            return False
        self.put(a, vb)
        self.put(b, va)
        return JAR

    def modify_and_digest(self):
        n = self.pick()
        new = self.altered(self.get(n))
        self.put(n, new)
        return self.resection(n, new)

    def modify_and_digests(self):
        self.modify_and_digest()
        self.resign()
        return SIG

    def add_and_section(self):
        self.entries.append(("new", b"new"))

        def fun(main, secs):
            if any(n == "new" for n, _ps in secs):
                return False
            secs.insert(self.rnd.randrange(len(secs) + 1),
                        ("new", [(self.alg + "-Digest",
                                  sg.b64(self.alg, b"new"))]))
        return self.manifest(fun)

    def add_and_sections(self):
        if self.add_and_section() is False:
            return False
        self.resign()
        return SIG

    # --- of the manifest

    def main_value(self):
        def fun(main, secs):
            i = self.rnd.randrange(len(main))
            main[i] = (main[i][0], main[i][1] + self.rnd.choice(" 1x"))
        return self.manifest(fun)

    def main_add(self):
        def fun(main, secs):
            main.append(("Tampered", self.rnd.choice(["", "1"])))
        return self.manifest(fun)

    def main_remove(self):
        def fun(main, secs):
            if len(main) < 2:
                return False
            main.pop(self.rnd.randrange(1, len(main)))
        return self.manifest(fun)

    def section_add(self):
        def fun(main, secs):
            self.rnd.choice(secs)[1].append(("Tampered", "1"))
        return self.manifest(fun)

    def section_value(self):
        def fun(main, secs):
            ps = self.rnd.choice(secs)[1]
            if not ps:
                return False
            i = self.rnd.randrange(len(ps))
            ps[i] = (ps[i][0], ps[i][1][:-1] + chr(ord(ps[i][1][-1:] or "a")
                                                   ^ 1))
        return self.manifest(fun)

    def section_rename(self):
        def fun(main, secs):
            i = self.rnd.randrange(len(secs))
            secs[i] = (secs[i][0] + "2", secs[i][1])
        return self.manifest(fun)

    def section_remove(self):
        name = self.pick()

        def fun(main, secs):
            secs[:] = [s for s in secs if s[0] != name]
        self.manifest(fun)
        return MAN if self.shape == "whole only" else JAR

    def section_plus(self):
        def fun(main, secs):
            secs.append(("Tampered", [("X", "1")]))
        return self.manifest(fun)

    def line_ends(self):
        m = self.get(sg.MANIFEST)
        other = self.rnd.choice([x for x in (b"\n", b"\r\n")
                                 if x != self.eol])
        self.put(sg.MANIFEST, m.replace(self.eol, other))
        return MAN

    def no_manifest(self):
        self.drop(sg.MANIFEST)
        return NOMAN

    # --- of the signature

    def sf_byte(self):
        data = self.get(self.sf)
        i = self.rnd.randrange(len(data))
        self.put(self.sf, data[:i] + bytes([data[i] ^ 1]) + data[i + 1:])
        return SIG

    def sf_more(self):
        self.put(self.sf, self.get(self.sf) + self.rnd.choice(
            [b"\n", b"\0", b"Name: x\r\n\r\n"]))
        return SIG

    def block_byte(self):
        """ within the signature proper, which is at the end """
        data = self.get(self.blk)
        i = len(data) - 1 - self.rnd.randrange(15)
        self.put(self.blk, data[:i] + bytes([data[i] ^
                                             1 << self.rnd.randrange(8)]) +
                 data[i + 1:])
        return SIG

    def block_short(self):
        data = self.get(self.blk)
        self.put(self.blk, data[:self.rnd.randrange(len(data))])
        return SIG

    def block_junk(self):
        self.put(self.blk, self.rnd.choice([
            b"", b"\0" * 40, b"junk", b"0\x03\x06\x01\0", b"0\x80",
            self.get(self.sf), bytes(self.rnd.randrange(256)
                                     for _i in range(60))]))
        return SIG

    def block_other(self):
        """ a good one, of something else """
        self.put(self.blk, block(self.k, self.alg, self.get(self.sf) + b" "))
        return SIG

    def impostor(self):
        """ by another key with a certificate of the same name """
        k = "evil-" + self.k
        self.put(self.blk, block(k, self.alg if self.alg in sg.DIGESTS[k]
                                 else "SHA-256", self.get(self.sf)))
        return SIG

    def impostor_signs_other(self):
        self.modify_and_digest()
        self.resign()
        self.impostor()
        return SIG

    def transplant(self):
        """ the good signature of another JAR by the same key """
        other = [(n, v) for n, v in self.entries
                 if n not in (self.sf, self.blk)]
        n = self.rnd.choice(self.files())
        fn = sg.write_jar(os.path.join(self.dir, "other.jar"), [
            (k, v + b"other" if k == n else v) for k, v in other])
        jarutil.sign(fn, sg.cert(self.k), sg.key(self.k), self.alias,
                     digest=self.alg)
        there = dict(sg.read_jar(fn))
        self.put(self.sf, there[self.sf])
        self.put(self.blk, there[self.blk])
        return MAN

    def transplant_all(self):
        self.transplant()
        fn = os.path.join(self.dir, "other.jar")
        self.put(sg.MANIFEST, dict(sg.read_jar(fn))[sg.MANIFEST])
        return JAR

    def no_block(self):
        self.drop(self.blk)
        return MISS

    def no_sf(self):
        self.drop(self.sf)
        return MISS

    def no_signature(self):
        self.drop(self.sf, self.blk)
        return MISS

    def moved_signature(self):
        n = self.rnd.choice([self.sf, self.blk])
        self.put(n, self.get(n), n.replace("META-INF/", self.rnd.choice(
            ["", "META-INF/x/", "x/"])))
        return MISS

    # --- harmless

    def nothing(self):
        return None

    def reorder(self):
        self.rnd.shuffle(self.entries)
        return None

    def store(self):
        self.method = zipfile.ZIP_STORED
        return None

    def with_comment(self):
        self.comment = b"hello"
        return None

    def directory(self):
        self.entries.append((self.rnd.choice(["newdir/", "META-INF/",
                                              "META-INF/x/"]), b""))
        return None

    def other_block(self):
        """ a block of no signature file """
        n = self.rnd.choice(["META-INF/ZZ.RSA", "META-INF/zz.dsa",
                             "META-INF/SIG-ZZ", "META-INF/Q.EC"])
        self.entries.append((n, b"junk"))
        return None

    def sections_around(self):
        if self.shape == "whole only":
            return False
        main, secs = mf.parse(self.get(sg.MANIFEST))
        secs = list(secs)
        self.rnd.shuffle(secs)
        self.put(sg.MANIFEST, mf.write((main, tuple(secs)), self.eol,
                                       self.width))
        return None


OPS = [n for n in sorted(vars(Tamper)) if not n.startswith("_") and
       n not in ("get", "put", "drop", "files", "pick", "altered",
                 "manifest", "resection", "resign")]


def outcome(fn, k, sf, cli):
    """ the name of the error, or None """
    old = read(fn)
    trust = sg.cert(k)
    if cli:
        try:
            res = run_main(jarutil.main, ["jarutil", "v", fn, trust] +
                           ([sf] if sf else []))
        except jarutil.MissingManifestError:
            return "MissingManifestError"
        if res.rc == 0:
            same(res.out, "Jar verified.\n", "output")
            return None
        same(res.rc, 1, "exit code")
        need("verified." not in res.out and res.out.strip(), "output %r",
             res.out)
        return "any"
    try:
        jarutil.verify(trust, fn, sf)
    except (jarutil.VerificationError,
            jarutil.MissingManifestError) as exc:
        return type(exc).__name__
    finally:
        same(read(fn), old, "the JAR verified")
    return None


def body_tamper(case, ctx):
    p, op, seed, cli = case
    with Scratch() as d:
        entries = signed(p, d)
        t = Tamper(list(entries), p, random.Random(seed), d)
        k, alias = p[5], p[8]
        fn = sg.write_jar(os.path.join(d, "good.jar"), entries)
        same(outcome(fn, k, None, False), None, "outcome before")
        want = getattr(t, op)()
        if want is False:
            return
        ctx.hit(op)
        ctx.hit("shape " + p[4])
        if want:
            ctx.nontrivial_case()
            need(t.entries != entries, "the harness altered nothing")
        fn = sg.write_jar(os.path.join(d, "bad.jar"), t.entries, t.method,
                          t.comment)
        sf = alias + ".SF" if seed % 2 else None
        got = outcome(fn, k, sf, cli)
        if want is None:
            same(got, None, "outcome of " + op)
            return
        need(got, "verifies after " + op)
        if not cli:
            same(got, want, "reason after " + op)


case_tamper = st.tuples(parts(), st.sampled_from(OPS),
                        st.integers(0, 10**6), st.sampled_from(
                            [False, False, True]))


# ---- any bytes ----

def flipped(data, flips):
    data = bytearray(data)
    for where, how, bit in flips:
        i = int(where * len(data))
        if how == 0 and i < len(data):
            data[i] ^= 1 << bit % 8
        elif how == 1:
            data[i:i + 1] = [bit]
        elif how == 2:
            del data[i:i + 1 + bit % 4]
        elif how == 3:
            data[i:i] = data[i:i + bit]
        elif how == 4:
            j = bit * 7 % (len(data) or 1)
            data[i:i + 4] = data[j:j + 4]
        else:
            data[i:i] = PIECES[bit % len(PIECES)]
    return bytes(data)


PIECES = [b"\n", b"\r\n", b" ", b"\r\n ", b"\n\n", b"\r\n\r\n", b"Name: ",
          b"\n\nName: always.txt\n", b"\0", b"\xff", b":", b"-Digest: ",
          b"\r\nSHA-256-Digest: x", b"\r", b"\n\nName: x\n\n"]


def meaning(data):
    m = Manifest()
    m.parse(data)
    return dict(m), {n: dict(x) for n, x in m.sub_sections.items()}


def body_flips(case, ctx):
    """ when it verifies, then all the entries there are those signed """
    p, which, flips, cut, store = case
    with Scratch() as d:
        entries = signed(p, d)
        was = meaning(dict(entries)[sg.MANIFEST])
        sf = dict(entries)["META-INF/%s.SF" % p[8]]
        fn = os.path.join(d, "a.jar")
        if which < 0:
            sg.write_jar(fn, entries, zipfile.ZIP_STORED if store
                         else zipfile.ZIP_DEFLATED)
            data = flipped(read(fn), flips)
            if cut:
                data = data[:int(cut * len(data))]
            write(fn, data)
            ctx.hit("archive")
        else:
            i = which % min(len(entries), 5)
            n, v = entries[i]
            new = flipped(v, flips)
            if new == v:
                return
            ctx.hit(["manifest", "signature file", "block"][i]
                    if i < 3 else "entry")
            entries[i] = (n, new)
            sg.write_jar(fn, entries)
        try:
            jarutil.verify(sg.cert(p[5]), fn)
        except Exception as exc:
            ctx.hit("refused")
            ctx.hit(type(exc).__name__)
            return
        ctx.hit("verified")
        ctx.nontrivial_case()
        with zipfile.ZipFile(fn) as zf:
            for n in zf.namelist():
                if not sg.skipped(n):
                    need(n in p[0], "entry %r is not of the signer", n)
                    same(zf.read(n), p[0][n], "content of " + n)
            same(zf.read("META-INF/%s.SF" % p[8]), sf, "signature file")
            now = meaning(zf.read(sg.MANIFEST))
        same(now[0], was[0], "main section")
        for n, ps in now[1].items():
            same(ps, was[1].get(n), "section of %r" % n)


case_flips = st.tuples(
    parts(), st.sampled_from([-1, 0, 0, 0, 1, 2, 3, 4]),
    st.lists(st.tuples(trees.fraction, st.integers(0, 5),
                                st.integers(0, 255)),
                      min_size=1, max_size=3).map(tuple),
    st.sampled_from([0, 0, 0, 0, .5, .99]), st.booleans())


PROPS = [
    Prop("tamper", case_tamper, body_tamper, quick=3000, thorough=80000),
    Prop("flips", case_flips, body_flips, quick=1500, thorough=60000),
]
