""" keys, and the parts of signed JARs """

import base64
import hashlib
import os
import subprocess
import zipfile

from . import manifests as mf
from .util import need, same, read

KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys")
MANIFEST = "META-INF/MANIFEST.MF"
ALGS = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256",
        "SHA-384": "sha384", "SHA-512": "sha512"}

# what OpenSSL signs with each
ALL = ("SHA-256", "SHA1", "SHA-512", "SHA-384", "MD5")
DIGESTS = {"rsa": ALL, "rsa2": ALL, "dsa": ("SHA-256", "SHA1"),
           "ec": ALL[:4], "ec384": ALL[:4], "leaf": ALL, "codesign": ALL,
           "email": ALL, "nosign": ALL,
           "evil-rsa": ALL, "evil-dsa": ("SHA-256", "SHA1"),
           "evil-ec": ALL[:4]}


def cert(name):
    return os.path.join(KEYS, name + ".pem")


def key(name):
    return os.path.join(KEYS, name + ".key")


def ext(name):
    """ the extension of the block file """
    if "dsa" in name:
        return "DSA"
    return "EC" if "ec" in name.split("-")[-1][:2] else "RSA"


OIDS = {"MD5": "2a864886f70d0205", "SHA1": "2b0e03021a",
        "SHA-256": "608648016503040201", "SHA-384": "608648016503040202",
        "SHA-512": "608648016503040203"}


def der(data):
    """ the elements in DER: [(tag, content)] """
    out, i = [], 0
    while i < len(data):
        tag, n = data[i], data[i + 1]
        i += 2
        if n & 128:
            size = n & 127
            n = int.from_bytes(data[i:i + size], "big")
            i += size
        out.append((tag, data[i:i + n]))
        i += n
    return out


def digests_of_block(block):
    """ names of the algorithms of the digests which a signature block is
    of: those listed first, and that of each signer """
    names = {bytes.fromhex(v): k for k, v in OIDS.items()}
    (_t, top), = der(block)
    _oid, (_t, body) = der(top)
    (_t, body), = der(body)
    body = der(body)
    algs = [der(x)[0][1] for _t, x in der(body[1][1])]
    for _t, signer in der(body[-1][1]):
        algs.append(der(der(signer)[2][1])[0][1])
    return {names.get(x, x) for x in algs}


def b64(alg, data):
    return base64.b64encode(hashlib.new(ALGS[alg], data).digest()).decode()


def skipped(name):
    """ entries which are not verified, by the JAR specification """
    up = name.upper()
    parts = up.split("/")
    if up == "META-INF/MANIFEST.MF" or up.endswith("/"):
        return True
    if len(parts) != 2 or parts[0] != "META-INF":
        return False
    return parts[1].startswith("SIG-") or \
        parts[1].rsplit(".", 1)[-1] in ("SF", "RSA", "DSA", "EC") and \
        "." in parts[1]


def read_jar(fn):
    """ [(name, bytes)] """
    with zipfile.ZipFile(fn) as zf:
        return [(i.filename, zf.read(i)) for i in zf.infolist()]


def write_jar(fn, entries, method=zipfile.ZIP_DEFLATED, comment=b""):
    with zipfile.ZipFile(fn, "w", method) as zf:
        for n, v in entries:
            zf.writestr(n, v)
        zf.comment = comment
    return fn


def split_sections(data):
    """ the bytes of each section, with the line end after it """
    eol = b"\r\n" if b"\r\n" in data else b"\n" if b"\n" in data else b"\r"
    out, cur = [], b""
    for line in data.split(eol)[:-1]:
        cur += line + eol
        if not line:
            out.append(cur)
            cur = b""
    need(not cur, "the last section isn't closed")
    return out


def check_sf(sf, manifest, alg):
    """ the digests of a signature file, each one """
    main, secs = mf.parse(sf)
    parts = split_sections(manifest)
    same(b"".join(parts), manifest, "sections of the manifest")
    m = mf.parse(manifest)
    same(dict(main), {
        "Signature-Version": "1.0",
        alg + "-Digest-Manifest": b64(alg, manifest),
        alg + "-Digest-Manifest-Main-Attributes": b64(alg, parts[0])},
        "main section of the signature file")
    same({n: ps for n, ps in secs},
         {n: ((alg + "-Digest", b64(alg, part)),)
          for (n, _ps), part in zip(m[1], parts[1:])},
         "sections of the signature file")
    same(len(secs), len(m[1]), "number of sections of the signature file")


def openssl_verifies(block, sf, trust, d):
    """ whether the openssl program takes the block, an independent
    account of that """
    b, s = os.path.join(d, "blk"), os.path.join(d, "cnt")
    with open(b, "wb") as fd:
        fd.write(block)
    with open(s, "wb") as fd:
        fd.write(sf)
    p = subprocess.run(
        ["openssl", "smime", "-verify", "-binary", "-inform", "DER", "-in",
         b, "-content", s, "-CAfile", trust, "-purpose", "any", "-out",
         os.path.join(d, "null")],
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout
