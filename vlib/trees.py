"""
Strategies for contents: pairs of file sets which differ in known ways,
written out as zip files or as directories.
"""

import io
import os
import zipfile
import zlib

from hypothesis import strategies as st

from .util import write

NAME = st.one_of(
    st.sampled_from(["a", "b", "Foo.class", "x.txt", "lib.jar", "d", "e",
                     ".hidden", "CVS", "RCS", "tags", "a b", "\u00e9.txt",
                     "p.properties", "META-INF", "core", "x", "y.bin"]),
    st.text(st.sampled_from("abXY12._-"), min_size=1, max_size=5)
    .filter(lambda s: s.strip(".")))


CHUNK = 2 ** 14


# where in something (large ranges of integers are drawn from their lower
# end mostly, and floats often are 0)
fraction = st.tuples(st.integers(0, 99), st.integers(0, 99)).map(
    lambda x: (x[0] * 100 + x[1]) / 10**4)


@st.composite
def content(draw, big=True):
    kind = draw(st.integers(0, 9))
    if kind == 5:
        # CRC-32s of 0 and of all ones, and nearly equal ones
        return draw(st.sampled_from([b"\x9d\x0a\xd9\x6d", b"\xff" * 4, b"\0",
                                     b"\0\0", b"a\n", b"a\r\n", b"a "]))
    if kind < 6 or not big:
        return draw(st.binary(max_size=20))
    seed = draw(st.binary(min_size=1, max_size=3))
    size = draw(st.sampled_from([CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK,
                                 2 * CHUNK + 5, 3 * CHUNK]))
    return (seed * (size // len(seed) + 1))[:size]


# --- forging a CRC-32 ---

_TABLE = []
for _n in range(256):
    _c = _n
    for _k in range(8):
        _c = (_c >> 1) ^ 0xEDB88320 if _c & 1 else _c >> 1
    _TABLE.append(_c)
_REV = {t >> 24: i for i, t in enumerate(_TABLE)}


def forge(data, at, crc):
    """ data with the four bytes at `at` replaced so that its CRC-32 is
    crc """
    # forward to the position
    state = zlib.crc32(data[:at]) ^ 0xffffffff
    # backward from the end
    back = crc ^ 0xffffffff
    for b in reversed(data[at + 4:]):
        i = _REV[back >> 24]
        back = ((back ^ _TABLE[i]) << 8 | (i ^ b)) & 0xffffffff
    # the four bytes
    ix = []
    for _n in range(4):
        i = _REV[back >> 24]
        ix.append(i)
        back = ((back ^ _TABLE[i]) << 8) & 0xffffffff
    out = bytearray()
    for i in reversed(ix):
        b = (state ^ i) & 0xff
        out.append(b)
        state = (state >> 8) ^ _TABLE[i]
    res = data[:at] + bytes(out) + data[at + 4:]
    assert zlib.crc32(res) == crc and len(res) == len(data)
    return res


@st.composite
def altered(draw, data):
    """ different bytes; often of the same size, or even the same CRC """
    kind = draw(st.integers(0, 4))
    if data and kind in (0, 1):
        at = draw(st.one_of(st.sampled_from([0, .99999]), fraction))
        at = int(at * len(data))
        x = draw(st.integers(1, 255))
        return data[:at] + bytes([data[at] ^ x]) + data[at + 1:]
    if len(data) >= 9 and kind in (2, 3):
        at = draw(st.one_of(st.sampled_from([0, .99999]), fraction))
        at = int(at * (len(data) - 4))
        x = draw(st.integers(1, 255))
        new = data[:at] + bytes([data[at] ^ x]) + data[at + 1:]
        return forge(new, at + 1, zlib.crc32(data))
    return data + draw(st.binary(min_size=1, max_size=4))


folder = st.sampled_from(["lib", "x", "META-INF", ".d", "y.class", "w.jar",
                          "..x", "WEB-INF", "b c", "CVS", "t.txt", "lib",
                          "MANIFEST.MF", "-o", "X"])
stem = st.sampled_from(["a", "A", "", ".h", "x-1.0", "MANIFEST", "\u00e9", "_",
                        "a b", "[a]", "-", "Main$1", "..", "#a#", "core"])
ext = st.sampled_from([".jar", ".war", ".class", ".txt", ".xml", ".sh", ".MF",
                       ".properties", "", "~", ".bak", ".Class", ".jar.tmp",
                       ".bin", ".so.1", ".java", ".SF", ".RSA", ".zip", ".cfg",
                       ".sf", ".EC"])
new_name = st.tuples(
    st.lists(folder, max_size=3), st.tuples(stem, ext).map("".join)
    .filter(lambda x: x.strip("."))).map(lambda x: "/".join(x[0] + [x[1]]))


def apart(names):
    """ those which are no directory of another one """
    out = []
    for n in names:
        if not any(o == n or o.startswith(n + "/") or n.startswith(o + "/")
                   for o in out):
            out.append(n)
    return out


@st.composite
def names(draw, max_files=7, name=NAME, depth=3):
    """ relative file names, none of which is a directory of another """
    out = []
    dirs = set()
    for _n in range(draw(st.integers(0, max_files))):
        parts = draw(st.lists(name, min_size=1, max_size=depth))
        # often beneath a directory which is there
        if dirs and draw(st.booleans()):
            parts = draw(st.sampled_from(sorted(dirs))).split("/") + parts
        full = "/".join(parts[-4:])
        up = {"/".join(full.split("/")[:k])
              for k in range(1, full.count("/") + 1)}
        if full in dirs or full in out or up & set(out):
            continue
        out.append(full)
        dirs |= up
    return out


@st.composite
def pair(draw, max_files=7, name=NAME, data=content(), alter=altered,
         clash=True):
    """ two {name: bytes} """
    left, right = {}, {}
    for n in draw(names(max_files, name)):
        d = draw(data)
        kind = draw(st.integers(0, 6))
        if kind < 3:
            left[n] = right[n] = d
        elif kind == 3:
            left[n] = d
        elif kind == 4:
            right[n] = d
        else:
            left[n], right[n] = d, draw(alter(d))
        if clash and kind == 3 and draw(st.integers(0, 3)) == 3:
            # a file on the one side, a directory on the other
            right[n + "/" + draw(name)] = d
    if clash and draw(st.booleans()):
        left, right = right, left
    return left, right


def write_tree(top, files, empty=(), mtime=None):
    os.makedirs(top, exist_ok=True)
    for d in empty:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for n, data in files.items():
        fn = write(os.path.join(top, n), data)
        if mtime is not None:
            os.utime(fn, (mtime, mtime))
    return top


def dirs_of(files):
    out = set()
    for n in files:
        parts = n.split("/")[:-1]
        for k in range(1, len(parts) + 1):
            out.add("/".join(parts[:k]))
    return out


def write_zip(fn, files, dirs=(), compress=True, comment=b"", order=None,
              date=(2001, 2, 3, 4, 5, 6)):
    """ fn: file name or stream.  order: names in the order wanted """
    d = os.path.dirname(fn) if isinstance(fn, str) else None
    if d:
        os.makedirs(d, exist_ok=True)
    items = [(x + "/", b"") for x in dirs] + list(files.items())
    if order:
        pos = {n: i for i, n in enumerate(order)}
        items.sort(key=lambda x: pos.get(x[0], len(pos)))
    with zipfile.ZipFile(fn, "w") as zf:
        for n, data in items:
            zi = zipfile.ZipInfo(n, date)
            zi.compress_type = (zipfile.ZIP_DEFLATED if compress
                                else zipfile.ZIP_STORED)
            zi.external_attr = 0o40755 << 16 if n.endswith("/") else \
                0o100644 << 16
            zf.writestr(zi, data)
        zf.comment = comment
    return fn


def zip_bytes(files, **kwds):
    s = io.BytesIO()
    write_zip(s, files, **kwds)
    return s.getvalue()


def events(left, right):
    """ the reference comparison: {name: event letter} """
    out = {}
    for n in set(left) | set(right):
        if n not in right:
            out[n] = "L"
        elif n not in left:
            out[n] = "R"
        else:
            out[n] = "S" if left[n] == right[n] else "D"
    return out
