"""
C12: archive comparison: every entry is added, removed, changed or the
same exactly as its name and bytes say, for zip files and directories.
"""

import io
import os
import random
import zipfile
import zlib

from hypothesis import strategies as st

from javatools import ziputils as zu

from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, write, \
    spellings

RULE = ("pairs of generated file sets, the right one derived from the left "
        "by adding, removing and altering (one byte anywhere, same size, or "
        "the same size and the same CRC-32 by forging), are written as zip "
        "files (stored or deflated, with or without directory entries, any "
        "order) or directories and compared; the model is dictionary "
        "comparison; non-trivial when both sides have entries and some entry "
        "is in both")

LETTER = {zu.LEFT: "L", zu.RIGHT: "R", zu.DIFF: "D", zu.SAME: "S"}


def put(d, which, files, how):
    """ write one archive; returns (path, directory entries in it) """
    kind, with_dirs, compress, order, comment = how
    fn = os.path.join(d, which)
    dirs = sorted(trees.dirs_of(files))
    if kind == "dir":
        trees.write_tree(fn, files)
        return fn, {x + "/" for x in dirs}
    dirs = dirs if with_dirs else []
    names = list(files)
    random.Random(order).shuffle(names)
    trees.write_zip(fn, files, dirs=dirs, compress=compress, order=names,
                    comment=comment)
    return fn, {x + "/" for x in dirs}


def expected(left, right, ldirs, rdirs):
    want = trees.events(left, right)
    for x in ldirs - rdirs:
        want[x] = "L"
    for x in rdirs - ldirs:
        want[x] = "R"
    return want


def check_events(got, want, what):
    got = [(LETTER[e], n) for e, n in got]
    same(sorted(got), sorted((e, n) for n, e in want.items()), what)


def check_groups(groups, want, what):
    for letters, group in zip("RLDS", groups):
        if group is not None:
            same(sorted(group), sorted(n for n, e in want.items()
                                       if e == letters),
                 "%s (%s)" % (what, letters))


def body(case, ctx):
    (left, right), lhow, rhow, omit = case
    with Scratch() as d:
        lfn, ldirs = put(d, "left", left, lhow)
        rfn, rdirs = put(d, "right", right, rhow)
        want = expected(left, right, ldirs, rdirs)
        lfn, rfn = spellings(case, lfn, rfn)
        swap = {"L": "R", "R": "L"}
        for e in want.values():
            ctx.hit("event " + e)
        if any(n in right and left[n] != right[n] and
               len(left[n]) == len(right[n]) and
               zlib.crc32(left[n]) == zlib.crc32(right[n]) for n in left):
            ctx.hit("different entries with the same size and CRC")
        ctx.hit(lhow[0] + " vs " + rhow[0])
        ctx.nontrivial_case(set(left) & set(right))

        check_events(zu.compare(lfn, rfn), want, "compare")
        check_events(zu.compare(rfn, lfn),
                     {n: swap.get(e, e) for n, e in want.items()},
                     "compare, sides swapped")
        check_events(zu.compare(lfn, lfn),
                     {n: "S" for n in left}, "compare with itself")
        check_groups(zu.collect_compare(lfn, rfn), want, "collect_compare")
        groups = [None if k in omit else [] for k in "RLDS"]
        got = zu.collect_compare_into(lfn, rfn, *groups)
        for a, b in zip(got, groups):
            need(a is b, "collect_compare_into returns other lists")
        check_groups(groups, want, "collect_compare_into")
        with zu.open_zip(lfn) as lz, zu.open_zip(rfn) as rz:
            check_events(zu.compare_zips(lz, rz), want, "compare_zips")
            check_groups(zu.collect_compare_zips(lz, rz), want,
                         "collect_compare_zips")
            check_content(lz, left, ldirs, lhow[0])
            check_content(rz, right, rdirs, rhow[0])


def check_content(zf, files, dirs, kind):
    same(sorted(zf.namelist()), sorted(set(files) | dirs), "names")
    for n, data in files.items():
        with zu.open_zip_entry(zf, n) as fd:
            same(fd.read(), data, "contents of %r" % n)
        same(b"".join(zu.chunk_zip_entry(zf, n)), data,
             "chunked contents of %r" % n)
        same(b"".join(zu.chunk_zip_entry(zf, n, chunksize=5)), data,
             "contents of %r by fives" % n)
        zi = zf.getinfo(n)
        same((zi.file_size, zi.CRC, zi.filename),
             (len(data), zlib.crc32(data), n), "info of %r" % n)
        same(zf.read(n), data, "read of %r" % n)
    nfiles, ndirs, comp, uncomp = zu.zip_entry_rollup(zf)
    same((nfiles, ndirs, uncomp),
         (len(files), len(dirs), sum(map(len, files.values()))),
         "numbers of files and directories and bytes")
    same(nfiles + ndirs, len(list(zf.infolist())), "number of entries")
    if kind == "zip":
        same(comp, sum(zf.getinfo(n).compress_size for n in files),
             "compressed size")


how = st.tuples(st.sampled_from(["zip", "zip", "zip", "dir"]),
                st.booleans(), st.booleans(),
                st.integers(0, 99),
                st.sampled_from([b"", b"comment", b"x" * 300]))
case = st.tuples(trees.pair(clash=False), how, how,
                 st.sets(st.sampled_from("RLDS")))


# ---------------------------------------------------------------------

def body_stream(case, ctx):
    data, cut, prefix, pos = case
    data = prefix + (data if cut is None else data[:-cut])
    want = zipfile.is_zipfile(io.BytesIO(data))
    ctx.hit("zip" if want else "not zip")
    ctx.nontrivial_case(len(data) > 22)
    for x in (data, memoryview(data)):
        truth(zu.is_zipstream(x), want, "is_zipstream of %s" %
              type(x).__name__)
    s = io.BytesIO(data)
    s.seek(min(pos, len(data)))
    truth(zu.is_zipstream(s), want, "is_zipstream of a stream")
    same(s.tell(), min(pos, len(data)), "position of the tested stream")
    for x in (3, None):
        try:
            zu.is_zipstream(x)
        except TypeError:
            pass
        else:
            raise Violation("is_zipstream(%r)" % x)
    with Scratch() as d:
        fn = write(os.path.join(d, "f"), data)
        same(zu.file_crc32(fn), zlib.crc32(data), "CRC of a file")
        same(zu.file_crc32(fn, 3), zlib.crc32(data), "CRC of a file")
        try:
            zf = zu.zip_file(fn)
        except Exception:
            need(not want, "a zip file is refused")
        else:
            zf.close()
            need(want, "not a zip file, but opened")


case_stream = st.tuples(
    st.one_of(st.binary(max_size=60),
              st.builds(trees.zip_bytes,
                        st.dictionaries(trees.NAME, st.binary(max_size=9),
                                        max_size=3),
                        comment=st.binary(max_size=9))),
    st.one_of(st.none(), st.none(), st.integers(1, 30)),
    st.sampled_from([b"", b"", b"#!/bin/sh\n"]),
    st.integers(0, 200))

PROPS = [
    Prop("compare", case, body, quick=1600, thorough=40000),
    Prop("streams", case_stream, body_stream, quick=1200, thorough=20000),
]
