""" helpers shared by the checks """

import contextlib
import io
import os
import sys
import zlib

from .harness import Violation


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want or (type(got) is bool) != (type(want) is bool):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def truth(got, want, what):
    if bool(got) != bool(want):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


class Output(object):
    def __init__(self):
        self.rc = None
        self.out = ""
        self.err = ""


@contextlib.contextmanager
def captured(out):
    """ stdout and stderr as real text streams over bytes """
    so, se = sys.stdout, sys.stderr
    bo, be = io.BytesIO(), io.BytesIO()
    # (a wrapper closes its buffer when it is collected)
    wo = io.TextIOWrapper(bo, encoding="utf8", errors="backslashreplace",
                          newline="\n")
    we = io.TextIOWrapper(be, encoding="utf8", errors="backslashreplace",
                          newline="\n")
    sys.stdout, sys.stderr = wo, we
    try:
        yield out
    finally:
        sys.stdout, sys.stderr = so, se
        out.out_bytes, out.err_bytes = finished(wo, bo), finished(we, be)
        out.out = out.out_bytes.decode("utf8", "replace")
        out.err = out.err_bytes.decode("utf8", "replace")


def finished(wrapper, buff):
    try:
        wrapper.flush()
        return buff.getvalue()
    except ValueError:
        return b"(closed)"


def run_main(main, args):
    """
    runs a console entry point in process.  rc is what the shell would
    see: sys.exit(main(argv)).  Exceptions escape.
    """
    out = Output()
    with captured(out):
        try:
            rc = main(list(args))
        except SystemExit as exc:
            rc = exc.code
    if rc is None:
        rc = 0
    elif rc is True:
        rc = 1
    elif rc is False:
        rc = 0
    elif not isinstance(rc, int):
        out.err += str(rc)
        rc = 1
    out.rc = rc
    return out


def write(path, data):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, "wb") as fd:
        fd.write(data)
    return path


def read(path):
    with open(path, "rb") as fd:
        return fd.read()


def spell(path, n):
    """ the same file or directory by another path (n chooses which) """
    up, base = os.path.split(path)
    n %= 8
    if os.path.isdir(path):
        return {3: os.path.relpath(path), 4: path + "/", 5: path + "/.",
                6: path + "/../" + base,
                7: os.path.relpath(path) + "/"}.get(n, path)
    return {3: os.path.relpath(path), 4: up + "/./" + base,
            5: up + "//" + base,
            6: up + "/../" + os.path.basename(up) + "/" + base,
            7: "./" + os.path.relpath(path)}.get(n, path)


def spellings(case, *paths):
    """ each of the paths in some way, chosen by the case """
    n = zlib.crc32(repr(case).encode("utf8", "backslashreplace"))
    return [spell(p, n >> 3 * i) for i, p in enumerate(paths)]


def snapshot(top):
    """ {relative path: bytes or None for a directory} """
    out = {}
    for root, dirs, files in os.walk(top):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), top)] = None
        for f in files:
            fn = os.path.join(root, f)
            out[os.path.relpath(fn, top)] = read(fn)
    return out
