"""
C28: what a command does depends on its arguments and the files it is
given alone: not on what has run before it, nor on the process.
"""

import io
import os
import random
import subprocess
import sys
import zipfile

from hypothesis import strategies as st

from javatools import (classdiff, classinfo, distdiff, distinfo, jardiff,
                       jarinfo, jarutil, manifest)

from vlib import classfile as cf
from vlib import diffmodel as dm
from vlib import gen_class as g
from vlib import harness
from vlib import htmltool
from vlib import signing
from vlib import trees as t
from vlib.harness import Prop, Scratch
from vlib.util import same, run_main, write, read, snapshot
from checks import C10, C13, C15

RULE = ("sequences of commands with generated arguments, on generated "
        "classes, JARs, distributions and manifests, are run one after "
        "another in one process, and each in a process of its own with "
        "another hash seed, by its entry point; exit codes, output and "
        "files written are compared; non-trivial when a command prints or "
        "writes something")

MAINS = {"classdiff": classdiff, "classinfo": classinfo,
         "distdiff": distdiff, "distinfo": distinfo, "jardiff": jardiff,
         "jarinfo": jarinfo, "jarutil": jarutil, "manifest": manifest}


def setup():
    htmltool.build()


LAUNCH = """
import sys
sys.path.insert(0, %r)
import javatools.cheetah
javatools.cheetah.__path__.insert(0, %r)
from javatools.%s import main
sys.argv[0] = "command"
sys.exit(main(sys.argv))
"""


def fresh(args, d, seed):
    """ a run in a process of its own """
    import javatools.cheetah
    lib = javatools.cheetah.__path__[0]
    env = dict(os.environ, PYTHONHASHSEED=str(seed),
               PYTHONDONTWRITEBYTECODE="1",
               LC_ALL="C" if seed % 2 else "C.utf8")
    code = LAUNCH % (harness.REPO, lib, args[0])
    p = subprocess.run([sys.executable, "-c", code] + args[1:], cwd=d,
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                       timeout=120)
    return p.returncode, p.stdout, p.stderr


def here(args, d):
    """ a run in this process """
    old = os.getcwd()
    argv = sys.argv
    sys.argv = ["command"] + args[1:]
    os.chdir(d)
    try:
        res = run_main(MAINS[args[0]].main, list(sys.argv))
        return res.rc, res.out_bytes, res.err_bytes
    except Exception as exc:
        return 1, b"", type(exc).__name__.encode()
    finally:
        os.chdir(old)
        sys.argv = argv


def alike(got, want, what):
    """ ... and where they aren't """
    if got != want and got is not None and want is not None:
        n = len(os.path.commonprefix([got, want]))
        got, want = got[max(0, n - 60):n + 60], want[max(0, n - 60):n + 60]
    same(got, want, what)


def settle(files):
    """ files without what differs from one run to the next """
    out = {}
    for n, data in files.items():
        if data is not None and zipfile.is_zipfile(io.BytesIO(data)):
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                data = [(i.filename, b"" if i.filename.endswith(
                    (".RSA", ".DSA", ".EC")) else z.read(i), i.compress_type)
                        for i in z.infolist()]
        out[n] = data
    return out


def materialize(d, seq):
    model, muts, s, entries, parts, mfs, _cmds = seq
    if s % 3 == 0:
        # text which can't be encoded
        model = dict(model, extra=model["extra"] + (("String", "a\ud800"),))
    if s % 5 == 0:
        model = dict(model, fields=model["fields"] + ({
            "access": 1, "name": "\udc00", "desc": "I", "attrs": ()},))
    right = model
    for kind, seed in muts:
        right = C10.mutate(right, kind, seed, model)
    order = dm.relayout(model, s)
    write(os.path.join(d, "l.class"), cf.write_class(model, order=order))
    write(os.path.join(d, "r.class"), cf.write_class(
        right, order=order if s % 2 else dm.relayout(right, s + 1)))
    for n, files in zip("lr", entries):
        order = sorted(files)
        random.Random(s).shuffle(order)
        t.write_zip(os.path.join(d, n + ".jar"), files, order=order)
    for n, files in zip("lr", C15.build(parts)):
        t.write_tree(os.path.join(d, n), files)
    for n, data in zip("lr", mfs):
        write(os.path.join(d, n + ".mf"), data)
    for n, fn in (("cert.pem", signing.cert("rsa")),
                  ("key.pem", signing.key("rsa"))):
        write(os.path.join(d, n), read(fn))


def body(seq, ctx):
    cmds = seq[-1]
    with Scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        for x in (a, b):
            os.mkdir(x)
            materialize(x, seq)
        before = settle(snapshot(a))
        for n, (args, seed) in enumerate(cmds):
            args = list(args)
            rc, out, err = here(args, a)
            rc2, out2, err2 = fresh(args, b, seed)
            what = "%s, run as number %d" % (" ".join(args), n)
            crashed = b"Traceback" in err2
            if crashed:
                # (in here it is an exception)
                err2 = err2.strip().split(b"\n")[-1].split(b":")[0]
                err2 = err2.rsplit(b".", 1)[-1]
                out = out2 = b""
            same(rc2, rc, "exit code of %s; in a process of its own" % what)
            alike(out2, out, "output of %s; in a process of its own" % what)
            alike(err2, err, "errors of %s; in a process of its own" % what)
            after, after2 = settle(snapshot(a)), settle(snapshot(b))
            same(sorted(after2), sorted(after), "files after " + what)
            for f in after:
                alike(after2[f], after[f], "%s after %s" % (f, what))
            ctx.nontrivial_case(out or after != before)
            ctx.hit(args[0])
            if args[0] in ("jarutil", "manifest"):
                ctx.hit(" ".join(args[:2]))
            ctx.hit("exit %d" % rc)
            if crashed:
                ctx.hit("%s crashed" % args[0])
            if after != before:
                ctx.hit("%s wrote" % args[0])
            before = after


# ---- arguments ----

@st.composite
def reports(draw):
    out = []
    f = draw(st.sampled_from([(), ("json",), ("text", "json"), ("html",),
                              ("html", "text"), ("nonsense",)]))
    if f:
        out.append("--report=" + ",".join(f))
        if draw(st.integers(0, 2)):
            out += ["--report-dir", draw(st.sampled_from(
                ["rep", "rep/x", "other"]))]
        if draw(st.integers(0, 2)) == 0:
            out += ["--html-copy-data", "data"]
    out += draw(st.lists(st.sampled_from(
        ["--show-ignored", "--show-unchanged", "--json", "-q", "-v",
         "--json-indent=1", "-oout.txt"]), max_size=2, unique=True))
    out += draw(st.lists(st.sampled_from(
        ["--ignore=" + w for w in C10.WORDS] + ["--ignore-lines",
                                                "--ignore-version"]),
        max_size=2))
    return out


@st.composite
def command(draw):
    name = draw(st.sampled_from(
        ["classdiff", "jardiff", "jardiff", "distdiff", "distdiff",
         "classinfo", "jarinfo", "distinfo", "manifest", "manifest",
         "jarutil"]))
    a = [name]
    side = draw(st.sampled_from("lr"))
    if name == "classdiff":
        a += draw(reports()) + draw(st.sampled_from(
            [["l.class", "r.class"], ["r.class", "l.class"]]))
    elif name == "jardiff":
        a += draw(reports())
        a += draw(st.sampled_from([[], [], ["--ignore-manifest"],
                                   ["--ignore-jar-entry", "*.txt"],
                                   ["--ignore-jar-signature"],
                                   ["--ignore-manifest-key=X"]]))
        a += draw(st.sampled_from([["l.jar", "r.jar"], ["r.jar", "l.jar"]]))
    elif name == "distdiff":
        a += draw(reports()) + ["--processes=0"]
        a += draw(st.sampled_from([[], [], ["--ignore-trailing-whitespace"],
                                   ["-s"], ["--ignore-filenames=*.txt"]]))
        a += draw(st.sampled_from([["l", "r"], ["r", "l"]]))
    elif name == "classinfo":
        a += draw(st.lists(st.sampled_from(
            ["-l", "-o", "-c", "-s", "-p", "--verbose", "--class-provides",
             "--class-requires", "--json", "--public", "--private",
             "--api-ignore=java.*", "--header"]), max_size=4))
        if draw(st.integers(0, 2)) == 0:
            a += ["--json", "--class-provides", "--class-requires"]
        a += [side + ".class"] + draw(st.sampled_from([[], ["r.class"]]))
    elif name in ("jarinfo", "distinfo"):
        a += draw(st.lists(st.sampled_from(
            ["--json", "--jar-provides", "--jar-requires",
             "--jar-classes", "--api-ignore=java.*",
             "--api-ignore=a.*", "--zip", "--manifest"]
            if name == "jarinfo" else
            ["--json", "--dist-provides", "--dist-requires",
             "--api-ignore=java.*"]),
            max_size=4))
        a += [side + (".jar" if name == "jarinfo" else "")]
    elif name == "manifest":
        how = draw(st.sampled_from(["c", "q", "v", "create"]))
        a.append(how)
        if how[0] == "c":
            a += draw(st.sampled_from(
                [[], ["-dSHA1"], ["-dSHA-256,MD5"], ["-r"],
                 ["-i", "*.txt"], ["-mnew.mf"], ["-mnew.mf", "-dSHA-512"]]))
            a += [side + draw(st.sampled_from([".jar", ""]))]
        elif how == "q":
            a += [side + ".jar"] + draw(st.lists(st.sampled_from(
                ["Manifest-Version", "X", "fresh", "Created-By"]),
                max_size=2))
        else:
            a += [side + ".jar"]
    else:
        how = draw(st.sampled_from(["c", "s", "s", "v"]))
        a.append(how)
        if how == "c":
            a += ["new.jar", side] + draw(st.sampled_from([[], ["l.class"]]))
        elif how == "s":
            a += draw(st.sampled_from([[], ["-d", "SHA-512"], ["-o",
                                                               "out.jar"]]))
            a += [draw(st.sampled_from(["new.jar", side + ".jar"])),
                  "cert.pem", "key.pem", "ALIAS"]
        else:
            a += [draw(st.sampled_from(
                ["out.jar", "new.jar", side + ".jar"])), "cert.pem"]
    return tuple(a), draw(st.integers(0, 2**32 - 1))


case = st.tuples(
    g.klass(max_fields=2, max_methods=3, max_insns=6),
    st.lists(st.tuples(st.sampled_from(["version", "deprecated", "lines",
                                        "any", "any"]),
                       st.integers(0, 2**31)), max_size=3).map(tuple),
    st.integers(0, 2**31), C13.entries(), C15.dists(), C13.a_manifest(),
    st.lists(command(), min_size=3, max_size=6).map(tuple))

PROPS = [
    Prop("commands", case, body, quick=480, thorough=6000),
]
