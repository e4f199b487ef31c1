"""
C30: what can't be read is never reported as fine: damaged, cut and
missing input, and arguments which make no sense, make a command fail.
"""

import gc
import os
import sys
import tempfile
import warnings
import zipfile

from hypothesis import strategies as st

from javatools import classdiff, classinfo, distdiff, distinfo, jardiff
from javatools import jarinfo, jarutil, manifest
from javatools.jarinfo import JarInfo

from vlib import classfile, gen_class as g
from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, write, read, snapshot

RULE = ("archives are damaged by generated edits of their bytes, classes and "
        "archives are cut short, left out or exchanged for something else, "
        "and given to every command together with the sound one; when an "
        "entry needed can't be read by an independent account, the command "
        "must fail, and when all can, it must say what is in it; arguments "
        "which make no sense must be refused, with no file changed; "
        "non-trivial when a damaged archive is still one, a class is cut "
        "within its members, or the arguments are those of a command but "
        "for one")

MAINS = {"classdiff": classdiff, "classinfo": classinfo,
         "distdiff": distdiff, "distinfo": distinfo, "jardiff": jardiff,
         "jarinfo": jarinfo, "jarutil": jarutil, "manifest": manifest}
FAILED = "failed"


def command(*args):
    """ the exit code (an exception is one, to the shell), and output """
    argv = sys.argv
    sys.argv = ["command"] + list(args[1:])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = run_main(MAINS[args[0]].main, list(sys.argv))
        return res.rc, res.out
    except Exception:               # which are 1, to the shell
        return FAILED, ""
    finally:
        sys.argv = argv


def must_fail(what, *args):
    rc, _out = command(*args)
    need(rc != 0, "%s: exit code 0 of %r", what, args)


def contents(fn):
    """ {name: bytes or None if it can't be read}, or None if it isn't an
    archive """
    try:
        if not zipfile.is_zipfile(fn):
            return None
        with zipfile.ZipFile(fn) as zf:
            out = {}
            for info in zf.infolist():
                try:
                    data = zf.read(info)
                except Exception:
                    data = None
                out.setdefault(info.filename, []).append(data)
            return out
    except Exception:
        return None


ENTRIES = ["a.txt", "b/c.bin", "x/A.class", "B.class", "META-INF/d.txt",
           "META-INF/MANIFEST.MF", "lib/e"]


@st.composite
def entries(draw):
    out = {}
    for n in draw(st.lists(st.sampled_from(ENTRIES), min_size=1, max_size=4,
                           unique=True)):
        if n.endswith(".class"):
            out[n] = classfile.write_class(draw(g.klass(
                max_fields=1, max_methods=1, max_insns=3, extra=False)))
        elif n.endswith(".MF"):
            out[n] = mf.write((
                (("Manifest-Version", "1.0"),), (("a.txt", (("X", "y"),)),)))
        else:
            out[n] = draw(st.one_of(
                st.binary(max_size=30), st.just(b"ab" * 20000),
                st.just(b"text\n" * 9)))
    return out


edit = st.tuples(st.sampled_from(["cut", "flip", "flip", "flip", "drop",
                                  "more", "zero", "directory", "swap"]),
                 trees.fraction, st.integers(0, 255), st.integers(1, 40))


def damage(data, edits):
    for kind, where, byte, length in edits:
        at = min(int(where * len(data)), max(len(data) - 1, 0))
        if kind == "directory":
            # in the directory at the end, or its end record
            back = data.rfind(b"PK\5\6") if byte % 2 else \
                data.find(b"PK\1\2")
            at = min(max(back, 0) + byte % 60, max(len(data) - 1, 0))
            kind = "flip"
        if kind == "cut":
            data = data[:at]
        elif kind == "flip":
            data = data[:at] + bytes([byte]) + data[at + 1:]
        elif kind == "drop":
            data = data[:at] + data[at + length:]
        elif kind == "more":
            data = data[:at] + bytes([byte]) * length + data[at:]
        elif kind == "zero":
            data = data[:at] + bytes(min(length, len(data) - at)) + \
                data[at + length:]
        elif kind == "swap":
            data = data[:at] + data[at + length:at + 2 * length] + \
                data[at:at + length] + data[at + 2 * length:]
    return data


def result(fun):
    try:
        return fun()
    except Exception:
        return FAILED


def described(fn):
    """ what is told of an archive by way of the API """
    def jar():
        ji = JarInfo(fn)
        try:
            return (sorted(ji.get_requires()), sorted(ji.get_provides()),
                    sorted(ji.get_classes()))
        finally:
            ji.close()
    return result(jar)


def body_archives(case, ctx):
    files, edits, method, pick = case
    with Scratch() as d:
        old_tmp = tempfile.tempdir
        tempfile.tempdir = os.path.join(d, "tmp")
        os.mkdir(tempfile.tempdir)
        try:
            archives(d, files, edits, method, pick, ctx)
            gc.collect()
            same(os.listdir(tempfile.tempdir), [], "temporary files left")
        finally:
            tempfile.tempdir = old_tmp


def archives(d, files, edits, method, pick, ctx):
    good = os.path.join(d, "l", "lib", "x.jar")
    bad = os.path.join(d, "r", "lib", "x.jar")
    data = trees.zip_bytes(files, compress=method)
    write(good, data)
    write(bad, damage(data, edits))
    before = snapshot(os.path.join(d, "l")), snapshot(os.path.join(d, "r"))

    got = contents(bad)
    if got is not None and any(
            len(v) > 1 or n != os.path.normpath(n).lstrip("/") or "\\" in n
            for n, v in got.items()):
        ctx.hit("names twice or odd")
        return
    broken = None
    if got is not None:
        got = {n: v[0] for n, v in got.items() if not n.endswith("/")}
        broken = [n for n, v in got.items() if v is None]
    sound = got is not None and not broken
    ctx.nontrivial_case(got is not None and (broken or got != files))
    ctx.hit("no archive" if got is None else "broken" if broken else
            "other" if got != files else "the same")

    compare = pick % 2
    swap = pick // 2 % 2
    pair = [bad, good] if swap else [good, bad]
    if sound and got == files:
        same(command("jardiff", *pair)[0], 0, "exit code of jardiff")
    else:
        must_fail("jardiff", "jardiff", *pair)
    if compare:
        pair = [os.path.join(d, x) for x in ("rl" if swap else "lr")]
        rc = command("distdiff", "--processes=0", *pair)[0]
        if sound and got == files or read(bad) == data:
            same(rc, 0, "exit code of distdiff")
        else:
            need(rc != 0, "distdiff: exit code 0")

    # what a JAR has and needs
    sorts = ["--zip", "--manifest", "--jar-classes", "--jar-provides",
             "--jar-requires"]
    how = sorts[pick % 5]
    classes = {n: v for n, v in (got or {}).items() if n.endswith(".class")}
    fresh = None
    if got is not None and not any(v is None for v in classes.values()):
        fresh = os.path.join(d, "fresh.jar")
        write(fresh, trees.zip_bytes(classes, compress=method))
    told = described(bad)
    if fresh is None:
        same(told, FAILED, "told of an archive with broken classes")
        if got is None or how in sorts[3:]:
            must_fail("jarinfo", "jarinfo", how, bad)
    else:
        same(told, described(fresh), "told of the classes")
        same(command("jarinfo", "--jar-provides", bad),
             command("jarinfo", "--jar-provides", fresh),
             "jarinfo --jar-provides")
    if fresh:
        os.unlink(fresh)

    # an archive of a distribution
    if pick % 3 == 0:
        rc = command("distinfo", "--dist-provides", bad)[0]
        if not sound:
            need(rc != 0, "distinfo: exit code 0")
        elif told != FAILED:
            same(rc, 0, "distinfo: exit code")

    # its manifest
    mfn = os.path.join(d, "new.mf")
    rc = command("manifest", "create", bad, "-m", mfn, "-dSHA1")[0]
    needed = {n: v for n, v in (got or {}).items()
              if not n.startswith("META-INF/")}
    if got is None or None in needed.values():
        need(rc != 0, "manifest create: exit code 0")
    else:
        same(rc, 0, "exit code of manifest create")
        same({n: dict(ps) for n, ps in mf.parse(read(mfn))[1]},
             {n: {"SHA1-Digest": sg.b64("SHA1", v)}
              for n, v in needed.items()}, "sections")
    if os.path.exists(mfn):
        os.unlink(mfn)

    same((snapshot(os.path.join(d, "l")), snapshot(os.path.join(d, "r"))),
         before, "files compared, afterwards")

    # signing either works on all which is there, or leaves it alone
    if pick % 4 == 0 and (got is None or "META-INF/MANIFEST.MF" in got):
        rc = command("jarutil", "sign", bad, sg.cert("ec"), sg.key("ec"),
                     "ME")[0]
        if rc != 0:
            same(read(bad), before[1]["lib/x.jar"], "the JAR not signed")
        else:
            need(sound, "a broken archive was signed")
            ctx.hit("signed")
            after = dict(sg.read_jar(bad))
            for n, v in got.items():
                if n != "META-INF/MANIFEST.MF":
                    same(after.get(n), v, "entry " + n)


case_archives = st.tuples(entries(), st.lists(edit, min_size=1, max_size=2),
                          st.booleans(), st.integers(0, 10**6))


# ---- classes ----

def body_classes(case, ctx):
    model, cut, kind, where, pick = case
    data = classfile.write_class(model)
    if kind == "cut":
        bad = data[:int(cut * (len(data) - 1))]
        ctx.nontrivial_case(len(bad) > len(data) // 2)
    else:
        bad = {"empty": b"", "text": b"no class\n",
               "zip": trees.zip_bytes({"A.class": data}),
               "magic": b"\xca\xfe\xba\xbf" + data[4:]}[kind]
    ctx.hit(kind)
    with Scratch() as d:
        l, r = os.path.join(d, "l"), os.path.join(d, "r")
        name = "A.class" if where == "class" else "p/A.class"
        for top, content in ((l, data), (r, bad)):
            write(os.path.join(top, name), content)
            write(os.path.join(top, "other.txt"), b"x\n")
        before = snapshot(d)
        ctx.hit(where)
        pair = [l, r]
        if where == "class":
            pair = [os.path.join(x, name) for x in pair]
            cmds = [["classdiff"], ["classdiff", "--ignore=lines,pool"],
                    ["classdiff", "-q", "--json"]]
            single = [["classinfo"], ["classinfo", "--json"],
                      ["classinfo", "-c", "-p", "--verbose"],
                      ["classinfo", "--class-provides"],
                      ["classinfo", os.path.join(l, name)]]
        elif where == "jar":
            for i, x in enumerate(pair):
                pair[i] = x + ".jar"
                write(pair[i], trees.zip_bytes(
                    {n: v for n, v in snapshot(x).items() if v is not None}))
            before = snapshot(d)
            cmds = [["jardiff"], ["jardiff", "-q"],
                    ["jardiff", "--ignore-manifest", "--ignore=lines"]]
            single = [["jarinfo", "--jar-provides"],
                      ["jarinfo", "--jar-requires"]]
        elif where == "exploded":
            cmds = [["jardiff"]]
            single = [["jarinfo", "--jar-requires"],
                      ["jarinfo", "--jar-provides"]]
        else:
            cmds = [["distdiff", "--processes=0"],
                    ["distdiff", "--processes=0", "-q"]]
            single = [["distinfo", "--dist-provides"],
                      ["distinfo", "--dist-requires"]]
        cmd = cmds[pick % len(cmds)]
        must_fail("broken on the right", *(cmd + pair))
        must_fail("broken on the left", *(cmd + pair[::-1]))
        if kind == "cut" and pick % 3 == 0:
            cmd = ["jardiff"] if where in ("jar", "exploded") else cmd
            same(command(*(cmd + [pair[0], pair[0]]))[0], 0,
                 "exit code for the sound one and itself")
        cmd = single[pick // 3 % len(single)]
        must_fail("broken", *(cmd + [pair[1]]))
        same(command(*([x for x in cmd if not x.startswith(l)] +
                       [pair[0]]))[0], 0, "exit code for the sound one")
        same(snapshot(d), before, "files")


case_classes = st.tuples(
    g.klass(max_fields=2, max_methods=2, max_insns=4), trees.fraction,
    st.sampled_from(["cut", "cut", "cut", "cut", "empty", "text", "zip",
                     "magic"]),
    st.sampled_from(["class", "jar", "exploded", "dist"]),
    st.integers(0, 10**6))


# ---- arguments ----

# sound commands on the files of body_usage, by what may be left out
USES = [
    ["classdiff", "l.class", "r.class"],
    ["classinfo", "-c", "l.class"],
    ["jardiff", "l.jar", "r.jar"],
    ["jardiff", "l", "r"],
    ["distdiff", "--processes=0", "l", "r"],
    ["jarinfo", "--zip", "l.jar"],
    ["jarinfo", "--jar-provides", "l.jar"],
    ["jarinfo", "--manifest", "l.jar"],
    ["distinfo", "--dist-provides", "l"],
    ["distinfo", "--dist-requires", "l.jar"],
    ["manifest", "create", "-m", "out.mf", "l.jar"],
    ["manifest", "create", "-m", "out.mf", "l"],
    ["manifest", "verify", "l.jar"],
    ["manifest", "query", "l.jar", "Manifest-Version"],
    ["jarutil", "create", "new.jar", "l", "l.class"],
    ["jarutil", "sign", "-o", "new.jar", "l.jar", "cert.pem", "key.pem",
     "ME"],
    ["jarutil", "verify", "s.jar", "cert.pem", "ME.SF"],
]
OPTION = {"classdiff": ["--bogus", "--json-indent=x", "--json-indent"],
          "classinfo": ["--bogus", "--json-indent=x"],
          "jardiff": ["--bogus", "--report-dir", "--json-indent=x"],
          "distdiff": ["--bogus", "--processes=x", "--ignore-filenames"],
          "jarinfo": ["--bogus", "--json-indent=x"],
          "distinfo": ["--bogus", "--json-indent=x"]}


def is_input(arg):
    return arg.split(".")[-1] in ("class", "jar", "pem", "SF", "l", "r") and \
        arg != "new.jar"


def body_usage(case, ctx):
    use, how, i, what = case
    args = list(USES[use % len(USES)])
    name = args[0]
    cmd = 2 if name in ("manifest", "jarutil") else 1
    with Scratch() as d:
        data = SAMPLE
        for n in ("l.class", "r.class", "l/A.class", "r/A.class"):
            write(os.path.join(d, n), data)
        for n in ("l.jar", "r.jar"):
            write(os.path.join(d, n), trees.zip_bytes({
                "META-INF/MANIFEST.MF": mf.write((
                    (("Manifest-Version", "1.0"),),
                    (("A.class", (("SHA1-Digest", sg.b64("SHA1", data)),)),))),
                "A.class": data}))
        for k, n in (("cert", sg.cert("ec")), ("key", sg.key("ec"))):
            write(os.path.join(d, k + ".pem"), read(n))
        cwd = os.getcwd()
        os.chdir(d)
        try:
            same(command("jarutil", "sign", "-o", "s.jar", "l.jar",
                         "cert.pem", "key.pem", "ME")[0], 0, "signing")
            before = snapshot(d)
            ok = command(*args)
            same(ok[0], 0, "exit code of %r" % (args,))
            for n in ("new.jar", "out.mf"):
                if os.path.exists(n):
                    os.unlink(n)
            same(snapshot(d), before, "files")

            inputs = [k for k in range(cmd, len(args))
                      if is_input(args[k])]
            k = inputs[i % len(inputs)]
            if how == "missing" or how == "junk":
                other = "gone/" + args[k] if how == "missing" else "junk"
                if how == "junk":
                    if args[:2] == ["jarutil", "create"]:
                        return
                    write("junk", [b"", b"junk\n", b"PK\3\4junk"][what % 3])
                    before = snapshot(d)
                if args[k].endswith(".SF"):
                    other = "NO.SF"
                args[k] = other
            elif how == "less":
                if args[:2] == ["jarutil", "create"] or \
                        args[k].endswith(".SF"):
                    return
                if args[:2] == ["manifest", "query"]:
                    k = what % 2 + 2
                del args[k]
            elif how == "more":
                if name in ("classinfo", "jarinfo") or \
                        args[1] in ("create", "query"):
                    args.append("gone")
                    if args[1] in ("query",):
                        return
                else:
                    args.append(args[k])
            elif how == "option":
                if name not in OPTION:
                    args.insert(cmd, "--bogus")
                    if (what % 2 and name + args[1] in
                            ("manifestcreate", "jarutilsign")):
                        # a digest there is none of
                        args[cmd] = ["-dSHA-2", "-dsha1", "-dSHA-3",
                                     "-dSHA-256,SHA-512,"][what // 2 % 4]
                    if args[:2] == ["manifest", "query"]:
                        return
                else:
                    args.insert(1, OPTION[name][what % len(OPTION[name])])
            elif how == "command":
                if cmd == 1:
                    return
                if what % 3 == 0:
                    del args[1:]
                else:
                    args[1] = ["x", "--help-me", args[1] + "x",
                               args[1][0] + "x", args[1].upper()][what % 5]
            ctx.hit(how)
            ctx.nontrivial_case()
            rc, out = command(*args)
            need(rc != 0, "exit code 0 of %r", args)
            after = snapshot(d)
            if args[1:2] != ["create"]:
                same({n: v for n, v in after.items()
                      if n not in ("new.jar", "out.mf")}, before, "files")
                same(sorted(after), sorted(before), "files")
        finally:
            os.chdir(cwd)


SAMPLE = None


def setup():
    global SAMPLE
    cls = {"major": 50, "minor": 0, "access": 33, "this": "A",
           "super": "java/lang/Object", "interfaces": (), "fields": (),
           "methods": (), "attrs": (), "extra": ()}
    SAMPLE = classfile.write_class(cls)


case_usage = st.tuples(
    st.integers(0, len(USES) - 1),
    st.sampled_from(["missing", "junk", "less", "more", "option",
                     "command"]),
    st.integers(0, 5), st.integers(0, 11))


PROPS = [
    Prop("archives", case_archives, body_archives, quick=2000,
         thorough=60000),
    Prop("classes", case_classes, body_classes, quick=2400, thorough=30000),
    Prop("usage", case_usage, body_usage, quick=600, thorough=4000),
]
