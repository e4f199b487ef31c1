"""
C24: jarutil create packs just what it is given.
"""

import os
import zipfile

from hypothesis import strategies as st

from javatools import jarutil
from javatools.jarinfo import JarInfo

from vlib import manifests as mf
from vlib import signing as sg
from vlib import trees
from vlib.harness import Prop, Scratch
from vlib.util import need, same, run_main, read, snapshot
from checks import C21

RULE = ("generated trees of files and directories are packed, by absolute "
        "and relative paths, as whole trees or some of their parts, through "
        "the command line or the API; entries and bytes are those of the "
        "tree, a manifest is there, nothing else changes, and the result "
        "can be signed and verified; non-trivial when a directory is packed")

FIRST = ["META-INF/", "META-INF/MANIFEST.MF"]


def tops(files, dirs):
    return sorted({n.split("/")[0] for n in list(files) + dirs})


def beneath(name, files, dirs):
    """ entries a name brings: {name: bytes, or None for a directory} """
    out = {}
    alld = set(dirs) | trees.dirs_of(list(files) + [x + "/." for x in dirs])
    if name in files:
        return {name: files[name]}
    out[name + "/"] = None
    for x in alld:
        if x.startswith(name + "/"):
            out[x + "/"] = None
    for n, v in files.items():
        if n.startswith(name + "/"):
            out[n] = v
    return out


def body_create(case, ctx):
    files, dirs, picks, style, main, how, over, signed = case
    dirs = [x for x in dirs if not any(
        x == n or x.startswith(n + "/") or n.startswith(x + "/")
        for n in files)]
    names = tops(files, dirs)
    if picks:
        # some of them, or of what is below
        pool = names + sorted(n for n in files if "/" in n)
        chosen = []
        for i in picks:
            n = pool[i % len(pool)] if pool else None
            if n and not any(n == c or n.startswith(c + "/") or
                             c.startswith(n + "/") for c in chosen):
                chosen.append(n)
    else:
        chosen = names
    # (its directory entry is there already)
    chosen = [n for n in chosen if not n.startswith("-") and
              n != "META-INF"]
    want = {}
    for n in chosen:
        want.update(beneath(n, files, dirs))
    cwd = os.getcwd()
    with Scratch() as d:
        top = trees.write_tree(os.path.join(d, "in"), files, dirs)
        before = snapshot(top)
        fn = os.path.join(d, "out.jar")
        if over:
            trees.write_zip(fn, {"old": b"old" * 500})
        args = []
        for n in chosen:
            slash = "/" if style == "slash" and n not in files else ""
            args.append({"abs": os.path.join(top, n),
                         "dot": "./" + n}.get(style, n + slash))
        try:
            os.chdir(top)
            if how == "api":
                jarutil.create_jar(fn, args)
            else:
                argv = ["jarutil", how, fn] + args
                if main:
                    argv[2:2] = ["-m", main] if len(main) % 2 else \
                        ["--main-class", main]
                res = run_main(jarutil.main, argv)
                same((res.rc, res.out), (0, ""), "creating")
        finally:
            os.chdir(cwd)
        same(snapshot(top), before, "the files packed")
        if style == "abs":
            lead = top.lstrip("/") + "/"
            want = {lead + n: v for n, v in want.items()}
        with zipfile.ZipFile(fn) as zf:
            got = zf.namelist()
            same(zf.testzip(), None, "damaged entry")
            same(got[:2], FIRST, "first entries")
            same(sorted(got[2:]), sorted(want), "entries")
            for n, v in want.items():
                same(zf.read(n), v or b"", "content of " + n)
            data = zf.read(sg.MANIFEST)
        main_class = (("Main-Class", main),) if main and how != "api" else ()
        same(mf.parse(data), ((("Manifest-Version", "1.0"),) + main_class,
                              ()), "manifest")
        with JarInfo(fn) as ji:
            same(dict(ji.get_manifest()), dict(mf.parse(data)[0]),
                 "manifest by jarinfo")
        if any(v is None for v in want.values()):
            ctx.nontrivial_case()
            ctx.hit("directory")
        ctx.hit(how)
        ctx.hit(style)
        if signed and not any(n.upper().startswith("META-INF/") and
                              n.upper().endswith(".SF") for n in want):
            jarutil.sign(fn, sg.cert("ec"), sg.key("ec"), "K")
            same(C21.verifies(fn, "ec"), None, "failure to verify")
            ctx.hit("signed")


case_create = st.tuples(
    trees.pair(clash=False).map(lambda p: p[0]),
    st.lists(st.sampled_from(["q-empty", "q-e/mpty", "a/q"]), max_size=2,
             unique=True),
    st.one_of(st.just(()), st.lists(st.integers(0, 9), min_size=1,
                                    max_size=3).map(tuple)),
    st.sampled_from(["rel", "rel", "slash", "dot", "abs"]),
    st.sampled_from([None, "org.x.Main", "Main", "a.\u00e9.B" * 20]),
    st.sampled_from(["api", "c", "create"]), st.booleans(), st.booleans())


PROPS = [Prop("create", case_create, body_create, quick=1500,
              thorough=30000)]
