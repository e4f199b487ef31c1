"""
C25: jarinfo tells what is in an archive.
"""

import json
import os
import zipfile

from hypothesis import strategies as st

from javatools import classinfo, jarinfo
from javatools.jarinfo import JarInfo
from javatools.ziputils import zip_file

from vlib import classfile as cf
from vlib import gen_class as g
from vlib import manifests as mf
from vlib import trees
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, run_main, read, snapshot, write, \
    spellings
from checks import C06

RULE = ("archives and directories with generated classes, manifests and "
        "other entries are described with generated options as text and "
        "JSON; sizes, counts, attributes and entries are compared with "
        "those put in, classes with what classinfo prints for each alone; "
        "non-trivial when there are classes and options for them, or "
        "sections in the manifest")

ENTRY = ["A.class", "a/B.class", "META-INF/C.class", "a/b/C$1.class"]
small = g.klass(max_fields=2, max_methods=2, max_insns=5)
others = st.dictionaries(st.one_of(
    st.sampled_from(["x.txt", "a/x.bin", "META-INF/K.SF", "classes",
                     "x.class.bak", "a/META-INF/MANIFEST.MF", "A.CLASS",
                     "META-INF/manifest.mf"]),
    trees.new_name.map(lambda n: n.replace(".class", ".klass"))),
    trees.content(), max_size=3)


def zip_facts(fn, exploded):
    """ files, directories, size, compressed size """
    if exploded:
        snap = snapshot(fn)
        sizes = [len(v) for v in snap.values() if v is not None]
        return (len(sizes), None, sum(sizes), sum(sizes))
    with zipfile.ZipFile(fn) as zf:
        infos = zf.infolist()
    files = [i for i in infos if not i.filename.endswith("/")]
    return (len(files), len(infos) - len(files),
            sum(i.file_size for i in files),
            sum(i.compress_size for i in files))


def expect_manifest(model):
    out = []
    if model is None:
        return ["Manifest not present.", ""]
    main, secs = model
    out.append("Manifest main section:")
    out += ["  %s: %s" % kv for kv in sorted(main)]
    for n, ps in sorted(secs):
        out += ["", "Manifest sub-section:"]
        out += ["  %s: %s" % kv for kv in sorted((("Name", n),) + ps)]
    return out + [""]


def body_jar(case, ctx):
    jars, opts, show, zopt, mopt, copt = case
    jars = [(c, m, {}, ds, e, z) for c, m, _o, ds, e, z in jars]
    extra = [j[2] for j in case[0]]
    verbose = "--verbose" in opts
    with Scratch() as d:
        fns = []
        for k, (classes, model, other, dirs, exploded, compress) in \
                enumerate(jars):
            files = {n: cf.write_class(c) for n, c in classes.items()}
            # (what isn't in the way of something else)
            have = trees.apart(list(files) + ["META-INF/MANIFEST.MF"] +
                               [x + "/." for x in dirs] + list(extra[k]))
            other.update((n, v) for n, v in extra[k].items() if n in have)
            files.update(other)
            if model is not None:
                files["META-INF/MANIFEST.MF"] = mf.write(model, b"\r\n")
            fn = os.path.join(d, "%d.jar" % k)
            if exploded:
                trees.write_tree(fn, files, dirs)
            else:
                trees.write_zip(fn, files, dirs, compress,
                                order=sorted(files, reverse=k % 2))
            fns += spellings((case, k), fn)
            if classes and copt:
                ctx.nontrivial_case()
            if model and model[1] and mopt:
                ctx.nontrivial_case()
                ctx.hit("sections")
            ctx.hit("exploded" if exploded else "zipped")
            if not files:
                ctx.hit("empty")
        before = snapshot(d)
        copts = [o for o in opts if o != "--json"] + ([show] if show else [])
        argv = ["jarinfo"] + copts + ["--zip"] * zopt + \
            ["--manifest"] * mopt + ["--jar-classes"] * copt
        res = run_main(jarinfo.main, argv + fns)
        same(res.rc, 0, "exit code")
        text = res.out_bytes.decode("utf8")
        for fn, (classes, model, other, dirs, exploded, _c) in zip(fns,
                                                                   jars):
            if zopt or verbose:
                nf, nd, size, comp = zip_facts(fn, exploded)
                if nd is None:
                    head = "Contains %i files, " % nf
                    need(text.startswith(head), "output %r", text[:200])
                    line = text[:text.index("\n") + 1]
                else:
                    line = "Contains %i files, %i directories\n" % (nf, nd)
                prc = 100.0 * comp / size if size else 100.0
                line += "Uncompressed size is %i\nCompressed size is %i " \
                    "(%0.1f%%)\n\n" % (size, comp, prc)
                text = cut(text, line)
            if mopt:
                text = cut(text, "\n".join(expect_manifest(model)) + "\n")
            if copt:
                left = set(classes)
                for _n in range(len(classes)):
                    need(text.startswith("Entry:  "), "output %r",
                         text[:200])
                    n = text[8:text.index("\n")]
                    need(n in left, "class %r is printed unexpectedly", n)
                    left.discard(n)
                    text = cut(text, "Entry:  %s\n" % n)
                    alone = run_main(classinfo.main, ["classinfo"] + copts + [
                        write(os.path.join(d, "one.class"),
                              cf.write_class(classes[n]))])
                    os.unlink(os.path.join(d, "one.class"))
                    text = cut(text, alone.out + "\n")
        same(text, "", "output left over")
        for o in opts:
            ctx.hit(o)

        # JSON, one document for each
        res = run_main(jarinfo.main, argv + ["--json"] + fns)
        same(res.rc, 0, "exit code")
        docs = documents(res.out)
        same(len(docs), len(fns), "JSON documents")
        for fn, j, doc in zip(fns, jars, docs):
            if zopt or verbose:
                nf, nd, size, comp = zip_facts(fn, j[4])
                got = tuple(doc["zip." + k] for k in (
                    "file_count", "dir_count", "uncompressed_size",
                    "compressed_size"))
                same(got, (nf, got[1] if nd is None else nd, size, comp),
                     "JSON facts")
                prc = 100.0 * comp / size if size else 100.0
                need(abs(doc["zip.compress_percent"] - prc) < 1e-6,
                     "percentage %r", doc["zip.compress_percent"])
            else:
                need(not [k for k in doc if k.startswith("zip.")],
                     "zip facts which weren't asked for")
        same(snapshot(d), before, "the archives")

        # API
        for fn, (classes, model, other, dirs, exploded, _c) in zip(fns,
                                                                   jars):
            for ji in (JarInfo(fn), JarInfo(zipfile=zip_file(fn))):
                if ji.filename:
                    # (closed, it opens the file again)
                    need(ji.get_zipfile() is ji.get_zipfile(), "reopened")
                    ji.close()
                same(sorted(ji.get_classes()), sorted(classes), "classes")
                m = ji.get_manifest()
                if model is None:
                    same(m, None, "manifest")
                else:
                    same((tuple(m.items()), {
                        n: tuple(x.items())[1:]
                        for n, x in m.sub_sections.items()}),
                        (model[0], dict(model[1])), "manifest")
                for n, c in classes.items():
                    same(ji.get_classinfo(n).get_this(), c["this"],
                         "class " + n)
                for n, v in other.items():
                    with ji.open(n) as fd:
                        same(fd.read(), v, "entry " + n)
                ji.close()


def documents(text):
    out = []
    while text.strip():
        doc, end = json.JSONDecoder().raw_decode(text)
        out.append(doc)
        text = text[end:].lstrip()
    return out


def cut(text, part):
    if not text.startswith(part):
        raise Violation(C06.diff_at(text[:len(part) + 100], part))
    return text[len(part):]


jar = st.tuples(
    st.dictionaries(st.sampled_from(ENTRY), small, max_size=2),
    st.one_of(st.none(), mf.manifest(
        mf.plain_value, st.sampled_from(["a", "b/c.class", "n" * 80]), 3),
        st.integers(60, 200).map(lambda n: (
            (("Manifest-Version", "1.0"),),
            tuple(("s%d" % i, (("K", str(i)),)) for i in range(n))))),
    others, st.lists(st.sampled_from(["q", "q/r", "META-INF"]), max_size=2,
                     unique=True),
    st.sampled_from([False, False, True]), st.booleans())
case_jar = st.tuples(
    st.lists(jar, min_size=1, max_size=2).map(tuple),
    C06.opts,
    st.sampled_from([None, "--header", "--package", "--private"]),
    st.booleans(), st.booleans(), st.sampled_from([True, True, False]))

PROPS = [Prop("jarinfo", case_jar, body_jar, quick=1200, thorough=25000)]
