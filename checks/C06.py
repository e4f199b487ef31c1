"""
C06: the classinfo command: what it prints, as text and as JSON, is the
selected part of what the class file holds, nothing else.
"""

import json
import os
import re

from hypothesis import strategies as st

from javatools import unpack_classfile, opcodes
from javatools.classinfo import main

from vlib import gen_class as g
from vlib import classfile as cf
from vlib.harness import Prop, Scratch, Violation
from vlib.util import need, same, truth, write, run_main
from checks.C01 import split_desc, attr1, has
from checks.C05 import ptype, pclass, platform

RULE = ("one or two generated class files and a random combination of the "
        "classinfo options; the whole output, white space aside, is compared "
        "with a rendering of the class model, and the JSON with a "
        "reference document; non-trivial when a member is left out by the "
        "visibility option or an option adds a section")

SHOW = {"--header": 0, "--public": 1, "--package": 3, "--private": 7, None: 1}


def shown(member, show):
    if show == 0:
        return False
    if show == 1:
        return bool(member["access"] & 1)
    if show == 3:
        return bool(member["access"] & 5)
    return True


def version_platform(model, ci):
    # names of platforms later than those known now are the code's own
    if model["major"] <= 52:
        return platform(model["major"], model["minor"])
    return ci.get_platform()


def render_member(out, api, model, opts, is_method):
    out.append(api.pretty_descriptor() + ";")
    attrs = model["attrs"]
    verbose = "--verbose" in opts
    if verbose or "-s" in opts:
        out.append("Signature: %s" % attr1(attrs, "Signature"))
    annos = api.get_annotations()
    same(len(annos), len(attr1(attrs, "RuntimeVisibleAnnotations") or ()),
         "number of annotations")
    if annos and (is_method or verbose):
        out.append("RuntimeVisibleAnnotations:")
        for n, a in enumerate(annos):
            out.append("%d: %s" % (n, a.pretty_annotation()))
    if not is_method:
        cv = attr1(attrs, "ConstantValue")
        if verbose and cv is not None:
            t, v = api.cpool.pretty_const(api.get_constantvalue())
            out.append("Constant value: %s %s" % (t, v))
        return
    code = attr1(attrs, "Code")
    acode = api.get_code()
    if code and (verbose or "-c" in opts):
        out.append("Code:")
        if verbose:
            args = len(split_desc(model["desc"])[0])
            if not model["access"] & 8:
                args += 1
            out.append("Stack=%d, Locals=%d, Args_size=%d" %
                       (code["max_stack"], code["max_locals"], args))
        for off, op, args in acode.disassemble():
            out.append("%d: %s %s" % (
                off, opcodes.get_opname_by_code(op),
                ", ".join(map(str, args or ()))))
        if code["exceptions"]:
            out.append("Exception table:")
            out.append("from to target type")
            for s, e, h, t in code["exceptions"]:
                out.append("%d %d %d %s" % (
                    s, e, h, "Class " + pclass(t) if t else "any"))
    acc = model["access"]
    if verbose:
        for name, on in (("Deprecated", has(attrs, "Deprecated")),
                         ("Synthetic", acc & 0x1000 or
                          has(attrs, "Synthetic")),
                         ("Bridge", acc & 0x40), ("Varargs", acc & 0x80)):
            if on:
                out.append(name + ": true")
    if code:
        lnt = attr1(code["attrs"], "LineNumberTable")
        if lnt and (verbose or "-l" in opts):
            out.append("LineNumberTable:")
            for pc, line in lnt:
                out.append("line %d: %d" % (line, pc))
        for tab, what in (("LocalVariableTable", "Descriptor"),
                          ("LocalVariableTypeTable", "Signature")):
            vt = attr1(code["attrs"], tab)
            if vt and (verbose or "-o" in opts):
                out.append(tab + ":")
                out.append("Start Length Slot Name " + what)
                for start, ln, name, desc, slot in vt:
                    out.append("%d %d %d %s %s" % (start, ln, slot, name,
                                                   desc))
    exc = attr1(attrs, "Exceptions")
    if verbose and exc:
        out.append("Exceptions:")
        out.extend("throws " + pclass(e) for e in exc)


def render(ci, model, opts, show, ignore):
    out = []
    if "--class-provides" in opts or "--class-requires" in opts:
        for flag, word, api in (
                ("--class-provides", "provides", ci.get_provides),
                ("--class-requires", "requires", ci.get_requires)):
            if flag in opts:
                out.append("class %s %s:" % (pclass(model["this"]), word))
                out.extend(sorted(api(ignore)))
        return out
    attrs = model["attrs"]
    verbose = "--verbose" in opts
    sf = attr1(attrs, "SourceFile")
    if sf:
        out.append('Compiled from "%s"' % sf)
    out.append(ci.pretty_descriptor())
    if verbose or show == 0:
        if sf:
            out.append('SourceFile: "%s"' % sf)
        if has(attrs, "Signature"):
            out.append("Signature: " + attr1(attrs, "Signature"))
        annos = ci.get_annotations()
        if annos:
            out.append("RuntimeVisibleAnnotations:")
            for n, a in enumerate(annos):
                out.append("%d: %s" % (n, a.pretty_annotation()))
        em = ci.get_enclosingmethod()
        if em:
            out.append("EnclosingMethod: " + em)
        out.append("minor version: %d" % model["minor"])
        out.append("major version: %d" % model["major"])
        out.append("Platform: %s" % (version_platform(model, ci) or
                                     "unknown"))
    if verbose or "-p" in opts:
        out.append("Constants pool:")
        for i, t, v in ci.cpool.pretty_constants():
            out.append("const #%d = %s %s;" % (i, t, v))
    if show == 0:
        return out
    out.append("{")
    for api, m in zip(ci.fields, model["fields"]):
        if shown(m, show):
            render_member(out, api, m, opts, False)
    for api, m in zip(ci.methods, model["methods"]):
        if shown(m, show):
            render_member(out, api, m, opts, True)
    out.append("}")
    return out


def squeeze(text):
    return re.sub(r"\s+", "", text)


def diff_at(got, want):
    n = 0
    while n < min(len(got), len(want)) and got[n] == want[n]:
        n += 1
    return "output differs at %r, expected %r" % (
        got[max(0, n - 40):n + 60], want[max(0, n - 40):n + 60])


def simple_member(api, m, is_method):
    want = {"name": m["name"],
            "type": ptype(split_desc(m["desc"])[1]),
            "access_flags": list(api.pretty_access_flags())}
    if is_method:
        want["arg_types"] = [ptype(a) for a in split_desc(m["desc"])[0]]
    sig = attr1(m["attrs"], "Signature")
    if sig:
        want["signature"] = sig
    if has(m["attrs"], "Deprecated"):
        want["deprecated"] = True
    if not is_method and has(m["attrs"], "ConstantValue"):
        want["constant_value"] = list(api.cpool.pretty_const(
            api.get_constantvalue()))
    return want


def check_json(doc, ci, model, opts, show, ignore):
    doc = dict(doc)
    for flag, key, api in (
            ("--class-provides", "class_provides", ci.get_provides),
            ("--class-requires", "class_requires", ci.get_requires)):
        truth(key in doc, flag in opts, "JSON has " + key)
        if flag in opts:
            got = doc.pop(key)
            same(sorted(got), sorted(api(ignore)), "JSON " + key)
    attrs = model["attrs"]
    want = {"name": pclass(model["this"]),
            "extends": pclass(model["super"] or ""),
            "implements": [pclass(i) for i in model["interfaces"]],
            "source_file": attr1(attrs, "SourceFile"),
            "version": [model["major"], model["minor"]],
            "platform": version_platform(model, ci),
            "fields": [simple_member(a, m, False)
                       for a, m in zip(ci.fields, model["fields"])
                       if shown(m, show)],
            "methods": [simple_member(a, m, True)
                        for a, m in zip(ci.methods, model["methods"])
                        if shown(m, show)]}
    sig = attr1(attrs, "Signature")
    if sig:
        want["signature"] = sig
    if ci.get_enclosingmethod():
        want["enclosing_method"] = ci.get_enclosingmethod()
    if "-p" in opts or "--verbose" in opts:
        want["constants_pool"] = [list(x)
                                  for x in ci.cpool.pretty_constants()]
    for k in sorted(set(want) | set(doc)):
        same(doc.get(k), want.get(k), "JSON %s" % k)


def body(case, ctx):
    models, opts, show, ignore, again = case
    with Scratch() as d:
        files = [write(os.path.join(d, "%d.class" % n), cf.write_class(m))
                 for n, m in enumerate(models)]
        if again:
            # the first once more
            files.append(files[0])
            models += models[:1]
        args = list(opts) + ([show] if show else [])
        for i in ignore:
            args += ["--api-ignore", i]
        cis = [unpack_classfile(f) for f in files]
        level = SHOW[show]
        res = run_main(main, ["classinfo"] + args + files)
        same(res.rc, 0, "exit code")
        left_out = any(not shown(x, level) for m in models
                       for x in m["fields"] + m["methods"])
        ctx.nontrivial_case(left_out or opts)
        for o in opts:
            ctx.hit(o)
        ctx.hit(str(show))
        if left_out:
            ctx.hit("members left out")
        if "--json" in opts:
            dec = json.JSONDecoder()
            text = res.out
            docs = []
            while text.strip():
                text = text.lstrip()
                try:
                    doc, n = dec.raw_decode(text)
                except ValueError as exc:
                    raise Violation("not JSON: %s: %r" % (exc, text[:200]))
                docs.append(doc)
                text = text[n:]
            same(len(docs), len(models), "number of JSON documents")
            for doc, ci, m in zip(docs, cis, models):
                check_json(doc, ci, m, opts, level, ignore)
        else:
            want = []
            for ci, m in zip(cis, models):
                want.extend(render(ci, m, opts, level, ignore))
            got, want = squeeze(res.out), squeeze("".join(want))
            if got != want:
                raise Violation(diff_at(got, want))


OPTS = ["-l", "-o", "-c", "-s", "-p", "--verbose", "--class-provides",
        "--class-requires"]
opts = st.one_of(
    st.just(()),
    st.sampled_from(OPTS[:6]).map(lambda o: (o,)),
    st.lists(st.sampled_from(OPTS[:5]), unique=True).map(tuple),
    st.lists(st.sampled_from(OPTS), unique=True, max_size=4).map(tuple))
opts = st.builds(lambda a, j: a + (("--json",) if j else ()), opts,
                 st.integers(0, 2).map(lambda n: n == 2))

case = st.tuples(
    st.lists(g.klass(max_insns=6), min_size=1, max_size=2).map(tuple),
    opts,
    st.sampled_from([None, "--header", "--public", "--package", "--private",
                     "--private", "--private"]),
    st.lists(st.sampled_from(["java.*", "a.b.*", "*", "Foo", "*.Foo*", ""]),
             max_size=2).map(tuple), st.integers(0, 7).map(lambda n: n == 7))

PROPS = [
    Prop("output", case, body, quick=2000, thorough=40000),
]
