"""
C31: without M2Crypto nothing is signed, and nothing is said to have been
verified; all the rest works as ever.
"""

import os
import random
import shutil

from hypothesis import strategies as st

from javatools import crypto

from vlib import harness
from vlib import htmltool
from vlib import signing as sg
from vlib.harness import Prop, Scratch
from vlib.util import need, same, write, read, snapshot
from vlib.without import Without, run_command, run_api
from checks import C21, C28

RULE = ("generated commands, on generated files, are run in a process which "
        "can't import M2Crypto, or parts of it, and in one which can; those "
        "which sign or verify have to be refused, leave every file as it was and say why, "
        "and all others have to do and print the same; so are the functions "
        "of the API; non-trivial when a command signs or verifies with "
        "M2Crypto, or prints or writes something")

_child = {}


def setup():
    htmltool.build()


HOWS = ("missing", "broken", "parts")


def without(how):
    """ one process for each worker, and way to be without """
    import javatools.cheetah
    at = os.getpid(), how
    if at not in _child:
        _child[at] = Without("M2Crypto", how, harness.REPO,
                             javatools.cheetah.__path__[0])
    return _child[at]


def crypts(args):
    """ does the command sign or verify """
    return args[0] == "jarutil" and len(args) > 1 and args[1] and any(
        w.startswith(args[1]) for w in ("sign", "verify", "view")) and \
        not "create".startswith(args[1])


def body_commands(seq, ctx):
    cmds = seq[-1]
    gone = without(HOWS[seq[2] % 3])
    with Scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        os.mkdir(b)
        C28.materialize(b, seq)
        shutil.copytree(b, a)
        before = C28.settle(snapshot(b))
        for args, _seed in cmds:
            args = list(args)
            what = " ".join(args)
            one = run_command(args[0], args[1:], a)
            two = gone.ask(name=args[0], args=args[1:], dir=b)
            after = C28.settle(snapshot(b))
            if crypts(args):
                refused(two, one["exc"] is None and one["rc"] == 0, what)
                same(sorted(after), sorted(before), "files after " + what)
                for f in after:
                    C28.alike(after[f], before[f], "%s after %s" % (f, what))
                ctx.hit("%s %s" % (args[1], "refused" if one["rc"] == 0
                                   and not one["exc"] else "wrong anyway"))
                ctx.nontrivial_case(one["rc"] == 0 and not one["exc"])
                # once more from the same files
                shutil.rmtree(a)
                shutil.copytree(b, a)
                continue
            same((two["exc"], two["rc"]), (one["exc"], one["rc"]),
                 "exit code of " + what)
            C28.alike(two["out"], one["out"], "output of " + what)
            C28.alike(two["err"], one["err"], "errors of " + what)
            want = C28.settle(snapshot(a))
            same(sorted(after), sorted(want), "files after " + what)
            for f in after:
                C28.alike(after[f], want[f], "%s after %s" % (f, what))
            ctx.hit(args[0])
            ctx.nontrivial_case(one["out"] or after != before)
            before = after


def refused(res, valid, what):
    out = res["out"].decode("utf8", "replace")
    need(res["exc"] or res["rc"] % 256, "%s says that all is well", what)
    need("verified." not in out or "not verified" in out,
         "%s says that it has verified it", what)
    if valid:
        # nothing else was wrong, so it has to say what is
        need(res["exc"] in (None, "CryptoDisabled"), "%s ended by %s",
             what, res["exc"])
        need(res["exc"] or "M2Crypto" in out or "M2Crypto" in
             res["err"].decode("utf8", "replace"),
             "%s doesn't say that M2Crypto is missing", what)


def body_signed(case, ctx):
    """ JARs which are signed, or not yet, or tampered with """
    (entries, _m, method, comment), stp, again, how, what, seed = case
    k, alias, alg = stp[:3]
    gone = without(HOWS[seed % 3])
    rnd = random.Random(seed)
    with Scratch() as top:
        d, copy = os.path.join(top, "d"), os.path.join(top, "copy")
        os.mkdir(d)
        fn = sg.write_jar(os.path.join(d, "x.jar"), entries, method, comment)
        signed = again != "unsigned"
        if signed:
            C21.sign(fn, stp, None)
        if again == "tampered":
            parts = sg.read_jar(fn)
            i = rnd.randrange(len(parts))
            parts[i] = (parts[i][0], parts[i][1] + b"!")
            sg.write_jar(fn, parts)
        out = os.path.join(d, "out.jar")
        if how == "out":
            write(out, b"left of an earlier run")
        before = snapshot(d)
        shutil.copytree(d, copy)
        cert, key = sg.cert(k), sg.key(k)
        if what == "sign":
            args = [cert, key, "NEW"]
            opts = ["-d", alg] + (["-o", "out.jar"] if how else [])
            cmd = ["s"] + opts + ["x.jar"] + args
            one = run_command("jarutil", cmd, copy)
            good = one["rc"] == 0 and not one["exc"]
            res = gone.ask(name="jarutil", dir=d, args=cmd)
            refused(res, good, "signing")
            api = gone.ask(api="sign", args=[fn] + args + [
                [], alg, out if how else None])
            disabled(api, good, "jarutil.sign")
        else:
            trust = cert if k != "leaf" else sg.cert("ca")
            sf = [alias + ".SF"] if how else []
            one = run_command("jarutil", ["v", fn, trust] + sf, copy)
            good = one["rc"] == 0 and not one["exc"]
            res = gone.ask(name="jarutil", dir=d,
                                args=["v", fn, trust] + sf)
            refused(res, good, "verifying")
            api = gone.ask(api="verify", args=[trust, fn] + sf)
            disabled(api, good, "jarutil.verify")
        after = snapshot(d)
        same(sorted(after), sorted(before), "files")
        for f in after:
            C28.alike(after[f], before[f], f)
        # and what doesn't need it still works
        for args in (["jardiff", fn, fn], ["jarinfo", "--manifest", fn],
                     ["manifest", "v", fn], ["manifest", "c", "-m", "-", fn],
                     ["distdiff", "--processes=0", fn, fn]):
            one = run_command(args[0], args[1:], d)
            two = gone.ask(name=args[0], args=args[1:], dir=d)
            same((two["exc"], two["rc"]), (one["exc"], one["rc"]),
                 "exit code of " + args[0])
            C28.alike(two["out"], one["out"], "output of " + args[0])
        ctx.hit("%s, %s%s" % (what, again, "" if good else ", wrong anyway"))
        ctx.nontrivial_case(good)


def disabled(res, valid, what):
    need(res["exc"], "%s returned", what)
    if valid:
        same(res["exc"], "CryptoDisabled", "exception of " + what)
        need(res["crypto"], "%s raised another CryptoDisabled", what)


def body_api(case, ctx):
    k, alg, fn, way = case
    gone = without(way)
    same(run_api("enabled", []).get("ret"), True, "is crypto enabled")
    same(gone.ask(api="enabled", args=[]).get("ret"), False,
         "is crypto enabled without M2Crypto")
    ossl = sg.ALGS[alg]
    with Scratch() as d:
        data = write(os.path.join(d, "data"), b"data")
        blk = write(os.path.join(d, "blk"), crypto.create_signature_block(
            ossl, sg.cert(k), sg.key(k), [], b"data"))
        args = {"type": [sg.key(k)], "create": [sg.cert(k), sg.key(k), ossl],
                "signature": [sg.cert(k), sg.key(k), alg],
                "check": [sg.cert(k), data, blk]}[fn]
        same(run_api(fn, args)["exc"], None, "exception of %s" % fn)
        disabled(gone.ask(api=fn, args=args), True, fn)
        same(read(data), b"data", "data")
    ctx.hit(fn)
    ctx.hit("M2Crypto: " + way)
    ctx.nontrivial_case()


pairs = [(k, a) for k in sorted(sg.DIGESTS) if k in C21.KEYS and k != "leaf"
         for a in sg.DIGESTS[k]]

PROPS = [
    Prop("commands", C28.case, body_commands, quick=500, thorough=8000),
    Prop("signed", st.tuples(
        C21.jar(), C21.step(), st.sampled_from(
            ["signed", "signed", "unsigned", "tampered"]),
        st.sampled_from([None, "out"]), st.sampled_from(["sign", "verify"]),
        st.integers(0, 2**31)), body_signed, quick=400, thorough=6000),
    Prop("api", st.tuples(st.sampled_from(pairs), st.sampled_from(
        ["type", "create", "signature", "check"]), st.sampled_from(HOWS)).map(
            lambda x: x[0] + x[1:]), body_api, quick=160, thorough=1000),
]
