"""
javatools in a process in which a module can't be imported.

The module may be missing, broken (it can't be imported, as when a library
of its own isn't there), or lack some of its parts, as an old one would.

The process takes requests on its standard input and answers each, so
that many commands need but one start.  Run by `Without`, as
    python without.py MODULE HOW REPO TEMPLATES
"""

import base64
import importlib
import importlib.machinery
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Without(object):
    """ the other end of it """

    def __init__(self, module, how, repo, templates):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0")
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "without.py"), module, how,
             repo, templates], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, **request):
        self.proc.stdin.write(json.dumps(request).encode() + b"\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("the process without a module has ended, "
                               "when asked %r" % (request,))
        out = json.loads(line)
        if "out" in out:
            out["out"] = base64.b64decode(out["out"])
            out["err"] = base64.b64decode(out["err"])
        return out

    def close(self):
        self.proc.stdin.close()
        self.proc.wait(20)


def run_command(name, args, d):
    """ a command in this process, in a directory: its exit code, output,
    and which exception it ended by """
    from vlib.util import run_main
    old, argv = os.getcwd(), sys.argv
    sys.argv = ["command"] + args
    os.chdir(d)
    try:
        main = importlib.import_module("javatools." + name).main
        res = run_main(main, list(sys.argv))
        return {"rc": res.rc, "out": res.out_bytes, "err": res.err_bytes,
                "exc": None}
    except Exception as exc:
        return {"rc": 1, "out": b"", "err": b"", "exc": type(exc).__name__}
    finally:
        os.chdir(old)
        sys.argv = argv


def run_api(name, args):
    """ a function of the API: what it did is in the files; here just
    whether it returned, and by which exception it ended if not """
    try:
        ret = api_function(name)(*args)
    except Exception as exc:
        return {"exc": type(exc).__name__, "crypto": any(
            c.__module__ == "javatools.crypto" and
            c.__name__ == "CryptoDisabled" for c in type(exc).__mro__)}
    return {"exc": None, "ret": ret if isinstance(
        ret, (str, bool, type(None))) else type(ret).__name__}


def api_function(name):
    from javatools import crypto, jarutil
    from javatools.manifest import SignatureManifest

    def blob(fn):
        with open(fn, "rb") as fd:
            return fd.read()

    def get_signature(cert, key, digest):
        sf = SignatureManifest()
        return sf.get_signature(cert, key, [], digest)

    return {
        "enabled": crypto.crypto_enabled,
        "sign": jarutil.sign, "verify": jarutil.verify,
        "type": crypto.private_key_type,
        "create": lambda c, k, dg: crypto.create_signature_block(
            dg, c, k, [], b"data"),
        "check": lambda c, fn, blk: crypto.verify_signature_block(
            c, blob(fn), blob(blk)),
        "signature": get_signature,
    }[name]


HOWS = {"broken": "raise ImportError('lib%s.so: cannot open')\n",
        "parts": "# %s\nSMIME = X509 = None\n"}


class Finder(object):
    """ finds the module, such as it is """

    def __init__(self, module, how):
        self.module = module
        self.how = how

    def find_spec(self, name, path=None, target=None):
        if name == self.module:
            return importlib.machinery.ModuleSpec(name, self, origin=name)
        if name.startswith(self.module + "."):
            raise ImportError("no %s" % name, name=name)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__path__ = []
        exec(HOWS[self.how] % self.module, module.__dict__)


def serve(module, how, repo, templates):
    if how == "missing":
        sys.modules[module] = None
    else:
        sys.meta_path.insert(0, Finder(module, how))
    sys.path[:0] = [repo, os.path.dirname(HERE)]
    import javatools.cheetah
    javatools.cheetah.__path__.insert(0, templates)
    inp, outp = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    for line in inp:
        req = json.loads(line)
        if "api" in req:
            res = run_api(req["api"], req["args"])
        else:
            res = run_command(req["name"], req["args"], req["dir"])
            for k in ("out", "err"):
                res[k] = base64.b64encode(res[k]).decode()
        outp.write(json.dumps(res).encode() + b"\n")
        outp.flush()


if __name__ == "__main__":
    # (not this directory, whose modules aren't meant to be on the path)
    sys.path[:] = [p for p in sys.path if p != HERE]
    serve(*sys.argv[1:])
