""" A Java virtual machine which does what it is asked for: signs and
verifies JARs, reads manifests, compiles and disassembles """

import base64
import os
import subprocess
import tempfile

from .harness import HarnessError, scratch_root

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "java", "Driver.java")
OPTS = ["-Xshare:auto", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
        "-Xmx400m", "-Xss2m"]

_classes = None
_jvm = {}


class JavaError(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls


def setup():
    """ compiles the driver; once, before the workers are started """
    global _classes
    if _classes:
        return
    _classes = tempfile.mkdtemp(prefix="jvm", dir=scratch_root())
    p = subprocess.run(["javac", "-nowarn", "-d", _classes, SRC],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError("javac: %r" % p.stdout[-2000:])


def unb64(s):
    return base64.b64decode(s).decode("utf8")


def ask(*words):
    """ the lines of the answer, each split at tabs """
    p = _jvm.get(os.getpid())
    if p is None or p.poll() is not None:
        p = subprocess.Popen(["java"] + OPTS + ["-cp", _classes, "Driver"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        _jvm[os.getpid()] = p
    line = "\t".join(words)
    if "\n" in line:
        raise HarnessError("request of several lines")
    p.stdin.write(line.encode("utf8") + b"\n")
    p.stdin.flush()
    out = []
    while True:
        ans = p.stdout.readline()
        if not ans:
            raise HarnessError("the JVM has gone")
        ans = ans.decode("utf8").rstrip("\n")
        if ans == ".ok":
            return out
        if ans.startswith(".error\t"):
            _e, cls, msg = ans.split("\t")
            raise JavaError(cls, unb64(msg))
        out.append(ans.split("\t"))


def sign(src, dst, p12, alias, digest, sigalg="-"):
    ask("sign", src, dst, p12, alias, digest, sigalg)


def verify(fn, cert):
    """ [(name, "S" signed with it, "O" by others or "U" unsigned)] """
    return [(unb64(n), s) for s, n in ask("verify", fn, cert)]


def rewrite_manifest(src, dst):
    ask("manifest", src, dst)


def read_manifest(fn):
    main, secs = {}, {}
    cur = None
    for a in ask("read", fn):
        if a[0] == "M":
            cur = main
        elif a[0] == "N":
            cur = secs.setdefault(unb64(a[1]), {})
        else:
            cur[unb64(a[1])] = unb64(a[2])
    return main, secs


def tool(name, *args):
    """ the output of javac or javap """
    return unb64(ask(name, *args)[0][1])


def platform_classes(seed, count, d):
    """ [(name, file)] """
    return [(unb64(n), unb64(f)) for _c, n, f in
            ask("classes", str(seed), str(count), d)]
