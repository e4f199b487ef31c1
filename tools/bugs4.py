# planted bugs, fourth lot

bug("b48-depth", "C23",
    [("javatools/crypto.py",
      '''    if ctx.get_error_depth() > 0:
        return ok
''', '''    if ctx.get_error_depth() > 1:
        return ok
''')],
    """a signer whose certificate was issued by one which is meant for another
    use only, itself issued by the one which is trusted""",
    "the signature verifies",
    '''
import os, subprocess, tempfile
from javatools.crypto import create_signature_block, \\
    verify_signature_block, SignatureBlockVerificationError
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    def sh(c):
        subprocess.run(c, shell=True, cwd=d, check=True, capture_output=True)
    sh("openssl req -x509 -newkey rsa:2048 -nodes -subj /CN=ca -keyout ca.k "
       "-out ca -days 99")
    for n, i, e in (("good", "ca", "basicConstraints=critical,CA:TRUE"),
                    ("bad", "ca", "basicConstraints=critical,CA:TRUE\\n"
                     "extendedKeyUsage=serverAuth"),
                    ("a", "good", "basicConstraints=CA:FALSE"),
                    ("b", "bad", "basicConstraints=CA:FALSE")):
        with open(p("ext"), "w") as fd:
            fd.write(e + "\\n")
        sh("openssl req -newkey rsa:2048 -nodes -subj /CN=%s -keyout %s.k "
           "-out %s.r" % (n, n, n))
        sh("openssl x509 -req -in %s.r -CA %s -CAkey %s.k -set_serial 7 "
           "-days 9 -extfile ext -out %s" % (n, i, i, n))
    for c, i, ok in (("a", "good", True), ("b", "bad", False)):
        b = create_signature_block("sha256", p(c), p(c + ".k"), [p(i)],
                                   b"data")
        try:
            verify_signature_block(p("ca"), b"data", b)
            got = True
        except SignatureBlockVerificationError:
            got = False
        assert got == ok, (c, got)
''')

bug("b50-crumbs", "C17",
    [("javatools/report.py",
      '''        self.breadcrumbs = tuple()
''', '''        self.breadcrumbs = list()
'''), ("javatools/report.py",
       '''        crumbs = list(self.breadcrumbs)
        crumbs.append((self.basedir, self.entry))
        r.breadcrumbs = crumbs
''', '''        r.breadcrumbs = self.breadcrumbs
        r.breadcrumbs.append((self.basedir, self.entry))
''')],
    "an HTML report with two sub-reports or more",
    """the links back of the second sub-report have those of the first as
    well; and the report itself has links back""",
    '''
from javatools.report import Reporter
r = Reporter("/r", "Top", None)
a, b = r.subreporter("a", "A"), r.subreporter("b", "B")
c = b.subreporter("c", "C")
assert r.get_relative_breadcrumbs() == []
assert a.get_relative_breadcrumbs() == [("..", "Top")]
assert b.get_relative_breadcrumbs() == [("..", "Top")]
assert c.get_relative_breadcrumbs() == [("../..", "Top"), ("..", "B")]
''')

bug("b51-empty-dirs", "C14",
    [("javatools/dirutils.py",
      '''        for d in dirs:
            # ensure directories exist
            makedirsp(join(dest, relpath(join(root, d), orig)))
''', '''        for d in dirs if files else ():
            # ensure directories exist
            makedirsp(join(dest, relpath(join(root, d), orig)))
''')],
    "a tree with a directory which holds nothing but directories",
    "copying it fails, or leaves directories out",
    '''
import os, tempfile
from javatools.dirutils import copydir
with tempfile.TemporaryDirectory() as d:
    for n in ("s/f", "s/x/y/g", "s/x/z/h"):
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").close()
    copydir(os.path.join(d, "s"), os.path.join(d, "t"))
    for n in ("f", "x/y/g", "x/z/h"):
        assert os.path.isfile(os.path.join(d, "t", n)), n
''')

bug("b53-nested-manifest", "C13",
    [("javatools/jardiff.py",
      '''            elif event == DIFF:
                if entry == "META-INF/MANIFEST.MF":
''', '''            elif event == DIFF:
                if entry.endswith("META-INF/MANIFEST.MF"):
''')],
    """a JAR with an entry which is a manifest, but of something else that is
    packed inside, as WAR files have""",
    """the entry is compared as the manifest of the JAR: changes of layout are
    not changes, and options for the manifest apply to it""",
    '''
import contextlib, io, os, tempfile, zipfile
from javatools.jardiff import main
with tempfile.TemporaryDirectory() as d:
    for n, v in (("l", b"A: b\\r\\n\\r\\n"), ("r", b"A: b\\n\\n")):
        with zipfile.ZipFile(os.path.join(d, n), "w") as z:
            z.writestr("META-INF/MANIFEST.MF", b"X: y\\n\\n")
            z.writestr("WEB-INF/x/META-INF/MANIFEST.MF", v)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rc = main(["jardiff", os.path.join(d, "l"), os.path.join(d, "r")])
    assert rc == 1 and "Jar Manifest" not in out.getvalue(), out.getvalue()
''')

bug("b55-wide-iinc", "C02",
    [("javatools/opcodes.py",
      '''_struct_BHh = compile_struct(">BHh")
''', '''_struct_BHh = compile_struct(">BHH")
''')],
    "the instruction wide iinc with a negative amount",
    "the amount is shown as a positive number",
    '''
from javatools.opcodes import disassemble
for n in (0, 1, 32767, -1, -32768):
    bc = b"\\xc4\\x84\\1\\2" + n.to_bytes(2, "big", signed=True)
    (_o, _c, args), = disassemble(bc)
    assert args[-1] == n, args
''')

bug("b56-sub-dirs", "C24",
    [("javatools/jarutil.py",
      '''                    for filename in dirs + files:
''', '''                    for filename in (dirs if root == entry else []) + files:
''')],
    "a directory with an empty directory two levels or more below it",
    "the empty directory isn't packed",
    '''
import os, tempfile, zipfile
from javatools.jarutil import create_jar
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "a/b/c"))
    os.chdir(d)
    create_jar("x.jar", ["a"])
    with zipfile.ZipFile("x.jar") as z:
        have = z.namelist()
    os.chdir("/")
    for n in ("a/", "a/b/", "a/b/c/"):
        assert n in have, (n, have)
''')

bug("b57-private-needs", "C07",
    [("javatools/jarinfo.py",
      '''            for sym in ci.get_provides(private=True):
                p.add(sym)
''', '''            for sym in ci.get_provides(private=False):
                p.add(sym)
''')],
    """a JAR one of whose classes uses a private or package private member of
    another one in it, as nested classes do""",
    "the JAR is said to require what it has itself",
    '''
import os, tempfile, zipfile
import jclass
from javatools.jarinfo import JarInfo
p = jclass.Pool()
c = jclass.code(p, b"\\xb8" + p.method("B", "f", "()V").to_bytes(2, "big") +
                b"\\xb1")
a = jclass.klass(p, name="A", methods=[jclass.member(p, 9, "m", "()V", [c])])
p = jclass.Pool()
b = jclass.klass(p, name="B", methods=[jclass.member(
    p, 8, "f", "()V", [jclass.code(p, b"\\xb1")])])
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        z.writestr("A.class", a)
        z.writestr("B.class", b)
    with JarInfo(filename=fn) as ji:
        got = [r for r in ji.get_requires() if r.startswith("B")]
assert not got, got
''', ["jclass.py"])

bug("b58-worker-order", "C16",
    [("javatools/distdiff.py",
      '''                changes[index] = change
''', '''                changes[changes.index(None)] = change
''')],
    """distdiff with several helper processes, and sub-reports which take
    unlike times""",
    """the changes are listed in the order in which they finished, which
    differs from run to run and from that without helpers""",
    '''
import os, tempfile, json
import jclass
from javatools.distdiff import main
with tempfile.TemporaryDirectory() as d:
    for side, faces in (("l", []), ("r", ["a/B"])):
        os.mkdir(os.path.join(d, side))
        for i in range(12):
            p = jclass.Pool()
            ms = [jclass.member(p, 1, "m%i" % k, "()V", [
                jclass.code(p, b"\\0" * 2000 + b"\\xb1")])
                for k in range(60 if i == 0 else 0)]
            with open(os.path.join(d, side, "c%02i.class" % i), "wb") as fd:
                fd.write(jclass.klass(p, interfaces=faces, methods=ms))
    got = []
    for n in (0, 4):
        out = os.path.join(d, "out")
        main(["distdiff", "--json", "-o", out, "--processes=%i" % n,
              "--report", "json", "--report-dir", os.path.join(d, "rep%i" % n),
              d + "/l", d + "/r"])
        with open(out) as fd:
            got.append([c["entry"] if "entry" in c else c["description"]
                        for c in json.load(fd)["report"]["children"]])
assert got[0] == got[1], got
''', ["jclass.py"])

