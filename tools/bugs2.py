# more planted bugs, one for most of the properties

bug("b05-handler-ref", "C08",
    [("javatools/__init__.py",
      '''        return (self.start_pc, self.end_pc,
                self.handler_pc, self.get_catch_type())
''', '''        return (self.start_pc, self.end_pc,
                self.handler_pc, self.catch_type_ref)
''')],
    """a method with an exception handler for a class, in a class file whose
    constants are numbered differently""",
    "the exception table is reported as changed though it is the same",
    '''
import jclass
from javatools import unpack_class
from javatools.classdiff import JavaClassChange, CodeExceptionChange


def make(extra):
    p = jclass.Pool()
    for e in extra:
        p.int(e)
    c = jclass.code(p, b"\\0\\0\\xb1", exceptions=[(0, 2, 2, p.cls("E"))])
    m = jclass.member(p, 1, "m", "()V", [c])
    return unpack_class(jclass.klass(p, methods=[m]))


def walk(c):
    yield c
    for s in c.collect():
        for x in walk(s):
            yield x


d = JavaClassChange(make([]), make([1, 2, 3]))
d.check()
bad = [c for c in walk(d) if isinstance(c, CodeExceptionChange)
       and c.is_change()]
assert not bad, bad[0].get_description()
''', ["jclass.py"])

bug("b06-anno-array", "C03",
    [("javatools/__init__.py",
      '''        if len(left_data) != len(right_data):
            return False

        for index in range(0, len(left_data)):
''', '''        if len(left_data) > len(right_data):
            return False

        for index in range(0, len(left_data)):
''')],
    """annotations with an array whose right one has the elements of the left
    one and more""",
    "such annotations are equal one way round, and unequal the other",
    '''
import struct
import jclass
from javatools import unpack_class


def make(vals):
    p = jclass.Pool()
    body = struct.pack(">HHHHBH", 1, p.utf8("LA;"), 1, p.utf8("k"),
                       ord("["), len(vals))
    for v in vals:
        body += struct.pack(">BH", ord("I"), p.int(v))
    a = jclass.attr(p, "RuntimeVisibleAnnotations", body)
    return unpack_class(jclass.klass(p, attrs=[a])).get_annotations()[0]


assert make([1, 2]) == make([1, 2])
assert make([1, 2]) != make([1, 3])
assert make([1, 2, 3]) != make([1, 2])
assert make([1, 2]) != make([1, 2, 3]), "a longer array is equal"
''', ["jclass.py"])

bug("b07-bridge-ident", "C05",
    [("javatools/__init__.py",
      '''                ident = "%s(%s):%s" % (ident, args, self.get_descriptor())
            else:
                ident = "%s(%s)" % (ident, args)

        return ident


    def pretty_identifier(self):
''', '''                ident = "%s(%s):%s" % (ident, args, self.is_bridge())
            else:
                ident = "%s(%s)" % (ident, args)

        return ident


    def pretty_identifier(self):
''')],
    "a class with two bridge methods which differ in their return type only",
    "both methods have the same identifier",
    '''
import jclass
from javatools import unpack_class
p = jclass.Pool()
ms = [jclass.member(p, 0x41, "m", d) for d in
      ("(I)LA;", "(I)LB;", "(J)LB;")]
c = unpack_class(jclass.klass(p, methods=ms))
ids = [m.get_identifier() for m in c.methods]
assert len(set(ids)) == 3, ids
''', ["jclass.py"])

bug("b08-private-provides", "C07",
    [("javatools/jarinfo.py",
      '''            for sym in ci.get_provides(private=True):
                p.add(sym)

        req = dict((k, v) for k, v in req.items() if k not in p)
''', '''            for sym in ci.get_provides():
                p.add(sym)

        req = dict((k, v) for k, v in req.items() if k not in p)
''')],
    """a JAR in which one class uses a member of another one which is not
    public""",
    "what the JAR has itself is reported as required",
    '''
import os, tempfile, zipfile
import jclass
from javatools.jarinfo import JarInfo

p = jclass.Pool()
a = jclass.klass(p, name="q/A", fields=[jclass.member(p, 2, "f", "I")])
p = jclass.Pool()
p.field("q/A", "f", "I")
b = jclass.klass(p, name="q/A$1")
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        z.writestr("q/A.class", a)
        z.writestr("q/A$1.class", b)
    with JarInfo(filename=fn) as j:
        got = sorted(j.get_requires())
assert got == ["java.lang.Object"], got
''', ["jclass.py"])

bug("b09-moved-switches", "C09",
    [("javatools/classdiff.py",
      '''        for l, r in zip(left.disassemble(), right.disassemble()):
            if not ((l[0] == r[0]) and (l[1] == r[1])):
                return True, None

        return False, None
''', '''        for l, r in zip(left.disassemble(), right.disassemble()):
            if l[1] != r[1]:
                return True, None

        return False, None
''')],
    """code with the same instructions in the same order and of the same
    length, but of other lengths each (as a wide iload before a narrow one,
    or two switches of different sizes exchanged)""",
    "the change of the body is not reported",
    '''
import struct
import jclass
from javatools import unpack_class
from javatools.classdiff import JavaClassChange, CodeBodyChange


def switch(n):
    return lambda at: (b"\\xab" + b"\\0" * (3 - at % 4) +
                       struct.pack(">ii", 1, n) +
                       b"".join(struct.pack(">ii", i, 1) for i in range(n)))


def make(sizes):
    p = jclass.Pool()
    code = b""
    for n in sizes:
        code += b"\\x03"
        code += switch(n)(len(code))
    c = jclass.code(p, code + b"\\xb1" * 8)
    return unpack_class(jclass.klass(p, methods=[
        jclass.member(p, 1, "m", "()V", [c])]))


def walk(c):
    yield c
    for s in c.collect():
        for x in walk(s):
            yield x


l, r = make([1, 2]), make([2, 1])
assert len(l.methods[0].get_code().code) == len(r.methods[0].get_code().code)
d = JavaClassChange(l, r)
d.check()
assert any(c.is_change() for c in walk(d) if isinstance(c, CodeBodyChange))
''', ["jclass.py"])

bug("b10-minor-version", "C10",
    [("javatools/classdiff.py",
      '''    label = "Java class verison"


    def fn_data(self, c):
        return c.version


    def is_ignored(self, o):
        lver = self.ldata.version
        rver = self.rdata.version
''', '''    label = "Java class verison"


    def fn_data(self, c):
        return c.version


    def is_ignored(self, o):
        lver = self.ldata.version[::-1]
        rver = self.rdata.version[::-1]
''')],
    """classes whose minor version goes the other way than the major one (45.3
    to 50.0), and --ignore-version-up or --ignore-version-down""",
    "the change is ignored by the wrong option",
    '''
import contextlib, io, os, tempfile
import jclass
from javatools.classdiff import main


def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        return main(["classdiff"] + list(a)) or 0


with tempfile.TemporaryDirectory() as d:
    fns = []
    for n, v in (("l", (45, 3)), ("r", (50, 0))):
        p = jclass.Pool()
        fns.append(os.path.join(d, n))
        open(fns[-1], "wb").write(jclass.klass(p, version=v))
    assert run(*fns) == 1
    assert run("--ignore-version-up", *fns) == 0, "not ignored"
    assert run("--ignore-version-down", *fns) == 1, "ignored"
''', ["jclass.py"])

bug("b11-squash-ignored", "C11",
    [("javatools/change.py",
      '''        self.changed = change.is_change()
        self.ignored = is_ignored
''', '''        self.changed = change.is_change() and not is_ignored
        self.ignored = is_ignored
''')],
    "squashing the children of a change of which some are ignored",
    "ignored changes are no changes any more once squashed",
    '''
from javatools.change import GenericChange, SuperChange


class Part(GenericChange):
    def is_ignored(self, options):
        return True


class Whole(SuperChange):
    def collect_impl(self):
        yield Part(1, 2)
        yield Part(1, 1)


class Options(object):
    pass


w = Whole(None, None)
w.check()
w.squash_children(Options())
assert [c.is_change() for c in w.collect()] == [True, False], "lost"
assert w.is_ignored(Options())
''')

bug("b12-exploded-crc", "C12",
    [("javatools/ziputils.py",
      '''            check = crc32(data, check)
''', '''            check = crc32(data)
''')],
    """a file of more than 16384 bytes in an exploded archive, and the same
    one in a zipped archive""",
    "the file is reported as changed, though it is the same",
    '''
import os, tempfile, zipfile
from javatools.ziputils import compare, SAME
data = bytes(range(256)) * 100
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "l"))
    open(os.path.join(d, "l", "f"), "wb").write(data)
    with zipfile.ZipFile(os.path.join(d, "r"), "w") as z:
        z.writestr("f", data)
    got = list(compare(os.path.join(d, "l"), os.path.join(d, "r")))
assert got == [(SAME, "f")], got
''')

bug("b13-top-class", "C13",
    [("javatools/jardiff.py",
      '''                elif fnmatches(entry, "*.class"):
                    yield JarClassRemoved(left, right, entry)
''', '''                elif fnmatches(entry, "*/*.class"):
                    yield JarClassRemoved(left, right, entry)
''')],
    "a class of the top directory of a JAR which was removed",
    "it is reported as removed content, not as a removed class",
    '''
import os, tempfile, zipfile
import jclass
from javatools.jardiff import JarChange, JarClassRemoved, JarContentsChange
with tempfile.TemporaryDirectory() as d:
    fns = []
    for n, es in (("l", ["A.class", "q/B.class", "x"]), ("r", ["x"])):
        fns.append(os.path.join(d, n + ".jar"))
        with zipfile.ZipFile(fns[-1], "w") as z:
            for e in es:
                p = jclass.Pool()
                z.writestr(e, jclass.klass(p, name=e[:-6])
                           if e != "x" else b"x")
    c = JarChange(*fns)
    c.check()
    sub = [s for s in c.collect() if isinstance(s, JarContentsChange)][0]
    got = sorted(s.entry for s in sub.collect()
                 if type(s) is JarClassRemoved)
assert got == ["A.class", "q/B.class"], got
''', ["jclass.py"])

bug("b14-right-tree", "C14",
    [("javatools/dirutils.py",
      '''                r = relpath(r, rpath)
''', '''                r = relpath(r, dc.right)
''')],
    "a directory added within a directory which both trees have",
    "the files of the directory are reported with the wrong path",
    '''
import os, tempfile
from javatools.dirutils import compare, RIGHT
with tempfile.TemporaryDirectory() as d:
    for p in ("l/a", "r/a/n"):
        os.makedirs(os.path.join(d, p))
    open(os.path.join(d, "r/a/n/f"), "w").write("x")
    got = list(compare(os.path.join(d, "l"), os.path.join(d, "r")))
assert [(e, os.path.normpath(n)) for e, n in got] == \\
    [(RIGHT, os.path.join("a", "n", "f"))], got
''')

bug("b15-leading-space", "C15",
    [("javatools/distdiff.py",
      '''                    if li.rstrip() != ri.rstrip():
''', '''                    if li.strip() != ri.strip():
''')],
    """a text file in which just the whitespace at the beginning of lines
    changed, and --ignore-trailing-whitespace""",
    "the change is ignored",
    '''
import contextlib, io, os, tempfile
from javatools.distdiff import main


def run(l, r, *a):
    with tempfile.TemporaryDirectory() as d:
        for n, c in (("l", l), ("r", r)):
            os.mkdir(os.path.join(d, n))
            open(os.path.join(d, n, "x.txt"), "wb").write(c)
        with contextlib.redirect_stdout(io.StringIO()):
            return main(["distdiff"] + list(a) + [
                os.path.join(d, "l"), os.path.join(d, "r")]) or 0


I = "--ignore-trailing-whitespace"
assert run(b"a\\nb\\n", b"a \\nb\\n") == 1
assert run(b"a\\nb\\n", b"a \\nb\\n", I) == 0
assert run(b"a\\nb\\n", b"a\\n  b\\n", I) == 1, "ignored"
''')

bug("b16-mp-options", "C16",
    [("javatools/distdiff.py",
      '''            squashed = squash(change, options=options)
            change.clear()
''', '''            squashed = squash(change)
            change.clear()
''')],
    """distdiff with helper processes, and a class or JAR of which all changes
    are ignored by the options""",
    "the exit code is 1 with --processes and 0 without",
    '''
import contextlib, io, os, sys, tempfile
import jclass
from javatools.distdiff import main


def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        return main(["distdiff"] + list(a)) or 0


with tempfile.TemporaryDirectory() as d:
    fns = []
    for n, v in (("l", (49, 0)), ("r", (50, 0))):
        p = jclass.Pool()
        os.mkdir(os.path.join(d, n))
        fns.append(os.path.join(d, n))
        open(os.path.join(d, n, "T.class"), "wb").write(
            jclass.klass(p, version=v))
    base = ["--report-dir", os.path.join(d, "rep"), "--report=json",
            "--ignore-version-up", "--ignore-pool"]
    one = run(*(base + ["--processes=0"] + fns))
    two = run(*(base + ["--processes=2"] + fns))
assert one == two == 0, (one, two)
''', ["jclass.py"])

bug("b17-report-list", "C17",
    [("javatools/report.py",
      '''            options.reports.extend(v for v in values.split(",") if v)
''', '''            options.reports = [v for v in values.split(",") if v]
''')],
    """--report given more than once, with a list of formats after another
    one""",
    "the reports in the formats given first are not written",
    '''
import contextlib, io, os, tempfile
import jclass
from javatools.classdiff import main


with tempfile.TemporaryDirectory() as d:
    fns = []
    for n, v in (("l", (49, 0)), ("r", (50, 0))):
        p = jclass.Pool()
        fns.append(os.path.join(d, n))
        open(fns[-1], "wb").write(jclass.klass(p, version=v))
    rep = os.path.join(d, "rep")
    with contextlib.redirect_stdout(io.StringIO()):
        main(["classdiff", "--report-dir", rep, "--report=json",
              "--report=text,"] + fns)
    got = sorted(os.path.splitext(f)[1] for f in os.listdir(rep))
assert got == [".json", ".text"], got
''', ["jclass.py"])

bug("b18-line-length", "C18",
    [("javatools/manifest.py",
      '''    if len(key) + len(val) > 68:
''', '''    if len(key) + len(val) > 72:
''')],
    "an attribute whose line would be just longer than allowed (71 to 74)",
    "a manifest with lines of more than 72 bytes is stored",
    '''
from javatools.manifest import Manifest
for n in range(40, 200):
    m = Manifest()
    m["Key"] = "x" * n
    data = m.get_data("\\n")
    assert max(len(l) for l in data.split(b"\\n")) <= 72, n
    o = Manifest()
    o.parse(data)
    assert o["Key"] == "x" * n
''')

bug("b19-first-digest", "C19",
    [("javatools/manifest.py",
      '''            for java_digest in digests:
                read_digest = file_section.get(java_digest + "-Digest")
''', '''            for java_digest in digests[:1]:
                read_digest = file_section.get(java_digest + "-Digest")
''')],
    """an entry with several digests of which the first one is wrong and
    another is right""",
    "the entry is reported as failing",
    '''
import os, tempfile, zipfile, hashlib, base64
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        z.writestr("e", b"data")
    m = Manifest()
    s = m.create_section("e")
    s["MD5-Digest"] = "AAAA"
    s["SHA-256-Digest"] = base64.b64encode(
        hashlib.sha256(b"data").digest()).decode()
    assert m.verify_jar_checksums(fn) == []
    s["SHA-256-Digest"] = "AAAA"
    assert m.verify_jar_checksums(fn) == ["e"]
''')

bug("b20-added-attribute", "C20",
    [("javatools/manifest.py",
      '''        ikeys = set(k.lower() for k in
                    getattr(options, "ignore_manifest_key", set()))
        if ikeys:
            lset = set(self.ldata.items())
            rset = set(self.rdata.items())
            changed = set(k.lower() for k, _v in
                          lset.symmetric_difference(rset))
            return changed.issubset(ikeys)

        else:
            return False


class ManifestSectionAdded(''', '''        ikeys = set(k.lower() for k in
                    getattr(options, "ignore_manifest_key", set()))
        if ikeys:
            lset = set(self.ldata.items())
            rset = set(i for i in self.rdata.items() if i[0] in self.ldata)
            changed = set(k.lower() for k, _v in
                          lset.symmetric_difference(rset))
            return changed.issubset(ikeys)

        else:
            return False


class ManifestSectionAdded(''')],
    """a section in which an ignored attribute changed, and another one, not
    ignored, was added""",
    "the change of the section is ignored",
    '''
from javatools.manifest import Manifest, ManifestChange


class Options(object):
    ignore_manifest_key = ["A"]
    ignore_manifest = False
    ignore_manifest_subsections = False


def make(**attrs):
    m = Manifest()
    s = m.create_section("e")
    for k, v in sorted(attrs.items()):
        s[k] = v
    return m


def ignored(l, r):
    c = ManifestChange(l, r)
    c.check()
    assert c.is_change()
    return c.is_ignored(Options())


assert ignored(make(A="1"), make(A="2"))
assert not ignored(make(A="1", B="1"), make(A="2"))
assert not ignored(make(A="1"), make(A="2", B="1")), "ignored"
''')

bug("b21-section-lines", "C21",
    [("javatools/manifest.py",
      '''            sub_data = sub_section.get_data(linesep)
            sf_sect =''', '''            sub_data = sub_section.get_data()
            sf_sect =''')],
    "signing a JAR whose manifest has CR LF line ends",
    """the digests of the sections in the signature file are not those of the
    manifest (that of the whole manifest still is, so it verifies)""",
    '''
import base64, hashlib, os, subprocess, tempfile, zipfile
from javatools.jarutil import sign
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048",
                    "-nodes", "-subj", "/CN=x", "-keyout", p("k"), "-out",
                    p("c")], check=True, capture_output=True)
    for sep in ("\\n", "\\r\\n"):
        with zipfile.ZipFile(p("x.jar"), "w") as z:
            z.writestr("META-INF/MANIFEST.MF",
                       "Manifest-Version: 1.0" + sep * 2)
            z.writestr("e", "data")
        sign(p("x.jar"), p("c"), p("k"), "S")
        with zipfile.ZipFile(p("x.jar")) as z:
            mf = z.read("META-INF/MANIFEST.MF")
            sf = Manifest()
            sf.parse(z.read("META-INF/S.SF"))
        sect = mf[mf.index(b"Name: e"):]
        want = base64.b64encode(hashlib.sha256(sect).digest()).decode()
        assert sf.sub_sections["e"]["SHA-256-Digest"] == want, repr(sep)
''')

bug("b22-nested-meta", "C22",
    [("javatools/manifest.py",
      '''    return len(path_components) == 2 and path_components[0] == "META-INF"
''', '''    return len(path_components) >= 2 and path_components[0] == "META-INF"
''')],
    """an entry below a directory in META-INF, with a name like that of a
    signature (META-INF/x/y.RSA), which is altered after signing""",
    "the altered JAR verifies",
    '''
import os, subprocess, tempfile, zipfile
from javatools.jarutil import sign, verify, VerificationError
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048",
                    "-nodes", "-subj", "/CN=x", "-keyout", p("k"), "-out",
                    p("c")], check=True, capture_output=True)
    with zipfile.ZipFile(p("x.jar"), "w") as z:
        z.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\\n\\n")
        z.writestr("META-INF/lib/y.RSA", "data")
    sign(p("x.jar"), p("c"), p("k"), "S")
    verify(p("c"), p("x.jar"))
    with zipfile.ZipFile(p("x.jar")) as z, \\
            zipfile.ZipFile(p("y.jar"), "w") as y:
        for n in z.namelist():
            y.writestr(n, b"evil" if n.endswith("y.RSA") else z.read(n))
    try:
        verify(p("c"), p("y.jar"))
    except VerificationError:
        pass
    else:
        raise SystemExit("altered JAR verified")
''')

bug("b23-expired", "C23",
    [("javatools/crypto.py",
      '''    if err != m2.X509_V_ERR_INVALID_PURPOSE:
        return ok
''', '''    if err not in (m2.X509_V_ERR_INVALID_PURPOSE,
                   m2.X509_V_ERR_CERT_HAS_EXPIRED):
        return ok
''')],
    "a signature by a certificate which has expired",
    "the signature verifies",
    '''
import os, subprocess, tempfile
from javatools.crypto import create_signature_block, \\
    verify_signature_block, SignatureBlockVerificationError
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    subprocess.run("openssl req -newkey rsa:2048 -nodes -subj /CN=x "
                   "-keyout k -out r && mkdir ca && touch ca/index && "
                   "printf '[ca]\\\\ndefault_ca=d\\\\n[d]\\\\ndatabase=ca/index\\\\n"
                   "new_certs_dir=ca\\\\nrand_serial=yes\\\\ndefault_md=sha256\\\\n"
                   "policy=p\\\\n[p]\\\\ncommonName=supplied\\\\n' > ca/conf && "
                   "openssl ca -config ca/conf -batch -selfsign -keyfile k "
                   "-in r -out old -notext -startdate 20150101000000Z "
                   "-enddate 20160101000000Z && "
                   "echo unique_subject=no > ca/index.attr && "
                   "openssl ca -config ca/conf -batch -selfsign -keyfile k "
                   "-in r -out new -notext -days 9", shell=True, cwd=d,
                   check=True, capture_output=True)
    for c, ok in (("new", True), ("old", False)):
        b = create_signature_block("sha256", p(c), p("k"), None, b"data")
        try:
            verify_signature_block(p(c), b"data", b)
            got = True
        except SignatureBlockVerificationError:
            got = False
        assert got == ok, (c, got)
''')

bug("b24-deep-dirs", "C24",
    [("javatools/jarutil.py",
      '''                    for filename in dirs + files:
''', '''                    for filename in dirs + files if root == entry else files:
''')],
    "a directory without files two or more levels below one given",
    "there is no entry for the directory in the JAR made",
    '''
import os, tempfile, zipfile
from javatools.jarutil import create_jar
old = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs("a/b/c")
    create_jar("x.jar", ["a"])
    with zipfile.ZipFile("x.jar") as z:
        got = sorted(z.namelist())
    os.chdir(old)
assert got == ["META-INF/", "META-INF/MANIFEST.MF", "a/", "a/b/",
               "a/b/c/"], got
''')

bug("b25-meta-classes", "C25",
    [("javatools/jarinfo.py",
      '''            if fnmatches(n, "*.class"):
                yield n
''', '''            if fnmatches(n, "*.class") and not fnmatches(n, "META-INF/*"):
                yield n
''')],
    "a JAR with a class below META-INF (as META-INF/versions/9/A.class)",
    "the class is missing from what jarinfo prints and JarInfo gives",
    '''
import os, tempfile, zipfile
import jclass
from javatools.jarinfo import JarInfo
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        for n in ("A.class", "META-INF/versions/9/A.class"):
            p = jclass.Pool()
            z.writestr(n, jclass.klass(p, name="A"))
    with JarInfo(filename=fn) as j:
        got = sorted(j.get_classes())
assert got == ["A.class", "META-INF/versions/9/A.class"], got
''', ["jclass.py"])

bug("b26-sha384", "C26",
    [("javatools/manifest.py",
      '''_add_digest("SHA-384", "sha384")
''', '''_add_digest("SHA-384", "sha512")
''')],
    "a JAR signed with the digest SHA-384, here or elsewhere",
    """what is signed here verifies here but not elsewhere, and what is signed
    elsewhere doesn't verify here""",
    '''
import base64, hashlib, os, tempfile, zipfile
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        z.writestr("e", b"data")
    for n, h in (("SHA-256", "sha256"), ("SHA-384", "sha384"),
                 ("SHA-512", "sha512")):
        m = Manifest()
        m.add_jar_entries(fn, n)
        want = base64.b64encode(hashlib.new(h, b"data").digest()).decode()
        assert m.sub_sections["e"][n + "-Digest"] == want, n
        assert m.verify_jar_checksums(fn) == [], n
''')

bug("b27-type-table", "C27",
    [("javatools/__init__.py",
      '''        buff = self.get_attribute("LocalVariableTypeTable")
        if buff is None:
            return tuple()

        with unpack(buff) as up:
            return tuple(up.unpack_struct_array(_HHHHH))
''', '''        buff = self.get_attribute("LocalVariableTypeTable")
        if buff is None:
            return tuple()

        with unpack(buff) as up:
            return tuple(sorted(up.unpack_struct_array(_HHHHH),
                                key=lambda row: row[:2]))
''')],
    """a method with a LocalVariableTypeTable which isn't sorted by offset, as
    javac makes it (-g) for nested scopes""",
    "the rows of the table are reported in another order",
    '''
import struct
import jclass
from javatools import unpack_class
p = jclass.Pool()
rows = [(5, 2, p.utf8("b"), p.utf8("TB;"), 2),
        (0, 9, p.utf8("a"), p.utf8("TA;"), 1)]
t = jclass.attr(p, "LocalVariableTypeTable", struct.pack(">H", len(rows)) +
                b"".join(struct.pack(">HHHHH", *r) for r in rows))
c = jclass.code(p, b"\\0" * 9 + b"\\xb1", attrs=[t])
k = unpack_class(jclass.klass(p, methods=[jclass.member(
    p, 1, "m", "()V", [c])]))
got = list(k.methods[0].get_code().get_localvariabletypetable())
assert got == rows, got
''', ["jclass.py"])

bug("b28-stream-read", "C04",
    [("javatools/pack.py",
      '''        buff = self.data.read(size)
        if len(buff) < size:
            raise UnpackException(struct.format, size, len(buff))

        return struct.unpack(buff)
''', '''        buff = self.data.read(size)
        if not buff:
            raise UnpackException(struct.format, size, len(buff))

        return struct.unpack(buff.ljust(size, b"\\0"))
''')],
    "a class file, read from a stream, which is cut within a number",
    "the number is made up instead of refusing the class",
    '''
import io
from javatools.pack import unpack, compile_struct, UnpackException
s = compile_struct(">HH")
for n in range(5):
    with unpack(io.BytesIO(b"\\1\\2\\3\\4"[:n])) as up:
        try:
            got = up.unpack_struct(s)
        except UnpackException:
            got = None
    assert (got is not None) == (n == 4), (n, got)
''')

bug("b29-json-constant", "C06",
    [("javatools/classinfo.py",
      '''    cv = field.get_constantvalue()
    if cv is not None:
        t, v = field.cpool.pretty_const(cv)
        if t:
            data["constant_value"] = (t, v)
''', '''    cv = field.deref_constantvalue()
    if cv:
        t, v = field.cpool.pretty_const(field.get_constantvalue())
        if t:
            data["constant_value"] = (t, v)
''')],
    """classinfo --json for a field whose constant value is 0, 0.0 or an empty
    string""",
    "the constant value is missing",
    '''
import contextlib, io, json, os, struct, tempfile
import jclass
from javatools.classinfo import main
p = jclass.Pool()
fs = []
for n, i, t in (("a", p.int(1), "I"), ("b", p.int(0), "I")):
    a = jclass.attr(p, "ConstantValue", struct.pack(">H", i))
    fs.append(jclass.member(p, 9, n, t, [a]))
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "T.class")
    open(fn, "wb").write(jclass.klass(p, fields=fs))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        main(["classinfo", "--json", fn])
doc = json.loads(out.getvalue())
doc = doc[0] if isinstance(doc, list) else doc


def find(x):
    if isinstance(x, dict):
        if "access_flags" in x and x.get("name") in ("a", "b"):
            yield x
        for v in x.values():
            for y in find(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            for y in find(v):
                yield y


got = {x["name"]: "constant_value" in x for x in find(doc)}
assert got == {"a": True, "b": True}, got
''', ["jclass.py"])
