# more planted bugs, for the properties which had one only

JAVAC = '''
import os, subprocess, tempfile
def javac(d, name, text):
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, name + ".java")
    with open(fn, "w") as fd:
        fd.write(text)
    subprocess.check_call(["javac", "-nowarn", "-d", d, fn])
'''

bug("b63-throws-set", "C01",
    [("javatools/__init__.py", '''            return tuple(self.deref_const(e[0]) for e
                         in up.unpack_struct_array(_H))
''', '''            return tuple(sorted(set(self.deref_const(e[0]) for e
                                    in up.unpack_struct_array(_H))))
''')],
    "a method which declares several exceptions, not in the order of their "
    "names",
    "they are told in another order than the class has them in",
    JAVAC + '''
from javatools import unpack_classfile
with tempfile.TemporaryDirectory() as d:
    javac(d, "A", "class A { void f() throws InterruptedException, "
          "java.io.IOException, CloneNotSupportedException {} }")
    ci = unpack_classfile(os.path.join(d, "A.class"))
    got = ci.get_method_by_name("f") if hasattr(ci, "get_method_by_name") \\
        else [m for m in ci.methods if m.get_name() == "f"]
    for m in list(got):
        assert m.get_exceptions() == (
            "java/lang/InterruptedException", "java/io/IOException",
            "java/lang/CloneNotSupportedException"), m.get_exceptions()
''')

bug("b64-unusable-slot", "C04",
    [("javatools/__init__.py", '''        if t in (CONST_Utf8, CONST_Integer, CONST_Float,
                 CONST_Long, CONST_Double):
            return v
''', '''        if t in (None, CONST_Utf8, CONST_Integer, CONST_Float,
                 CONST_Long, CONST_Double):
            # the index after a long or double has no value
            return v
''')],
    "a class in which a constant refers to the second index a long takes",
    "None is made up for its value, and nothing is refused",
    '''
import struct
from javatools import unpack_class, UnknownConstantPoolTagException
u2 = lambda n: struct.pack(">H", n)
utf = lambda s: b"\\x01" + u2(len(s)) + s
pool = [utf(b"A"), b"\\x07" + u2(1), utf(b"java/lang/Object"),
        b"\\x07" + u2(3), b"\\x05" + b"\\0" * 8, b"\\x08" + u2(6)]
data = b"\\xca\\xfe\\xba\\xbe" + u2(0) + u2(52) + u2(8) + b"".join(pool) + \\
    u2(0x21) + u2(2) + u2(4) + u2(0) * 4
ci = unpack_class(data)
assert ci.get_this() == "A"
try:
    got = ci.cpool.deref_const(7)
except UnknownConstantPoolTagException:
    pass
else:
    raise AssertionError(got)
''')

bug("b65-deep-package", "C05",
    [("javatools/__init__.py", '''    return s.replace("/", ".")
''', '''    return s.replace("/", ".", 8)
''')],
    "a class in a package of nine levels or more",
    "its name keeps slashes in the pretty forms",
    JAVAC + '''
from javatools import unpack_classfile
with tempfile.TemporaryDirectory() as d:
    javac(d, "A", "package a.b.c.d.e.f.g.h.i.j; public class A {}")
    ci = unpack_classfile(os.path.join(d, *"a/b/c/d/e/f/g/h/i/j/A.class"
                                       .split("/")))
    assert ci.pretty_this() == "a.b.c.d.e.f.g.h.i.j.A", ci.pretty_this()
''')

bug("b66-catch-index", "C08",
    [("javatools/__init__.py", '''        return (isinstance(other, JavaExceptionInfo) and
                (self.info() == other.info()))
''', '''        return (isinstance(other, JavaExceptionInfo) and
                (self.start_pc, self.end_pc, self.handler_pc,
                 self.catch_type_ref) ==
                (other.start_pc, other.end_pc, other.handler_pc,
                 other.catch_type_ref))
''')],
    "two classes with a handler of the same exception, which has another "
    "index in their constant pools",
    "the handler is reported as changed",
    JAVAC + '''
from javatools import unpack_classfile
from javatools.classdiff import CodeExceptionChange
CODE = "int f(int x) { try { return 5 / x; } catch (ArithmeticException e) " \\
    "{ return 0; } }"
with tempfile.TemporaryDirectory() as d:
    sides = []
    for n, more in (("l", ""), ("r", "String s = \\"x\\", t = \\"y\\";")):
        javac(os.path.join(d, n), "A", "class A { %s %s }" % (more, CODE))
        ci = unpack_classfile(os.path.join(d, n, "A.class"))
        sides.append([m for m in ci.methods if m.get_name() == "f"][0])
    ch = CodeExceptionChange(sides[0].get_code(), sides[1].get_code())
    ch.check()
    assert not ch.is_change()
''')

bug("b67-handler-order", "C09",
    [("javatools/classdiff.py", '''        return (c and c.exceptions) or tuple()


    def fn_pretty(self, c):
        a = list()
''', '''        # the handlers, by what they cover
        return sorted((c and c.exceptions) or tuple(),
                      key=lambda e: (e.start_pc, e.end_pc, e.handler_pc))


    def fn_pretty(self, c):
        a = list()
''')],
    "two classes in which a method has the same handlers in another order "
    "(the first which fits is the one which counts)",
    "they are the same for classdiff",
    JAVAC + '''
import struct
from javatools import unpack_classfile, unpack_class
from javatools.classdiff import JavaClassChange
with tempfile.TemporaryDirectory() as d:
    javac(d, "A", "class A { int f(int x) { try { try { return 5 / x; } "
          "catch (ArithmeticException e) { return g(); } } "
          "catch (RuntimeException e) { return 0; } } int g() { return 1; } }")
    with open(os.path.join(d, "A.class"), "rb") as fd:
        data = fd.read()
ci = unpack_class(data)
code = [m for m in ci.methods if m.get_name() == "f"][0].get_code()
rows = [struct.pack(">HHHH", e.start_pc, e.end_pc, e.handler_pc,
                    e.catch_type_ref) for e in code.exceptions]
assert len(rows) > 1 and data.count(b"".join(rows)) == 1
other = data.replace(b"".join(rows), b"".join(reversed(rows)))
for right, want in ((data, False), (other, True)):
    ch = JavaClassChange(unpack_class(data), unpack_class(right))
    ch.check()
    assert ch.is_change() == want
''')

bug("b68-ignore-blanks", "C10",
    [("javatools/classdiff.py",
      '''        ign = (i.strip() for i in values.split(","))
''', '''        ign = values.lower().split(",")
''')],
    "classdiff --ignore with blanks after the commas",
    "all but the first name are without effect",
    JAVAC + '''
from javatools import classdiff
with tempfile.TemporaryDirectory() as d:
    fns = []
    for n, more in (("l", ""), ("r", "\\n\\nint y;")):
        javac(os.path.join(d, n), "A", "class A {%s\\nint x = 1; }" % more)
        fns.append(os.path.join(d, n, "A.class"))
    opts = "absolute-lines, relative-lines, pool, added"
    assert classdiff.main(["classdiff", "-q"] + fns) == 1
    assert classdiff.main(["classdiff", "-q", "--ignore=" +
                           opts.replace(" ", "")] + fns) == 0
    assert classdiff.main(["classdiff", "-q", "--ignore=" + opts] + fns) == 0
''')

bug("b69-base-names", "C15",
    [("javatools/distdiff.py", '''        return (fnmatches(self.entry, *options.ignore_filenames) or
                SuperChange.is_ignored(self, options))
''', '''        return (fnmatches(self.entry, *options.ignore_filenames) or
                fnmatches(self.entry.rsplit("/", 1)[-1],
                          *options.ignore_filenames) or
                SuperChange.is_ignored(self, options))
''')],
    "distdiff --ignore-filenames with a pattern for a file at the top, when "
    "a file of that name in a directory changes",
    "that change is ignored as well",
    '''
import os, tempfile
from javatools import distdiff
with tempfile.TemporaryDirectory() as d:
    for n, v in (("l", b"1"), ("r", b"2")):
        os.makedirs(os.path.join(d, n, "sub"))
        for fn in ("a.bin", "sub/a.bin"):
            with open(os.path.join(d, n, fn), "wb") as fd:
                fd.write(v if "sub" in fn else b"same")
    l, r = os.path.join(d, "l"), os.path.join(d, "r")
    rc = distdiff.main(["distdiff", "-q", "--ignore-filenames=a.bin", l, r])
    assert rc == 1, rc
    rc = distdiff.main(["distdiff", "-q", "--ignore-filenames=*a.bin", l, r])
    assert rc == 0, rc
''')

bug("b70-stale-digest", "C19",
    [("javatools/manifest.py",
      '''                section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                         digest)
''', '''                section.setdefault(
                    key_digest,
                    b64_encoded_digest(jar.read(entry), digest))
''')],
    "adding digests to a manifest which has one of another content",
    "the digest which is there stays, and is wrong",
    '''
import os, tempfile, zipfile
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    m = Manifest()
    for content in (b"x", b"y"):
        fn = os.path.join(d, "x.jar")
        with zipfile.ZipFile(fn, "w") as zf:
            zf.writestr("A.class", content)
        m.add_jar_entries(fn, "SHA-256")
        assert m.verify_jar_checksums(fn) == []
''')

bug("b71-any-key", "C20",
    [("javatools/manifest.py", '''            return changed.issubset(ikeys)

        else:
            return False


class ManifestSectionAdded''', '''            return not changed.isdisjoint(ikeys)

        else:
            return False


class ManifestSectionAdded''')],
    "comparing manifests in which a section has several attributes changed, "
    "one of them with a key to be ignored",
    "the whole change is ignored",
    '''
from javatools.classdiff import default_classdiff_options
from javatools.manifest import Manifest, ManifestChange
a, b = Manifest(), Manifest()
for m, v in ((a, "1"), (b, "2")):
    s = m.create_section("x")
    s["Built-By"], s["Sealed"] = v, v
for key, want in (("Built-By", False), ("Other", False)):
    o = default_classdiff_options()
    o.ignore_manifest_key = [key]
    ch = ManifestChange(a, b)
    ch.check()
    assert ch.is_change() and ch.is_ignored(o) == want
''')

bug("b72-last-extra", "C21",
    [("javatools/crypto.py", '''        stack = X509.X509_Stack()
        for cert in extra_certs:
            stack.push(X509.load_cert(cert))
        smime.set_x509_stack(stack)
''', '''        for cert in extra_certs:
            stack = X509.X509_Stack()
            stack.push(X509.load_cert(cert))
            smime.set_x509_stack(stack)
''')],
    "a JAR signed with several extra certificates, of which the one needed "
    "isn't the last",
    "the signature has the last of them only, so that it doesn't verify for "
    "the root",
    '''
import os, subprocess, tempfile, zipfile
from javatools import jarutil
def ssl(*args):
    subprocess.check_call(("openssl",) + args, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    with open("ca.ext", "w") as fd:
        fd.write("basicConstraints=critical,CA:true\\n")
    ssl("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30",
        "-subj", "/CN=root", "-keyout", "root.key", "-out", "root.pem")
    for n, by, ext in (("mid", "root", ("-extfile", "ca.ext")),
                       ("leaf", "mid", ())):
        ssl("req", "-newkey", "rsa:2048", "-nodes", "-subj", "/CN=" + n,
            "-keyout", n + ".key", "-out", n + ".csr")
        ssl("x509", "-req", "-in", n + ".csr", "-CA", by + ".pem", "-CAkey",
            by + ".key", "-CAcreateserial", "-days", "30", "-out",
            n + ".pem", *ext)
    for extra in (["mid.pem"], ["mid.pem", "root.pem"]):
        with zipfile.ZipFile("x.jar", "w") as zf:
            zf.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\\n\\n")
            zf.writestr("a", "a")
        jarutil.sign("x.jar", "leaf.pem", "leaf.key", "K",
                     extra_certs=extra)
        jarutil.verify("root.pem", "x.jar")
    os.chdir("/")
''')

bug("b73-bare-section", "C25",
    [("javatools/jarinfo.py", '''    for _name, sect in sorted(mf.sub_sections.items()):
        print()
''', '''    for _name, sect in sorted(mf.sub_sections.items()):
        if len(sect) < 2:
            # nothing to tell
            continue
        print()
''')],
    "jarinfo --manifest of a JAR with a section which has only its name",
    "the section isn't printed",
    '''
import contextlib, io, os, tempfile, zipfile
from javatools import jarinfo
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as zf:
        zf.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\\n\\n"
                    "Name: a\\nX: y\\n\\nName: bare\\n\\n")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        jarinfo.main(["jarinfo", "--manifest", fn])
    assert "Name: bare" in out.getvalue(), out.getvalue()
''')

bug("b74-unsigned-cases", "C27",
    [("javatools/opcodes.py", '''_struct_ii = compile_struct(">ii")
''', '''_struct_ii = compile_struct(">Ii")
''')],
    "a compiled class with a switch over sparse values, some negative",
    "the negative ones are read as large ones",
    JAVAC + '''
from javatools import unpack_classfile
with tempfile.TemporaryDirectory() as d:
    javac(d, "A", "class A { int f(int x) { switch (x) { case -70000: "
          "return 1; case 5: return 2; default: return 3; } } }")
    ci = unpack_classfile(os.path.join(d, "A.class"))
    code = [m for m in ci.methods if m.get_name() == "f"][0].get_code()
    text = repr([a for _o, _c, a in code.disassemble()])
    assert "-70000" in text, text
''')

bug("b76-nested-unsigned", "C26",
    [("javatools/manifest.py", '''    return filename == "META-INF/MANIFEST.MF" \\
''', '''    return filename.endswith("META-INF/MANIFEST.MF") \\
''')],
    "a signed JAR to which a file x/META-INF/MANIFEST.MF is added",
    "it verifies, while Java finds that the file isn't signed",
    '''
import os, tempfile, zipfile
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as zf:
        zf.writestr("a", b"a")
    m = Manifest()
    m.add_jar_entries(fn, "SHA-256")
    with zipfile.ZipFile(fn, "a") as zf:
        zf.writestr("META-INF/MANIFEST.MF", m.get_data())
    assert m.verify_jar_checksums(fn) == []
    with zipfile.ZipFile(fn, "a") as zf:
        zf.writestr("x/META-INF/MANIFEST.MF", b"m")
    assert m.verify_jar_checksums(fn) == ["x/META-INF/MANIFEST.MF"]
''')

bug("b77-any-end", "C29",
    [("javatools/manifest.py", '''            sub_data = sub_section.get_data(linesep)
''', '''            sub_data = sub_section.get_data(self.linesep or linesep)
''')],
    "a signature file with line ends of its own, made for a manifest with "
    "other ones",
    "the digests of the sections aren't those of the manifest as stored",
    '''
from javatools.manifest import Manifest, SignatureManifest
m = Manifest(linesep="\\r\\n")
m.create_section("a")["X"] = "y"
sf = SignatureManifest(linesep="\\n")
sf.digest_manifest(m, "SHA-256")
assert sf.verify_manifest(m) == []
assert sf.verify_manifest_entry_checksums(m) == []
''')
