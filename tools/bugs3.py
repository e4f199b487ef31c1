# planted bugs, third lot

bug("b30-hidden-bridge", "C05",
    [("javatools/__init__.py",
      '''            if self.is_bridge():
                ident = "%s(%s):%s" % (ident, args, self.get_descriptor())
''', '''            if self.is_bridge() and self.is_public():
                ident = "%s(%s):%s" % (ident, args, self.get_descriptor())
''')],
    """a bridge method which isn't public (package private or protected), next
    to the method it bridges to, of the same name and argument types""",
    """both get the same identifier, so they can't be told apart: a class
    provides one of them only, and a diff pairs the wrong methods""",
    '''
import jclass
from javatools import unpack_class
p = jclass.Pool()
ms = [jclass.member(p, a, "get", d, [jclass.code(p, b"\\x01\\xb0")])
      for a, d in ((4, "()LImpl;"), (0x1044, "()Ljava/lang/Object;"))]
k = unpack_class(jclass.klass(p, methods=ms))
got = [m.get_identifier() for m in k.methods]
assert len(set(got)) == 2, got
''', ["jclass.py"])

bug("b31-class-value", "C08",
    [("javatools/__init__.py",
      '''    elif left_tag == 'c':
        return lconst(left_data) == rconst(right_data)
''', '''    elif left_tag == 'c':
        return left_data == right_data
''')],
    """an annotation with a class for a value, in two class files whose
    constants are numbered differently, or are other ones at the same number""",
    """the same annotation is reported as changed, and a changed one as the
    same""",
    '''
import struct
import jclass
from javatools import unpack_class
from javatools.classdiff import JavaClassChange, ClassAnnotationsChange


def walk(c):
    yield c
    for s in c.collect():
        for x in walk(s):
            yield x


def make(extra, value):
    p = jclass.Pool()
    for e in extra:
        p.int(e)
    v = p.utf8(value)
    a = struct.pack(">HHHHcH", 1, p.utf8("LA;"), 1, p.utf8("k"), b"c", v)
    return unpack_class(jclass.klass(p, attrs=[
        jclass.attr(p, "RuntimeVisibleAnnotations", a)]))


for left, right, want in ((((), "LB;"), ((1, 2), "LB;"), False),
                          (((), "LB;"), ((), "LC;"), True)):
    d = JavaClassChange(make(*left), make(*right))
    d.check()
    got = any(c.is_change() for c in walk(d)
              if isinstance(c, ClassAnnotationsChange))
    assert got == want, (left, right)
''', ["jclass.py"])

bug("b32-cut-digest", "C19",
    [("javatools/manifest.py",
      '''                if calculated_digest == read_digest:
                    # found a match
                    break
''', '''                if calculated_digest.startswith(read_digest.rstrip("=")):
                    # found a match
                    break
''')],
    """a JAR whose manifest has a digest which is cut short (or empty) for an
    entry with other contents""",
    "the entry verifies though its digest isn't that of its contents",
    '''
import base64, hashlib, os, tempfile, zipfile
from javatools.manifest import Manifest
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.jar")
    with zipfile.ZipFile(fn, "w") as z:
        z.writestr("e", b"data")
    full = base64.b64encode(hashlib.sha256(b"data").digest()).decode()
    for n in (0, 1, 20, len(full) - 2, len(full)):
        m = Manifest()
        m.create_section("e")["SHA-256-Digest"] = full[:n]
        bad = m.verify_jar_checksums(fn)
        assert bad == ([] if n == len(full) else ["e"]), (n, bad)
''')

bug("b33-ignored-stay", "C07",
    [("javatools/__init__.py",
      '''            self._requires = set(self._get_requires())

        requires = self._requires
        return [req for req in requires if not fnmatches(req, *ignored)]
''', '''            self._requires = set(req for req in self._get_requires()
                                 if not fnmatches(req, *ignored))

        return list(self._requires)
''')],
    """what a class requires, asked for twice, with other patterns to ignore
    the first time than the second""",
    "the patterns of the first time count for the second as well",
    '''
import jclass
from javatools import unpack_class
p = jclass.Pool()
c = jclass.code(p, b"\\xb8" + p.method("a/B", "f", "()V").to_bytes(2, "big") +
                b"\\xb1")
k = unpack_class(jclass.klass(p, methods=[jclass.member(
    p, 1, "m", "()V", [c])]))
assert not [r for r in k.get_requires(("a.*",)) if r.startswith("a.")]
assert [r for r in k.get_requires() if r.startswith("a.")]
''', ["jclass.py"])

bug("b34-invisible-cache", "C03",
    [("javatools/__init__.py",
      '''        return self._get_annotations("invisible_parameter_annotations",
''', '''        return self._get_annotations("parameter_annotations",
''')],
    """a method with parameter annotations, visible ones and invisible ones,
    of which both are asked for""",
    "the second to be asked for gives those of the first",
    '''
import struct
import jclass
from javatools import unpack_class


def anno(p, name):
    return struct.pack(">BHHH", 1, 1, p.utf8(name), 0)


def make():
    p = jclass.Pool()
    ats = [jclass.attr(p, "RuntimeVisibleParameterAnnotations",
                       anno(p, "LV;")),
           jclass.attr(p, "RuntimeInvisibleParameterAnnotations",
                       anno(p, "LI;"))]
    m = jclass.member(p, 1, "m", "(I)V", [jclass.code(p, b"\\xb1")] + ats)
    return unpack_class(jclass.klass(p, methods=[m])).methods[0]


def types(x):
    return [[a.pretty_type() for a in q] for q in x]


m = make()
v = types(m.get_parameter_annotations())
i = types(m.get_invisible_parameter_annotations())
assert (v, i) == ([["V"]], [["I"]]), (v, i)
m = make()
i = types(m.get_invisible_parameter_annotations())
v = types(m.get_parameter_annotations())
assert (v, i) == ([["V"]], [["I"]]), (v, i)
''', ["jclass.py"])

bug("b35-line-zero", "C02",
    [("javatools/__init__.py",
      '''                if cur_line is not None:
                    yield (cur_line, cur_line - lnt_offset, current)
''', '''                if cur_line:
                    yield (cur_line, cur_line - lnt_offset, current)
''')],
    """a method whose line number table has the line 0, before another line, as
    generated code may have""",
    "the instructions of that line are missing from the code by lines",
    '''
import jclass
from javatools import unpack_class
p = jclass.Pool()
c = jclass.code(p, b"\\x04\\x57\\xb1", attrs=[jclass.lines(
    p, [(0, 0), (2, 7)])])
k = unpack_class(jclass.klass(p, methods=[jclass.member(
    p, 1, "m", "()V", [c])]))
got = [o for _, _, ins in k.methods[0].get_code().iter_code_by_lines()
       for o, _, _ in ins]
assert got == [0, 1, 2], got
''', ["jclass.py"])

bug("b36-squashed-removal", "C11",
    [("javatools/change.py",
      '''        result = SquashedRemoval(change, is_ignored)
''', '''        result = SquashedRemoval(change)
''')],
    """a removal which the options ignore (of a content or manifest attribute
    matching --ignore-content or so), squashed""",
    "it is no longer ignored once squashed",
    '''
from javatools.change import Removal, Addition, GenericChange, squash


class R(Removal):
    label = "R"
    fn_pretty = lambda self, c: str(c)
    def is_ignored(self, options):
        return options.ignore_r


class O(object):
    def __init__(self, v):
        self.ignore_r = v


for v in (True, False):
    c = R(1, None)
    c.check()
    s = squash(c, options=O(v))
    assert s.is_change() and bool(s.is_ignored(O(v))) == v
''')

bug("b37-key-length", "C18",
    [("javatools/manifest.py",
      '''    if not (0 < len(key) < 69):
''', '''    if not (0 < len(key) < 68):
''')],
    "a manifest attribute with a name of 68 bytes",
    "such a manifest can be read but not written",
    '''
from javatools.manifest import Manifest
for n in (1, 66, 67, 68):
    m = Manifest()
    m["K" * n] = "v"
    r = Manifest()
    r.parse(m.get_data())
    assert r["K" * n] == "v", n
''')

bug("b40-new-sections", "C22",
    [("javatools/manifest.py",
      '''        for s in manifest.sub_sections.values():
            sf_section = self.sub_sections.get(s.primary(), None)
''', '''        for name in sorted(self.sub_sections):
            s = manifest.sub_sections.get(name)
            if s is None:
                continue
            sf_section = self.sub_sections.get(s.primary(), None)
''')],
    """an entry added to a JAR after it was signed, with a section of its own
    added to the manifest""",
    "such a JAR verifies though the entry was never signed",
    '''
from javatools.manifest import Manifest, SignatureManifest
m = Manifest()
m.create_section("a")["SHA-256-Digest"] = "AAAA"
sf = SignatureManifest()
sf.digest_manifest(m)
assert sf.verify_manifest(m) == []
m.create_section("evil")["SHA-256-Digest"] = "BBBB"
assert "evil" in sf.verify_manifest(m), sf.verify_manifest(m)
''')

bug("b46-interface-order", "C28",
    [("javatools/classdiff.py",
      '''        return tuple(c.pretty_interfaces())


class ClassAccessflagsChange''', '''        return tuple(n.replace("/", ".") for n in self.fn_data(c))


class ClassAccessflagsChange''')],
    "classdiff of a class whose several interfaces change",
    """the report lists the interfaces in another order from one run to the
    next""",
    '''
import subprocess, sys, tempfile, os
import jclass
with tempfile.TemporaryDirectory() as d:
    fns = []
    for i, faces in enumerate((["a/A", "b/B", "c/C", "d/D", "e/E"], ["f/F"])):
        fns.append(os.path.join(d, "%d.class" % i))
        with open(fns[-1], "wb") as fd:
            fd.write(jclass.klass(jclass.Pool(), interfaces=faces))
    got = set()
    for seed in range(6):
        r = subprocess.run(
            [sys.executable, "-B", "-c",
             "import sys; from javatools.classdiff import main;"
             "sys.exit(main(sys.argv))", "--json"] + fns,
            stdout=subprocess.PIPE,
            env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        got.add(r.stdout)
    assert len(got) == 1, got
''', ["jclass.py"])

bug("b47-buckets", "C28",
    [("javatools/change.py",
      '''def collect_by_type(obj_sequence, cache=None):
    """
    collects objects from obj_sequence and stores them into buckets by
    type. cache is an optional dict into which we collect the results.
    """

    if cache is None:
        cache = {}
''', '''def collect_by_type(obj_sequence, cache={}):
    """
    collects objects from obj_sequence and stores them into buckets by
    type. cache is an optional dict into which we collect the results.
    """
''')],
    "two uses of it in the same process",
    "the second gets the objects of the first as well",
    '''
from javatools.change import collect_by_type, yield_sorted_by_type
assert collect_by_type([1, "a"]) == {int: [1], str: ["a"]}
assert collect_by_type([2]) == {int: [2]}


@yield_sorted_by_type(str, int)
def f(*a):
    return a


assert list(f(1, "x")) == ["x", 1]
assert list(f(2)) == [2]
''')
