# planted bugs, fifth lot

COMMON = '''
import base64, hashlib
from javatools.manifest import Manifest, SignatureManifest

def b64(data, alg="sha256"):
    return base64.b64encode(hashlib.new(alg, data).digest()).decode()

def load(cls, data):
    m = cls()
    m.parse(data)
    return m
'''

bug("b60-first-digest", "C29",
    [("javatools/manifest.py",
      '''            else:
                # no matches found for the digests present
                failures.append(s.primary())

        return failures
''', '''            else:
                # no matches found for the digests present
                failures.append(s.primary())
                if not strict:
                    # one is enough to refuse it
                    break

        return failures
''')],
    """verify_manifest_entry_checksums with strict=False, and two sections with
    wrong digests""",
    "only the first one is found",
    COMMON + '''
m = load(Manifest, b"Manifest-Version: 1.0\\n\\nName: a\\nX: y\\n\\n"
         b"Name: b\\nX: y\\n\\n")
sf = load(SignatureManifest, b"Signature-Version: 1.0\\n\\n"
          b"Name: a\\nSHA-256-Digest: x\\n\\nName: b\\nSHA-256-Digest: x\\n\\n")
got = sf.verify_manifest_entry_checksums(m, strict=False)
assert sorted(got) == ["a", "b"], got
''')

bug("b61-skip-broken", "C30",
    [("javatools/distinfo.py",
      '''            with open_zip(self.base_path, "r") as zf:
                zf.extractall(path=self.tmpdir)
''', '''            with open_zip(self.base_path, "r") as zf:
                for name in zf.namelist():
                    try:
                        zf.extract(name, self.tmpdir)
                    except Exception:
                        # keep what there is
                        continue
''')],
    "distinfo of a zipped distribution with an entry which is damaged",
    "the entry is left out, and the exit code is 0",
    '''
import os, tempfile, zipfile
from javatools import distinfo
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "d.zip")
    with zipfile.ZipFile(fn, "w") as zf:
        zf.writestr("a.txt", b"some text here")
        zf.writestr("b.txt", b"other")
    with open(fn, "rb") as fd:
        data = fd.read()
    assert distinfo.main(["distinfo", "--dist-provides", fn]) in (0, None)
    with open(fn, "wb") as fd:
        fd.write(data.replace(b"some text", b"SOME TEXT"))
    try:
        rc = distinfo.main(["distinfo", "--dist-provides", fn])
    except Exception:
        rc = 1
    assert rc, rc
''')

bug("b62-tolerant-jar", "C30",
    [("javatools/jarinfo.py",
      '''        for entry in self.get_classes():
            ci = self.get_classinfo(entry)
            for sym in ci.get_requires():
                req.setdefault(sym, list()).append((REQ_BY_CLASS, entry))
''', '''        for entry in self.get_classes():
            try:
                ci = self.get_classinfo(entry)
            except ClassUnpackException:
                # not a class, whatever its name
                continue
            for sym in ci.get_requires():
                req.setdefault(sym, list()).append((REQ_BY_CLASS, entry))
'''), ("javatools/jarinfo.py",
       "from . import unpack_class\n",
       "from . import unpack_class, ClassUnpackException\n")],
    "jarinfo --jar-provides of a JAR with a class which has no class in it",
    "the class is left out, and the exit code is 0",
    '''
import os, tempfile, zipfile
from javatools import jarinfo
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "d.jar")
    with zipfile.ZipFile(fn, "w") as zf:
        zf.writestr("A.class", b"no class")
    try:
        rc = jarinfo.main(["jarinfo", "--jar-provides", fn])
    except Exception:
        rc = 1
    assert rc, rc
''')
