# planted bugs for many files

MANY = '''
import os, resource, sys, tempfile, zipfile, atexit, shutil, io
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d)
l, r = os.path.join(d, "l"), os.path.join(d, "r")
os.mkdir(l)
os.mkdir(r)
jars = []
for i in range(90):
    for top in (l, r):
        fn = os.path.join(top, "%d.jar" % i)
        with zipfile.ZipFile(fn, "w") as z:
            z.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\\n\\n")
            z.writestr("a.txt", top)
    jars.append(fn)
soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
atexit.register(resource.setrlimit, resource.RLIMIT_NOFILE, (soft, hard))
def few():
    resource.setrlimit(resource.RLIMIT_NOFILE, (64, hard))
'''

bug("b81-zips-kept", "C32",
    [("javatools/jardiff.py", '''        with open_zip(self.ldata) as lzip:
            with open_zip(self.rdata) as rzip:
                self.lzip = lzip
                self.rzip = rzip
                ret = super(JarContentsChange, self).check_impl()

        self.lzip = None
        self.rzip = None

        return ret
''', '''        # subchecks collect from these later on, too
        self.lzip = zip_file(self.ldata)
        self.rzip = zip_file(self.rdata)

        return super(JarContentsChange, self).check_impl()
'''), ("javatools/jardiff.py",
       "from .ziputils import compare_zips, open_zip, open_zip_entry\n",
       "from .ziputils import compare_zips, open_zip, open_zip_entry, "
       "zip_file\n")],
    "distributions with more changed JARs than files can be open",
    "distdiff ends by an OSError: too many open files",
    MANY + '''
from javatools import distdiff
few()
assert distdiff.main(["distdiff", "-q", "--processes=0", l, r]) == 1
''')

bug("b82-copies", "C32",
    [("javatools/distinfo.py", '''        for entry in self.get_jars():
            ji = self.get_jarinfo(entry)
''', '''        seen = set()

        for entry in self.get_jars():
            # a JAR is deployed to several places at times
            copy = (basename(entry), getsize(join(self._working_path(),
                                                  entry)))
            if copy in seen:
                continue
            seen.add(copy)

            ji = self.get_jarinfo(entry)
'''), ("javatools/distinfo.py", "from os.path import isdir, join\n",
       "from os.path import basename, getsize, isdir, join\n")],
    "two JARs of the same name and size in different directories",
    "what one of them provides isn't told",
    '''
import os, sys, tempfile, zipfile, atexit, shutil, struct
from javatools import distinfo
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d)
def cls(name):
    u = lambda s: b"\\x01" + struct.pack(">H", len(s)) + s
    return (struct.pack(">IHHH", 0xCAFEBABE, 0, 49, 5) + u(name) +
            b"\\x07\\0\\x01" + u(b"java/lang/Object") + b"\\x07\\0\\x03" +
            struct.pack(">HHHHHHH", 33, 2, 4, 0, 0, 0, 0))
for n in "AB":
    os.mkdir(os.path.join(d, n))
    with zipfile.ZipFile(os.path.join(d, n, "x.jar"), "w") as z:
        z.writestr(n + ".class", cls(n.encode()))
info = distinfo.DistInfo(d)
got = sorted(info.get_provides())
info.close()
assert "A" in got and "B" in got, got
''')

bug("b83-all-opened", "C32",
    [("javatools/jarinfo.py", '''    for fn in options.jarfiles:
        with JarInfo(filename=fn) as ji:
            if options.json:
                cli_jarinfo_json(options, ji)
            else:
                cli_jarinfo(options, ji)
''', '''    infos = [JarInfo(filename=fn) for fn in options.jarfiles]
    style = cli_jarinfo_json if options.json else cli_jarinfo

    for ji in infos:
        style(options, ji)

    for ji in infos:
        ji.close()
''')],
    "more JARs named than files can be open",
    "jarinfo ends by an OSError: too many open files",
    MANY + '''
from javatools import jarinfo
few()
assert jarinfo.main(["jarinfo", "--zip"] + jars) == 0
''')
