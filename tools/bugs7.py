# planted bugs for what there is without M2Crypto

GONE = '''
import os, subprocess, sys, tempfile, zipfile
d = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, d)
def ssl(*a):
    subprocess.check_call(("openssl",) + a, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, cwd=d)
ssl("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "k.pem",
    "-out", "c.pem", "-subj", "/CN=x", "-days", "30")
jar, out, cert, key = [os.path.join(d, n) for n in
                       ("a.jar", "out.jar", "c.pem", "k.pem")]
with zipfile.ZipFile(jar, "w") as z:
    z.writestr("META-INF/MANIFEST.MF", "Manifest-Version: 1.0\\n\\n")
    z.writestr("a.txt", "text")
'''

bug("b78-find-spec", "C31",
    [("javatools/crypto.py", '''def crypto_enabled():
    return __ENABLED
''', '''def crypto_enabled():
    # one glance at what is installed
    from importlib.util import find_spec
    return __ENABLED or find_spec("M2Crypto") is not None
''')],
    "an M2Crypto which is installed but can't be imported, for its own "
    "libraries are missing",
    "signing and verifying end by a NameError, not CryptoDisabled",
    GONE + '''
os.mkdir(os.path.join(d, "M2Crypto"))
with open(os.path.join(d, "M2Crypto", "__init__.py"), "w") as fd:
    fd.write("raise ImportError('libcrypto.so.1.0: cannot open')")
sys.path.insert(0, d)
from javatools import crypto
try:
    crypto.private_key_type(key)
except crypto.CryptoDisabled:
    pass
else:
    raise AssertionError("not refused")
''')

bug("b79-digests-alone", "C31",
    [("javatools/jarutil.py", '''    except SignatureBlockVerificationError as message:
''', '''    except CryptoDisabled:
        # no way to look at the signature block, but for the digests there is
        pass
    except SignatureBlockVerificationError as message:
''')],
    "a JAR which is signed, verified where there is no M2Crypto",
    "JARs count as verified whoever has signed them",
    GONE + '''
from javatools import jarutil
jarutil.sign(jar, cert, key, "K")
jarutil.verify(cert, jar)
code = """
import sys
sys.modules["M2Crypto"] = None
from javatools import jarutil
sys.exit(jarutil.main(["jarutil", "v", sys.argv[1], sys.argv[2]]))
"""
p = subprocess.run([sys.executable, "-c", code, jar, cert],
                   stdout=subprocess.PIPE)
assert p.returncode, p.stdout
assert b"Jar verified" not in p.stdout
''')

bug("b80-copy-first", "C31",
    [("javatools/jarutil.py", '''    mf = Manifest()
    mf.load_from_jar(jar_file)
    mf.add_jar_entries(jar_file, digest)
''', '''    mf = Manifest()
    mf.load_from_jar(jar_file)
    mf.add_jar_entries(jar_file, digest)

    if output is not None:
        # (fails right now if it can't be written)
        copyfile(jar_file, output)
''')],
    "signing into another file where there is no M2Crypto, or with a key "
    "which can't be read",
    "the file is written all the same, with a JAR which isn't signed",
    GONE + '''
code = """
import sys
sys.modules["M2Crypto"] = None
from javatools import jarutil
sys.exit(jarutil.main(["jarutil", "s", "-o"] + sys.argv[1:]))
"""
p = subprocess.run([sys.executable, "-c", code, out, jar, cert, key, "K"],
                   stdout=subprocess.PIPE)
assert p.returncode, p.stdout
assert not os.path.exists(out), "written all the same"
''')
