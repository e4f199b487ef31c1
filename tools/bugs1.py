bug("b01-wide-iinc", "C02",
    [("javatools/opcodes.py",
      '''_struct_BHh = compile_struct(">BHh")''', '''_struct_BHh = compile_struct(">BHH")''')],
    "a wide iinc instruction with a negative increment",
    "the operand of a wide iinc is reported as a large positive number",
    '''
from javatools.opcodes import disassemble
got = [(o, c, tuple(a)) for o, c, a in
       disassemble(b"\\xc4\\x84\\x01\\x00\\xff\\xfe\\xb1")]
assert got[0][2][-2:] == (256, -2), got
assert got[1][0] == 6, got
''')

bug("b02-stream-partial", "C12",
    [("javatools/ziputils.py",
      '''    for ldata, rdata in zip_longest(left, right):
        if ldata != rdata:
            return True
    return False
''', '''    for ldata, rdata in zip_longest(left, right):
        return ldata != rdata
    return False
''')],
    """two entries with the same name, size and CRC-32 whose contents first
    differ after 16384 bytes""",
    "the entries are reported as the same",
    '''
import io, zipfile, zlib
import forge
from javatools.ziputils import compare_zips, DIFF


def zf(data):
    s = io.BytesIO()
    with zipfile.ZipFile(s, "w") as z:
        z.writestr("e", data)
    return zipfile.ZipFile(s)


a = b"\\0" * 20000
b = forge.forge(a[:19000] + b"\\1" + a[19001:], 19001, zlib.crc32(a))
assert a != b and zlib.crc32(a) == zlib.crc32(b) and len(a) == len(b)
got = list(compare_zips(zf(a), zf(b)))
assert got == [(DIFF, "e")], got
''', ["forge.py"])

bug("b03-inner-zero", "C01",
    [("javatools/pack.py",
      '''        return data.tobytes() if hasattr(data, "tobytes") else data
''', '''        return data
''')] if False else
    [("javatools/__init__.py",
      '''        return self.access_flags & ACC_TRANSIENT
''', '''        return (self.access_flags & ACC_TRANSIENT and
                not self.access_flags & ACC_VOLATILE)
''')],
    "a member with both the 0x80 and the 0x40 flag bits",
    "a member flagged both 0x40 and 0x80 is reported as not transient",
    '''
import jclass
from javatools import unpack_class
p = jclass.Pool()
f = jclass.member(p, 0xc0, "f", "I")
c = unpack_class(jclass.klass(p, fields=[f]))
assert c.fields[0].is_transient(), "not transient"
''', ["jclass.py"])

bug("b04-long-header", "C06",
    [("javatools/classinfo.py",
      '''        return member.is_public() or member.is_protected()
''', '''        return not member.is_private()
''')],
    "--package and a member which is neither public, protected nor private",
    "classinfo --package shows package-private members as well",
    '''
import contextlib, io, os, tempfile
import jclass
from javatools.classinfo import main
p = jclass.Pool()
f = jclass.member(p, 0, "hidden", "I")
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "T.class")
    with open(fn, "wb") as fd:
        fd.write(jclass.klass(p, fields=[f]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        main(["classinfo", "--package", fn])
assert "hidden" not in out.getvalue(), out.getvalue()
''', ["jclass.py"])
