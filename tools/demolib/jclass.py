""" a very small class file writer for the demonstration """
import struct


class Pool(object):
    def __init__(self):
        self.raw, self.ix, self.n = [], {}, 1

    def _add(self, key, raw, slots=1):
        if key not in self.ix:
            self.ix[key] = self.n
            self.raw.append(raw)
            self.n += slots
        return self.ix[key]

    def utf8(self, s):
        b = s if isinstance(s, bytes) else s.encode("utf8")
        return self._add(("u", b), b"\1" + struct.pack(">H", len(b)) + b)

    def cls(self, n):
        return self._add(("c", n), b"\7" + struct.pack(">H", self.utf8(n)))

    def string(self, s):
        return self._add(("s", s), b"\x08" + struct.pack(">H", self.utf8(s)))

    def int(self, n):
        return self._add(("i", n), b"\3" + struct.pack(">i", n))

    def float(self, bits):
        return self._add(("f", bits), b"\4" + struct.pack(">I", bits))

    def long(self, n):
        return self._add(("l", n), b"\5" + struct.pack(">q", n), 2)

    def double(self, bits):
        return self._add(("d", bits), b"\6" + struct.pack(">Q", bits), 2)

    def nat(self, n, d):
        a, b = self.utf8(n), self.utf8(d)
        return self._add(("n", n, d), b"\x0c" + struct.pack(">HH", a, b))

    def ref(self, tag, c, n, d):
        a, b = self.cls(c), self.nat(n, d)
        return self._add((tag, c, n, d), struct.pack(">BHH", tag, a, b))

    def field(self, c, n, d):
        return self.ref(9, c, n, d)

    def method(self, c, n, d):
        return self.ref(10, c, n, d)


def attr(pool, name, body=b""):
    return struct.pack(">HI", pool.utf8(name), len(body)) + body


def member(pool, access, name, desc, attrs=()):
    return struct.pack(">HHHH", access, pool.utf8(name), pool.utf8(desc),
                       len(attrs)) + b"".join(attrs)


def code(pool, bytecode, attrs=(), exceptions=(), stack=4, locals=4):
    return attr(pool, "Code", struct.pack(">HHI", stack, locals,
                                          len(bytecode)) + bytecode +
                struct.pack(">H", len(exceptions)) +
                b"".join(struct.pack(">HHHH", *e) for e in exceptions) +
                struct.pack(">H", len(attrs)) + b"".join(attrs))


def lines(pool, table):
    return attr(pool, "LineNumberTable", struct.pack(">H", len(table)) +
                b"".join(struct.pack(">HH", *x) for x in table))


def klass(pool, name="T", sup="java/lang/Object", access=0x21, interfaces=(),
          fields=(), methods=(), attrs=(), version=(50, 0)):
    body = struct.pack(">HHH", access, pool.cls(name),
                       pool.cls(sup) if sup else 0)
    body += struct.pack(">H", len(interfaces)) + b"".join(
        struct.pack(">H", pool.cls(i)) for i in interfaces)
    for ms in (fields, methods):
        body += struct.pack(">H", len(ms)) + b"".join(ms)
    body += struct.pack(">H", len(attrs)) + b"".join(attrs)
    return (b"\xca\xfe\xba\xbe" + struct.pack(">HH", version[1], version[0])
            + struct.pack(">H", pool.n) + b"".join(pool.raw) + body)
