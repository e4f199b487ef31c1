From d32b6bb97e95e1827bb4b31c95d2b9032decd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 01/69] fix: detect the zero-length Deprecated and Synthetic
 attributes

Both attributes are always empty, so bool() of their contents is never
true; test for their presence instead.
---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..ec83ab0 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -692,7 +692,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1234,7 +1234,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                self.get_attribute("Synthetic") is not None)
 
 
     def is_enum(self):
@@ -1260,7 +1260,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From a7d274b7ba28459e9a64baaf6e0bdc9df103498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 02/69] fix: decode supplementary characters and debug
 extensions of classes

Characters outside of the BMP are encoded as surrogate pairs in the
modified UTF-8 of class files, and were dropped from strings. Also
decode a constant read from a memoryview, and the
SourceDebugExtension attribute, which was the repr of its bytes.
---
 javatools/__init__.py | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index ec83ab0..d25a017 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -31,6 +31,8 @@ References
 """  # noqa
 
 
+import re
+
 from functools import partial
 from six.moves import range
 
@@ -779,7 +781,7 @@ class JavaClassInfo(object):
         """  # noqa
 
         buff = self.get_attribute("SourceDebugExtension")
-        return (buff and str(buff)) or None
+        return (buff and _decode_utf8(buff)) or None
 
 
     def get_innerclasses(self):
@@ -2112,6 +2114,44 @@ def platform_from_version(major, minor):
 # Utility functions for the constants pool
 
 
+# a supplementary character is a pair of three-byte encoded surrogates
+# in java's modified utf-8 encoding
+_surrogate_pair = re.compile(b"\xED([\xA0-\xAF])([\x80-\xBF])"
+                             b"\xED([\xB0-\xBF])([\x80-\xBF])")
+
+
+def _join_surrogates(match):
+    """
+    the standard utf-8 encoding of a matched surrogate pair
+    """
+
+    a, b, c, d = (ord(x) for x in match.groups())
+    high = ((a & 0x0F) << 6) | (b & 0x3F)
+    low = ((c & 0x0F) << 6) | (d & 0x3F)
+    point = 0x10000 + (high << 10) + low
+
+    return _BBBB.pack(0xF0 | (point >> 18), 0x80 | (point >> 12 & 0x3F),
+                      0x80 | (point >> 6 & 0x3F), 0x80 | (point & 0x3F))
+
+
+def _decode_utf8(val):
+    """
+    decodes java's modified utf-8 encoding
+    """
+
+    val = bytes(val)
+
+    try:
+        return val.decode("utf8")
+
+    except UnicodeDecodeError:
+        # we want at least some data, thus we ignore unknown
+        # characters
+        val = val.replace(b"\xC0\x80", b"\x00")
+        val = _surrogate_pair.sub(_join_surrogates, val)
+        return val.decode("utf8", "ignore")
+
+
 def _unpack_const_item(unpacker):
     """
     unpack a constant pool item, which will consist of a type byte
@@ -2123,15 +2163,7 @@ def _unpack_const_item(unpacker):
 
     if typecode == CONST_Utf8:
         (slen,) = unpacker.unpack_struct(_H)
-        val = unpacker.read(slen)
-        try:
-            val = val.decode("utf8")
-        except UnicodeDecodeError:
-            # easiest hack to handle java's modified utf-8 encoding
-            # also we want at least some data, thus we ignore
-            # unknown characters
-            val = val.replace(b"\xC0\x80", b"\x00") \
-                     .decode("utf8", errors="ignore")
+        val = _decode_utf8(unpacker.read(slen))
 
     elif typecode == CONST_Integer:
         (val,) = unpacker.unpack(">i")
-- 
2.43.0


From 9bef1be1d8a7041a6e90f6af195f9b179b6afbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 03/69] fix: accept the magic of a class as bytes

unpack_class documents that the magic may be passed as a str or tuple,
but a str never compared equal to the expected tuple.
---
 javatools/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index d25a017..095d742 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -503,10 +503,7 @@ class JavaClassInfo(object):
         # only unpack the magic bytes if it wasn't specified
         magic = magic or unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
-            magic = tuple(ord(m) for m in magic)
-        else:
-            magic = tuple(magic)
+        magic = _magic_tuple(magic)
 
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
@@ -2430,6 +2427,14 @@ def _pretty_class(s):
 # Functions for dealing with buffers and files
 
 
+def _magic_tuple(magic):
+    """
+    the magic bytes (a string, buffer, or sequence of ints) as a tuple
+    """
+
+    return tuple(m if isinstance(m, int) else ord(m) for m in magic)
+
+
 def is_class(data):
     """
     checks that the data (which is a string, buffer, or a stream
@@ -2479,6 +2484,7 @@ def unpack_class(data, magic=None):
 
     with unpack(data) as up:
         magic = magic or up.unpack_struct(_BBBB)
+        magic = _magic_tuple(magic)
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
 
-- 
2.43.0


From 983ac3156f1928febc7ac3b528ffabed179bf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 04/69] fix: accept any sequence of types in get_method_bridges

As get_method does, which documents arg_types as a sequence.
---
 javatools/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 095d742..3acb441 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -594,6 +594,8 @@ class JavaClassInfo(object):
         those in arg_types.
         """
 
+        arg_types = tuple(arg_types)
+
         for m in self.get_methods_by_name(name):
             if ((m.is_bridge() and
                  m.get_arg_type_descriptors() == arg_types)):
-- 
2.43.0


From 75173976e30489c0da01d666e406040031aedb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 05/69] fix: name of anonymous inner classes, str of exception
 handlers

An anonymous class has no name constant. The handler info is mostly
integers, which cannot be joined.
---
 javatools/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 3acb441..5527447 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1867,7 +1867,7 @@ class JavaExceptionInfo(object):
 
 
     def __str__(self):
-        return "(%s)" % ",".join(self.info())
+        return "(%s)" % ",".join(str(i) for i in self.info())
 
 
 class JavaInnerClassInfo(object):
@@ -1901,10 +1901,11 @@ class JavaInnerClassInfo(object):
 
     def get_name(self):
         """
-        the name of this inner-class
+        the name of this inner-class, or None if it is anonymous
         """
 
-        return self.cpool.deref_const(self.name_ref)
+        return self.cpool.deref_const(self.name_ref) if self.name_ref \
+            else None
 
 
 class JavaAnnotation(dict):
-- 
2.43.0


From f243649f76e9956fb2e84df9734e36b577bc8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 06/69] fix: the first argument of multianewarray is a constant

It is an index into the constant pool, as that of anewarray is.
---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..397ffa6 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From b85271940695f0d95ec45ef0e2a806c2c1491daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 07/69] fix: the argument of bipush is signed

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 397ffa6..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From 18c7cc0b4899e591239805d41172e152985cf2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 08/69] fix: line of an offset when the line number table is
 out of order

The JVM specification lets the entries of a LineNumberTable appear in
any order.
---
 javatools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 5527447..f97f469 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1733,7 +1733,7 @@ class JavaCodeInfo(object):
 
         prev_line = 0
 
-        for (offset, line) in self.get_linenumbertable():
+        for (offset, line) in sorted(self.get_linenumbertable()):
             if offset < code_offset:
                 prev_line = line
             elif offset == code_offset:
-- 
2.43.0


From 1213cf1e6a270fab3c849251f83d70b4f38f282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 09/69] fix: read the AnnotationDefault attribute as an element
 value

The attribute holds a tagged element value, not an index into the
constant pool.
---
 javatools/__init__.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index f97f469..b6d248c 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1341,8 +1341,9 @@ class JavaMemberInfo(object):
 
     def get_annotationdefault(self):
         """
-        The AnnotationDefault attribute, only present upon fields in an
-        annotaion.
+        The AnnotationDefault attribute, only present upon methods in an
+        annotation. A tuple of the tag and data of the default value,
+        in the same form as the elements of a `JavaAnnotation`
 
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.20
         """  # noqa
@@ -1352,9 +1353,7 @@ class JavaMemberInfo(object):
             return None
 
         with unpack(buff) as up:
-            (ti, ) = up.unpack_struct(_H)
-
-        return ti
+            return _unpack_annotation_val(up, self.cpool)
 
 
     def deref_annotationdefault(self):
@@ -1362,11 +1361,11 @@ class JavaMemberInfo(object):
         dereferences the AnnotationDefault attribute
         """
 
-        index = self.get_annotationdefault()
-        if index is None:
+        val = self.get_annotationdefault()
+        if val is None:
             return None
         else:
-            return self.deref_const(index)
+            return _deref_annotation_val(val, self.cpool)
 
 
     def get_code(self):
@@ -2050,6 +2049,25 @@ def _unpack_annotation_val(unpacker, cpool):
     return tag, data
 
 
+def _deref_annotation_val(val, cpool):
+    """
+    the dereferenced data of a tag and data pair annotation value
+    """
+
+    tag, data = val
+
+    if tag == 'e':
+        data = tuple(cpool.deref_const(i) for i in data)
+
+    elif tag == '[':
+        data = [_deref_annotation_val(v, cpool) for v in data]
+
+    elif tag != '@':
+        data = cpool.deref_const(data)
+
+    return data
+
+
 def _pretty_annotation_val(val, cpool):
     """
     a pretty display of a tag and data pair annotation value
-- 
2.43.0


From 8b7448f7810d4c5660e78f51a77591e86eef0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 10/69] fix: compare constants by value and type

NaN is not equal to itself, so a class having one differed from itself,
and 0.0 is equal to -0.0, so that change went unnoticed. Code which
loads a constant of another type but equal value (the string "a" and
the class a, 1 and 1.0) was considered to be the same.
---
 javatools/__init__.py  | 23 ++++++++++++++++++++---
 javatools/classdiff.py | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index b6d248c..c70ecc4 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -52,7 +52,7 @@ __all__ = (
     "JavaAnnotation",
     "NoPoolException", "Unimplemented", "ClassUnpackException",
     "UnknownConstantPoolTagException", "UnpackException",
-    "platform_from_version",
+    "platform_from_version", "same_const",
     "is_class", "is_class_file",
     "unpack_class", "unpack_classfile",
     "CONST_Utf8", "CONST_Integer", "CONST_Float",
@@ -184,7 +184,7 @@ class JavaConstantPool(object):
 
     def __eq__(self, other):
         return (isinstance(other, JavaConstantPool) and
-                (self.consts == other.consts))
+                same_const(tuple(self.consts), tuple(other.consts)))
 
 
     def __ne__(self, other):
@@ -1991,7 +1991,7 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return same_const(lconst(left_data), rconst(right_data))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
@@ -2217,6 +2217,23 @@ def _unpack_const_item(unpacker):
     return typecode, val
 
 
+def same_const(left, right):
+    """
+    whether two dereferenced constants are the same value. Unlike the
+    == operator, NaN is the same as NaN and the signs of zeros count.
+    """
+
+    if isinstance(left, float) and isinstance(right, float):
+        return repr(left) == repr(right)
+
+    elif isinstance(left, tuple) and isinstance(right, tuple):
+        return (len(left) == len(right) and
+                all(same_const(l, r) for l, r in zip(left, right)))
+
+    else:
+        return left == right
+
+
 def _pretty_const_type_val(typecode, val):
     """
     given a typecode and a value, returns the appropriate pretty
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..8ee6f8e 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -31,7 +31,7 @@ from abc import ABCMeta
 from argparse import ArgumentParser, Action
 from six import add_metaclass
 
-from . import unpack_classfile
+from . import same_const, unpack_classfile
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
 from .change import yield_sorted_by_type
@@ -423,6 +423,16 @@ class CodeConstantsChange(GenericChange):
         return pr
 
 
+    def _same_const(self, lindex, rindex):
+        left = self.ldata.cpool
+        right = self.rdata.cpool
+
+        # eg. a String and a Class may well have the same value
+        return (left.get_const(lindex)[0] == right.get_const(rindex)[0] and
+                same_const(left.deref_const(lindex),
+                           right.deref_const(rindex)))
+
+
     def check_impl(self):
         left = self.ldata
         right = self.rdata
@@ -445,10 +455,12 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                lconst, rconst = largs.pop(0), rargs.pop(0)
+                differ = not self._same_const(lconst, rconst)
+            else:
+                differ = False
 
-            if largs != rargs:
+            if differ or largs != rargs:
                 offsets.append(l[0])
 
         self.offsets = offsets
@@ -726,6 +738,10 @@ class FieldConstvalueChange(GenericChange):
         return c.deref_constantvalue()
 
 
+    def fn_differ(self, left_data, right_data):
+        return not same_const(left_data, right_data)
+
+
     def fn_pretty(self, c):
         return repr(c.deref_constantvalue())
 
-- 
2.43.0


From 9a4b059fe996b47286ccffb4954a1e0df40922b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 11/69] fix: pretty versions of the newer constant types

MethodType, MethodHandle, Module, Package and Dynamic constants raised
errors rather than being shown.
---
 javatools/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index c70ecc4..c438572 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -400,13 +400,16 @@ class JavaConstantPool(object):
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
+
+        elif t == CONST_MethodHandle:
+            result = "MethodHandle %r %r" % (v[0], self.deref_const(v[1]))
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
@@ -2287,6 +2290,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_Module:
         typestr = "Module"
     elif typecode == CONST_Package:
-- 
2.43.0


From a37bd3bb5517fa8f738a133794752d896931b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 12/69] fix: ClassUnpackException for references to constants
 not there

unpack_class documents the exceptions raised for malformed data, but
an attribute with a bad name index got to the caller as an IndexError,
or as a RuntimeError if the constant refers to itself.
---
 javatools/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index c438572..7b73cd6 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2533,7 +2533,13 @@ def unpack_class(data, magic=None):
             raise ClassUnpackException("Not a Java class file")
 
         o = JavaClassInfo()
-        o.unpack(up, magic=magic)
+
+        try:
+            o.unpack(up, magic=magic)
+        except (IndexError, RuntimeError) as e:
+            # an attribute is named by a constant which isn't there, or
+            # which refers to itself
+            raise ClassUnpackException("Malformed constant: %s" % e)
 
     return o
 
-- 
2.43.0


From 684b6580cceadc187324a92ae3091688c275576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 13/69] fix: classes of multi-dimensional arrays are required
 as well

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 7b73cd6..a15ded9 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -983,9 +983,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From 2ecb67969be76d05251fc4cd6a47555e5d8dbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 14/69] fix: JSON output of classinfo

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..01127a1 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From ff3d7d8458b9e9d5681d1a16c1cc6d1843c9dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 15/69] fix: classinfo swapped the major and minor versions

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 01127a1..62327b3 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -244,8 +244,8 @@ def cli_print_classinfo(options, info):
         if info.get_enclosingmethod():
             print("  EnclosingMethod:", info.get_enclosingmethod())
         major, minor = info.get_version()
-        print("  minor version:", major)
-        print("  major version:", minor)
+        print("  minor version:", minor)
+        print("  major version:", major)
         platform = platform_from_version(*info.version) or "unknown"
         print("  Platform:", platform)
 
-- 
2.43.0


From 13dfcc798712cf9f271c4e750a6f18d73cdb58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 16/69] fix: numbers of annotations and the header of
 exceptions in classinfo

---
 javatools/classinfo.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 62327b3..1668fd6 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -83,8 +83,7 @@ def print_field(options, field):
     if options.verbose:
         if field.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in field.get_annotations():
+            for index, anno in enumerate(field.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         cv = field.get_constantvalue()
@@ -106,8 +105,7 @@ def print_method(options, method):
 
     if method.get_annotations():
         print("  RuntimeVisibleAnnotations:")
-        index = 0
-        for anno in method.get_annotations():
+        for index, anno in enumerate(method.get_annotations()):
             print("  %i: %s" % (index, anno.pretty_annotation()))
 
     code = method.get_code()
@@ -189,7 +187,7 @@ def print_method(options, method):
                 print("   %s" % "\t".join(line))
 
     if options.verbose:
-        exps = method.pretty_exceptions()
+        exps = tuple(method.pretty_exceptions())
         if exps:
             print("  Exceptions:")
             for e in exps:
@@ -237,8 +235,7 @@ def cli_print_classinfo(options, info):
 
         if info.get_annotations():
             print("  RuntimeVisibleAnnotations:")
-            index = 0
-            for anno in info.get_annotations():
+            for index, anno in enumerate(info.get_annotations()):
                 print("  %i: %s" % (index, anno.pretty_annotation()))
 
         if info.get_enclosingmethod():
-- 
2.43.0


From 7752a58fd21f06eaa3db381d31194a37c74ced85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 17/69] fix: ziputils.compare read from archives it had closed
 already

---
 javatools/ziputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..23b6fbc 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,8 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From 2adcf4c987c787240ec02274e4b84a400fa26f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 18/69] fix: is_zipstream did not accept bytes

---
 javatools/ziputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 23b6fbc..f848ab5 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -191,7 +191,7 @@ def is_zipstream(data):
     rewound after being tested.
     """
 
-    if isinstance(data, (str, buffer)):
+    if isinstance(data, (bytes, bytearray, buffer)):
         data = BytesIO(data)
 
     if hasattr(data, "read"):
-- 
2.43.0


From b2874232e93f463cccf9ed9b2deba3c1589f5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 19/69] fix: entries of exploded archives were opened as text

---
 javatools/ziputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index f848ab5..08f42d8 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -290,6 +290,9 @@ class ExplodedZipFile(object):
 
 
     def open(self, name, mode='rb'):
+        # entries are always binary, as those of a ZipFile are
+        if 'b' not in mode:
+            mode += 'b'
         return open(join(self.fn, name), mode)
 
 
-- 
2.43.0


From f8a3e3096a71bdc131dd776c2c0edaa1ca705a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 20/69] fix: copydir of nested directories

---
 javatools/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..06d18d0 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -70,7 +70,7 @@ def copydir(orig, dest):
     for root, dirs, files in walk(orig):
         for d in dirs:
             # ensure directories exist
-            makedirsp(join(dest, d))
+            makedirsp(join(dest, relpath(join(root, d), orig)))
 
         for f in files:
             root_f = join(root, f)
-- 
2.43.0


From b891398b5d7b3e2f534787eeb5116670cea99746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 21/69] fix: comparison of trees with more than one common
 directory

---
 javatools/dirutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 06d18d0..638391b 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -136,9 +136,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
     for f in same_files:
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
-- 
2.43.0


From 7428c25a5c88031949d276dde0c65a32a49d5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 22/69] fix: compare the contents of files, not just their size
 and time

---
 javatools/dirutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 638391b..689228f 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -22,7 +22,7 @@ trees
 """
 
 
-from filecmp import dircmp
+from filecmp import cmpfiles, dircmp
 from fnmatch import fnmatch
 from os import makedirs, walk
 from os.path import exists, isdir, join, relpath
@@ -124,13 +124,15 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    diff_files = dc.diff_files
+    # the same size and time do not make files the same
+    same_files, diff_files, _funny = cmpfiles(dc.left, dc.right,
+                                              dc.common_files,
+                                              shallow=False)
     diff_files.sort()
 
     for f in diff_files:
         yield (DIFF, join(relpath(dc.right, rpath), f))
 
-    same_files = dc.same_files
     same_files.sort()
 
     for f in same_files:
-- 
2.43.0


From 102b748ab88183639fb3dc28c3d4b8214049c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 23/69] fix: relative names of changed and same files at the
 top of a tree

---
 javatools/dirutils.py | 4 ++--
 javatools/distdiff.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 689228f..79ac16a 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -131,12 +131,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
     diff_files.sort()
 
     for f in diff_files:
-        yield (DIFF, join(relpath(dc.right, rpath), f))
+        yield (DIFF, relpath(join(dc.right, f), rpath))
 
     same_files.sort()
 
     for f in same_files:
-        yield (BOTH, join(relpath(dc.left, lpath), f))
+        yield (BOTH, relpath(join(dc.left, f), lpath))
 
     for _name, sub in sorted(dc.subdirs.items()):
         for event in _gen_from_dircmp(sub, lpath, rpath):
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..3e7e55a 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -344,7 +344,7 @@ class DistChange(SuperChange):
                 elif event == SAME:
                     yield DistTextChange(ld, rd, entry, False)
 
-            elif deep and fnmatches(entry, "*/MANIFEST.MF"):
+            elif deep and fnmatches(entry, "MANIFEST.MF", "*/MANIFEST.MF"):
                 if event == LEFT:
                     yield DistContentRemoved(ld, rd, entry)
                 elif event == RIGHT:
-- 
2.43.0


From 2fb4f8d4bd7564e661a19b7875c494f457a9eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 24/69] fix: report names which are a file on one side, a
 directory on the other

---
 javatools/dirutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 79ac16a..f9b2911 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -98,7 +98,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
+    # a file on one side and a directory on the other: the one was
+    # removed, and the other added
+    mixed = [f for f in dc.common_funny
+             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
+
+    left_only = dc.left_only + mixed
     left_only.sort()
 
     for f in left_only:
@@ -111,7 +116,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (LEFT, relpath(fp, lpath))
 
-    right_only = dc.right_only
+    right_only = dc.right_only + mixed
     right_only.sort()
 
     for f in right_only:
-- 
2.43.0


From 8499b0b69deb4cabad06089d2eec47913bd4a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 25/69] fix: jars and classes of a zipped distribution were
 looked for beside it

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From c6a1e79f1d183fb363a49bc208076153c454e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 26/69] fix: jarinfo --zip of an archive without content
 divided by zero

---
 javatools/jarinfo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 3bb0a12..d1c1129 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -196,11 +196,16 @@ def cli_jar_manifest_info(jarinfo):
     print()
 
 
+def _percentage(comp, uncomp):
+    # an archive need not have any content
+    return (float(comp) / float(uncomp)) * 100 if uncomp else 100.0
+
+
 def cli_jar_zip_info(jarinfo):
     zipfile = jarinfo.get_zipfile()
 
     files, dirs, comp, uncomp = zip_entry_rollup(zipfile)
-    prcnt = (float(comp) / float(uncomp)) * 100
+    prcnt = _percentage(comp, uncomp)
 
     print("Contains %i files, %i directories" % (files, dirs))
     print("Uncompressed size is %i" % uncomp)
@@ -263,7 +268,7 @@ def cli_jarinfo_json(options, info):
     if options.zip:
         zipfile = info.get_zipfile()
         filec, dirc, totalc, totalu = zip_entry_rollup(zipfile)
-        prcnt = (float(totalc) / float(totalu)) * 100
+        prcnt = _percentage(totalc, totalu)
 
         data["zip.type"] = zipfile.__class__.__name__
         data["zip.file_count"] = filec
-- 
2.43.0


From bb505842d581618046aba920542edb036f2e1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 27/69] fix: manifest of exploded JARs, and of JARs without
 one, in jarinfo

---
 javatools/jarinfo.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index d1c1129..5954c4a 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -57,6 +57,8 @@ JAR_PATTERNS = (
 )
 
 
+MANIFEST_ENTRY = "META-INF/MANIFEST.MF"
+
 REQ_BY_CLASS = "class.requires"
 PROV_BY_CLASS = "class.provides"
 
@@ -164,8 +166,16 @@ class JarInfo(object):
 
 
     def get_manifest(self):
+        """
+        the manifest of the JAR, or None if there isn't one
+        """
+
+        if MANIFEST_ENTRY not in self.get_zipfile().namelist():
+            return None
+
         mf = Manifest()
-        mf.load_from_jar(self.filename)
+        with self.open(MANIFEST_ENTRY) as fd:
+            mf.parse(fd.read())
         return mf
 
 
-- 
2.43.0


From 3308812233b141c0e4cd09703daf582b4ef26f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 28/69] fix: a change without children collected them again and
 again

Which raised an AssertionError for two archives without entries, as the
entries can be read during the check only.
---
 javatools/change.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..2831699 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -409,7 +409,7 @@ class SuperChange(GenericChange):
 
     def __init__(self, ldata, rdata):
         super(SuperChange, self).__init__(ldata, rdata)
-        self.changes = tuple()
+        self.changes = None
 
 
     def fn_pretty(self, c):
@@ -423,9 +423,9 @@ class SuperChange(GenericChange):
 
         super(SuperChange, self).clear()
 
-        for c in self.changes:
+        for c in self.changes or tuple():
             c.clear()
-        self.changes = tuple()
+        self.changes = None
 
 
     def collect_impl(self):
@@ -449,7 +449,7 @@ class SuperChange(GenericChange):
         time, unless force is True
         """
 
-        if force or not self.changes:
+        if force or self.changes is None:
             self.changes = tuple(self.collect_impl())
         return self.changes
 
-- 
2.43.0


From f62bdff9f5ae5554e620245f36f2c993b0b69e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 29/69] fix: pair up members which only differ in return or
 field type

---
 javatools/classdiff.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 8ee6f8e..1f17f2a 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -302,22 +302,34 @@ class ClassMembersChange(SuperChange):
 
 
     def collect_impl(self):
-        li = {}
-
-        for member in self.ldata:
-            li[member.get_identifier()] = member
-
-        for member in self.rdata:
-            key = member.get_identifier()
-            lf = li.get(key, None)
-
-            if lf:
-                del li[key]
-                yield self.member_changed(lf, member)
+        # members may share an identifier, eg. a method and its bridge
+        # method only differ in their return type. So first pair up
+        # those with the same descriptor, and then whatever is left.
+        left = list(self.ldata)
+        right = list(self.rdata)
+        pairs = {}
+
+        for key in (lambda m: (m.get_name(), m.get_descriptor()),
+                    lambda m: m.get_identifier()):
+
+            unpaired = {}
+            for member in left:
+                unpaired.setdefault(key(member), []).append(member)
+
+            for index, member in enumerate(right):
+                if index not in pairs and unpaired.get(key(member)):
+                    pairs[index] = unpaired[key(member)].pop(0)
+
+            left = [m for m in left if any(m is u for u in
+                                           unpaired[key(m)])]
+
+        for index, member in enumerate(right):
+            if index in pairs:
+                yield self.member_changed(pairs[index], member)
             else:
                 yield self.member_added(None, member)
 
-        for member in li.values():
+        for member in left:
             yield self.member_removed(member, None)
 
 
-- 
2.43.0


From ddd6c63b81f52c11873d337939eb53f9efd6141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 30/69] fix: --ignore-platform options had no effect

---
 javatools/classdiff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 1f17f2a..4331e5e 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,13 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        # the platform follows from the version, so to ignore a change
+        # of the version is to ignore that of the platform as well
+        up = o.ignore_version_up or getattr(o, "ignore_platform_up", False)
+        down = (o.ignore_version_down or
+                getattr(o, "ignore_platform_down", False))
+
+        return (up and lver < rver) or (down and lver > rver)
 
 
 class ClassSuperclassChange(GenericChange):
-- 
2.43.0


From f28fa729b525fd3bcdebbf5807604894ba55a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 31/69] fix: the last common constant was repeated when merging
 pools

---
 javatools/classdiff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 4331e5e..f4f2f11 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -930,19 +930,20 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
-    for index in range(1, min(lsize, rsize)):
+    common = max(1, min(lsize, rsize))
+
+    for index in range(1, common):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(common, lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(common, rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From 1e0b2ea7c7b4a6394a1c11a236a09f6b05da3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 32/69] fix: merge_code lost the code of lines in several
 pieces

---
 javatools/classdiff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index f4f2f11..72b48b0 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -962,6 +962,10 @@ def merge_code(left_code, right_code):
     for abs_line, rel_line, dis in code_lines:
         assert rel_line is not None
 
+        # the code of a line isn't always in one piece
+        if rel_line in data:
+            dis = tuple(data[rel_line][0][1]) + tuple(dis)
+
         data[rel_line] = [(abs_line, dis), None]
 
     code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
@@ -973,6 +977,8 @@ def merge_code(left_code, right_code):
             found = [None, (abs_line, dis)]
             data[rel_line] = found
         else:
+            if found[1] is not None:
+                dis = tuple(found[1][1]) + tuple(dis)
             found[1] = (abs_line, dis)
 
     return data
-- 
2.43.0


From 936e5e35a7044e1f33af39c357cbf813260ab4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 33/69] fix: default options of classdiff, jardiff, and
 distdiff

Which still relied on optparse.
---
 javatools/classdiff.py | 8 ++++----
 javatools/distdiff.py  | 8 ++++----
 javatools/jardiff.py   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 72b48b0..c8460cc 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1172,12 +1172,12 @@ def default_classdiff_options(updates=None):
     options object.
     """
 
+    # what to compare is required, but isn't of any interest here
     parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    options = parser.parse_args(["", ""])
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+    for key, val in (updates or {}).items():
+        setattr(options, key, val)
 
     return options
 
diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 3e7e55a..e7c6577 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -650,12 +650,12 @@ def default_distdiff_options(updates=None):
     object.
     """
 
+    # what to compare is required, but isn't of any interest here
     parser = create_optparser()
-    options = parser.parse_args(list())
+    options = parser.parse_args(["", ""])
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+    for key, val in (updates or {}).items():
+        setattr(options, key, val)
 
     return options
 
diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..99c85b9 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -609,12 +609,12 @@ def default_jardiff_options(updates=None):
     object.
     """
 
+    # what to compare is required, but isn't of any interest here
     parser = create_optparser()
-    options, _args = parser.parse_args(list())
+    options = parser.parse_args(["", ""])
 
-    if updates:
-        # pylint: disable=W0212
-        options._update_careful(updates)
+    for key, val in (updates or {}).items():
+        setattr(options, key, val)
 
     return options
 
-- 
2.43.0


From 718d923be35585ea1988615c12169869d5b18f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 34/69] fix: distdiff missed changes of files which aren't
 looked into

---
 javatools/distdiff.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index e7c6577..025896b 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,14 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+        # without any children to tell otherwise, whether this is a
+        # change depends on the contents of the file only
+        if not self.collect():
+            return self.changed, None
+        return super(DistContentChange, self).check_impl()
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From 9b632a84451f2d866fafb55a021ab6ea9497dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 35/69] fix: distdiff of text files in other encodings, or with
 other line endings

---
 javatools/distdiff.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 025896b..824c7f0 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -157,10 +157,13 @@ class DistTextChange(DistContentChange):
         # if the file matches what we would consider a text file,
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
-        # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
-                for li, ri in zip_longest(lfd, rfd, fillvalue=""):
+        # ignore the change later. The encoding isn't known, and line
+        # endings matter, so this compares bytes.
+        with self.open_left() as lfd:
+            with self.open_right() as rfd:
+                for li, ri in zip_longest(lfd.read().splitlines(),
+                                          rfd.read().splitlines(),
+                                          fillvalue=b""):
                     if li.rstrip() != ri.rstrip():
                         self.lineending = False
                         break
@@ -177,13 +180,17 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
-
+        with self.open_left() as lfd, self.open_right() as rfd:
             left = lfd.read()
             right = rfd.read()
-            if left != right:
-                yield GenericChange(left, right)
+
+        if left != right:
+            try:
+                yield GenericChange(left.decode("utf-8"),
+                                    right.decode("utf-8"))
+            except UnicodeDecodeError:
+                yield GenericChange(left.decode("latin-1"),
+                                    right.decode("latin-1"))
 
 
 class DistManifestChange(DistContentChange):
-- 
2.43.0


From f0d617c562326143936ef7c2f9ce3cc122cae1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 36/69] fix: distdiff hung when a helper process failed

---
 javatools/distdiff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 824c7f0..5f47811 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -486,6 +486,8 @@ class DistReport(DistChange):
             # get all of the results and feed them back into our change
             for _i in range(0, task_count):
                 index, change = results.get()
+                if isinstance(change, Exception):
+                    raise change
                 changes[index] = change
 
         except KeyboardInterrupt:
@@ -549,7 +551,13 @@ def _mp_run_check(tasks, results, options):
             # this is the part that takes up all of our time and
             # produces side-effects like writing out files for all of
             # the report formats.
-            change.check()
+            try:
+                change.check()
+            except Exception as exc:
+                # the parent is waiting for a result
+                results.put((index, RuntimeError(
+                    "%s: %s: %s" % (change.entry, type(exc).__name__, exc))))
+                continue
 
             # rather than serializing the completed change (which
             # could be rather large now that it's been realized), we
-- 
2.43.0


From 9212ea3f90b6f64ca118d603ec2e17d62646a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 37/69] fix: --ignore=lines, platform, and version had no
 effect

---
 javatools/classdiff.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index c8460cc..ddbd721 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1056,6 +1056,14 @@ def add_classdiff_optgroup(parser):
                    action=_opt_cb_ign_version)
 
 
+# options which stand for several others
+_ignore_groups = {
+    "ignore_lines": ("ignore_absolute_lines", "ignore_relative_lines"),
+    "ignore_platform": ("ignore_platform_up", "ignore_platform_down"),
+    "ignore_version": ("ignore_version_up", "ignore_version_down"),
+}
+
+
 class _opt_cb_ignore(Action):
     """
     handle the --ignore option, which trigges other options
@@ -1074,7 +1082,10 @@ class _opt_cb_ignore(Action):
         ign = (i for i in ign if i)
         for i in ign:
             ignore.append(i)
-            setattr(options, "ignore_" + i.replace("-", "_"), True)
+            name = "ignore_" + i.replace("-", "_")
+            setattr(options, name, True)
+            for member in _ignore_groups.get(name, tuple()):
+                setattr(options, member, True)
 
 
 class _opt_cb_ign_lines(Action):
-- 
2.43.0


From 580457997f757165f63dc66f8b0f6f6e1028edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 38/69] fix: --ignore-added had no effect

---
 javatools/classdiff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index ddbd721..9d13054 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -276,6 +276,10 @@ class MemberAdded(Addition):
     label = "Member added"
 
 
+    def is_ignored(self, o):
+        return getattr(o, "ignore_added", False)
+
+
     def get_description(self):
         return "%s: %s" % (self.label, self.rdata.pretty_descriptor())
 
-- 
2.43.0


From 19eba539b0abcbdf0afa1aee5ba462b1f7e335c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 39/69] fix: parsing of manifests with non-ASCII values

Continued lines may be broken within a character, and only CR and LF end
a line.
---
 javatools/manifest.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..49cd4a8 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -374,8 +374,6 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
@@ -695,9 +693,9 @@ def b64_encoded_digest(data, algorithm):
 
 def detect_linesep(data):
     """
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
-    return "\r\n" if "\r\n" in data else "\n"
+    return "\r\n" if b"\r\n" in data else "\n"
 
 
 def parse_sections(data):
@@ -706,31 +704,36 @@ def parse_sections(data):
 
     [ (key, [val, ...]), ... ]
 
-    where key is a string and val is a string representing a single
-    line of any value associated with the key. Multiple vals may be
-    present if the value is long enough to require line continuations
-    in which case simply concatenate the vals together to get the full
-    value.
-    :type data: unicode in Py2, str in Py3
+    where key is a string and val is a string. Simply concatenate the
+    vals together to get the full value. Lines are continued before
+    they are decoded, as they may be broken up within a character.
+    :type data: UTF-8 encoded bytes
     """
 
     if not data:
         return
 
+    # we want at least some data, thus we ignore unknown characters
+    def decoded(section):
+        return [(key.decode('utf-8', "ignore"),
+                 [b"".join(vals).decode('utf-8', "ignore")])
+                for key, vals in section]
+
     # our current section
     curr = None
 
+    # (unlike text, bytes are split at nothing but CR and LF)
     for lineno, line in enumerate(data.splitlines()):
         # Clean up the line
-        cleanline = line.replace('\x00', '')
+        cleanline = line.replace(b'\x00', b'')
 
         if not cleanline:
             # blank line means end of current section (if any)
             if curr:
-                yield curr
+                yield decoded(curr)
                 curr = None
 
-        elif cleanline[0] == ' ':
+        elif cleanline[:1] == b' ':
             # line beginning with a space means a continuation
             if curr is None:
                 raise MalformedManifest("bad line continuation, "
@@ -745,7 +748,7 @@ def parse_sections(data):
                 curr = list()
 
             try:
-                key, val = cleanline.split(':', 1)
+                key, val = cleanline.split(b':', 1)
                 curr.append((key, [val[1:]]))
             except ValueError:
                 raise MalformedManifest(
@@ -755,7 +758,7 @@ def parse_sections(data):
 
     # yield and leftovers
     if curr:
-        yield curr
+        yield decoded(curr)
 
 
 def write_key_val(stream, key, val, linesep=os.linesep):
-- 
2.43.0


From 867391f4dbce02843d1733c4d42beb01fdd633c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 40/69] fix: StopIteration when parsing an empty manifest

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 49cd4a8..3faaf81 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -379,7 +379,7 @@ class Manifest(ManifestSection):
         # the first section is the main one for the manifest. It's
         # also where we will check for our newline separator
         sections = parse_sections(data)
-        self.load(next(sections))
+        self.load(next(sections, tuple()))
 
         # and all following sections are considered sub-sections
         for section in sections:
-- 
2.43.0


From fcbd07c2968f4eee9c25131b45ad0e14aa36ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 41/69] fix: line separator of manifests with CR line endings

---
 javatools/manifest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 3faaf81..0b25edf 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -695,7 +695,10 @@ def detect_linesep(data):
     """
     :type data: bytes
     """
-    return "\r\n" if b"\r\n" in data else "\n"
+    for linesep in ("\r\n", "\n", "\r"):
+        if linesep.encode('ascii') in data:
+            return linesep
+    return "\n"
 
 
 def parse_sections(data):
-- 
2.43.0


From 933e477eeac325d76d78a2b1207c2e2a7729bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 42/69] fix: digest of the whole manifest was of sections in
 another order

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0b25edf..8ada128 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -537,9 +537,9 @@ class SignatureManifest(Manifest):
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-            accum += sub_data
 
-        self[all_key] = b64_encoded_digest(accum, digest)
+        # sections aren't stored in the order they were added in
+        self[all_key] = b64_encoded_digest(manifest.get_data(), digest)
 
 
     def verify_manifest_main_checksum(self, manifest):
-- 
2.43.0


From 475b8cd1176e4afaa52e6ffaa0ffc4754c86b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 43/69] fix: digests of manifest sections are those the
 signature file has

And not those of the files in the manifest itself, which may be of
another algorithm, or missing.
---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 8ada128..b9abaf6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -607,14 +607,14 @@ class SignatureManifest(Manifest):
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
 
-            digests = s.keys_with_suffix("-Digest")
+            digests = sf_section.keys_with_suffix("-Digest")
             if not digests and strict:
                 failures.append(s.primary())
                 continue
 
             for java_digest in digests:
                 section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
+                    s.get_data(manifest.linesep or os.linesep),
                     _get_digest(java_digest))
 
                 if section_digest == sf_section.get(java_digest + "-Digest"):
-- 
2.43.0


From 30ea188cf98c7e15adfd908bdedecf91f09d68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 44/69] fix: keys_with_suffix cut off more than the suffix

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index b9abaf6..47b127a 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -302,7 +302,7 @@ class ManifestSection(OrderedDict):
         """
         :return: list of keys ending with given :suffix:.
         """
-        return [k.rstrip(suffix) for k in self.keys() if k.endswith(suffix)]
+        return [k[:-len(suffix)] for k in self.keys() if k.endswith(suffix)]
 
 
 class Manifest(ManifestSection):
-- 
2.43.0


From 468031504fbeadf67b2a762cc6f0637c3c07630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 45/69] fix: add_jar_entries lost the attributes of existing
 sections

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 47b127a..52e98e6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -481,7 +481,7 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
+                section = self.create_section(entry, overwrite=False)
                 section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                          digest)
 
-- 
2.43.0


From 43fe87d3afde139c4186217daf6ff094b069ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 46/69] fix: --ignore-manifest-key is case-insensitive

---
 javatools/manifest.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 52e98e6..401077f 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -141,11 +141,13 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", set()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
@@ -189,11 +191,13 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
+        ikeys = set(k.lower() for k in
+                    getattr(options, "ignore_manifest_key", set()))
         if ikeys:
             lset = set(self.ldata.items())
             rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
+            changed = set(k.lower() for k, _v in
+                          lset.symmetric_difference(rset))
             return changed.issubset(ikeys)
 
         else:
-- 
2.43.0


From 90f7aadf9a39de98194b81a0d3549df0e6112f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 47/69] fix: names of manifest sections created from a
 directory

Which have to be relative to that directory.
---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 401077f..40407ec 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -865,7 +865,8 @@ def directory_generator(dirname, trim=0):
 
     for dirpath, dirnames, filenames in walk(dirname):
         for fname in filenames:
-            yield join(dirpath, fname[trim:]), file_chunk(join(dirpath, fname))
+            fullname = join(dirpath, fname)
+            yield fullname[trim:], file_chunk(fullname)
 
 
 def multi_path_generator(pathnames):
-- 
2.43.0


From e51a8c8993851858386de97ec11bf974e3339836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 48/69] fix: manifest create --recursive went through the
 letters of the path

---
 javatools/manifest.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 40407ec..958c7b0 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -962,10 +962,8 @@ def cli_create(argument_list):
     requested_digests = args.digest.split(",")
     use_digests = [_get_digest(digest) for digest in requested_digests]
 
-    if args.recursive:
-        entries = multi_path_generator(args.content)
-    else:
-        entries = single_path_generator(args.content)
+    # this processes directories recursively in any case
+    entries = single_path_generator(args.content)
 
     mf = Manifest()
 
-- 
2.43.0


From 1e10328de50c09ebc0ba51b348d238482e640d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 49/69] fix: manifest create with more than one --ignore

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 958c7b0..f943256 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -969,7 +969,8 @@ def cli_create(argument_list):
 
     ignores = ["META-INF/*"]
     if args.ignore:
-        ignores.extend(*args.ignore)
+        for patterns in args.ignore:
+            ignores.extend(patterns)
 
     for name, chunks in entries:
         # skip the stuff that we were told to ignore
-- 
2.43.0


From df663524a3bd4f39e9c621cb360eda01988452f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 50/69] fix: --ignore-jar-entry had no effect on signature
 files

---
 javatools/jardiff.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 99c85b9..fd2a9fb 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -206,7 +206,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +227,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +236,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +245,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +262,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +272,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            fnmatches(self.entry, *options.ignore_jar_entry)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From fa1fa48c32c1661e3678a88114a482d8d15e1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 51/69] fix: HTML reports left out annotations without elements

---
 javatools/cheetah/classdiff_AnnotationsChange.tmpl | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/javatools/cheetah/classdiff_AnnotationsChange.tmpl b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
index d969e17..9298127 100644
--- a/javatools/cheetah/classdiff_AnnotationsChange.tmpl
+++ b/javatools/cheetah/classdiff_AnnotationsChange.tmpl
@@ -51,19 +51,25 @@ $render_annotations($change.get_ldata())
 <th>Changed</th>
 </tr>
 </thead>
-<% index = 0 %>
+<%
+index = 0
+
+def pretty(anno):
+    # an annotation without elements is false
+    return "" if anno is None else anno.pretty_annotation()
+%>
 #for la, ra in zip_longest(left, right)
 <tr>
 <td class="const-index"><%= index %></td>
 <td class="const-value">
-<%= (la and la.pretty_annotation()) or "" %></td>
+<%= pretty(la) %></td>
 
 #if (la == ra)
 <td class="const-value is_unchanged">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= pretty(ra) %></td>
 #else
 <td class="const-value is_changed">
-<%= (ra and ra.pretty_annotation()) or "" %></td>
+<%= pretty(ra) %></td>
 #end if
 </tr>
 <% index += 1 %>
-- 
2.43.0


From ba07b8b903a64904f02faf0c96b444014aff7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 52/69] fix: manifests with an empty value could not be stored

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index f943256..e7e1006 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -781,8 +781,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From 073901b307533b5ca4fc04546f56df663ce85653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 53/69] fix: entries without digests failed when verified with
 strict=False

---
 javatools/manifest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index e7e1006..4bae07e 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -448,8 +448,9 @@ class Manifest(ManifestSection):
             file_section = self.create_section(filename, overwrite=False)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -612,8 +613,9 @@ class SignatureManifest(Manifest):
             sf_section = self.create_section(s.primary(), overwrite=False)
 
             digests = sf_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From d490bc4b67aa86b69e62590484a47ea58dc2843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 54/69] fix: verifying checksums added sections to the manifest

---
 javatools/manifest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 4bae07e..0e5e49c 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -445,7 +445,9 @@ class Manifest(ManifestSection):
             if file_skips_verification(filename):
                 continue
 
-            file_section = self.create_section(filename, overwrite=False)
+            file_section = self.sub_sections.get(filename, None)
+            if file_section is None:
+                file_section = ManifestSection(filename)
 
             digests = file_section.keys_with_suffix("-Digest")
             if not digests:
@@ -610,7 +612,9 @@ class SignatureManifest(Manifest):
         failures = []
 
         for s in manifest.sub_sections.values():
-            sf_section = self.create_section(s.primary(), overwrite=False)
+            sf_section = self.sub_sections.get(s.primary(), None)
+            if sf_section is None:
+                sf_section = ManifestSection(s.primary())
 
             digests = sf_section.keys_with_suffix("-Digest")
             if not digests:
-- 
2.43.0


From 40277788d2c597a0324bc449a98cd5a3699e1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 55/69] fix: malformed signature blocks raised other errors
 than documented

---
 javatools/crypto.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index da896b9..58d927f 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -199,8 +199,12 @@ def verify_signature_block(certificate_file, content, signature):
     """
 
     sig_bio = BIO.MemoryBuffer(signature)
-    pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
-    signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    try:
+        pkcs7 = SMIME.PKCS7(m2.pkcs7_read_bio_der(sig_bio._ptr()), 1)
+        signers_cert_stack = pkcs7.get0_signers(X509.X509_Stack())
+    except SMIME.PKCS7_Error as message:
+        raise SignatureBlockVerificationError(message)
+
     trusted_cert_store = X509.X509_Store()
     trusted_cert_store.set_verify_cb(ignore_missing_email_protection_eku_cb)
     trusted_cert_store.load_info(certificate_file)
-- 
2.43.0


From eafa9510337beb6f43625d556484557ed449ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 56/69] fix: signing again with the same alias kept the old
 signature as well

---
 javatools/jarutil.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..18fbd62 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -198,6 +198,10 @@ def sign(jar_file, cert_file, key_file, key_alias,
     sig_digest_algorithm = digest  # No point to make it different
     sig_block_extension = private_key_type(key_file)
 
+    # these are written anew
+    replaced = set("META-INF/%s.%s" % (key_alias, extension)
+                   for extension in ("SF", "RSA", "DSA", "EC"))
+
     sigdata = sf.get_signature(cert_file, key_file,
                                extra_certs, sig_digest_algorithm)
 
@@ -212,7 +216,8 @@ def sign(jar_file, cert_file, key_file, key_alias,
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
+            if not entry.upper() == "META-INF/MANIFEST.MF" \
+               and entry not in replaced:
                 new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
-- 
2.43.0


From 4287d598023cacc14aef9e9577213b913c6a3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 57/69] fix: jarutil verify was an unknown command

---
 javatools/jarutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 18fbd62..e1eca6c 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -371,7 +371,7 @@ def main(args=sys.argv):
         return cli_create_jar(rest)
     elif "sign".startswith(command):
         return cli_sign_jar(rest)
-    elif "view".startswith(command):
+    elif "verify".startswith(command) or "view".startswith(command):
         return cli_verify_jar_signature(rest)
     else:
         return usage()
-- 
2.43.0


From b441d4b96dc5fc5117aeb22f7d9544245d2b6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 58/69] fix: jarutil create --main-class had no effect

---
 javatools/jarutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index e1eca6c..b837dc5 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -225,20 +225,26 @@ def sign(jar_file, cert_file, key_file, key_alias,
         copyfile(new_jar_file.name, jar_file if output is None else output)
 
 
-def create_jar(jar_file, entries):
+def create_jar(jar_file, entries, main_class=None):
     """
     Create JAR from given entries.
     :param jar_file: filename of the created JAR
     :type jar_file: str
     :param entries: files to put into the JAR
     :type entries: list[str]
+    :param main_class: name of the class to be the application entry point
+    :type main_class: str
     :return: None
     """
 
+    mf = Manifest()
+    if main_class:
+        mf["Main-Class"] = main_class
+
     # 'jar' adds separate entries for directories, also for empty ones.
     with ZipFile(jar_file, "w") as jar:
         jar.writestr("META-INF/", "")
-        jar.writestr("META-INF/MANIFEST.MF", Manifest().get_data())
+        jar.writestr("META-INF/MANIFEST.MF", mf.get_data())
         for entry in entries:
             jar.write(entry)
             if os.path.isdir(entry):
@@ -261,7 +267,7 @@ def cli_create_jar(argument_list):
                         help="Specify application entry point")
 
     args, entries = parser.parse_known_args(argument_list)
-    create_jar(args.jar_file, entries)
+    create_jar(args.jar_file, entries, args.main_class)
     return 0
 
 
-- 
2.43.0


From fa3c00654cdf9b2d6f476ecf487b36edc0416efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 59/69] fix: key usages allowing signatures were not recognized
 in certificates

---
 javatools/crypto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index 58d927f..47a86ec 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -170,8 +170,8 @@ def ignore_missing_email_protection_eku_cb(ok, ctx):
     cert = ctx.get_current_cert()
     try:
         key_usage = cert.get_ext('keyUsage').get_value()
-        if 'digitalSignature' not in key_usage \
-                and 'nonRepudiation' not in key_usage:
+        if 'Digital Signature' not in key_usage \
+                and 'Non Repudiation' not in key_usage:
             return ok
     except LookupError:
         pass
-- 
2.43.0


From e6bc5a0777f13de9d13828f87b41f37e8e5c4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 60/69] fix: verify signatures over the manifest as its signer
 laid it out

Java's jarsigner breaks lines at other widths than we do, so what it
signed didn't verify when a line was long.
---
 javatools/jarutil.py  |  3 +-
 javatools/manifest.py | 86 +++++++++++++++++++++++++++++++++----------
 2 files changed, 69 insertions(+), 20 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index b837dc5..96bc0a9 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -154,7 +154,8 @@ def verify(certificate, jar_file, sf_name=None):
     jar_manifest = Manifest()
     jar_manifest.load_from_jar(jar_file)
 
-    errors = signature_manifest.verify_manifest(jar_manifest)
+    errors = signature_manifest.verify_manifest(
+        jar_manifest, zip_file.read("META-INF/MANIFEST.MF"))
     if len(errors) > 0:
         msg = "%s: in .SF file, section checksum(s) failed for: %s" \
               % (jar_file, ",".join(errors))
diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0e5e49c..0ec4f92 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -549,50 +549,61 @@ class SignatureManifest(Manifest):
         self[all_key] = b64_encoded_digest(manifest.get_data(), digest)
 
 
-    def verify_manifest_main_checksum(self, manifest):
+    def verify_manifest_main_checksum(self, manifest, data=None):
         """
         Verify the checksum over the manifest main section.
 
+        :param data: bytes the manifest was parsed from, if it was. Others
+            fold and order what they sign in other ways than we do
         :return: True if the signature over main section verifies
         """
 
+        signable = [manifest.get_data()]
+        if data is not None:
+            signable.append(data)
+
         # NOTE: JAR spec does not state whether there can be >1 digest used,
         # and should the validator require any or all digests to match.
         # We allow mismatching digests and require just one to be correct.
         # We see no security risk: it is the signer of the .SF file
         # who shall check, what is being signed.
         for java_digest in self.keys_with_suffix("-Digest-Manifest"):
-            whole_mf_digest = b64_encoded_digest(
-                manifest.get_data(),
-                _get_digest(java_digest))
+            whole_mf_digests = [
+                b64_encoded_digest(form, _get_digest(java_digest))
+                for form in signable]
 
             # It is enough for at least one digest to be correct
-            if whole_mf_digest == self.get(java_digest + "-Digest-Manifest"):
+            if self.get(java_digest + "-Digest-Manifest") in whole_mf_digests:
                 return True
 
         return False
 
 
-    def verify_manifest_main_attributes_checksum(self, manifest):
+    def verify_manifest_main_attributes_checksum(self, manifest, data=None):
         # JAR spec allows for the checksum of the whole manifest to mismatch.
         # There is a second chance for the verification to succeed:
         # checksum for the main section matches,
         # plus checksum for every subsection matches.
 
+        signable = [manifest.get_main_section()]
+        if data is not None:
+            signable.extend(split_sections(data)[:1])
+
         keys = self.keys_with_suffix("-Digest-Manifest-Main-Attributes")
         for java_digest in keys:
-            mf_main_attr_digest = b64_encoded_digest(
-                manifest.get_main_section(),
-                _get_digest(java_digest))
+            mf_main_attr_digests = [
+                b64_encoded_digest(form, _get_digest(java_digest))
+                for form in signable]
 
             attr = java_digest + "-Digest-Manifest-Main-Attributes"
-            if mf_main_attr_digest == self.get(attr):
+            if self.get(attr) in mf_main_attr_digests:
                 return True
         else:
             return False
 
 
-    def verify_manifest_entry_checksums(self, manifest, strict=True):
+    def verify_manifest_entry_checksums(self, manifest, strict=True,
+                                        data=None):
         """
         Verifies the checksums over the given manifest. If strict is True
         then entries which had no digests will fail verification. If
@@ -611,6 +622,14 @@ class SignatureManifest(Manifest):
 
         failures = []
 
+        # the sections as they were found, by name
+        sources = {}
+        if data is not None:
+            for section, source in zip(parse_sections(data),
+                                       split_sections(data)):
+                name = dict(section).get(ManifestSection.primary_key, ())
+                sources["".join(name)] = source
+
         for s in manifest.sub_sections.values():
             sf_section = self.sub_sections.get(s.primary(), None)
             if sf_section is None:
@@ -622,12 +641,16 @@ class SignatureManifest(Manifest):
                     failures.append(s.primary())
                 continue
 
+            signable = [s.get_data(manifest.linesep or os.linesep)]
+            if s.primary() in sources:
+                signable.append(sources[s.primary()])
+
             for java_digest in digests:
-                section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep or os.linesep),
-                    _get_digest(java_digest))
+                section_digests = [
+                    b64_encoded_digest(form, _get_digest(java_digest))
+                    for form in signable]
 
-                if section_digest == sf_section.get(java_digest + "-Digest"):
+                if sf_section.get(java_digest + "-Digest") in section_digests:
                     # found a match, verified
                     break
             else:
@@ -637,16 +660,16 @@ class SignatureManifest(Manifest):
         return failures
 
 
-    def verify_manifest(self, manifest):
-        if self.verify_manifest_main_checksum(manifest):
+    def verify_manifest(self, manifest, data=None):
+        if self.verify_manifest_main_checksum(manifest, data):
             return []
         # Main checksum does not validate, but there is a second chance.
-        if not self.verify_manifest_main_attributes_checksum(manifest):
+        if not self.verify_manifest_main_attributes_checksum(manifest, data):
             # Let's return the manifest itself - such return value can be
             # interpreted only in exactly this way
             return ["META-INF/MANIFEST.MF"]
 
-        return self.verify_manifest_entry_checksums(manifest)
+        return self.verify_manifest_entry_checksums(manifest, data=data)
 
 
     def get_signature(self, certificate, private_key, extra_certs,
@@ -774,6 +797,31 @@ def parse_sections(data):
         yield decoded(curr)
 
 
+def split_sections(data):
+    """
+    the very bytes of each section parse_sections yields of data, with
+    the blank line which ends it
+    :type data: bytes
+    :return: list of bytes
+    """
+
+    sections = []
+    curr = []
+
+    for line in data.splitlines(True):
+        blank = not line.strip(b"\r\n\x00")
+        if curr or not blank:
+            curr.append(line)
+        if curr and blank:
+            sections.append(b"".join(curr))
+            curr = []
+
+    if curr:
+        sections.append(b"".join(curr))
+
+    return sections
+
+
 def write_key_val(stream, key, val, linesep=os.linesep):
     """
     The MANIFEST specification limits the width of individual lines to
-- 
2.43.0


From 2c4b70d3816ee682ca1cbad96e471b9dfd614c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 61/69] fix: unpaired surrogates were dropped from the strings
 of classes

Strings of a class may have one half of a surrogate pair alone, as those
of several character sets of the JDK do. They were ignored, so that
different constants compared as the same.
---
 javatools/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index a15ded9..1c248e0 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -2170,7 +2170,13 @@ def _decode_utf8(val):
         # characters
         val = val.replace(b"\xC0\x80", b"\x00")
         val = _surrogate_pair.sub(_join_surrogates, val)
-        return val.decode("utf8", "ignore")
+
+        try:
+            # a string may have a surrogate without the other of its pair
+            return val.decode("utf8", "surrogatepass")
+
+        except (UnicodeError, LookupError):
+            return val.decode("utf8", "ignore")
 
 
 def _unpack_const_item(unpacker):
-- 
2.43.0


From 8f126745bbb20614c8de9eb110059cd30567e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 62/69] fix: report changes of JAR entries and manifest
 sections in a fixed order

---
 javatools/manifest.py | 7 ++++---
 javatools/ziputils.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0ec4f92..4d92489 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -213,16 +213,17 @@ class ManifestChange(SuperChange):
         lm, rm = self.ldata, self.rdata
         yield ManifestMainChange(lm, rm)
 
+        # sorted, as the order of a set differs from one run to the next
         l_sections = set(lm.sub_sections.keys())
         r_sections = set(rm.sub_sections.keys())
 
-        for s in l_sections.intersection(r_sections):
+        for s in sorted(l_sections.intersection(r_sections)):
             yield ManifestSectionChange(lm.sub_sections[s], rm.sub_sections[s])
 
-        for s in l_sections.difference(r_sections):
+        for s in sorted(l_sections.difference(r_sections)):
             yield ManifestSectionRemoved(lm.sub_sections[s], None)
 
-        for s in r_sections.difference(l_sections):
+        for s in sorted(r_sections.difference(l_sections)):
             yield ManifestSectionAdded(None, rm.sub_sections[s])
 
 
diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 08f42d8..8d03e20 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -67,7 +67,8 @@ def compare_zips(left, right):
     ll = set(left.namelist())
     rl = set(right.namelist())
 
-    for f in ll:
+    # sorted, as the order of a set differs from one run to the next
+    for f in sorted(ll):
         if f in rl:
             rl.remove(f)
 
@@ -84,7 +85,7 @@ def compare_zips(left, right):
         else:
             yield LEFT, f
 
-    for f in rl:
+    for f in sorted(rl):
         yield RIGHT, f
 
 
-- 
2.43.0


From 7641c19f178be9b9ab41bd0ef87a593035f4bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:59 +0000
Subject: [PATCH 63/69] fix: list what a class provides and requires in a fixed
 order in JSON

---
 javatools/classinfo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 1668fd6..4ac35be 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -341,9 +341,11 @@ def cli_simplify_classinfo(options, info, data=None):
         data = dict()
 
     if options.class_provides:
-        data["class_provides"] = info.get_provides(options.api_ignore)
+        data["class_provides"] = sorted(
+            info.get_provides(options.api_ignore))
     if options.class_requires:
-        data["class_requires"] = info.get_requires(options.api_ignore)
+        data["class_requires"] = sorted(
+            info.get_requires(options.api_ignore))
 
     data["name"] = info.pretty_this()
     data["extends"] = info.pretty_super()
-- 
2.43.0


From e070bcfbc7a82960dce7dabec00985e83af91ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 64/69] fix: HTML reports of unpaired surrogates could not be
 written

---
 javatools/report.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/javatools/report.py b/javatools/report.py
index 195bb8d..ae3d3d6 100644
--- a/javatools/report.py
+++ b/javatools/report.py
@@ -32,7 +32,7 @@ from Cheetah.DummyTransaction import DummyTransaction
 from functools import partial
 from json import dump, JSONEncoder
 from os.path import exists, join, relpath
-from six import add_metaclass
+from six import PY2, add_metaclass
 from six.moves import range
 
 from .dirutils import copydir, makedirsp
@@ -172,6 +172,18 @@ class Reporter(object):
         self._formats = None
 
 
+def _open_report(filename):
+    """
+    opens filename for writing. Characters its encoding has no room for
+    are escaped, eg. the unpaired surrogates the strings of a class may
+    contain
+    """
+
+    if PY2:
+        return open(filename, "wt", _BUFFERING)
+    return open(filename, "wt", _BUFFERING, errors="backslashreplace")
+
+
 @add_metaclass(ABCMeta)
 class ReportFormat(object):
     """
@@ -214,7 +226,7 @@ class ReportFormat(object):
             makedirsp(basedir)
 
             fn = join(basedir, entry + self.extension)
-            with open(fn, "wt", _BUFFERING) as out:
+            with _open_report(fn) as out:
                 self.run_impl(change, entry, out)
             return fn
 
-- 
2.43.0


From 2532897f4e447a68ffb3f8b25717625eccf7f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 65/69] fix: classinfo, jarinfo, and distinfo failed on
 characters stdout can't encode

---
 javatools/classinfo.py | 13 +++++++++++++
 javatools/distinfo.py  |  2 ++
 javatools/jarinfo.py   |  4 +++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index 4ac35be..72b2843 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -471,7 +471,20 @@ def create_optparser(progname):
     return parser
 
 
+def escape_stdout():
+    """
+    have characters stdout can't encode escaped when they are printed,
+    eg. the unpaired surrogates the strings of a class may contain
+    """
+
+    # Py2 has no such thing
+    reconfigure = getattr(sys.stdout, "reconfigure", None)
+    if reconfigure is not None:
+        reconfigure(errors="backslashreplace")
+
+
 def main(args=sys.argv):
+    escape_stdout()
     parser = create_optparser(args[0])
     return cli(parser.parse_args(args[1:]))
 
diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 4778dc6..5fd241b 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -35,6 +35,7 @@ from shutil import rmtree
 from tempfile import mkdtemp
 
 from . import unpack_classfile
+from .classinfo import escape_stdout
 from .jarinfo import JarInfo, JAR_PATTERNS, REQ_BY_CLASS, PROV_BY_CLASS
 from .dirutils import fnmatches
 from .ziputils import open_zip
@@ -284,6 +285,7 @@ def create_optparser(progname):
 
 
 def main(args=sys.argv):
+    escape_stdout()
     parser = create_optparser(args[0])
     return cli(parser.parse_args(args[1:]))
 
diff --git a/javatools/jarinfo.py b/javatools/jarinfo.py
index 5954c4a..9b97951 100644
--- a/javatools/jarinfo.py
+++ b/javatools/jarinfo.py
@@ -31,7 +31,8 @@ from argparse import ArgumentParser
 from json import dump
 
 from . import unpack_class
-from .classinfo import cli_print_classinfo, add_classinfo_optgroup
+from .classinfo import cli_print_classinfo, add_classinfo_optgroup, \
+    escape_stdout
 from .dirutils import fnmatches
 from .ziputils import open_zip_entry, zip_file, zip_entry_rollup
 from .manifest import Manifest
@@ -348,6 +349,7 @@ def create_optparser(progname):
 
 
 def main(args=sys.argv):
+    escape_stdout()
     parser = create_optparser(args[0])
     return cli(parser.parse_args(args[1:]))
 
-- 
2.43.0


From a0dc1c0a88c671b848e5b1d2d708f2ba309e11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:30 +0000
Subject: [PATCH 66/69] fix: distdiff never exited when a check failed with
 many reports under way

---
 javatools/distdiff.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5f47811..b9722e6 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -447,16 +447,9 @@ class DistReport(DistChange):
         task_count = 0
         tasks = Queue()
         results = Queue()
+        helpers = []
 
         try:
-            # as soon as we start using the tasks queue, we need to be
-            # catching the KeyboardInterrupt event so that we can
-            # drain the queue and lets its underlying thread terminate
-            # happily.
-
-            # TODO: is there a better way to handle this shutdown
-            # gracefully?
-
             # feed any sub-reports to the tasks queue
             for index in range(0, len(changes)):
                 change = changes[index]
@@ -476,6 +469,7 @@ class DistReport(DistChange):
                 tasks.put(None)
                 process = Process(target=func, args=(tasks, results, options))
                 process.daemon = False
+                helpers.append(process)
                 process.start()
 
             # while the helpers are running, perform our checks
@@ -490,10 +484,13 @@ class DistReport(DistChange):
                     raise change
                 changes[index] = change
 
-        except KeyboardInterrupt:
-            # drain the tasks queue so it will exit gracefully
-            for _change in iter(tasks.get, None):
-                pass
+        except BaseException:
+            # neither the tasks nor the results will be taken any more,
+            # and neither we nor the helpers would exit before they are
+            for process in helpers:
+                if process.pid is not None:
+                    process.terminate()
+            tasks.cancel_join_thread()
             raise
 
         # complete the check by setting our internal collection of
-- 
2.43.0


From 5c39d4ba4b067302a0f19f219ac216082c48beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:40 +0000
Subject: [PATCH 67/69] fix: distdiff waited forever for a negative number of
 helper processes

---
 javatools/distdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index b9722e6..41abe9a 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -508,7 +508,7 @@ class DistReport(DistChange):
         # if we're configured to use multiple processes, the work happens
         # in mp_check_impl instead
         forks = getattr(options, "processes", 0)
-        if forks:
+        if forks > 0:
             return self.mp_check_impl(forks)
 
         changes = list()
-- 
2.43.0


From d8e839ca38238701d343aa36ff1863220fe40fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:26 +0000
Subject: [PATCH 68/69] fix: lost files which were replaced by broken links, or
 can't be read

compare left out what filecmp can't compare: a file on one side which is a
broken link on the other, links broken on both sides which lead to other
places, and files without permission to read.
---
 javatools/dirutils.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index f9b2911..7b3fcc5 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -24,9 +24,10 @@ trees
 
 from filecmp import cmpfiles, dircmp
 from fnmatch import fnmatch
-from os import makedirs, walk
-from os.path import exists, isdir, join, relpath
+from os import makedirs, readlink, stat, walk
+from os.path import exists, isdir, islink, join, relpath
 from shutil import copy
+from stat import S_IFMT
 
 
 LEFT = "left only"
@@ -98,10 +99,10 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    # a file on one side and a directory on the other: the one was
-    # removed, and the other added
+    # a file on one side and a directory (or a broken link) on the
+    # other: the one was removed, and the other added
     mixed = [f for f in dc.common_funny
-             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
+             if _file_kind(join(dc.left, f)) != _file_kind(join(dc.right, f))]
 
     left_only = dc.left_only + mixed
     left_only.sort()
@@ -129,10 +130,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    # the same size and time do not make files the same
-    same_files, diff_files, _funny = cmpfiles(dc.left, dc.right,
-                                              dc.common_files,
-                                              shallow=False)
+    # the same size and time do not make files the same, and files
+    # which can't be read aren't known to be
+    same_files, diff_files, funny = cmpfiles(dc.left, dc.right,
+                                             dc.common_files,
+                                             shallow=False)
+    diff_files.extend(funny)
     diff_files.sort()
 
     for f in diff_files:
@@ -148,6 +151,17 @@ def _gen_from_dircmp(dc, lpath, rpath):
             yield event
 
 
+def _file_kind(pathname):
+    """
+    what tells apart things which aren't files or directories on both
+    sides: broken links by where they lead, others by their type
+    """
+
+    if islink(pathname) and not exists(pathname):
+        return readlink(pathname)
+    return S_IFMT(stat(pathname).st_mode)
+
+
 def collect_compare(left, right):
     """
     returns a tuple of four lists describing the file paths that have
-- 
2.43.0


From 5a633b5d988c38a6c246dfffcd62e3a77b92dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 69/69] fix: wide instructions of classes read from a buffer
 could not be disassembled

---
 javatools/opcodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index e477718..4a3b9f4 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -95,6 +95,7 @@ _OPINDEX_CONST = 5
 
 # commonly re-occurring struct formats
 # pylint: disable=C0103
+_struct_B = compile_struct(">B")
 _struct_i = compile_struct(">i")
 _struct_ii = compile_struct(">ii")
 _struct_iii = compile_struct(">iii")
@@ -211,7 +212,7 @@ def _unpack_wide(bc, offset):
     unpacker for wide ops
     """
 
-    code = ord(bc[offset:offset + 1])
+    (code,), _offset = _unpack(_struct_B, bc, offset)
 
     if code == OP_iinc:
         return _unpack(_struct_BHh, bc, offset)
-- 
2.43.0

