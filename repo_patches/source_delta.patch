From d561787926918dddde3de9c5a15d56cdd47af582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 01/57] fix: unpack 8-byte floats with the 'd' format

The unpacker table used the integer format 'q', which the float argument
check rejects, so no 8-byte float_field could ever be unpacked.
---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..d5d123f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 9f34f5e4f5c8f7bec822c84c35a883b747918a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 02/57] fix: SumSizeArray reading from streams without tell()

The fallback that sizes an element when the stream cannot tell its position
(e.g. inside a struct selector) referred to an undefined name.
---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1a44447 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -59,7 +59,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From eb4c5e91d918437ef49ac93af5fcb157cbb3b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 03/57] fix: VarSizeString's default padding is bytes

A str padding cannot strip a bytes value on Python 3, so a VarSizeString
declared without an explicit padding could be neither written nor read.
---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 3317ae239427bbe326464d190372f0cf6b30bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 04/57] fix: PaddedString honours its padding direction and its
 size

Writing always padded on the right, so a left-padded value came back with its
padding; a value longer than the field spilled past its size, and a short
FixedSizeBuffer failed with IndexError. Use the _pad helper, which was there
for this but unused (and broken on Python 3).
---
 src/infi/instruct/string.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..a9e41fa 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,6 +1,5 @@
 from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
 from .errors import InstructError, InvalidValueError
-from ._compat import pad
 
 PADDING_DIRECTION_NONE  = 0
 PADDING_DIRECTION_RIGHT = 1
@@ -25,9 +24,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + padding[0:1] * pad_len
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return (padding[0:1] * pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +68,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 3dc9410d7f3c4765c52dc5fe8869698b16915688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 05/57] fix: reject a negative length read from the stream

A negative length made a string swallow the whole rest of the stream
(stream.read(-1)) and an array silently come back empty.
---
 src/infi/instruct/array.py  | 3 +++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1a44447..c255b12 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InvalidValueError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -23,6 +24,8 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
+        if size < 0:
+            raise InvalidValueError("array size cannot be negative but got %d" % (size,))
         obj = []
         for i in range(size):
             obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a9e41fa..0c57942 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -41,6 +41,8 @@ class VarSizeStringMarshal(Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         buffer_len = self.size_marshal.create_from_stream(stream, context)
+        if buffer_len < 0:
+            raise InvalidValueError("string length cannot be negative but got %d" % (buffer_len,))
         obj = stream.read(buffer_len)
         if len(obj) < buffer_len:
             raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
-- 
2.43.0


From 87901b275a46e81a4393b7b982ef5d4aba1d08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 06/57] fix: VarSizeString.sizeof sizes the length that is
 written

The size marshal was asked for the size of the string instead of the size of
its length, which is wrong for a size marshal whose size depends on the value.
---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 0c57942..68b3479 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -57,7 +57,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        stripped_len = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(stripped_len) + stripped_len
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From e43c55c24ad12289a5fb5f11181c3fd20ad40a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 07/57] fix: StructSelector uses the mapping it is given

The constructor looped over its own empty mapping, so every key fell through
to the default (or failed), and it reported the sum of all candidates' sizes
although exactly one of them is read.
---
 src/infi/instruct/struct/selector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..cf3ec76 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,14 +12,16 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not issubclass(struct, Struct):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        min_maxes = [struct.min_max_sizeof() for struct in structs] or [ZERO_MIN_MAX]
+        self.min_max_size = MinMax(min(min_max.min for min_max in min_maxes),
+                                   max(min_max.max for min_max in min_maxes))
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From 242f7f5dcf3cc27fb1eb715ed390eb7d2c032d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 08/57] fix: error for leftover read-ahead bytes in
 SelectStructByFunc

Formatting the error passed the context as the object, so it failed with an
unrelated AttributeError instead of the intended InstructError.
---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index cf3ec76..f08d75a 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -76,7 +76,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (type(result).to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 12607bbd99ead401eee6737ee01b4809f558460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 09/57] fix: ConstField accepts the Struct value it wrote

Structs compare by identity, so a constant field holding a Struct (as in the
ConstField docstring) never matched the value just deserialized and every
read failed.
---
 src/infi/instruct/struct/const.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..f690bed 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,11 +17,17 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
 
+    def _is_const_value(self, value):
+        if isinstance(self.value, Struct) and type(value) == type(self.value):
+            # Structs have no equality of their own, so two structs are the same if they serialize to the same bytes.
+            return value.to_bytes() == self.value.to_bytes()
+        return value == self.value
+
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s (const)" % super(ConstField, self).to_repr(obj, context)
 
@@ -35,6 +41,6 @@ class ConstField(Field):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From 976246579480160a6f3422c9bf9bcf2f51c2e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 10/57] fix: numeric marshals take the extra arguments of
 create_from_stream

Struct.create_from_stream passes its extra arguments on to every field; a
numeric field failed with TypeError as soon as there was one.
---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..f0c1e11 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From dee23d2f5c88795779a2fe718d22c6d7989c3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 11/57] fix: Struct.sizeof uses the fields of the object's
 class

Struct.sizeof(obj), documented in getting_started, failed with AttributeError,
and Base.sizeof(derived_obj) sized the wrong list of fields.
---
 src/infi/instruct/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..b47cf47 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,7 +186,7 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
-        return cls._container_.sizeof(obj)
+        return type(obj)._container_.sizeof(obj)
 
     @classmethod
     def write_to_string(cls, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From f14e55c201d86a29db4030f975e7355dbc6d1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 12/57] fix: a nested struct's context refers to the nested
 struct

The enclosing struct overrode 'struct' in the context, so ReadPointer and
StructFunc in a nested struct looked their fields up in the outermost one, and
classes with a _context_ had no 'struct' at all.
---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index b47cf47..e28e930 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -220,8 +220,10 @@ class Struct(object):
         if hasattr(cls, '_context_'):
             new_context = WritableContext(cls._context_.copy())
         else:
-            new_context = WritableContext(dict(struct=obj))
+            new_context = WritableContext()
         new_context.update(context.get_dict())
+        # The enclosing struct's context also has a 'struct', but here it's this object's fields that are processed.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From b71d06e155901f8e524ff99b870015367a4aa9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 13/57] fix: BytePadding reports truncated input

Every other field raises when the stream ends early; padding at the end of a
struct was silently taken as read.
---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f128eed 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        actually_read = len(stream.read(self.size))
+        if actually_read < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=actually_read)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From 5b0f52bbc8144cbf106fd929a93c2fd78807c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 14/57] fix: FixedSizeArray refuses to write the wrong number
 of elements

It wrote however many elements it was given, producing bytes that it cannot
read back and that shift every field after it.
---
 src/infi/instruct/array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index c255b12..9d27119 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -44,6 +44,11 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("expected %d elements in a fixed-size array but got %d" % (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 7f4c95d4ce78e3fdc1678ec9bdefda6ae9381531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 15/57] fix: size bounds of arrays and strings sized by another
 field

A size that takes no bytes of its own (ReadPointer) was taken to be always 0,
so min_max_sizeof() of such arrays and strings was (0, 0), and an unbounded size
marshal overflowed the shift.
---
 src/infi/instruct/array.py  | 4 ++--
 src/infi/instruct/base.py   | 9 +++++++++
 src/infi/instruct/string.py | 4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 9d27119..2cf200b 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,5 @@
 from ._compat import range
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, approx_max_value_by_size
 from .errors import InvalidValueError
 
 class ArrayBase(object):
@@ -8,7 +8,7 @@ class ArrayBase(object):
 
     def _approx_max_elements_by_size_bits(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-        return (1 << (size_min_max.max * 8)) - 1
+        return approx_max_value_by_size(size_min_max)
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..1aa95f3 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -89,6 +89,15 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
 UNBOUNDED_MIN_MAX = MinMax(0, sys.maxsize)
 ZERO_MIN_MAX = MinMax(0, 0)
 
+def approx_max_value_by_size(min_max):
+    """
+    Returns an upper bound on the numbers that can be read by a marshal with the given MinMax size. If the marshal doesn't
+    read anything from the stream (e.g. ReadPointer) its value comes from somewhere else, so we can't tell.
+    """
+    if min_max.max == 0 or min_max.is_unbounded():
+        return sys.maxsize
+    return (1 << (min_max.max * 8)) - 1
+
 class MarshalBase(object):
     def sizeof(self, obj):
         raise NotImplementedError()
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 68b3479..7d2760e 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, approx_max_value_by_size
 from .errors import InstructError, InvalidValueError
 
 PADDING_DIRECTION_NONE  = 0
@@ -62,7 +62,7 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-        return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
+        return MinMax(size_min_max.min, size_min_max.max + approx_max_value_by_size(size_min_max))
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
     def __init__(self, size, padding=b'\x00', padding_direction=PADDING_DIRECTION_RIGHT):
-- 
2.43.0


From ca570ed8dc68bcd38276e4dbc89ea741d6c2446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 16/57] fix: struct instances don't share mutable default
 values

A default was copied one level deep, and not at all if it was a Struct, so
changing the nested default of one instance changed it in all others.
---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index e28e930..21e16a3 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,3 +1,4 @@
+import copy
 from array import array
 from .._compat import StringIO, PY2
 from six import add_metaclass
@@ -6,7 +7,7 @@ from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
 def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
+    return copy.deepcopy(obj)
 
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
-- 
2.43.0


From d7582b31acbe07cf21479cb550c9060cbdd01e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 17/57] fix: buffer instances don't share mutable default
 values

The default of a field was assigned as is, so appending to a defaulted list
of one instance changed it in all others.
---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..0ebcd40 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,3 +1,4 @@
+import copy
 import math
 import itertools
 from six import add_metaclass
@@ -97,7 +98,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), copy.deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 51c85174190fca7be669bf223999cb33d96d540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 18/57] fix: repr of a struct whose fields are not all set

It failed with TypeError for numeric and array fields; getting_started
documents that such fields show as <not set>.
---
 src/infi/instruct/struct/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 21e16a3..aad2fff 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -68,6 +68,8 @@ class Field(FieldBase):
             setattr(obj, self.name, copy_if_supported(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
+        if self.get_value(obj) is None:
+            return "%s=<not set>" % (self.name,)
         return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
 
     def get_value(self, obj):
-- 
2.43.0


From ad1d1e7abe29d545ceceb1ade495e27e326427d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 19/57] fix: lazy fields have default values

A lazy field that was not passed to the constructor failed with KeyError when
accessed or written, even if it was declared with a default.
---
 src/infi/instruct/struct/lazy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..050d1e6 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,11 +1,11 @@
 from .._compat import StringIO
 
-from . import FieldBase, Field, FieldListContainer
+from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
@@ -15,6 +15,8 @@ class LazyField(Field):
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
+        elif self.name not in obj.__dict__:
+            obj.__dict__[self.name] = copy_if_supported(self.default)
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
-- 
2.43.0


From c17897348ad5499edf26267d514728fbce7e3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 20/57] fix: lazy fields are written with the caller's context

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 050d1e6..8b1f66e 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -61,7 +61,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From 86caef4a46e075d43e04cc26c0b734b1f72dce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 21/57] fix: lazy fields report truncated input when read

The struct was returned as if it had been read, and failed only when (and if)
one of its lazy fields was accessed.
---
 src/infi/instruct/struct/lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 8b1f66e..7888b0f 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -2,6 +2,7 @@ from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -65,6 +66,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
-- 
2.43.0


From 8de3d0bb17b2c247a5c1b3423126af6e89fed8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 22/57] fix: a lazy field that cannot be read keeps failing

The stored bytes were dropped before they were read, so after a first failure
(e.g. a wrong constant) the lazy fields looked unset instead.
---
 src/infi/instruct/struct/lazy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 7888b0f..c935025 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -83,5 +83,9 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
         delattr(obj, self.lazy_key)
 
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        try:
+            super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
+                                                            **params['kwargs'])
+        except:
+            setattr(obj, self.lazy_key, params)
+            raise
-- 
2.43.0


From 89b9bccd5e28c7fbc48ef38dc8f8e390df467696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 23/57] fix: fields of a BitFields inside Lazy are lazy as well

Only direct fields triggered the deserialization, so bit fields read as None
until another lazy field happened to be accessed.
---
 src/infi/instruct/struct/lazy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index c935025..70ebcae 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,3 +1,5 @@
+import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
@@ -50,16 +52,22 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._to_lazy(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _to_lazy(self, field):
+        if isinstance(field, Field):
+            return LazyField(self, field)
+        elif isinstance(field, FieldListContainer):
+            # Fields inside a container (e.g. BitFields) are accessed by name as well, so they must be lazy too.
+            field = copy.copy(field)
+            field.fields = [self._to_lazy(inner_field) for inner_field in field.fields]
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream, context)
-- 
2.43.0


From 1cf33048fe06a3eaad3e4b3664cc4fdc2cb64cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 24/57] fix: constant fields inside Lazy can be accessed

The lazy descriptor looked for the value in the instance, where a constant
never is, so accessing a lazy ConstField failed with KeyError.
---
 src/infi/instruct/struct/lazy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 70ebcae..3eb3cbf 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -11,12 +11,16 @@ class LazyField(Field):
         super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
+        # A field that is a descriptor by itself (e.g. ConstField) controls how its value is accessed.
+        self.field_is_descriptor = hasattr(type(field), '__get__')
 
     def prepare_class(self, cls):
         setattr(cls, self.field.name, self)
 
     def prepare_instance(self, obj, args, kwargs):
-        if self.name in kwargs:
+        if self.field_is_descriptor:
+            self.field.prepare_instance(obj, args, kwargs)
+        elif self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
         elif self.name not in obj.__dict__:
             obj.__dict__[self.name] = copy_if_supported(self.default)
@@ -29,10 +33,15 @@ class LazyField(Field):
 
     def __set__(self, instance, value):
         self.container.instantiate_if_needed(instance)
-        instance.__dict__[self.name] = value
+        if self.field_is_descriptor:
+            self.field.__set__(instance, value)
+        else:
+            instance.__dict__[self.name] = value
 
     def __get__(self, instance, owner):
         self.container.instantiate_if_needed(instance)
+        if self.field_is_descriptor:
+            return self.field.__get__(instance, owner)
         return instance.__dict__[self.name]
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From f680c73f544c934d272b8b1bbdf2293b16cdf1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 25/57] fix: a buffer's size and repr cover its inherited
 fields

byte_size and calc_byte_size() looked only at the fields the class itself
declares: a subclass without fields of its own had a byte_size of 0 (so unpack()
returned 0 and a list of them never ended), one with a dynamic base class could
not be packed, and repr() left the inherited fields out. A field overridden by
a subclass was still packed by its base's definition.
---
 src/infi/instruct/buffer/buffer.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 0ebcd40..e57387f 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -63,10 +63,22 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
+                else cls.calc_byte_size(name, cls.all_fields(new_cls)))
         return new_cls
 
+    @classmethod
+    def all_fields(cls, buffer_cls):
+        """Returns the fields of a class and its base classes. A field hides the ones it overrides in base classes."""
+        fields = []
+        names = set()
+        for mro_cls in buffer_cls.mro():
+            cls_fields = [field for field in vars(mro_cls).get('__fields__', []) if field.attr_name() not in names]
+            names.update(field.attr_name() for field in cls_fields)
+            fields.extend(cls_fields)
+        return fields
+
     @classmethod
     def calc_byte_size(cls, class_name, fields):
         ctx = PackContext(None, fields)
@@ -151,20 +163,16 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-        fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
-            fields.extend(cls_fields)
-        return fields
+        return BufferType.all_fields(type(self))
 
     def _all_field_names(self):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From 9dcbb9a2f1fef20874d5d6d899d880c4f66322cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 26/57] fix: set_after_unpack sets the field

The function's result was computed but never assigned, leaving the field None
after unpack(), and a reference failed with UnboundLocalError.
---
 src/infi/instruct/buffer/field_reference_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..79128c6 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -223,15 +223,15 @@ class FieldReferenceBuilder(object):
                                                          self.field.attr_name_ref)
 
     def set_field_unpack_value_ref(self):
-        field_unpack_ref = FieldUnpackerReference(self.field.unpack_ref)
+        unpack_value_ref = FieldUnpackerReference(self.field.unpack_ref)
         if self.set_after_unpack is not None:
             if not isinstance(self.set_after_unpack, Reference):
-                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
-        else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, unpack_value_ref)
+            else:
+                unpack_value_ref = self.set_after_unpack
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From 18be1ff0421b3c1f5989812d6681d7c97008430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 27/57] fix: unpacking a nested buffer consumes whole bytes

pack() pads a buffer to whole bytes, but unpacking one whose size is a fraction
consumed just that fraction, so in a list every other element was read from the
middle of a byte, and so was whatever followed the buffer.
---
 src/infi/instruct/buffer/macros.py    | 7 +++----
 src/infi/instruct/buffer/serialize.py | 8 ++++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..711f8ad 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -10,7 +10,8 @@ from .field_reference_builder import FieldReferenceBuilder
 from .buffer import BufferType
 
 from .serialize import (pack_int, unpack_int, pack_float, unpack_float, pack_str, unpack_str, pack_bytearray,
-                        unpack_bytearray, pack_buffer, unpack_buffer, pack_list, unpack_list, pack_json, unpack_json)
+                        unpack_bytearray, pack_buffer, unpack_buffer, unpack_buffer_object, pack_list, unpack_list, pack_json,
+                        unpack_json)
 
 __all__ = [
     'int8', 'n_int8', 'b_int8', 'l_int8', 'uint8', 'n_uint8', 'b_uint8', 'l_uint8',
@@ -239,9 +240,7 @@ def unpack_selector_decorator(selector):
     def my_selector(obj, buffer, *args, **kwargs):
         o = selector(obj, buffer, *args, **kwargs)
         if isinstance(o, BufferType):
-            result = o()
-            byte_size = result.unpack(buffer)
-            return result, byte_size
+            return unpack_buffer_object(o(), buffer)
         elif isinstance(o, (list, tuple)):
             assert len(o) == 2, "selector returned a list but not a (obj, byte_size)-kind of list"
             return o
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d5d123f..03b19a6 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -252,9 +252,13 @@ def pack_buffer(value, **kwargs):
 
 
 def unpack_buffer(buffer, **kwargs):
-    obj = kwargs['type']()
+    return unpack_buffer_object(kwargs['type'](), buffer)
+
+
+def unpack_buffer_object(obj, buffer):
     byte_size = obj.unpack(buffer)
-    return obj, byte_size
+    # A packed buffer always takes whole bytes, even if its last field ends in the middle of one.
+    return obj, min(int(math.ceil(byte_size)), max(byte_size, buffer.length()))
 
 
 def unpack_selector_decorator(selector):
-- 
2.43.0


From c0d3f24f0ffd4026bd891c7a0561b7acbbdbb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 28/57] fix: bit offsets in a list of byte ranges

A bit slice that continues from one byte range to the next skipped bits of the
latter, one that starts at a range boundary was looked for in the wrong range,
and a bit right after the last one was accepted as if it were inside.
---
 src/infi/instruct/buffer/range.py           |  2 +-
 src/infi/instruct/buffer/reference/range.py | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..94b7af9 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,7 +182,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
         return None
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..9debfd9 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -118,10 +118,11 @@ class BitNumericRangeReference(BitRangeReference):
         byte_offset = float(self.ref.deref(ctx)) / 8
         assert byte_offset >= 0
 
-        i, sum_length = range_list.find_relative_container_index(byte_offset)
-        if i is None:
+        container_index = range_list.find_relative_container_index(byte_offset)
+        if container_index is None:
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(self.ref.deref(ctx),
                                                                                               range_list))
+        i, sum_length = container_index
         return SequentialRangeList([SequentialRange(byte_offset - sum_length + range_list[i].start,
                                                     byte_offset - sum_length + range_list[i].start + BIT)])
 
@@ -146,10 +147,14 @@ class BitSliceRangeReference(BitRangeReference):
 
         bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
+        container_index = range_list.find_relative_container_index(bit_range.start)
+        if container_index is None:
+            if bit_range.start == bit_range.stop == range_list.byte_length():
+                # An empty range right after the last bit.
+                return SequentialRangeList([SequentialRange(range_list[-1].stop, range_list[-1].stop)])
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
                 int(bit_range.start * 8), range_list))
+        i, sum_length = container_index
 
         if bit_range.is_open():
             subrange_start = range_list[i].start + bit_range.start - sum_length
@@ -157,9 +162,12 @@ class BitSliceRangeReference(BitRangeReference):
 
         bit_range_remaining_len = bit_range.byte_length()
         result = []
+        # Only the first range may start in its middle, the range continues from the beginning of the following ones.
+        subrange_ofs = bit_range.start - sum_length
         for i in range(i, len(range_list)):
             r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
+            subrange_start = r.start + subrange_ofs
+            subrange_ofs = 0
             if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
-- 
2.43.0


From 53c95a8e69ad7a8b415d7baabb615136d7b03a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 29/57] fix: bit slices without a start or a stop

bytes_ref[n].bits[4:] and bytes_ref[n].bits[:4] failed with TypeError although
the slice's open ends are handled further on.
---
 src/infi/instruct/buffer/reference/range.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 9debfd9..2921e34 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -145,7 +145,9 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start) / 8 if start is not None else 0,
+                                    float(stop) / 8 if stop is not None else range_list.byte_length())
 
         container_index = range_list.find_relative_container_index(bit_range.start)
         if container_index is None:
-- 
2.43.0


From d21c2dbfbf9e62cde1e9f3d537952f3df4f0e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 30/57] fix: unpacking an int of an unusual width from a buffer
 that is too short

Ints of 1, 2, 4 and 8 bytes reject such a buffer; the others (3 bytes, bits) made
up a value from the part that was there.
---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 03b19a6..4ea01cc 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -90,6 +90,8 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
+    if buffer.length() < byte_size:
+        raise ValueError("int byte_size is {0} but got buffer with length {1}".format(byte_size, buffer.length()))
     l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
     for b in l:
         result *= 256
-- 
2.43.0


From 31663141c0126d7874c8c3d63dab3a3f96f6bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 31/57] fix: reject negative ints in bit ranges

bit_length() ignores the sign, so a negative int in a bit field or in a field of
an unusual width passed the range check and was packed as an unrelated positive
number.
---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..da99ec7 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -258,6 +258,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign a negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From a33d7d6a660c0d0638f87f471c2035039be937f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 32/57] fix: big endian ints of 3, 5, 6, 7, ... bytes

The endian of an int field was honoured only for 1, 2, 4 and 8 bytes, so a 3-byte
be_uint_field was packed and unpacked in little endian.
---
 src/infi/instruct/buffer/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 4ea01cc..5295554 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -56,9 +56,16 @@ def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bytes(byte_size, **kwargs):
+        result.buffer.reverse()
     return result
 
 
+def is_big_endian_bytes(byte_size, endian='native', **kwargs):
+    # There's a byte order only between whole bytes: the first bit of a bit field is always its least significant.
+    return int(byte_size) == byte_size and (byteorder if endian == 'native' else endian) == 'big'
+
+
 def format_from_struct_int_arguments(format_char, kwargs):
     args = copy_defaults_and_override_with_kwargs(dict(sign='signed', endian='native'), kwargs)
     assert_enum_argument('format_char', format_char, ('b', 'h', 'l', 'q'))
@@ -92,7 +99,7 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
     if buffer.length() < byte_size:
         raise ValueError("int byte_size is {0} but got buffer with length {1}".format(byte_size, buffer.length()))
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bytes(byte_size, **kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From 9349aec3c3218b600258dcb1eaa4b1db6ff21db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 33/57] fix: total size of a buffer with fields that are not
 packed

A field whose pack_if is false was counted in total_size and calc_byte_size()
although pack() leaves it out.
---
 src/infi/instruct/buffer/reference/total_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..83c1b01 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,7 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From a27b8ffa99d9f2e953d14cdfab0dfb48968ee13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 34/57] fix: unpacked size of a field with descending ranges

The size was the offset in the last listed range, which is not where such a
field ends.
---
 src/infi/instruct/buffer/reference/total_size.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 83c1b01..f911c87 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -31,7 +31,8 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            # Since we want the "highest" byte, we need to sort the ranges.
+            result = field.unpack_absolute_position_ref.deref(ctx).sorted().byte_offset(size)
             return result
         else:
             return 0
-- 
2.43.0


From 46ac9c268d04966d241bf57a40e34419bc6decb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 35/57] fix: str_type_factory's default padding and strip are
 bytes

They are applied to the encoded value, so with the str defaults a list of
fixed-size strings failed with TypeError on Python 3.
---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 711f8ad..bad4cdd 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -68,7 +68,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5295554..5c0e42a 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -185,7 +185,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
-- 
2.43.0


From 184913b059f7f20fbca4889c0926f07eaa754ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 36/57] fix: buffer_field with a byte_size can be unpacked

Giving a byte_size dropped the type of the buffer to unpack.
---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index bad4cdd..40c5943 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -275,7 +275,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From 11d4a5c6275a8d65b68e83906d405dc96756bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 37/57] fix: overlap detection in the presence of empty ranges

An empty range inside another one was reported as an overlap, and one sorted
between two ranges that do overlap hid their overlap.
---
 src/infi/instruct/buffer/range.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 94b7af9..08bc632 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -89,7 +89,7 @@ class SequentialRange(SequentialRangeMixin):
         """
         a, b = (self, other) if self.start <= other.start else (other, self)
         a_imag_stop = a.to_closed(sys.maxsize).stop
-        return a_imag_stop > b.start
+        return min(a_imag_stop, b.to_closed(sys.maxsize).stop) > b.start
 
     def contains(self, point):
         """
@@ -138,7 +138,8 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        # An empty range doesn't overlap with anything, but it would get in between the ranges that do.
+        sorted_list = sorted(r for r in self if r.start != r.stop)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From b45a11f82209ef9b0da99592c3566bac9e7b387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 38/57] fix: reading a buffer with a fractional size through
 the struct adapter

stream.read() was asked for a fraction of a byte and failed with TypeError.
---
 src/infi/instruct/buffer/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..d8224af 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,3 +1,5 @@
+import math
+
 from .._compat import PY2
 
 class StructTypeAdapter(object):
@@ -18,7 +20,7 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            packed_data = stream.read(int(math.ceil(self.buffer_type.byte_size)))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 662ba406c4cb674c62663ea438003108dd296880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 39/57] fix: lists of fixed-size strings are unpacked in full

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5c0e42a..e71343c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -225,7 +225,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, len(buffer) if byte_size is None else byte_size
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 434fafc4c0018845ecc0f52f983f1ee681aa60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 40/57] fix: a bytearray field holds none of the bits after its
 range

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index da99ec7..dab1327 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return self.buffer[int(self.start):int(self.stop)]
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From a5ee61fd699ef4d6e9f3e0ecf54e476fb40db582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 41/57] fix: whole sizes and offsets calculated from bits are
 integers

---
 src/infi/instruct/buffer/range.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 08bc632..2207329 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -5,6 +5,11 @@ from .._compat import range
 BIT = 0.125
 
 
+def whole_or_fraction(n):
+    # Sizes and offsets that were calculated from bits are floats, but whole ones are as good as any other integer.
+    return int(n) if isinstance(n, float) and n.is_integer() else n
+
+
 class SequentialRangeMixin(object):
     """Common interface between SquentialRange and SequentialRangeList"""
 
@@ -34,8 +39,8 @@ class SequentialRange(SequentialRangeMixin):
         :param stop: range stop (can be None for open range). If not None, must be >= start.
         :type stop: int, float or None
         """
-        self.start = start if start is not None else 0
-        self.stop = stop
+        self.start = whole_or_fraction(start) if start is not None else 0
+        self.stop = whole_or_fraction(stop)
 
         assert self.start >= 0, "start={0!r}".format(self.start)
         if self.stop is not None:
@@ -66,7 +71,7 @@ class SequentialRange(SequentialRangeMixin):
         """
         if self.is_open():
             return None
-        return self.stop - self.start
+        return whole_or_fraction(self.stop - self.start)
 
     def max_stop(self):
         """
@@ -131,7 +136,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
             if r.is_open():
                 return None
             sum += r.byte_length()
-        return sum
+        return whole_or_fraction(sum)
 
     def has_overlaps(self):
         """
@@ -175,7 +180,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         remaining_bytes = bytes
         for r in self:
             if r.is_open() or r.byte_length() >= remaining_bytes:
-                return r.start + remaining_bytes
+                return whole_or_fraction(r.start + remaining_bytes)
             else:
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
-- 
2.43.0


From cde884dc53ceda04bb8356c5578dfad452fe5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 42/57] fix: inserting and removing bits leaves the other bits
 alone

---
 src/infi/instruct/buffer/io_buffer.py | 58 ++++++++-------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index dab1327..0867743 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -189,51 +189,27 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def _del_range(self, start, stop):
         assert stop >= start
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can remove whole bytes from the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            del self.buffer[start_byte:stop_byte]
-            self.stop -= whole_byte_delta
-            stop -= whole_byte_delta
-
-        # Here we have at most 8 bits to remove, so we need to "shift" the entire array.
-        if stop > start:
-            ofs = start
-            bit_len_frac = stop - start
-            while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
-                ofs += 1
-            self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+        self._move_tail(stop, start)
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        self._move_tail(start, stop)
+        self._copy_to_range(start, bytearray(int(math.ceil(stop - start))), stop - start)
+
+    def _move_tail(self, ofs, new_ofs):
+        """
+        Moves the bits from ofs until the end to new_ofs, and the end along with them.
+        """
+        tail = list(self._get_range(ofs, self.stop))
+        tail_len = self.stop - ofs
+        stop_byte, new_stop_byte = int(math.ceil(self.stop)), int(math.ceil(new_ofs + tail_len))
+        if new_stop_byte > stop_byte:
+            self.buffer[stop_byte:stop_byte] = bytearray(new_stop_byte - stop_byte)
+        else:
+            del self.buffer[new_stop_byte:stop_byte]
+        self.stop = new_ofs + tail_len
+        self._copy_to_range(new_ofs, tail, tail_len)
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From f519ae95f6ed973125b6bfe1f6549ee57c58df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 43/57] fix: a small int overwrites all of the bit range it's
 assigned to

---
 src/infi/instruct/buffer/io_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 0867743..f3bf343 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -248,6 +248,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 value //= 256
             value = l
             value_len = max(float(bit_length) / 8, int_value_len)
+            l.extend([0] * (int(math.ceil(value_len)) - len(l)))
         else:
             raise TypeError("value must be iterable or int")
         return value, value_len
-- 
2.43.0


From c453092946d8e4ee8495d947ea448b770db4878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 44/57] fix: a list of unknown length with an element of no
 size doesn't hang

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index e71343c..bde453c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -309,6 +309,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if n is None and item_len == 0:
+            raise ValueError("list has no end: element {0} has no size".format(index))
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From 3bd55aec4be13364ad577b854ad9084120f04b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 45/57] fix: reject input that lacks a few bits of a field in
 several ranges

---
 src/infi/instruct/buffer/serialize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index bde453c..8115e1c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -109,7 +109,8 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -161,7 +162,8 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
@@ -213,8 +215,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     if byte_size is not None:
-- 
2.43.0


From 237a5c3bfec20dbfef0d52f0452f223a5c5632c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 46/57] fix: an error in a field's pack_if names the field

---
 src/infi/instruct/buffer/buffer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index e57387f..f509695 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -118,12 +118,11 @@ class Buffer(object):
         ctx = PackContext(self, fields)
 
         for field in fields:
-            if field.pack_if.deref(ctx):
-                try:
+            try:
+                if field.pack_if.deref(ctx):
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except:
-                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
-                                                               field.attr_name()))
+            except:
+                raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self), field.attr_name()))
 
         result = bytearray(ctx.output_buffer.get())
 
-- 
2.43.0


From 793484c487b54f8d74fb395b6d271d55cf70cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 47/57] fix: buffers don't share a mutable set_before_pack
 value

---
 src/infi/instruct/buffer/field_reference_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 79128c6..0969234 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 
 from infi.instruct.utils.safe_repr import safe_repr
@@ -213,7 +214,8 @@ class FieldReferenceBuilder(object):
                 if callable(self.set_before_pack):
                     pack_value_ref = FuncCallReference(self.numeric, self.set_before_pack, self.get_obj_from_ctx_ref)
                 else:
-                    pack_value_ref = ObjectReference(self.numeric, self.set_before_pack)
+                    # Every object gets its own copy, so changing its value doesn't change the value of other objects.
+                    pack_value_ref = FuncCallReference(self.numeric, copy.deepcopy, self.set_before_pack)
             else:
                 pack_value_ref = self.set_before_pack
             self.field.pack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
-- 
2.43.0


From df6b59fca3d5b6928434c7fe99de8024808e7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 48/57] fix: a byte index of a bit view stays within the view

---
 src/infi/instruct/buffer/io_buffer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index f3bf343..d06845b 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -36,7 +36,7 @@ class BitView(abc.Sequence):
         if isinstance(key, slice):
             return self._get_range(start, stop)
         else:  # must be int/float otherwise _key_to_range would raise an error
-            return self._get_byte_bits(start, min(8, int((self.stop - start) * 8)))
+            return self._get_byte_bits(start, int((stop - start) * 8))
 
     def __len__(self):
         return int(math.ceil(self.stop - self.start))
@@ -90,6 +90,7 @@ class BitView(abc.Sequence):
             cur_byte = self.buffer[byte_ofs]
             next_byte = self.buffer[byte_ofs + 1] if byte_ofs + 1 < len(self.buffer) else 0
             return (((cur_byte >> bit_ofs) & 0xFF) | ((next_byte << (8 - bit_ofs)) & 0xFF)) & bit_mask
+
     def _key_to_range(self, key):
         if isinstance(key, slice):
             if key.step not in (None, 1):
@@ -98,8 +99,10 @@ class BitView(abc.Sequence):
             stop = self._translate_offset(key.stop if key.stop is not None else self.length())
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
+            if not -len(self) <= key < self.length():
+                raise IndexError("index {0!r} is out of range".format(key))
             start = self._translate_offset(key)
-            stop = start + 1
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From f7526a947b7878c40ba97d80dc65cc0b5816548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 49/57] fix: a sum-sized array counts the bytes it reads, and
 zero-sized elements end

---
 src/infi/instruct/array.py                 |  9 ++++++---
 src/infi/instruct/utils/counting_stream.py | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)
 create mode 100644 src/infi/instruct/utils/counting_stream.py

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 2cf200b..ad0cc84 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,6 +1,7 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, approx_max_value_by_size
 from .errors import InvalidValueError
+from .utils.counting_stream import CountingStream
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -62,12 +63,14 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        has_tell = hasattr(stream, 'tell')
+        stream = CountingStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            start = stream.count
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            element_size = stream.count - start
+            if element_size == 0:
+                raise InvalidValueError("array elements take no space but %d bytes are left" % (total_bytes,))
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
diff --git a/src/infi/instruct/utils/counting_stream.py b/src/infi/instruct/utils/counting_stream.py
new file mode 100644
index 0000000..310cc73
--- /dev/null
+++ b/src/infi/instruct/utils/counting_stream.py
@@ -0,0 +1,14 @@
+class CountingStream(object):
+    """Passes reads on to a stream and counts the bytes that they return, for streams that cannot tell their position."""
+
+    def __init__(self, stream):
+        self.stream = stream
+        self.count = 0
+
+    def read(self, *args):
+        res = self.stream.read(*args)
+        self.count += len(res)
+        return res
+
+    def __getattr__(self, name):
+        return getattr(self.stream, name)
-- 
2.43.0


From 4c241dfa1eface45934361408229ab87748fc7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 50/57] fix: keyword-only arguments of a struct's __init__ that
 name fields were dropped

---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index aad2fff..3ba4e7a 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -158,7 +158,8 @@ class StructType(type):
                 # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
                 # and logical_block_address is also a field in the struct, so in this scenario instruct will
                 # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
+                code = user_init.__code__
+                for arg in code.co_varnames[0:code.co_argcount + getattr(code, "co_kwonlyargcount", 0)]:
                     if arg in orig_kwargs:
                         kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
-- 
2.43.0


From 5021d5a88b938eb81cc6e516f1ff0cdb0e81592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 51/57] fix: an inherited __init__ of a struct didn't get the
 arguments that name fields

---
 src/infi/instruct/struct/__init__.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 3ba4e7a..f473076 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -141,9 +141,19 @@ class StructType(type):
 
         fields.prepare_class(new_cls)
 
+        if user_init is not None:
+            setattr(new_cls, "_user_init_", user_init)
         setattr(new_cls, "__init__", cls._create_struct_class_init(new_cls, user_init))
         return new_cls
 
+    def _get_user_init(cls):
+        # The closest __init__ that isn't ours, if any: may be defined by a base class.
+        for base in cls.__mro__:
+            init = base.__dict__.get("_user_init_" if isinstance(base, StructType) else "__init__")
+            if init is not None:
+                return init
+        return None
+
     @classmethod
     def _create_struct_class_init(cls, new_cls, user_init):
         def __instance_init__(self, *args, **kwargs):
@@ -151,17 +161,18 @@ class StructType(type):
             if type(self) == new_cls:
                 # Only do our magic if we're the bottom-most class.
                 new_cls._container_.prepare_instance(self, args, kwargs)
-            if user_init is None:
-                super(new_cls, self).__init__(*args, **kwargs)
-            else:
                 # Add arguments back if the user code wants them.
                 # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
                 # and logical_block_address is also a field in the struct, so in this scenario instruct will
                 # "eat" the arg and we need to put it back.
-                code = user_init.__code__
-                for arg in code.co_varnames[0:code.co_argcount + getattr(code, "co_kwonlyargcount", 0)]:
-                    if arg in orig_kwargs:
-                        kwargs[arg] = orig_kwargs[arg]
+                code = getattr(new_cls._get_user_init(), "__code__", None)
+                if code is not None:
+                    for arg in code.co_varnames[0:code.co_argcount + getattr(code, "co_kwonlyargcount", 0)]:
+                        if arg in orig_kwargs:
+                            kwargs[arg] = orig_kwargs[arg]
+            if user_init is None:
+                super(new_cls, self).__init__(*args, **kwargs)
+            else:
                 user_init(self, *args, **kwargs)
         return __instance_init__
 
-- 
2.43.0


From 5cd664fc10c87b9dcb84e6a28c6a21880027a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 52/57] fix: name the field when input ends in a field whose
 value is taken from elsewhere

---
 src/infi/instruct/buffer/buffer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index f509695..c76f1ce 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -150,6 +150,9 @@ class Buffer(object):
                     for prev_field in field.unpack_after:
                         prev_field.unpack_value_ref.deref(ctx)
                     field.unpack_value_ref.deref(ctx)
+                    if type(self).byte_size is None:
+                        # The field's size is needed, even if set_after_unpack takes its value from elsewhere.
+                        field.unpack_ref.deref(ctx)
                 else:
                     setattr(self, field.attr_name(), None)
             except:
-- 
2.43.0


From c7d0a47455288b300b1eca600795b3bbfd446872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 53/57] fix: a field whose open range is left empty ends where
 the range starts

---
 src/infi/instruct/buffer/range.py                 | 8 ++++++++
 src/infi/instruct/buffer/reference/after_field.py | 2 +-
 src/infi/instruct/buffer/reference/total_size.py  | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 2207329..8fd13d0 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -162,6 +162,14 @@ class SequentialRangeList(list, SequentialRangeMixin):
             m = max(m, r.stop)
         return m
 
+    def open_start(self):
+        """
+        A field in an open range is packed up to the start of that range, even if nothing is left for the range itself.
+        :returns: start of the open range or 0 if there isn't any
+        :rtype: int or float
+        """
+        return max([0] + [r.start for r in self if r.is_open()])
+
     def sorted(self):
         """
         :returns: a new sorted SequentialRangeList
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..4836407 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -21,7 +21,7 @@ class AfterFieldReference(Reference):
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
                 # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                offset = max(position_list.sorted().byte_offset(byte_size), position_list.open_start())
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index f911c87..e9ae3d3 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -33,7 +33,7 @@ class TotalSizeReference(Reference):
             _, size = field.unpack_ref.deref(ctx)
             # Since we want the "highest" byte, we need to sort the ranges.
             result = field.unpack_absolute_position_ref.deref(ctx).sorted().byte_offset(size)
-            return result
+            return max(result, field.unpack_absolute_position_ref.unpack_position_ref.deref(ctx).open_start())
         else:
             return 0
 
-- 
2.43.0


From 73f8c3c26bb316a889fbeed59d1e4c684c36a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 54/57] fix: representation of references is bounded, so errors
 in dense expressions don't take forever

---
 src/infi/instruct/buffer/reference/reference.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..bfca147 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -1,5 +1,6 @@
 from numbers import Number
 import operator
+import threading
 
 from infi.instruct.utils.safe_repr import safe_repr
 from infi.instruct.errors import InstructError
@@ -18,6 +19,11 @@ OPERATOR_TO_SYMBOL = {
 }
 
 
+# An expression may use the same sub-expressions over and over again, so its full representation may be endless.
+MAX_REPR_DEPTH = 8
+_repr_state = threading.local()
+
+
 def _repr_peel_obj_ref_for_str(ref):
     # Used to print attr names or other strings that shouldn't have the all ref('...') wrapping:
     if isinstance(ref, ObjectReference) and isinstance(ref.obj, str):
@@ -107,10 +113,16 @@ class Reference(object):
                                   format(type(self)))
 
     def __repr__(self):
+        depth = getattr(_repr_state, 'depth', 0)
+        if depth >= MAX_REPR_DEPTH:
+            return "..."
         try:
+            _repr_state.depth = depth + 1
             return self.__safe_repr__()
         except:
             return "({0}<{1}> repr error)".format(type(self), id(self))
+        finally:
+            _repr_state.depth = depth
 
     @classmethod
     def to_ref(cls, ref):
-- 
2.43.0


From d045c432af8553c4d57079e59fc24addd30c6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 55/57] fix: unpack_after does not read a field whose condition
 does not hold

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index c76f1ce..d4e2705 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -148,7 +148,8 @@ class Buffer(object):
                 if field.unpack_if.deref(ctx):
                     # TODO: get rid of unpack_after once we use dependencies as we should.
                     for prev_field in field.unpack_after:
-                        prev_field.unpack_value_ref.deref(ctx)
+                        if prev_field.unpack_if.deref(ctx):
+                            prev_field.unpack_value_ref.deref(ctx)
                     field.unpack_value_ref.deref(ctx)
                     if type(self).byte_size is None:
                         # The field's size is needed, even if set_after_unpack takes its value from elsewhere.
-- 
2.43.0


From b1d5c82535a64dd2846b8a09a6e45f76ba20f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 56/57] fix: classes called Struct or Buffer like their base
 class were not set up

---
 src/infi/instruct/buffer/buffer.py   | 2 +-
 src/infi/instruct/struct/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index d4e2705..da81828 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -50,7 +50,7 @@ class BufferType(type):
     """
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Buffer":
+        if name == "Buffer" and not any(isinstance(base, BufferType) for base in bases):
             return super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index f473076..1647b0e 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -114,7 +114,7 @@ class FieldListContainer(FieldMarshal):
 class StructType(type):
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Struct":
+        if name == "Struct" and not any(isinstance(base, StructType) for base in bases):
             return super(StructType, cls).__new__(cls, name, bases, attrs)
 
         # We want to first put our own __init__ method that will initialize all the fields passed by kwargs and then
-- 
2.43.0


From 2e77521df1786d68a212e479d203002bbc99ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 57/57] fix: unpack_after only held for the field itself, not
 for its condition or when others refer to it

---
 src/infi/instruct/buffer/buffer.py            |  4 --
 .../buffer/field_reference_builder.py         | 42 ++++++++++++++++---
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index da81828..b20fd08 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -146,10 +146,6 @@ class Buffer(object):
         for field in fields:
             try:
                 if field.unpack_if.deref(ctx):
-                    # TODO: get rid of unpack_after once we use dependencies as we should.
-                    for prev_field in field.unpack_after:
-                        if prev_field.unpack_if.deref(ctx):
-                            prev_field.unpack_value_ref.deref(ctx)
                     field.unpack_value_ref.deref(ctx)
                     if type(self).byte_size is None:
                         # The field's size is needed, even if set_after_unpack takes its value from elsewhere.
diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 0969234..b6e9d0c 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -88,6 +88,28 @@ class UnpackerReference(FuncCallReference):
         return ", ".join(["buffer", "position"] + [safe_repr(arg) for arg in self.arg_refs[2:]])
 
 
+class UnpackAfterReference(Reference):
+    """Resolves to another reference, but only after the given fields were unpacked (or found to be absent)."""
+    def __init__(self, numeric, fields, ref):
+        super(UnpackAfterReference, self).__init__(numeric)
+        self.fields = fields
+        self.ref = ref
+
+    def evaluate(self, ctx):
+        for field in self.fields:
+            if field.unpack_if.deref(ctx):
+                field.unpack_value_ref.deref(ctx)
+            else:
+                setattr(ctx.obj, field.attr_name(), None)
+        return self.ref.deref(ctx)
+
+    def _func_repr(self):
+        return self.ref._func_repr()
+
+    def __safe_repr__(self):
+        return safe_repr(self.ref)
+
+
 class FieldUnpackerReference(Reference):
     def __init__(self, unpacker_ref):
         super(FieldUnpackerReference, self).__init__(unpacker_ref.is_numeric())
@@ -146,6 +168,7 @@ class FieldReferenceBuilder(object):
 
         self.resolve_static_where()
         self.create_field()
+        self.set_field_unpack_after()
         self.set_field_position()
         self.set_field_pack_value_ref()
 
@@ -187,7 +210,8 @@ class FieldReferenceBuilder(object):
             unpack_position_ref = self.where_when_unpack
 
         self.field.pack_absolute_position_ref = PackAbsolutePositionReference(self.field, pack_position_ref)
-        self.field.unpack_absolute_position_ref = UnpackAbsolutePositionReference(self.field, unpack_position_ref)
+        self.field.unpack_absolute_position_ref = UnpackAbsolutePositionReference(
+            self.field, self.unpacked_after(unpack_position_ref))
 
     def set_packer(self, packer, **kwargs):
         pack_kwargs = dict(byte_size=PackSequentialRangeListByteLengthReference(self.field.pack_absolute_position_ref),
@@ -200,12 +224,13 @@ class FieldReferenceBuilder(object):
                              unpack_size=self.unpack_size)
         unpack_kwargs.update(kwargs)
 
-        self.field.unpack_ref = UnpackerReference(self.numeric, unpacker, self.field.unpack_absolute_position_ref,
-                                                  **unpack_kwargs)
+        unpack_ref = UnpackerReference(self.numeric, unpacker, self.field.unpack_absolute_position_ref, **unpack_kwargs)
+        if self.unpack_after:
+            unpack_ref = UnpackAfterReference(self.numeric, self.unpack_after, unpack_ref)
+        self.field.unpack_ref = unpack_ref
 
     def create(self):
         self.set_field_unpack_value_ref()
-        self.set_field_unpack_after()
         return self.field
 
     def set_field_pack_value_ref(self):
@@ -230,7 +255,7 @@ class FieldReferenceBuilder(object):
             if not isinstance(self.set_after_unpack, Reference):
                 unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, unpack_value_ref)
             else:
-                unpack_value_ref = self.set_after_unpack
+                unpack_value_ref = self.unpacked_after(self.set_after_unpack)
 
         self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
                                                           self.field.attr_name_ref, unpack_value_ref)
@@ -245,3 +270,10 @@ class FieldReferenceBuilder(object):
             assert isinstance(unpack_after_field, FieldReference)
 
         self.field.unpack_after = self.unpack_after
+        self.field.unpack_if = self.unpacked_after(self.field.unpack_if)
+
+    def unpacked_after(self, ref):
+        # The other fields matter to functions that get the object. What is static doesn't call any, and stays static.
+        if not self.unpack_after or ref.is_static():
+            return ref
+        return UnpackAfterReference(False, self.unpack_after, ref)
-- 
2.43.0

