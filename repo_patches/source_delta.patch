From 30889b0f39ad0dfeadafd25fb59c7da657330567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 01/75] fix: unpack 8-byte float fields with the double format

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..d5d123f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 5179abce0dce32d3bb93d40167b94534250924e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 02/75] fix: VarSizeString default padding must be bytes

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 7d9667f04c21e34ec283c11189caa4906aacf9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 03/75] fix: PaddedString writes exactly its size, on its
 padding side, and refuses longer content

---
 src/infi/instruct/string.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..a9e41fa 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,6 +1,5 @@
 from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
 from .errors import InstructError, InvalidValueError
-from ._compat import pad
 
 PADDING_DIRECTION_NONE  = 0
 PADDING_DIRECTION_RIGHT = 1
@@ -25,9 +24,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + padding[0:1] * pad_len
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return (padding[0:1] * pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +68,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From a4408c9bd4668515e6e52110d0d8d297cd593fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 04/75] fix: FixedSizeArray refuses a list of a different
 length

---
 src/infi/instruct/array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..ef86fa1 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InvalidValueError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -41,6 +42,12 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("fixed-size array is expected to have %d elements but instead got %d" %
+                                    (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 48807ecd0582598f8e70e2a86dae27d74011f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 05/75] fix: SumSizeArray reads from streams that cannot tell
 their position

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ef86fa1..c658837 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -66,7 +66,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 942da1446cbb8e7e4af5025fe99467fa2712aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 06/75] fix: arrays and strings sized by a pointer to another
 field are unbounded, not empty

---
 src/infi/instruct/array.py  | 5 +++++
 src/infi/instruct/string.py | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index c658837..93966cc 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,3 +1,5 @@
+import sys
+
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
 from .errors import InvalidValueError
@@ -8,6 +10,9 @@ class ArrayBase(object):
 
     def _approx_max_elements_by_size_bits(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            # The number of elements isn't taken from the stream (e.g. ReadPointer), so it cannot be bounded.
+            return sys.maxsize
         return (1 << (size_min_max.max * 8)) - 1
 
     def min_max_sizeof(self):
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a9e41fa..251f25c 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, UNBOUNDED_MIN_MAX
 from .errors import InstructError, InvalidValueError
 
 PADDING_DIRECTION_NONE  = 0
@@ -59,6 +59,9 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            # The length isn't taken from the stream (e.g. ReadPointer), so it cannot be bounded.
+            return UNBOUNDED_MIN_MAX
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From 50057eda6dd766f88f7d9a8ab239b6e526626faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 07/75] fix: StructSelector uses its mapping and bounds its
 size by the mapped structs

---
 src/infi/instruct/struct/selector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..f86a72f 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,14 +12,16 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not (isinstance(struct, type) and issubclass(struct, Struct)):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        min_max_sizes = [struct.min_max_sizeof() for struct in structs]
+        self.min_max_size = MinMax(min(size.min for size in min_max_sizes), max(size.max for size in min_max_sizes)) \
+            if min_max_sizes else ZERO_MIN_MAX
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
@@ -36,7 +38,7 @@ class StructSelectorMarshal(Marshal):
             if self.default is not None:
                 marshal = self.default
             else:
-                raise InstructError("key %s is not mapped an no default" % (self.key_marshal.to_repr(key, context),))
+                raise InstructError("key %s is not mapped and no default" % (self.key_marshal.to_repr(key, context),))
 
         result = marshal.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
-- 
2.43.0


From 577dc2172e989ce06725641f3140fa80d100dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 08/75] fix: lazy fields honour their defaults

---
 src/infi/instruct/struct/lazy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..050d1e6 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,11 +1,11 @@
 from .._compat import StringIO
 
-from . import FieldBase, Field, FieldListContainer
+from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
@@ -15,6 +15,8 @@ class LazyField(Field):
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
+        elif self.name not in obj.__dict__:
+            obj.__dict__[self.name] = copy_if_supported(self.default)
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
-- 
2.43.0


From 8f452d3b542f2cefda464f4da0f67bbd1e03b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 09/75] fix: lazy containers pass the context on when writing

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 050d1e6..8b1f66e 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -61,7 +61,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From ac4d36a300fffe3224bf48c40088d3ff50a99919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 10/75] fix: lazy containers refuse truncated input when
 reading, not at some later access

---
 src/infi/instruct/struct/lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 8b1f66e..7888b0f 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -2,6 +2,7 @@ from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -65,6 +66,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
-- 
2.43.0


From 503c8d63e55cf051d84d26534350e4b2ad94106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 11/75] fix: bit groups and constants inside lazy containers

---
 src/infi/instruct/struct/lazy.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 7888b0f..88eb50c 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,8 +1,11 @@
+from copy import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 from ..errors import NotEnoughDataError
+from .const import ConstField
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -50,16 +53,25 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._make_lazy(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _make_lazy(self, field):
+        if isinstance(field, ConstField):
+            # Constants don't depend on the data, they only need to be verified once it's read.
+            return field
+        if isinstance(field, Field):
+            return LazyField(self, field)
+        if isinstance(field, FieldListContainer):
+            # Fields of nested containers (e.g. bit fields) are attributes of the object too.
+            field = copy(field)
+            field.fields = [self._make_lazy(nested_field) for nested_field in field.fields]
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream, context)
-- 
2.43.0


From b4026545a297ec3c56d17725b1e486dfccd585e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 12/75] fix: constant struct fields compare by content

---
 src/infi/instruct/struct/const.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..e0d4d00 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,11 +17,17 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
 
+    def _is_const_value(self, value):
+        if isinstance(self.value, Struct):
+            # Structs have no value equality, compare what they serialize to.
+            return type(value) == type(self.value) and value.to_bytes() == self.value.to_bytes()
+        return value == self.value
+
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s (const)" % super(ConstField, self).to_repr(obj, context)
 
@@ -35,6 +41,6 @@ class ConstField(Field):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From c1782fe8cb8819c5890f18a60a24e0aa594e235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 13/75] fix: byte padding refuses truncated input

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From 136c1eb8263b437ae36a600ab5e9de6f8004a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 14/75] fix: Bits accepts single bit positions

---
 src/infi/instruct/struct_macros.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct_macros.py b/src/infi/instruct/struct_macros.py
index 31a155f..54cce33 100644
--- a/src/infi/instruct/struct_macros.py
+++ b/src/infi/instruct/struct_macros.py
@@ -61,10 +61,8 @@ def BytePadding(size, char=b'\x00'):
 
 class BitSlicer(object):
     def __getitem__(self, key):
-        if isinstance(key, (tuple, list)):
-            return list(key)
-        elif isinstance(key, slice):
-            return [key]
+        keys = key if isinstance(key, (tuple, list)) else [key]
+        return [k if isinstance(k, slice) else slice(k, k + 1) for k in keys]
 
 Bits = BitSlicer()
 
-- 
2.43.0


From 9bac62a24cffdf3247298cbfa6d04082b224912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 15/75] fix: refuse negative integers in bit ranges instead of
 storing another number

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..8f2ac83 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -258,6 +258,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("cannot assign negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From b16d08f56fe2de3fa185ceb398be7e649b38aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 16/75] fix: honour the byte order of integer fields of 3, 5, 6
 and 7 bytes

---
 src/infi/instruct/buffer/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d5d123f..1866ea0 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,18 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bytes(byte_size, kwargs):
+    # Byte order applies only to whole bytes, other sizes are always least significant bit first.
+    endian = kwargs.get("endian", "native")
+    return int(byte_size) == byte_size and (endian == "big" or (endian in ("native", "unspecified") and byteorder == "big"))
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bytes(byte_size, kwargs):
+        result = bytearray(reversed(result))
     return result
 
 
@@ -90,7 +98,7 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bytes(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From 5c17f5c267b7cfde12905ed2fb96c00b0bb1861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 17/75] fix: refuse truncated input for bit and odd-sized
 integer fields

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 1866ea0..c8b8fc2 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -97,6 +97,8 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    buffer_len = buffer.length()
+    assert buffer_len >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer_len)
     result = 0
     l = buffer[0:byte_size] if is_big_endian_bytes(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
-- 
2.43.0


From 19ffb8a8c8f8d5e5af61fc62242b433acf0c7b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 18/75] fix: sizes of buffers take inherited fields into
 account

---
 src/infi/instruct/buffer/buffer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..c3141e8 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,7 +62,11 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
+        # The size depends on the inherited fields as well.
+        inherited_fields = [field for base in new_cls.mro()[1:] for field in base.__dict__.get('__fields__', [])]
+
+        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
+                else cls.calc_byte_size(name, fields + inherited_fields))
         setattr(new_cls, '__fields__', fields)
         return new_cls
 
@@ -150,7 +154,7 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-- 
2.43.0


From 06609ebd1825fdee231359a4dc400614bc842561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 19/75] fix: the computed pack size doesn't count fields that
 are not packed

---
 src/infi/instruct/buffer/reference/total_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..83c1b01 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,7 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From b67129375334c1ad9af921f12fb720eaae489b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 20/75] fix: set_after_unpack sets the field's value

---
 src/infi/instruct/buffer/field_reference_builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..9d4453e 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -225,13 +225,15 @@ class FieldReferenceBuilder(object):
     def set_field_unpack_value_ref(self):
         field_unpack_ref = FieldUnpackerReference(self.field.unpack_ref)
         if self.set_after_unpack is not None:
-            if not isinstance(self.set_after_unpack, Reference):
+            if isinstance(self.set_after_unpack, Reference):
+                unpack_value_ref = self.set_after_unpack
+            else:
                 unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
         else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            unpack_value_ref = field_unpack_ref
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From c08b810455719ff195a8c4ce6c627188309591b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 21/75] fix: text elements of lists use bytes padding and
 consume exactly their size

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..04660dc 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index c8b8fc2..fac594b 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -186,7 +186,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', strip=b'\x00', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
@@ -226,7 +226,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, len(buffer) if byte_size is None else byte_size
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 3cb9a6e036abdb95f6c18c619a36cb7a492dc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 22/75] fix: buffer_field with a byte size keeps its type

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 04660dc..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From b13a5dc99bf3b50f4b40832e6fb4c3de00fb0f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 23/75] fix: instances of a buffer don't share mutable default
 values

---
 src/infi/instruct/buffer/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index c3141e8..7ddf398 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,5 +1,6 @@
 import math
 import itertools
+from copy import copy
 from six import add_metaclass
 import six
 
@@ -101,7 +102,8 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                # Every instance gets its own copy, so changing it doesn't change the default of other instances.
+                setattr(self, field.attr_name(), copy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 109d44a7e29378728b146bd0abacf6c887932da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 24/75] fix: bit slices accept open ends and references

---
 src/infi/instruct/buffer/reference/range.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..61aa6af 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -132,9 +132,12 @@ class BitNumericRangeReference(BitRangeReference):
 class BitSliceRangeReference(BitRangeReference):
     def __init__(self, parent_range_ref, slic):
         assert slic.step in (1, None)
-        assert slic.start is None or slic.start >= 0
-        assert slic.stop is None or slic.stop >= 0
-        assert (slic.start is None or slic.stop is None) or (slic.start <= slic.stop)
+        assert slic.start is None or Reference.is_numeric_ref(slic.start) or slic.start >= 0
+        assert slic.stop is None or Reference.is_numeric_ref(slic.stop) or slic.stop >= 0
+        assert ((slic.start is None or slic.stop is None)
+                or Reference.is_numeric_ref(slic.start)
+                or Reference.is_numeric_ref(slic.stop)
+                or (slic.start <= slic.stop))
 
         super(BitSliceRangeReference, self).__init__(parent_range_ref)
         self.start = Reference.to_ref(slic.start)
@@ -144,7 +147,9 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start) / 8 if start is not None else 0,
+                                    float(stop) / 8 if stop is not None else None)
 
         i, sum_length = range_list.find_relative_container_index(bit_range.start)
         if i is None:
-- 
2.43.0


From 365a5baba6f1cda87a91e944cd90e4b69b929c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 25/75] fix: bit positions in the second and later parts of a
 multi-part range

---
 src/infi/instruct/buffer/range.py           |  2 +-
 src/infi/instruct/buffer/reference/range.py | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..94b7af9 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,7 +182,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
         return None
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 61aa6af..9401932 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -118,10 +118,11 @@ class BitNumericRangeReference(BitRangeReference):
         byte_offset = float(self.ref.deref(ctx)) / 8
         assert byte_offset >= 0
 
-        i, sum_length = range_list.find_relative_container_index(byte_offset)
-        if i is None:
+        container_index = range_list.find_relative_container_index(byte_offset)
+        if container_index is None:
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(self.ref.deref(ctx),
                                                                                               range_list))
+        i, sum_length = container_index
         return SequentialRangeList([SequentialRange(byte_offset - sum_length + range_list[i].start,
                                                     byte_offset - sum_length + range_list[i].start + BIT)])
 
@@ -151,10 +152,11 @@ class BitSliceRangeReference(BitRangeReference):
         bit_range = SequentialRange(float(start) / 8 if start is not None else 0,
                                     float(stop) / 8 if stop is not None else None)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
+        container_index = range_list.find_relative_container_index(bit_range.start)
+        if container_index is None:
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
                 int(bit_range.start * 8), range_list))
+        i, sum_length = container_index
 
         if bit_range.is_open():
             subrange_start = range_list[i].start + bit_range.start - sum_length
@@ -162,9 +164,11 @@ class BitSliceRangeReference(BitRangeReference):
 
         bit_range_remaining_len = bit_range.byte_length()
         result = []
+        offset_in_range = bit_range.start - sum_length
         for i in range(i, len(range_list)):
             r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
+            subrange_start = r.start + offset_in_range
+            offset_in_range = 0  # only the first range is entered at an offset
             if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
-- 
2.43.0


From 2b8c688e341f2d5c6a96dbc21ef420e6b404b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 26/75] fix: BitView.to_bytearray leaves out the bits after a
 fractional stop

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 8f2ac83..1f114f7 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,7 +62,7 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
+        if int(self.start) == self.start and int(self.stop) == self.stop:
             return self.buffer[int(self.start):int(math.ceil(self.stop))]
         else:
             return bytearray(list(self))  # very inefficient.
-- 
2.43.0


From 62c39cc1386cc9527c3dce8a1f08ad94549fccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 27/75] fix: empty ranges don't overlap any range

---
 src/infi/instruct/buffer/range.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 94b7af9..c9c4c25 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -87,9 +87,8 @@ class SequentialRange(SequentialRangeMixin):
         :returns: True if there's an overlap (non-empty intersection) between two ranges
         :rtype: bool
         """
-        a, b = (self, other) if self.start <= other.start else (other, self)
-        a_imag_stop = a.to_closed(sys.maxsize).stop
-        return a_imag_stop > b.start
+        stop = min(self.to_closed(sys.maxsize).stop, other.to_closed(sys.maxsize).stop)
+        return stop > max(self.start, other.start)
 
     def contains(self, point):
         """
-- 
2.43.0


From 65f52aa2625aa040af648b7cfe25ea897cc2967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 28/75] fix: unpacking a list of empty items without a count
 ends with an error instead of looping forever

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index fac594b..35c0e57 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -306,6 +306,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if item_len <= 0 and n is None:
+            raise ValueError("list item {0} has no size, so the number of items cannot be determined".format(index))
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From e2d38aac9d6e26a8fc8e9f73cbf01516be8197d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 29/75] fix: find overlapping ranges even if there are empty
 ranges between them

---
 src/infi/instruct/buffer/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index c9c4c25..acacb4c 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -137,7 +137,8 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        # Empty ranges never overlap, but they may separate ranges that do.
+        sorted_list = sorted((r for r in self if r.start != r.stop), key=lambda r: r.start)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From ad37c9c7e0823ff387edf474c2ecd5c8e4d7dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 30/75] fix: refuse input that cuts off part of a byte of a
 field made of several bit ranges

---
 src/infi/instruct/buffer/serialize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 35c0e57..d07ee4a 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -110,7 +110,8 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    buffer_len = buffer.length()
+    assert buffer_len >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer_len)
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -162,7 +163,8 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    buffer_len = buffer.length()
+    assert buffer_len >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer_len)
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
@@ -214,8 +216,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     if byte_size is not None:
-- 
2.43.0


From 54ad2d03b040ff4540116c3fa41e99cf7777ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 31/75] fix: pack text fields placed on bit ranges that make
 whole bytes

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d07ee4a..32afa25 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -23,7 +23,8 @@ def kwargs_int_byte_size(kwargs):
     byte_size = kwargs.get("byte_size", None)
     assert byte_size is None or ((byte_size >= 0) and (int(byte_size) == byte_size)), \
         "size can be unknown (None) or a non-negative integer but instead got {0}".format(byte_size)
-    return byte_size
+    # Sizes of bit ranges are floats even if they are whole bytes.
+    return int(byte_size) if byte_size is not None else None
 
 
 def assert_enum_argument(name, value, enum):
-- 
2.43.0


From 2a414697ba744e25a20afebb4b9274b3f05d5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 32/75] fix: unpack the unpack_after fields before the
 condition is evaluated, and whenever a field is unpacked

---
 src/infi/instruct/buffer/buffer.py             |  5 ++---
 .../instruct/buffer/field_reference_builder.py | 14 ++++++++++----
 src/infi/instruct/buffer/reference/field.py    | 18 ++++++++++++++++++
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7ddf398..aede535 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -139,10 +139,9 @@ class Buffer(object):
 
         for field in fields:
             try:
+                # TODO: get rid of unpack_after once we use dependencies as we should.
+                field.unpack_prev_fields_ref.deref(ctx)
                 if field.unpack_if.deref(ctx):
-                    # TODO: get rid of unpack_after once we use dependencies as we should.
-                    for prev_field in field.unpack_after:
-                        prev_field.unpack_value_ref.deref(ctx)
                     field.unpack_value_ref.deref(ctx)
                 else:
                     setattr(self, field.attr_name(), None)
diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 9d4453e..cb47273 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -79,9 +79,15 @@ class InputBufferPartReference(Reference):
 
 
 class UnpackerReference(FuncCallReference):
-    def __init__(self, numeric, unpacker, absolute_position_ref, *args, **kwargs):
-        super(UnpackerReference, self).__init__(numeric, unpacker, InputBufferPartReference(absolute_position_ref),
-                                                *args, **kwargs)
+    def __init__(self, field, unpacker, absolute_position_ref, *args, **kwargs):
+        super(UnpackerReference, self).__init__(field.is_numeric(), unpacker,
+                                                InputBufferPartReference(absolute_position_ref), *args, **kwargs)
+        self.field = field
+
+    def evaluate(self, ctx):
+        # Another field that refers to this field may be the first to unpack it.
+        self.field.unpack_prev_fields_ref.deref(ctx)
+        return super(UnpackerReference, self).evaluate(ctx)
 
     def _args_repr(self):
         return ", ".join(["buffer", "position"] + [safe_repr(arg) for arg in self.arg_refs[2:]])
@@ -199,7 +205,7 @@ class FieldReferenceBuilder(object):
                              unpack_size=self.unpack_size)
         unpack_kwargs.update(kwargs)
 
-        self.field.unpack_ref = UnpackerReference(self.numeric, unpacker, self.field.unpack_absolute_position_ref,
+        self.field.unpack_ref = UnpackerReference(self.field, unpacker, self.field.unpack_absolute_position_ref,
                                                   **unpack_kwargs)
 
     def create(self):
diff --git a/src/infi/instruct/buffer/reference/field.py b/src/infi/instruct/buffer/reference/field.py
index 22d4110..627f22f 100644
--- a/src/infi/instruct/buffer/reference/field.py
+++ b/src/infi/instruct/buffer/reference/field.py
@@ -1,6 +1,23 @@
 from .reference import Reference, ObjectReference
 
 
+class UnpackPrevFieldsReference(Reference):
+    """Unpacks the fields that the user asked to unpack before this field."""
+
+    def __init__(self, field):
+        super(UnpackPrevFieldsReference, self).__init__(False)
+        self.field = field
+
+    def evaluate(self, ctx):
+        for prev_field in self.field.unpack_after:
+            prev_field.unpack_prev_fields_ref.deref(ctx)
+            if prev_field.unpack_if.deref(ctx):
+                prev_field.unpack_value_ref.deref(ctx)
+
+    def __safe_repr__(self):
+        return "unpack_prev_fields({0!r})".format(self.field)
+
+
 class FieldReference(Reference):
     # Although not strictly a ref, we use attr_name as a ref because of how we pack - we create a reference to the
     # packed representation.
@@ -19,6 +36,7 @@ class FieldReference(Reference):
     def __init__(self, numeric, name):
         super(FieldReference, self).__init__(numeric)
         self.attr_name_ref = ObjectReference(False, name)
+        self.unpack_prev_fields_ref = UnpackPrevFieldsReference(self)
 
     def init(self, name):
         self.attr_name_ref.obj = name
-- 
2.43.0


From e102da88f1f3eb5ce740a4fcdffba8358927e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 33/75] fix: a buffer field whose unpack condition does not
 hold is None even if other fields refer to it

---
 src/infi/instruct/buffer/buffer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index aede535..1de6582 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -148,6 +148,11 @@ class Buffer(object):
             except:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
+        # A field that isn't there remains None even if other fields referred to it after we got to it.
+        for field in fields:
+            if not field.unpack_if.deref(ctx):
+                setattr(self, field.attr_name(), None)
+
         return self.calc_byte_size(ctx)
 
     def calc_byte_size(self, ctx=None):
-- 
2.43.0


From 638cfe0ee954c6c08a323c4fa26da61d0ca10a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 34/75] fix: assigning a small int to a longer bit range clears
 the whole range

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 1f114f7..fdf38cf 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -267,7 +267,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
             l = []
-            for n in range(0, bit_length, 8):
+            for n in range(0, max(bit_length, int(int_value_len * 8)), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-- 
2.43.0


From 4bf83d5eda2a891ec84ef2081c2ea96029d3d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 35/75] fix: delete and insert bits at any fractional offset of
 a bit array

---
 src/infi/instruct/buffer/io_buffer.py | 80 +++++++++++++--------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index fdf38cf..1ae027f 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -99,7 +99,7 @@ class BitView(abc.Sequence):
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
             start = self._translate_offset(key)
-            stop = start + 1
+            stop = max(start, min(start + 1, self.stop))
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
@@ -189,51 +189,47 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def _del_range(self, start, stop):
         assert stop >= start
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can remove whole bytes from the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            del self.buffer[start_byte:stop_byte]
-            self.stop -= whole_byte_delta
-            stop -= whole_byte_delta
-
-        # Here we have at most 8 bits to remove, so we need to "shift" the entire array.
-        if stop > start:
-            ofs = start
-            bit_len_frac = stop - start
-            while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
-                ofs += 1
-            self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+        bit_len_frac = stop - start
+        if int(start) == start and int(stop) == stop:
+            # Shortcut: we can remove whole bytes from the buffer.
+            del self.buffer[int(start):int(stop)]
+        else:
+            self._move_bits(start, stop, self.stop - stop)
+        self.stop -= bit_len_frac
+        self._trim()
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        bit_len_frac = stop - start
+        old_stop = self.stop
+
+        self._trim()
+        self.stop += bit_len_frac
+        self.buffer.extend(bytearray(int(math.ceil(self.stop)) - len(self.buffer)))
+
+        if start < old_stop:
+            # Inserting in the middle
+            self._move_bits(stop, start, old_stop - start)
+            zeros = bytearray(int(math.ceil(bit_len_frac)))
+            self._copy_to_range(start, zeros, bit_len_frac)
+
+    def _move_bits(self, to, ofs, length):
+        """Copies the bits at [ofs, ofs + length) to [to, to + length). The ranges may overlap."""
+        if to < ofs:
+            steps = range(0, int(math.ceil(length)))
+        else:
+            steps = reversed(range(0, int(math.ceil(length))))
+        for i in steps:
+            bit_len = min(8, int((length - i) * 8))
+            self._set_byte_bits(to + i, bit_len, self._get_byte_bits(ofs + i, bit_len))
+
+    def _trim(self):
+        """Removes what the buffer has after our last bit."""
+        del self.buffer[int(math.ceil(self.stop)):]
+        _, bit_ofs = float_to_byte_bit_pair(self.stop)
+        if bit_ofs != 0:
+            self.buffer[-1] &= (1 << bit_ofs) - 1
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From 874c271fafda6a172d7787bce89fdb34f0aefa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 36/75] fix: errors of a pack condition are reported as errors
 of its field

---
 src/infi/instruct/buffer/buffer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 1de6582..434eb05 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -111,12 +111,11 @@ class Buffer(object):
         ctx = PackContext(self, fields)
 
         for field in fields:
-            if field.pack_if.deref(ctx):
-                try:
+            try:
+                if field.pack_if.deref(ctx):
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except:
-                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
-                                                               field.attr_name()))
+            except:
+                raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self), field.attr_name()))
 
         result = bytearray(ctx.output_buffer.get())
 
-- 
2.43.0


From 4a7d77a1292edcb953902726fa5bc86bb7f31a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 37/75] fix: a field that needs more bytes than its position
 has is an error of that field

---
 src/infi/instruct/buffer/buffer.py               | 13 ++++++++++---
 src/infi/instruct/buffer/reference/total_size.py |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 434eb05..2814fad 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -147,10 +147,17 @@ class Buffer(object):
             except:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
-        # A field that isn't there remains None even if other fields referred to it after we got to it.
+        total_size_ref = TotalSizeReference()
         for field in fields:
-            if not field.unpack_if.deref(ctx):
-                setattr(self, field.attr_name(), None)
+            try:
+                # A field that isn't there remains None even if other fields referred to it after we got to it.
+                if not field.unpack_if.deref(ctx):
+                    setattr(self, field.attr_name(), None)
+                elif type(self).byte_size is None:
+                    # What the field unpacked may need more bytes than its position has.
+                    total_size_ref.unpacked_field_stop(ctx, field)
+            except:
+                raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
         return self.calc_byte_size(ctx)
 
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 83c1b01..b0433b8 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -23,12 +23,12 @@ class TotalSizeReference(Reference):
             # For each field we do the following and then take the maximum:
             #   We fetch the field's unpack size from unpack_ref (should already be cached).
             #   We then fetch the field's absolute position and calculate the byte offset from that.
-            result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
+            result = max(self.unpacked_field_stop(ctx, field) for field in ctx.fields)
 
         assert result is not None
         return result
 
-    def _unpack_position_list_for_field(self, ctx, field):
+    def unpacked_field_stop(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
             result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
-- 
2.43.0


From d499564ede7bd297148d65b1433ef03b05d50c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 38/75] fix: buffers of a fractional size can be read from a
 stream

---
 src/infi/instruct/buffer/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..d8224af 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,3 +1,5 @@
+import math
+
 from .._compat import PY2
 
 class StructTypeAdapter(object):
@@ -18,7 +20,7 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            packed_data = stream.read(int(math.ceil(self.buffer_type.byte_size)))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 248d9cea6cebcb9eba32af61bc7c404137388352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 39/75] fix: values that numeric fields can't write are always
 a library error

---
 src/infi/instruct/numeric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..d50c43e 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -28,9 +28,12 @@ class NumericMarshal(FixedSizer, Marshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         try:
-            stream.write(struct.pack(self.format_string, obj))
-        except struct.error:
+            packed_value = struct.pack(self.format_string, obj)
+        except (struct.error, ValueError, OverflowError):
+            # Not every unsuitable value is a struct.error: a float too large for 32 bits is an OverflowError, and on
+            # PyPy a negative value for an unsigned 64-bit integer is a ValueError.
             raise chain_exceptions(InstructError("Packing error occurred"))
+        stream.write(packed_value)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         if self.type is int:
-- 
2.43.0


From 23336bb02bd4c23550f20dac6366efc673c33bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 40/75] fix: pointers and selectors of a nested struct refer to
 that struct and not to the outer one

---
 src/infi/instruct/struct/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..af8f0ca 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -222,6 +222,8 @@ class Struct(object):
         else:
             new_context = WritableContext(dict(struct=obj))
         new_context.update(context.get_dict())
+        # Pointers and selectors refer to the struct that declares them, also when it's nested inside another struct.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From a48ae0d862e346e675000fd03572a5c3eb7033dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 41/75] fix: the size of an instance of a derived struct is the
 size of what it writes

---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index af8f0ca..9125f53 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,7 +186,9 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
-        return cls._container_.sizeof(obj)
+        # As when writing: an instance of a derived struct has the fields of its own type.
+        container = type(obj)._container_ if isinstance(obj, cls) else cls._container_
+        return container.sizeof(obj)
 
     @classmethod
     def write_to_string(cls, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From b43640980e9d2d615b267e55f12d30b15dffb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 42/75] fix: clip both ends of size bounds to both limits

---
 src/infi/instruct/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..3a2f80e 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -72,7 +72,11 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
             min_val = min_val_or_tuple
 
         assert min_val <= max_val
-        return super(MinMax, cls).__new__(cls, max(0, min_val), min(max_val, sys.maxsize))
+        return super(MinMax, cls).__new__(cls, cls._clip(min_val), cls._clip(max_val))
+
+    @staticmethod
+    def _clip(val):
+        return min(max(0, val), sys.maxsize)
 
     def __add__(self, min_max):
         return MinMax(min_max.min + self.min, min_max.max + self.max)
-- 
2.43.0


From 562bdb3d6c0a9766e5443cf7ebce18119f56259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 43/75] fix: unread look-ahead bytes of a function selector are
 a library error

---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index f86a72f..f26c9ec 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -76,7 +76,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (repr(result),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From bdee9bff91bf5be58e18fa4deb2e5e5f19a76938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 44/75] fix: bit groups refuse truncated input, also when their
 last bits belong to no field

---
 src/infi/instruct/struct/bit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..924101a 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,6 +1,6 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, NotEnoughDataError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
 from ..utils.bitstringio import BitStringIO
 
 class BitMarshal(FixedSizer, Marshal):
@@ -44,7 +44,10 @@ class BitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        bit_stream = BitStringIO(data)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
 
@@ -103,6 +106,9 @@ class PositionalBitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        bit_stream = BitStringIO(data)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
-- 
2.43.0


From d50277ad4c1a3a097cb111194a28ed5408283d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 45/75] fix: default values that are or hold structs or nested
 lists are not shared between instances

---
 src/infi/instruct/struct/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 9125f53..70ca2cc 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,4 +1,5 @@
 from array import array
+from copy import deepcopy, Error as CopyError
 from .._compat import StringIO, PY2
 from six import add_metaclass
 
@@ -6,7 +7,11 @@ from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
 def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
+    # A deep copy, so that changing structs or lists inside a default doesn't change it for other instances.
+    try:
+        return deepcopy(obj)
+    except (TypeError, CopyError):
+        return obj
 
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
-- 
2.43.0


From 09e2b86a5a7df6b6ca8bf605f7d76bf51a9cdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 46/75] fix: arrays prefixed by their size in bytes count the
 bytes read from streams without tell

---
 src/infi/instruct/array.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 93966cc..db1f08e 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -57,6 +57,20 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
 
+class CountingStream(object):
+    """Adds tell() to streams that don't have it."""
+    def __init__(self, stream):
+        self.stream = stream
+        self.position = 0
+
+    def read(self, size):
+        data = self.stream.read(size)
+        self.position += len(data)
+        return data
+
+    def tell(self):
+        return self.position
+
 class SumSizeArrayMarshal(ArrayBase, Marshal):
     def __init__(self, size_marshal, element_marshal):
         super(SumSizeArrayMarshal, self).__init__()
@@ -66,13 +80,14 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        has_tell = hasattr(stream, 'tell')
+        if not hasattr(stream, 'tell'):
+            # The size of an element isn't always the number of bytes it was read from (e.g. stripped strings).
+            stream = CountingStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            start = stream.tell()
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
-            total_bytes -= element_size
+            total_bytes -= stream.tell() - start
         assert total_bytes == 0
         return obj
 
-- 
2.43.0


From ca314c94201520633bbfc934dc27430d229a092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 47/75] fix: assigning a struct to a constant field raises the
 library error

---
 src/infi/instruct/struct/const.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index e0d4d00..b48a9a6 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -42,5 +42,5 @@ class ConstField(Field):
 
     def __set__(self, obj, value):
         if not self._is_const_value(value):
-            raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
+            raise InstructError("trying to set a new value (%r) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From edcf80d021d39b9da3cd4cc33dd46b3bf92bd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 48/75] fix: structs with fields that have no value have a
 textual representation

---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 70ca2cc..e0e659e 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -72,7 +72,9 @@ class Field(FieldBase):
             setattr(obj, self.name, copy_if_supported(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
+        # A field may have no value, e.g. an optional field that is absent or a field that wasn't set yet.
+        value = "<none>" if self.get_value(obj) is None else super(Field, self).to_repr(obj, context)
+        return "%s=%s" % (self.name, value)
 
     def get_value(self, obj):
         return getattr(obj, self.name, self.default)
-- 
2.43.0


From e5bc47534f7a18cfc93acb8acc12be74c683a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 49/75] fix: keyword arguments reach an inherited or
 keyword-only constructor that names fields

---
 src/infi/instruct/struct/__init__.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index e0e659e..cc043b5 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -145,6 +145,13 @@ class StructType(type):
 
         fields.prepare_class(new_cls)
 
+        if user_init is not None:
+            # The names of the arguments the user's constructor takes; a derived class without a constructor of its own
+            # inherits them with the constructor.
+            code = user_init.__code__
+            arg_count = code.co_argcount + getattr(code, "co_kwonlyargcount", 0)
+            new_cls._init_arg_names_ = code.co_varnames[0:arg_count]
+
         setattr(new_cls, "__init__", cls._create_struct_class_init(new_cls, user_init))
         return new_cls
 
@@ -155,22 +162,24 @@ class StructType(type):
             if type(self) == new_cls:
                 # Only do our magic if we're the bottom-most class.
                 new_cls._container_.prepare_instance(self, args, kwargs)
+            # Add arguments back if the user code wants them.
+            # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
+            # and logical_block_address is also a field in the struct, so in this scenario instruct will
+            # "eat" the arg and we need to put it back.
+            for arg in new_cls._init_arg_names_:
+                if arg in orig_kwargs:
+                    kwargs[arg] = orig_kwargs[arg]
             if user_init is None:
                 super(new_cls, self).__init__(*args, **kwargs)
             else:
-                # Add arguments back if the user code wants them.
-                # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
-                # and logical_block_address is also a field in the struct, so in this scenario instruct will
-                # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
-                    if arg in orig_kwargs:
-                        kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
         return __instance_init__
 
 
 @add_metaclass(StructType)
 class Struct(object):
+    _init_arg_names_ = ()
+
     def __init__(self, *args, **kwargs):
         super(Struct, self).__init__()
         type(self)._container_.prepare_instance(self, args, kwargs)
-- 
2.43.0


From 58692c5b123f65940869d4ea5bc55048bade51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 50/75] fix: the textual representation of a buffer shows
 inherited fields

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 2814fad..af61706 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -180,6 +180,6 @@ class Buffer(object):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From a7467007f198ba5af11a1839ec132d7f3ad34df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 51/75] fix: a lazy group that fails to decode fails again on
 the next use instead of giving defaults

---
 src/infi/instruct/struct/lazy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 88eb50c..50a5682 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -95,5 +95,10 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
         delattr(obj, self.lazy_key)
 
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        try:
+            super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
+                                                            **params['kwargs'])
+        except Exception:
+            # The fields still weren't read: don't let the next use find defaults or part of the values.
+            setattr(obj, self.lazy_key, params)
+            raise
-- 
2.43.0


From 826a9810628bebae4e1cdde1ad2d3544ad472bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 52/75] fix: structs with numeric fields are read when
 constructor arguments are given

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index d50c43e..5a97228 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From 9f1e2d155712c46da4292d89cfabea096c67c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 53/75] fix: the size consumed by a field whose ranges are not
 in increasing order

---
 src/infi/instruct/buffer/reference/total_size.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index b0433b8..c48cfdb 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -31,7 +31,14 @@ class TotalSizeReference(Reference):
     def unpacked_field_stop(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            positions = field.unpack_absolute_position_ref.deref(ctx)
+            result = positions.byte_offset(size)
+            # The ranges may be in any order, so the field may end in one of the ranges before the last one it uses.
+            for r in positions:
+                if r.is_open() or r.byte_length() >= size:
+                    break
+                result = max(result, r.stop)
+                size -= r.byte_length()
             return result
         else:
             return 0
-- 
2.43.0


From a10a41115260f79280ac8e90515177ba6399f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 54/75] fix: sizes and ends of whole bytes are integers also
 next to bit fields, so that integer fields can hold them

---
 src/infi/instruct/buffer/range.py                | 12 ++++++++++--
 src/infi/instruct/buffer/reference/total_size.py |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index acacb4c..89c368d 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -5,6 +5,14 @@ from .._compat import range
 BIT = 0.125
 
 
+def normalize_offset(offset):
+    """
+    Bit offsets are fractions of a byte. An offset of whole bytes is always an integer, so that it can be the value of an
+    integer field.
+    """
+    return int(offset) if offset == int(offset) else offset
+
+
 class SequentialRangeMixin(object):
     """Common interface between SquentialRange and SequentialRangeList"""
 
@@ -154,7 +162,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
             if r.is_open():
                 return None
             m = max(m, r.stop)
-        return m
+        return normalize_offset(m)
 
     def sorted(self):
         """
@@ -174,7 +182,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         remaining_bytes = bytes
         for r in self:
             if r.is_open() or r.byte_length() >= remaining_bytes:
-                return r.start + remaining_bytes
+                return normalize_offset(r.start + remaining_bytes)
             else:
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index c48cfdb..481b62c 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -1,6 +1,6 @@
 import itertools
 
-from infi.instruct.buffer.range import SequentialRangeList
+from infi.instruct.buffer.range import SequentialRangeList, normalize_offset
 
 from .reference import Reference
 
@@ -37,7 +37,7 @@ class TotalSizeReference(Reference):
             for r in positions:
                 if r.is_open() or r.byte_length() >= size:
                     break
-                result = max(result, r.stop)
+                result = max(result, normalize_offset(r.stop))
                 size -= r.byte_length()
             return result
         else:
-- 
2.43.0


From cb594a2fbf3dcf46fce5db1fa1ea50d9ddb43ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 55/75] fix: fields of a lazy group inside another lazy group
 were read as their defaults

---
 src/infi/instruct/struct/lazy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 50a5682..1c60d7d 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -50,6 +50,7 @@ class LazyField(Field):
 class LazyFieldListContainer(FixedSizer, FieldListContainer):
     def __init__(self, fields):
         new_fields = []
+        self.eager_fields = list(fields)
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
@@ -66,6 +67,9 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
             return field
         if isinstance(field, Field):
             return LazyField(self, field)
+        if isinstance(field, LazyFieldListContainer):
+            # A lazy group inside this one is read when this one is.
+            field = FieldListContainer(field.eager_fields)
         if isinstance(field, FieldListContainer):
             # Fields of nested containers (e.g. bit fields) are attributes of the object too.
             field = copy(field)
-- 
2.43.0


From c37566d5548d900ce795613facc50e6c6622c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 56/75] fix: 4-byte integers of unspecified byte order were
 truncated when packed and could not be unpacked

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 32afa25..210c1e3 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -45,7 +45,7 @@ class UnpackError(InstructError):
         super(UnpackError, self).__init__(UnpackError.MESSAGE.format(unpack_ref=unpack_ref, buffer=buffer))
 
 
-ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little': '<'}
+ENDIAN_NAME_TO_FORMAT = {'unspecified': '=', 'native': '=', 'big': '>', 'little': '<'}
 
 
 #
-- 
2.43.0


From 4e352a631513cdfd669791183eec0165029b0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 57/75] fix: what followed objects and bit fields that end
 inside a byte was unpacked from inside their last byte

---
 src/infi/instruct/buffer/field_reference_builder.py | 5 +++--
 src/infi/instruct/buffer/macros.py                  | 4 ++--
 src/infi/instruct/buffer/serialize.py               | 8 +++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index cb47273..41a1ab6 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -2,7 +2,7 @@ import itertools
 
 from infi.instruct.utils.safe_repr import safe_repr
 
-from .io_buffer import InputBuffer, OutputBuffer
+from .io_buffer import BitView
 from .reference import (Reference, Context, ContextGetAttrReference, ObjectReference,
                         FuncCallReference, FieldReference, GetAttrReference, AssignAttrReference)
 from .range import SequentialRangeList
@@ -26,10 +26,11 @@ class PackAbsolutePositionReference(Reference):
             # We need the serialization result of this field to set the range. Note that we already checked if the
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
+            packed_length = packed_field.length() if isinstance(packed_field, BitView) else len(packed_field)
             current_length = 0
             absolute_position_list = []
             for pos in position_list:
-                abs_pos = pos.to_closed(pos.start + len(packed_field) - current_length)
+                abs_pos = pos.to_closed(pos.start + packed_length - current_length)
                 absolute_position_list.append(abs_pos)
                 current_length += abs_pos.byte_length()
             return absolute_position_list
diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9bb7803..bcbf64d 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -10,7 +10,7 @@ from .field_reference_builder import FieldReferenceBuilder
 from .buffer import BufferType
 
 from .serialize import (pack_int, unpack_int, pack_float, unpack_float, pack_str, unpack_str, pack_bytearray,
-                        unpack_bytearray, pack_buffer, unpack_buffer, pack_list, unpack_list, pack_json, unpack_json)
+                        unpack_bytearray, pack_buffer, unpack_buffer, unpack_object, pack_list, unpack_list, pack_json, unpack_json)
 
 __all__ = [
     'int8', 'n_int8', 'b_int8', 'l_int8', 'uint8', 'n_uint8', 'b_uint8', 'l_uint8',
@@ -240,7 +240,7 @@ def unpack_selector_decorator(selector):
         o = selector(obj, buffer, *args, **kwargs)
         if isinstance(o, BufferType):
             result = o()
-            byte_size = result.unpack(buffer)
+            byte_size = unpack_object(result, buffer)
             return result, byte_size
         elif isinstance(o, (list, tuple)):
             assert len(o) == 2, "selector returned a list but not a (obj, byte_size)-kind of list"
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 210c1e3..fa2133e 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -264,9 +264,15 @@ def pack_buffer(value, **kwargs):
     return value.pack()
 
 
+def unpack_object(obj, buffer):
+    byte_size = obj.unpack(buffer)
+    # Objects are packed to whole bytes, so the rest of the last byte belongs to the object if its place has it.
+    return max(byte_size, min(int(math.ceil(byte_size)), buffer.length()))
+
+
 def unpack_buffer(buffer, **kwargs):
     obj = kwargs['type']()
-    byte_size = obj.unpack(buffer)
+    byte_size = unpack_object(obj, buffer)
     return obj, byte_size
 
 
-- 
2.43.0


From 848137c4d5de4681193756cb928cf333a6cb2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 58/75] fix: extending or editing a bit array with a view of
 its own bits

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 1ae027f..d93c540 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -139,6 +139,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def extend(self, other):
         if isinstance(other, BitView):
+            other = other[:]  # a copy, because it may be a view of this array's own bits
             offset = self.stop
             self._insert_zeros(offset, offset + other.length())
             self._copy_to_range(offset, other, other.length())
@@ -246,6 +247,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _value_to_value_and_length(self, value, int_value_len=1):
         value_len = 0
         if isinstance(value, BitView):
+            value = value[:]  # a copy, because it may be a view of this array's own bits
             value_len = value.length()
         elif isinstance(value, abc.Sized):
             value_len = len(value)
-- 
2.43.0


From 8d66b808d803c893c54eb0234e3ab3804605e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 59/75] fix: an index at or after the end of a bit view is an
 IndexError

---
 src/infi/instruct/buffer/io_buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index d93c540..85ec222 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -99,7 +99,9 @@ class BitView(abc.Sequence):
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
             start = self._translate_offset(key)
-            stop = max(start, min(start + 1, self.stop))
+            if start >= self.stop:
+                raise IndexError("index {0} is out of range".format(key))
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From 463be9332f26f706def84394ec7b060febcd4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 60/75] fix: packing into an open range that is not the last of
 the ranges

---
 src/infi/instruct/buffer/field_reference_builder.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 41a1ab6..f3fe92a 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -27,13 +27,10 @@ class PackAbsolutePositionReference(Reference):
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
             packed_length = packed_field.length() if isinstance(packed_field, BitView) else len(packed_field)
-            current_length = 0
-            absolute_position_list = []
-            for pos in position_list:
-                abs_pos = pos.to_closed(pos.start + packed_length - current_length)
-                absolute_position_list.append(abs_pos)
-                current_length += abs_pos.byte_length()
-            return absolute_position_list
+            # The open range, wherever it is in the list, takes what the closed ranges don't.
+            closed_length = sum(pos.byte_length() for pos in position_list if not pos.is_open())
+            return SequentialRangeList(pos.to_closed(pos.start + packed_length - closed_length) if pos.is_open() else pos
+                                       for pos in position_list)
         else:
             return position_list
 
-- 
2.43.0


From d046ff350d5beb3b83399e5f1beaba4c52394d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:14 +0000
Subject: [PATCH 61/75] fix: the end of a counted list whose ranges are not in
 increasing order

---
 src/infi/instruct/buffer/range.py                 | 13 +++++++++++++
 src/infi/instruct/buffer/reference/after_field.py |  4 ++--
 src/infi/instruct/buffer/reference/total_size.py  | 10 ++--------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 89c368d..c95a4d6 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -187,6 +187,19 @@ class SequentialRangeList(list, SequentialRangeMixin):
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
 
+    def max_byte_offset(self, bytes):
+        """
+        :returns: the highest offset that the first `bytes` bytes of the ranges reach.
+        :rtype: int or float
+        """
+        result = self.byte_offset(bytes)
+        for r in self:
+            if r.is_open() or r.byte_length() >= bytes:
+                break
+            result = max(result, normalize_offset(r.stop))
+            bytes -= r.byte_length()
+        return result
+
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..1092e83 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -20,8 +20,8 @@ class AfterFieldReference(Reference):
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
-                # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                # The ranges may be in any order, but we want the "highest" byte.
+                offset = position_list.max_byte_offset(byte_size)
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 481b62c..b030816 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -1,6 +1,6 @@
 import itertools
 
-from infi.instruct.buffer.range import SequentialRangeList, normalize_offset
+from infi.instruct.buffer.range import SequentialRangeList
 
 from .reference import Reference
 
@@ -32,14 +32,8 @@ class TotalSizeReference(Reference):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
             positions = field.unpack_absolute_position_ref.deref(ctx)
-            result = positions.byte_offset(size)
             # The ranges may be in any order, so the field may end in one of the ranges before the last one it uses.
-            for r in positions:
-                if r.is_open() or r.byte_length() >= size:
-                    break
-                result = max(result, normalize_offset(r.stop))
-                size -= r.byte_length()
-            return result
+            return positions.max_byte_offset(size)
         else:
             return 0
 
-- 
2.43.0


From 7f0d0b7ff9853762bbdbb2a4aeb71e37c89beb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 62/75] fix: zero takes no bits, so an integer field over an
 empty place can be packed

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 85ec222..9a8914f 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -260,7 +260,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             # Short circuit: make bit ranges accept int values by their bit length.
             if value < 0:
                 raise ValueError("cannot assign negative int {0} to a bit range".format(value))
-            bit_length = max(1, value.bit_length())
+            bit_length = value.bit_length()
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
                 # bits that he specified we shout.
-- 
2.43.0


From 09e590afc7970211aafcdc4ef473149db12bb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 63/75] fix: the fields of a buffer class that is named Buffer

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index af61706..d2929f1 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -50,7 +50,7 @@ class BufferType(type):
     """
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Buffer":
+        if not any(isinstance(base, cls) for base in bases):
             return super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
-- 
2.43.0


From 4eb9a90e51c7e15c614a5996967617a6199ce1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 64/75] fix: the fields of a struct class that is named Struct

---
 src/infi/instruct/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index cc043b5..b6ec0d5 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -118,7 +118,7 @@ class FieldListContainer(FieldMarshal):
 class StructType(type):
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Struct":
+        if not any(isinstance(base, cls) for base in bases):
             return super(StructType, cls).__new__(cls, name, bases, attrs)
 
         # We want to first put our own __init__ method that will initialize all the fields passed by kwargs and then
-- 
2.43.0


From a9238f502af0151cd0fa33a96b5e953b2346f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 65/75] fix: changing what is inside a field's default changed
 the default

---
 src/infi/instruct/buffer/buffer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index d2929f1..aa84c2c 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,6 +1,6 @@
 import math
 import itertools
-from copy import copy
+from copy import copy, deepcopy, Error as CopyError
 from six import add_metaclass
 import six
 
@@ -103,7 +103,11 @@ class Buffer(object):
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
                 # Every instance gets its own copy, so changing it doesn't change the default of other instances.
-                setattr(self, field.attr_name(), copy(field.default))
+                try:
+                    default = deepcopy(field.default)
+                except (TypeError, CopyError):
+                    default = copy(field.default)
+                setattr(self, field.attr_name(), default)
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 9ee348deb3f677e1a48eebc48164d48f74ad959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 66/75] fix: fields declared in classes that are not buffers
 are fields of every buffer that inherits them

---
 src/infi/instruct/buffer/buffer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index aa84c2c..a709277 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -56,16 +56,18 @@ class BufferType(type):
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         # First off, assign names and getters/setters to all the field references and find all the fields.
+        # A field may be declared in a class that isn't a buffer, and then it may be a field of several buffers.
+        inherited_fields = [field for base in new_cls.mro()[1:] for field in base.__dict__.get('__fields__', [])]
         fields = []
         for attr_name in dir(new_cls):
             attr = getattr(new_cls, attr_name)
-            if isinstance(attr, FieldReference) and not attr.is_initialized():
-                attr.init(attr_name)
-                fields.append(attr)
+            if isinstance(attr, FieldReference) and not any(attr is field for field in inherited_fields):
+                if not attr.is_initialized():
+                    attr.init(attr_name)
+                if attr.attr_name() == attr_name:
+                    fields.append(attr)
 
         # The size depends on the inherited fields as well.
-        inherited_fields = [field for base in new_cls.mro()[1:] for field in base.__dict__.get('__fields__', [])]
-
         setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
                 else cls.calc_byte_size(name, fields + inherited_fields))
         setattr(new_cls, '__fields__', fields)
-- 
2.43.0


From 06d00b1f0f0a13bc52d2fdb686dd16805ea25882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 67/75] fix: a buffer class without fields of its own keeps the
 size declared in its base

---
 src/infi/instruct/buffer/buffer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index a709277..cbe70bb 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -67,6 +67,11 @@ class BufferType(type):
                 if attr.attr_name() == attr_name:
                     fields.append(attr)
 
+        # A class that adds no fields to its base has the same size, which may be declared there.
+        base_sizes = [getattr(base, 'byte_size', 0) for base in bases if isinstance(base, cls)]
+        if 'byte_size' not in attrs and not fields and len(base_sizes) == 1:
+            attrs['byte_size'] = base_sizes[0]
+
         # The size depends on the inherited fields as well.
         setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
                 else cls.calc_byte_size(name, fields + inherited_fields))
-- 
2.43.0


From 05fc85484856bb225fe4e3c55447710d37171212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:09 +0000
Subject: [PATCH 68/75] fix: an absent field of open length takes nothing

---
 src/infi/instruct/buffer/field_reference_builder.py |  4 ++++
 src/infi/instruct/buffer/range.py                   |  7 +++++++
 src/infi/instruct/buffer/reference/after_field.py   | 12 +++++++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index f3fe92a..50e0c29 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -23,6 +23,10 @@ class PackAbsolutePositionReference(Reference):
             raise ValueError("field position list has overlapping ranges")
 
         if position_list.is_open():
+            if not self.field.pack_if.deref(ctx):
+                # A field that isn't packed takes nothing of its open range.
+                return position_list.to_empty()
+
             # We need the serialization result of this field to set the range. Note that we already checked if the
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index c95a4d6..0fb2e60 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -128,6 +128,13 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def to_closed(self, total_len):
         return SequentialRangeList(r.to_closed(total_len) for r in self)
 
+    def to_empty(self):
+        """
+        :returns: new closed list, in which the open ranges (if any) are empty
+        :rtype: SequentialRangeList
+        """
+        return SequentialRangeList(r.to_closed(r.start) if r.is_open() else r for r in self)
+
     def byte_length(self):
         """
         :returns: sum of lengthes of all ranges or None if one of the ranges is open
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 1092e83..140bdc1 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -18,10 +18,16 @@ class AfterFieldReference(Reference):
             if self.field_ref.unpack_absolute_position_ref.is_open(ctx):
                 # It's an open range, so we need to limit it by checking the _actual_ byte size the field used to unpack.
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
-                _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
-                # The ranges may be in any order, but we want the "highest" byte.
-                offset = position_list.max_byte_offset(byte_size)
+                # The condition of the field may need the fields that are unpacked before it.
+                self.field_ref.unpack_prev_fields_ref.deref(ctx)
+                if self.field_ref.unpack_if.deref(ctx):
+                    _, byte_size = self.field_ref.unpack_ref.deref(ctx)
+                    # The ranges may be in any order, but we want the "highest" byte.
+                    offset = position_list.max_byte_offset(byte_size)
+                else:
+                    # A field that isn't there takes nothing of its open range.
+                    offset = position_list.to_empty().max_stop()
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
-- 
2.43.0


From 42504dc4da02645ff1b613d16e2eb2531be5bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:13 +0000
Subject: [PATCH 69/75] fix: the end of an open place whose closed ranges take
 everything

---
 src/infi/instruct/buffer/range.py                | 3 ++-
 src/infi/instruct/buffer/reference/total_size.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 0fb2e60..1f90cc3 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -205,7 +205,8 @@ class SequentialRangeList(list, SequentialRangeMixin):
                 break
             result = max(result, normalize_offset(r.stop))
             bytes -= r.byte_length()
-        return result
+        # An open range is there even if the ranges before it take everything.
+        return max(result, self.to_empty().max_stop()) if self.is_open() else result
 
     def find_relative_container_index(self, point):
         sum_length = 0
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index b030816..3ff9f40 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -33,7 +33,10 @@ class TotalSizeReference(Reference):
             _, size = field.unpack_ref.deref(ctx)
             positions = field.unpack_absolute_position_ref.deref(ctx)
             # The ranges may be in any order, so the field may end in one of the ranges before the last one it uses.
-            return positions.max_byte_offset(size)
+            result = positions.max_byte_offset(size)
+            if field.unpack_absolute_position_ref.is_open(ctx):
+                result = max(result, field.unpack_absolute_position_ref.unpack_position_ref.deref(ctx).max_byte_offset(size))
+            return result
         else:
             return 0
 
-- 
2.43.0


From 82d78bbe242e291c12be7b4660ffa1efd9605a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 70/75] fix: a negative string length is an error

---
 src/infi/instruct/string.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 251f25c..162063d 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -41,6 +41,8 @@ class VarSizeStringMarshal(Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         buffer_len = self.size_marshal.create_from_stream(stream, context)
+        if buffer_len < 0:
+            raise InvalidValueError("length is expected to be non-negative but instead got %d" % (buffer_len,))
         obj = stream.read(buffer_len)
         if len(obj) < buffer_len:
             raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
-- 
2.43.0


From 13828390a095a0c2cd8b703eec76bbad2e7fbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:21 +0000
Subject: [PATCH 71/75] fix: a negative number of array elements is an error

---
 src/infi/instruct/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index db1f08e..7f1814c 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -29,6 +29,8 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
+        if size < 0:
+            raise InvalidValueError("number of elements is expected to be non-negative but instead got %d" % (size,))
         obj = []
         for i in range(size):
             obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
-- 
2.43.0


From f8f695739f37a60024c31c0fe0b15e5128322dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 72/75] fix: reading elements without a size until they fill a
 byte size never ended

---
 src/infi/instruct/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 7f1814c..8355f85 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -89,7 +89,10 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             start = stream.tell()
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            total_bytes -= stream.tell() - start
+            element_bytes = stream.tell() - start
+            if element_bytes == 0:
+                raise InvalidValueError("array elements have no size, so they cannot fill %d bytes" % (total_bytes,))
+            total_bytes -= element_bytes
         assert total_bytes == 0
         return obj
 
-- 
2.43.0


From a35b8e2a6685d573a5aec545cd418ae451a5c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:40 +0000
Subject: [PATCH 73/75] fix: bytearray fields hold their own bytes, also when
 unpacked from a memoryview or a list

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 9a8914f..6e5efc3 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -63,7 +63,7 @@ class BitView(abc.Sequence):
 
     def to_bytearray(self):
         if int(self.start) == self.start and int(self.stop) == self.stop:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+            return bytearray(self.buffer[int(self.start):int(math.ceil(self.stop))])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From 55ae3c9b2f5826bb94dea9694bae1ba369dfdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 74/75] fix: sizeof of a size-prefixed string gives its prefix
 the size, not the string

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 162063d..df9b2de 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -57,7 +57,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        size = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(size) + size
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From 039aaf0d3fe776e8cc00fc12e34487fcceec9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:38 +0000
Subject: [PATCH 75/75] fix: a buffer field that a derived class declares again
 replaces the inherited field

---
 src/infi/instruct/buffer/buffer.py                | 10 ++++++++--
 src/infi/instruct/buffer/reference/after_field.py | 15 ++++++++-------
 src/infi/instruct/buffer/reference/field.py       | 10 ++++++++++
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index cbe70bb..78b25cc 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -74,10 +74,16 @@ class BufferType(type):
 
         # The size depends on the inherited fields as well.
         setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
-                else cls.calc_byte_size(name, fields + inherited_fields))
+                else cls.calc_byte_size(name, cls.effective_fields(fields + inherited_fields)))
         setattr(new_cls, '__fields__', fields)
         return new_cls
 
+    @classmethod
+    def effective_fields(cls, fields):
+        # A field that a derived class declares again replaces the inherited one, which comes later in the list.
+        names = set()
+        return [field for field in fields if not (field.attr_name() in names or names.add(field.attr_name()))]
+
     @classmethod
     def calc_byte_size(cls, class_name, fields):
         ctx = PackContext(None, fields)
@@ -185,7 +191,7 @@ class Buffer(object):
         for cls in type(self).mro():
             cls_fields = getattr(cls, '__fields__', [])
             fields.extend(cls_fields)
-        return fields
+        return BufferType.effective_fields(fields)
 
     def _all_field_names(self):
         return set(field.attr_name() for field in self._all_fields())
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 140bdc1..eb332c6 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -9,27 +9,28 @@ class AfterFieldReference(Reference):
         self.field_ref = field_ref
 
     def evaluate(self, ctx):
+        field_ref = self.field_ref.effective(ctx)
         offset = None
         if ctx.is_pack():
-            offset = SequentialRangeList(self.field_ref.pack_absolute_position_ref.deref(ctx)).max_stop()
+            offset = SequentialRangeList(field_ref.pack_absolute_position_ref.deref(ctx)).max_stop()
         else:
             # This is a bit more tricky, since unpack_absolute_position_ref returns the length for the rest of the
             # buffer if it contains an open range.
-            if self.field_ref.unpack_absolute_position_ref.is_open(ctx):
+            if field_ref.unpack_absolute_position_ref.is_open(ctx):
                 # It's an open range, so we need to limit it by checking the _actual_ byte size the field used to unpack.
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
-                position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
+                position_list = field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
                 # The condition of the field may need the fields that are unpacked before it.
-                self.field_ref.unpack_prev_fields_ref.deref(ctx)
-                if self.field_ref.unpack_if.deref(ctx):
-                    _, byte_size = self.field_ref.unpack_ref.deref(ctx)
+                field_ref.unpack_prev_fields_ref.deref(ctx)
+                if field_ref.unpack_if.deref(ctx):
+                    _, byte_size = field_ref.unpack_ref.deref(ctx)
                     # The ranges may be in any order, but we want the "highest" byte.
                     offset = position_list.max_byte_offset(byte_size)
                 else:
                     # A field that isn't there takes nothing of its open range.
                     offset = position_list.to_empty().max_stop()
             else:
-                offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
+                offset = field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
 
     def __safe_repr__(self):
diff --git a/src/infi/instruct/buffer/reference/field.py b/src/infi/instruct/buffer/reference/field.py
index 627f22f..d4e388f 100644
--- a/src/infi/instruct/buffer/reference/field.py
+++ b/src/infi/instruct/buffer/reference/field.py
@@ -10,6 +10,7 @@ class UnpackPrevFieldsReference(Reference):
 
     def evaluate(self, ctx):
         for prev_field in self.field.unpack_after:
+            prev_field = prev_field.effective(ctx)
             prev_field.unpack_prev_fields_ref.deref(ctx)
             if prev_field.unpack_if.deref(ctx):
                 prev_field.unpack_value_ref.deref(ctx)
@@ -47,7 +48,16 @@ class FieldReference(Reference):
     def attr_name(self):
         return self.attr_name_ref.obj
 
+    def effective(self, ctx):
+        """
+        :returns: the field itself, or the field that replaces it if a derived class declares the field again
+        """
+        name = self.attr_name()
+        return ctx.get_field(name) if ctx.has_field(name) else self
+
     def evaluate(self, ctx):
+        if self.effective(ctx) is not self:
+            return self.effective(ctx).deref(ctx)
         if ctx.is_pack():
             return self.pack_value_ref.deref(ctx)
         else:
-- 
2.43.0

