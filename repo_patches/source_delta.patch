From f3cda016a79439702304015ac4746c003f502737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 001/218] fix: sub-stream reads stop at the end of the
 sub-stream

---
 hachoir/stream/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..9378e6c 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -491,6 +491,10 @@ class InputSubStream(InputStream):
         self.stream = None
 
     def read(self, address, size):
+        if self._size < address + size:
+            # Don't read the data following the sub-stream
+            raise ReadStreamError(size, address,
+                                  max(0, self._size - address))
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 94fa25221e09cfba79546e4e95dc737b3a9e92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 002/218] fix: search bytes in a stream of unknown size

---
 hachoir/stream/input.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 9378e6c..f56e2b9 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -263,13 +263,15 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            # Don't use readBytes(): it fails if there are less than size bytes
+            # before the end of a stream of unknown size
+            shift, data, missing = self.read(start_address, 8 * size)
+            if shift:
+                raise InputStreamError("TODO: handle non-byte-aligned data")
+            if self._size and (end_address is None or self._size < end_address):
+                # The read gave us the size of the stream
                 end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
-                data = data[:size]
-            start_address += 8 * size
+            start_address += 8 * len(data)
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
             if found >= 0:
-- 
2.43.0


From 362a2b836297c11c0115da827d958c602b529d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 003/218] fix: InputIOStream.file() doesn't share the file
 position with the stream

---
 hachoir/stream/input.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index f56e2b9..8942809 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -439,15 +439,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From f783f31de57adccd42dbfff96b8f2a378f888c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 004/218] fix: position of the file view of a stream of unknown
 size

---
 hachoir/stream/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 8942809..424ec0c 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -110,6 +110,7 @@ class FileFromInputStream:
                     if not bs:
                         data = data[0] + data[1]
                         d = len(data) - max_size
+                        self._offset -= max_size - size
                         return data[d:d + size]
         else:
             # TODO: not tested
@@ -121,7 +122,7 @@ class FileFromInputStream:
                 self._offset += len(d)
                 if self._size:
                     size = self._size - self._offset
-                    if not size:
+                    if size <= 0:
                         return b''.join(data)
 
 
-- 
2.43.0


From baa15a8d91c34e00bc54eb6920396d4a93344e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 005/218] fix: OutputStream.writeBit() uses the same bit order
 as writeBits()

---
 hachoir/stream/output.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..ea9aea2 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -36,21 +36,16 @@ class OutputStream(object):
     def writeBit(self, state, endian):
         # middle endian not yet supported
         assert endian in (BIG_ENDIAN, LITTLE_ENDIAN)
+        if state:
+            if endian is BIG_ENDIAN:
+                self._byte |= (1 << (7 - self._bit_pos))
+            else:
+                self._byte |= (1 << self._bit_pos)
         if self._bit_pos == 7:
-            self._bit_pos = 0
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= 1
-                else:
-                    self._byte |= 128
             self._output.write(bytes([self._byte]))
+            self._bit_pos = 0
             self._byte = 0
         else:
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
-                    self._byte |= (1 << (7 - self._bit_pos))
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From 4b5f7456775aee75f7235d2d914a836d48c9eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 006/218] fix: OutputStream.writeInteger() writes signed
 integers in two's complement

---
 hachoir/stream/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index ea9aea2..7144497 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -101,8 +101,9 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            # Two's complement
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 0d9a66c5e72181121c22e917029bb130f58fa492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 007/218] fix: StringOutputStream stores bytes and reads at the
 requested address

---
 hachoir/stream/output.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 7144497..11400f3 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -158,13 +158,14 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
             except IOError as err:
-                if err[0] == EBADF:
+                if err.errno == EBADF:
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
+                raise
         finally:
             self._output.seek(oldpos)
 
@@ -173,7 +174,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 5259e539f83f684e8b49e351e77a5dc43ad540d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 008/218] fix: order of the parts of a floating point number in
 little endian

Float80.value was wrong in little endian, and so were the negative, exponent
and mantissa fields of the other floats.
---
 hachoir/field/float.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hachoir/field/float.py b/hachoir/field/float.py
index c2b62e2..1c11e6e 100644
--- a/hachoir/field/float.py
+++ b/hachoir/field/float.py
@@ -79,13 +79,22 @@ def floatFactory(name, format, mantissa_bits, exponent_bits, doc):
                                      self.__class__.__name__)
 
         def createFields(self):
-            yield Bit(self, "negative")
-            yield FloatExponent(self, "exponent", exponent_bits)
+            # In little endian, least significant bits come first
+            little = (self.endian == LITTLE_ENDIAN)
+            if not little:
+                yield Bit(self, "negative")
+                yield FloatExponent(self, "exponent", exponent_bits)
             if 64 <= mantissa_bits:
-                yield Bit(self, "one")
+                if not little:
+                    yield Bit(self, "one")
                 yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                if little:
+                    yield Bit(self, "one")
             else:
                 yield FloatMantissa(self, "mantissa", mantissa_bits)
+            if little:
+                yield FloatExponent(self, "exponent", exponent_bits)
+                yield Bit(self, "negative")
 
     cls = Float
     cls.__name__ = name
-- 
2.43.0


From 16683ea8df548feb161aa8b21dec44c6023779b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 009/218] fix: tell when the display of RawBytes is truncated

The test used the length of the escaped text instead of the number of bytes.
---
 hachoir/field/byte_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/byte_field.py b/hachoir/field/byte_field.py
index e0bdb08..ad23b70 100644
--- a/hachoir/field/byte_field.py
+++ b/hachoir/field/byte_field.py
@@ -35,7 +35,7 @@ class RawBytes(Field):
                 length = min(self._size // 8, max_bytes)
                 self._display = self._parent.stream.readBytes(address, length)
             display = makePrintable(self._display, "ASCII")
-        truncated = (8 * len(display) < self._size)
+        truncated = (8 * max_bytes < self._size)
         if human:
             if truncated:
                 display += "(...)"
-- 
2.43.0


From e1440993e53f1d7ce28d0d1c19295e386af12b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 010/218] fix: don't end an UTF-16/UTF-32 string in the middle
 of a character

The two bytes of the terminator may also be found across two characters, as
in U+0061 U+0100 encoded to UTF-16-LE.
---
 hachoir/field/string_field.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..d8a59e0 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -154,16 +154,10 @@ class GenericString(Bytes):
                 suffix = self.suffix_str
 
                 # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
+                length = self._searchSuffix(suffix)
                 if length is None:
                     raise FieldError("Unable to find end of string %s (format %s)!"
                                      % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
-                    #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
-                    length = alignValue(length, len(suffix))
 
                 # Compute sizes
                 self._content_size = length  # in bytes
@@ -208,6 +202,24 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _searchSuffix(self, suffix):
+        """
+        Length in bytes of the text before the suffix, None if there is no
+        suffix. The suffix is a whole character, so with an UTF-xx charset,
+        skip the matches across two characters:
+            u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE): offset 5 is not the end
+        """
+        length = 0
+        while True:
+            offset = self._parent.stream.searchBytesLength(
+                suffix, False, self.absolute_address + length * 8)
+            if offset is None:
+                return None
+            length += offset
+            if length % len(suffix) == 0:
+                return length
+            length = alignValue(length, len(suffix))
+
     @staticmethod
     def staticSuffixStr(format, charset, endian):
         if format not in GenericString.SUFFIX_FORMAT:
-- 
2.43.0


From 0143c37849e7c4852a4ea8c60bc36a2111903b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 011/218] fix: the BOM of a Pascal string is after the length
 prefix

---
 hachoir/field/string_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index d8a59e0..c892371 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -185,7 +185,7 @@ class GenericString(Bytes):
                 # Read the BOM value
                 nbytes = bomsize // 8
                 bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
+                    self.absolute_address + self._content_offset * 8, nbytes)
 
                 # Choose right charset using the BOM
                 bom_endian = self.UTF_BOM[bomsize]
-- 
2.43.0


From 222a3d0f8fd717a562ad5dca3a5869695e433f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 012/218] fix: the end of an UTF-16/UTF-32 line uses the endian
 of its charset

UnixLine searched the newline in the endian of the parent, whatever the
charset (or the BOM) says.
---
 hachoir/field/string_field.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index c892371..ab9a990 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -182,17 +182,8 @@ class GenericString(Bytes):
             # Charset requires a BOM?
             bomsize, endian = self.UTF_CHARSET[self._charset]
             if endian == "BOM":
-                # Read the BOM value
-                nbytes = bomsize // 8
-                bom = self._parent.stream.readBytes(
-                    self.absolute_address + self._content_offset * 8, nbytes)
-
                 # Choose right charset using the BOM
-                bom_endian = self.UTF_BOM[bomsize]
-                if bom not in bom_endian:
-                    raise FieldError("String %s has invalid BOM (%s)!"
-                                     % (self.path, repr(bom)))
-                self._charset = bom_endian[bom]
+                self._charset, nbytes = self._readBOM()
                 self._content_size -= nbytes
                 self._content_offset += nbytes
 
@@ -202,6 +193,20 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _readBOM(self):
+        """
+        Read the BOM: returns the right charset and BOM size in bytes.
+        """
+        bomsize = self.UTF_CHARSET[self._charset][0]
+        nbytes = bomsize // 8
+        bom = self._parent.stream.readBytes(
+            self.absolute_address + self._content_offset * 8, nbytes)
+        bom_endian = self.UTF_BOM[bomsize]
+        if bom not in bom_endian:
+            raise FieldError("String %s has invalid BOM (%s)!"
+                             % (self.path, repr(bom)))
+        return bom_endian[bom], nbytes
+
     def _searchSuffix(self, suffix):
         """
         Length in bytes of the text before the suffix, None if there is no
@@ -226,15 +231,20 @@ class GenericString(Bytes):
             return ''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, charset_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            if charset_endian in (LITTLE_ENDIAN, BIG_ENDIAN):
+                endian = charset_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
 
     def _getSuffixStr(self):
+        charset = self._charset
+        if self.UTF_CHARSET.get(charset, (8, None))[1] == "BOM":
+            charset = self._readBOM()[0]
         return self.staticSuffixStr(
-            self._format, self._charset, self._parent.endian)
+            self._format, charset, self._parent.endian)
     suffix_str = property(_getSuffixStr)
 
     def _convertText(self, text):
-- 
2.43.0


From 364909d1e7d86cbaf37887a38deea9955d942dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 013/218] fix: display of a string of unknown charset

If the display was read before the value, control characters were not
escaped.
---
 hachoir/field/string_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index ab9a990..dc64640 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -324,10 +324,11 @@ class GenericString(Bytes):
             if self._raw_value is None:
                 self._raw_value = GenericString.createValue(self, False)
             value = makePrintable(self._raw_value, "ASCII")
-        elif self._charset:
-            value = makePrintable(self.value, "ISO-8859-1")
         else:
+            # Reading the value guesses the charset if it is still unknown
             value = self.value
+            if self._charset:
+                value = makePrintable(value, "ISO-8859-1")
         if config.max_string_length < len(value):
             # Truncate string if needed
             value = "%s(...)" % value[:config.max_string_length]
-- 
2.43.0


From 631edefa051055d53a59c5237fe3b04446fbbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 014/218] fix: use bit fields for raw data and padding not
 aligned on a byte

createRawField(), createPaddingField() and createNullField() created byte
fields, which can't be read at such an address: NullBytes broke the parser and
the others had no value.
---
 hachoir/field/generic_field_set.py | 10 +++++-----
 hachoir/field/helper.py            | 14 +++++++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..093c398 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -1,5 +1,5 @@
 from hachoir.field import (MissingField, BasicFieldSet, Field, ParserError,
-                           createRawField, createNullField, createPaddingField, FakeArray)
+                           createRawField, createNullField, createPaddingField, createOrphanField, FakeArray)
 from hachoir.core.dict import Dict, UniqKeyError
 from hachoir.core.tools import lowerBound, makeUnicode
 import hachoir.core.config as config
@@ -511,8 +511,8 @@ class GenericFieldSet(BasicFieldSet):
         size = address - old_field.address
         assert 0 <= size
         if 0 < size:
-            padding = createPaddingField(self, size)
-            padding._address = old_field.address
+            padding = createOrphanField(
+                self, old_field.address, createPaddingField, size)
             replace.append(padding)
 
         # Set fields address
@@ -525,8 +525,8 @@ class GenericFieldSet(BasicFieldSet):
         size = (old_field.address + old_field.size) - address
         assert 0 <= size
         if 0 < size:
-            padding = createPaddingField(self, size)
-            padding._address = address
+            padding = createOrphanField(
+                self, address, createPaddingField, size)
             replace.append(padding)
 
         self.replaceField(old_field.name, replace)
diff --git a/hachoir/field/helper.py b/hachoir/field/helper.py
index 4d7b7ca..820c2a3 100644
--- a/hachoir/field/helper.py
+++ b/hachoir/field/helper.py
@@ -6,10 +6,18 @@ from hachoir.field import (FieldError,
 from hachoir.stream import FileOutputStream
 
 
+def _isByteField(parent, nbits):
+    """
+    Is the next field of nbits bits made of whole bytes of the stream?
+    """
+    address = parent.absolute_address + parent.nextFieldAddress()
+    return (nbits % 8) == 0 and (address % 8) == 0
+
+
 def createRawField(parent, size, name="raw[]", description=None):
     if size <= 0:
         raise FieldError("Unable to create raw field of %s bits" % size)
-    if (size % 8) == 0:
+    if _isByteField(parent, size):
         return RawBytes(parent, name, size // 8, description)
     else:
         return RawBits(parent, name, size, description)
@@ -18,7 +26,7 @@ def createRawField(parent, size, name="raw[]", description=None):
 def createPaddingField(parent, nbits, name="padding[]", description=None):
     if nbits <= 0:
         raise FieldError("Unable to create padding of %s bits" % nbits)
-    if (nbits % 8) == 0:
+    if _isByteField(parent, nbits):
         return PaddingBytes(parent, name, nbits // 8, description)
     else:
         return PaddingBits(parent, name, nbits, description)
@@ -27,7 +35,7 @@ def createPaddingField(parent, nbits, name="padding[]", description=None):
 def createNullField(parent, nbits, name="padding[]", description=None):
     if nbits <= 0:
         raise FieldError("Unable to create null padding of %s bits" % nbits)
-    if (nbits % 8) == 0:
+    if _isByteField(parent, nbits):
         return NullBytes(parent, name, nbits // 8, description)
     else:
         return NullBits(parent, name, nbits, description)
-- 
2.43.0


From 7b1b29a82088599ff947ebd2d15f105967adc9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 015/218] fix: a path through a broken link is a missing field

It raised AttributeError instead of MissingField.
---
 hachoir/field/link.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..fa823de 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -21,6 +21,8 @@ class Link(Field):
 
     def _getField(self, name, const):
         target = self.value
+        if target is None:
+            return None
         assert self != target
         return target._getField(name, const)
 
-- 
2.43.0


From 39742b45587a3c82c47cbd2909bbd1ffaba9e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 016/218] fix: value of the "first" link of a fragment

---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index fa823de..595885a 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -95,7 +95,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From 94a39a1d4b15c203c6ab041dc028d4fc76562bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 017/218] fix: end of a seekable field set after a seek past
 its end

All fields were deleted, up to an IndexError (or a ValueError if there was no
field). A stream of unknown size raised AssertionError.
---
 hachoir/field/seekable_field_set.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..ef4dd39 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -57,16 +57,16 @@ class RootSeekableFieldSet(GenericFieldSet):
         message = ["stop parser"]
         self._field_generator = None
 
-        # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
-            message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
-
-        blocks = [(x.absolute_address, x.size) for x in self._fields]
+        # Delete fields after the end (the current position may be anywhere
+        # because of seeks)
+        for index in reversed(range(len(self._fields))):
+            field = self._fields.values[index]
+            if self._size < field.address + field.size:
+                self._deleteField(index)
+                message.append("delete field %s" % field.path)
+
+        blocks = [(x.absolute_address, x.size) for x in self._fields.values]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
@@ -83,11 +83,12 @@ class RootSeekableFieldSet(GenericFieldSet):
 
     def _stopFeeding(self):
         new_field = None
-        if self._size is None:
-            if self._parent:
-                self._size = self._current_size
+        if self._size is None and self._parent:
+            self._size = max([self._current_size] +
+                             [x.address + x.size for x in self._fields.values])
 
-        new_field = self._fixLastField()
+        if self._size is not None:
+            new_field = self._fixLastField()
         self._field_generator = None
         return new_field
 
-- 
2.43.0


From 01b48439b396904314439429736457d76879acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 018/218] fix: don't iterate forever on a field set which loses
 fields

Autofix may delete a field already yielded, if another part of the field set
is read during the iteration.
---
 hachoir/field/generic_field_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 093c398..be940c7 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -380,7 +380,7 @@ class GenericFieldSet(BasicFieldSet):
         try:
             done = 0
             while True:
-                if done == len(self._fields):
+                if done >= len(self._fields):
                     if self._field_generator is None:
                         break
                     self._addField(next(self._field_generator))
-- 
2.43.0


From 0fbe8b628f0d40b75483824fbc2ad6f5a65a6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 019/218] fix: don't read forever a truncated git pack

The search of the end of compressed data never stopped at the end of the
stream.
---
 hachoir/parser/misc/git_pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..fe07119 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -7,7 +7,7 @@ FIXME: there are probably still some endianness bugs in this parser.
 """
 
 from hachoir.parser import Parser
-from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger)
+from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger, ParserError)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.parser.common.deflate import Deflate
@@ -200,6 +200,8 @@ class ObjectEntry(FieldSet):
         while not decompressor.eof:
             max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
             num_bytes_to_read = min(1000, max_remaining_bytes)
+            if num_bytes_to_read <= 0:
+                raise ParserError("Unable to find the end of the compressed data")
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
             read_addr_in_bits += (len(bytes_read) * 8)
-- 
2.43.0


From 1b0eee9617aeef4e2210736ca8c9ae56029fab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 020/218] fix: get by its name a field added by autofix

The first access to such a field (eg. "unparsed[0]") failed if the field set
was not completely read before.
---
 hachoir/field/generic_field_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index be940c7..42da50b 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -338,6 +338,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        # Autofix may have added the field
+        if field_name in self._fields:
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From 48ab13eac88c8e5ca044cde9a182d57849a36acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 021/218] fix: iterate also on the field which stops the parser

---
 hachoir/field/generic_field_set.py | 44 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 42da50b..5b415a2 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -380,32 +380,28 @@ class GenericFieldSet(BasicFieldSet):
         Create a generator to iterate on each field, may create new
         fields when needed
         """
-        try:
-            done = 0
-            while True:
-                if done >= len(self._fields):
-                    if self._field_generator is None:
-                        break
+        done = 0
+        while True:
+            if done >= len(self._fields):
+                if self._field_generator is None:
+                    break
+                new_fields = None
+                try:
                     self._addField(next(self._field_generator))
-                for field in self._fields.values[done:]:
-                    yield field
-                    done += 1
-        except StopIteration:
-            field = self._stopFeeding()
-            if isinstance(field, Field):
+                except StopIteration:
+                    new_fields = self._stopFeeding()
+                except Exception as err:
+                    new_fields = self._fixFeedError(err)
+                    if new_fields is False:
+                        raise
+                # The last fields may have been replaced
+                if isinstance(new_fields, Field):
+                    done = min(done, len(self._fields) - 1)
+                elif new_fields:
+                    done = min(done, len(self._fields) - len(new_fields))
+            for field in self._fields.values[done:]:
                 yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-        except Exception as err:
-            field = self._fixFeedError(err)
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-            elif field is False:
-                raise
+                done += 1
 
     def _isDone(self):
         return (self._field_generator is None)
-- 
2.43.0


From c260c2827b361e511ac0b682bfa788fe5c1c5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 022/218] fix: number of the blocks of a ReiserFS bitmap

---
 hachoir/parser/file_system/reiser_fs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/reiser_fs.py b/hachoir/parser/file_system/reiser_fs.py
index da6ffde..09ead3e 100644
--- a/hachoir/parser/file_system/reiser_fs.py
+++ b/hachoir/parser/file_system/reiser_fs.py
@@ -34,13 +34,10 @@ class BlockState(Bit):
         False: "free"
     }
 
-    block_nb = 0
-
     def __init__(self, parent, name, nb_block):
         """@param nb_block: Number of the block concerned"""
         Bit.__init__(self, parent, name)
-        self.block_nb = self.__class__.block_nb
-        self.__class__.block_nb += 1
+        self.block_nb = nb_block
 
     def createDescription(self):
         return "State of the block %d" % self.block_nb
@@ -55,10 +52,16 @@ class BitmapBlock(SeekableFieldSet):
         the state of a block to tell if it is used or not.
     """
 
+    def __init__(self, parent, name, index, description=None):
+        """@param index: Index of this bitmap block"""
+        SeekableFieldSet.__init__(self, parent, name, description)
+        self.index = index
+
     def createFields(self):
         block_size = self["/superblock/blocksize"].value
 
-        for i in range(0, block_size * 8):
+        first = self.index * block_size * 8
+        for i in range(first, first + block_size * 8):
             yield BlockState(self, "block[]", i)
 
 
@@ -71,11 +74,11 @@ class BitmapBlockGroup(SeekableFieldSet):
         # Position of the first bitmap block
         self.seekByte(REISER_FS.SUPERBLOCK_OFFSET + block_size, relative=False)
 
-        yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+        yield BitmapBlock(self, "BitmapBlock[]", 0, "Bitmap blocks tells for each block if it is used")
         # The other bitmap blocks
         for i in range(1, nb_bitmap_block):
             self.seekByte((block_size**2) * 8 * i, relative=False)
-            yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+            yield BitmapBlock(self, "BitmapBlock[]", i, "Bitmap blocks tells for each block if it is used")
 
 
 class Journal_params(FieldSet):
-- 
2.43.0


From ac18c3eca348db2228c765270f02fecdf8390266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 023/218] fix: number of fields of a truncated vector

---
 hachoir/field/vector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/field/vector.py b/hachoir/field/vector.py
index fabb70e..31c8fc5 100644
--- a/hachoir/field/vector.py
+++ b/hachoir/field/vector.py
@@ -16,13 +16,10 @@ class GenericVector(FieldSet):
         self._item_name = item_name
         FieldSet.__init__(self, parent, name, description, size=size)
 
-    def __len__(self):
-        return self.__nb_items
-
     def createFields(self):
         name = self._item_name + "[]"
         parser = self._item_class
-        for index in range(len(self)):
+        for index in range(self.__nb_items):
             yield parser(self, name)
 
 
-- 
2.43.0


From 56219522a3f9333d20a4287054eae81c5d179e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 024/218] fix: delete quickly the last items of a field set

---
 hachoir/core/dict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..06bbc2e 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -141,18 +141,12 @@ class Dict(object):
             raise IndexError("list assignment index out of range (%s/%s)"
                              % (index, len(self._value_list)))
         del self._value_list[index]
+        del self._index[self._key_list[index]]
         del self._key_list[index]
 
-        # First loop which may alter self._index
-        for key, item_index in self._index.items():
-            if item_index == index:
-                del self._index[key]
-                break
-
-        # Second loop update indexes
-        for key, item_index in self._index.items():
-            if index < item_index:
-                self._index[key] -= 1
+        # Update the index of the next items
+        for key in self._key_list[index:]:
+            self._index[key] -= 1
 
     def insert(self, index, key, value):
         """
-- 
2.43.0


From dbabd48ea016bf44d74ab2f3e096419793e30b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 025/218] fix: filename suffix of a damaged file

---
 hachoir/parser/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..a202534 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,8 +124,12 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_extension = self.createFilenameSuffix()
-        return self._filename_extension
+            try:
+                self._filename_suffix = self.createFilenameSuffix()
+            except Exception as err:
+                self.error("Error when creating filename suffix: %s" % err)
+                self._filename_suffix = Parser.createFilenameSuffix(self)
+        return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
     @classmethod
-- 
2.43.0


From e507780cdfe5c040fcb930e52a059d3a00288f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 026/218] fix: number of items of an array after asking a
 missing item

---
 hachoir/field/fake_array.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..2b71285 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -25,7 +25,6 @@ class FakeArray:
             self.name = name
         self._format = "%s[%%u]" % self.name
         self._cache = {}
-        self._known_size = False
         self._max_index = -1
 
     def __bool__(self):
@@ -38,13 +37,12 @@ class FakeArray:
     def __len__(self):
         "Number of fields in the array"
         total = self._max_index + 1
-        if not self._known_size:
-            for index in itertools.count(total):
-                try:
-                    self[index]
-                    total += 1
-                except MissingField:
-                    break
+        for index in itertools.count(total):
+            try:
+                self[index]
+                total += 1
+            except MissingField:
+                break
         return total
 
     def __contains__(self, index):
@@ -62,11 +60,7 @@ class FakeArray:
         try:
             value = self._cache[index]
         except KeyError:
-            try:
-                value = self.fieldset[self._format % index]
-            except MissingField:
-                self._known_size = True
-                raise
+            value = self.fieldset[self._format % index]
             self._cache[index] = value
             self._max_index = max(index, self._max_index)
         return value
-- 
2.43.0


From 1125e1e3d4491d1b42fd81e4e2b470f9106adc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 027/218] fix: don't replace only a part of a field

replaceField() checked the name of each new field after having replaced
the field by the previous ones.
---
 hachoir/field/generic_field_set.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 5b415a2..1bd67d2 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -454,27 +454,26 @@ class GenericFieldSet(BasicFieldSet):
             raise ParserError("Unable to replace %s: "
                               "new field(s) hasn't same size (%u bits instead of %u bits)!"
                               % (name, total_size, old_field.size))
+        # Check all names before changing anything
+        used = set()
+        for field in new_fields:
+            if field._name.endswith("[]"):
+                self.setUniqueFieldName(field)
+            if (field.name != name and field.name in self._fields) \
+                    or field.name in used:
+                raise ParserError(
+                    "Unable to replace %s: name \"%s\" is already used!"
+                    % (name, field.name))
+            used.add(field.name)
         field = new_fields[0]
-        if field._name.endswith("[]"):
-            self.setUniqueFieldName(field)
         field._address = old_field.address
-        if field.name != name and field.name in self._fields:
-            raise ParserError(
-                "Unable to replace %s: name \"%s\" is already used!"
-                % (name, field.name))
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
             index = self._fields.index(new_fields[0].name) + 1
             address = field.address + field.size
             for field in new_fields[1:]:
-                if field._name.endswith("[]"):
-                    self.setUniqueFieldName(field)
                 field._address = address
-                if field.name in self._fields:
-                    raise ParserError(
-                        "Unable to replace %s: name \"%s\" is already used!"
-                        % (name, field.name))
                 self._fields.insert(index, field.name, field)
                 self.raiseEvent("field-inserted", index, field)
                 index += 1
-- 
2.43.0


From f06459190f4ad2a8af45e017be631fb21bea2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:36 +0000
Subject: [PATCH 028/218] fix: field at an address of a seekable field set

The fields of a seekable field set are not sorted by address (after a
seek backward, or because of the unparsed gaps added at the end), so the
binary search found other fields, or a field which doesn't hold the
address.
---
 hachoir/field/seekable_field_set.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index ef4dd39..68a8bde 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -46,6 +46,16 @@ class RootSeekableFieldSet(GenericFieldSet):
     def seekByte(self, address, relative=True):
         return self.seekBit(address * 8, relative)
 
+    def getFieldByAddress(self, address, feed=True):
+        # Fields are not sorted by address, and there may be gaps
+        # between fields
+        if feed and self._field_generator is not None:
+            self._feedAll()
+        for field in self._fields.values:
+            if field.address <= address < field.address + field.size:
+                return field
+        return None
+
     def _fixLastField(self):
         """
         Try to fix last field when we know current field set size.
-- 
2.43.0


From 77dfcd5bf4fa7981c10a674d0f2d603c176c04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 029/218] fix: packets of an Ogg logical stream

Packets used fragment.__next__ (2to3) instead of the next fragment, and
a page without data ended the stream or was not parsed.
---
 hachoir/parser/container/ogg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..97d680e 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -178,7 +178,7 @@ class Packets:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+            fragment = fragment.next
         if size:
             yield size * 8
 
@@ -210,7 +210,11 @@ class Segments(Fragment):
         try:
             while True:
                 index += 1
-                next = parent[index][self.name]
+                page = parent[index]
+                if self.name not in page:
+                    # Page without data
+                    continue
+                next = page[self.name]
                 if next.first is first:
                     return next
         except MissingField:
@@ -252,7 +256,9 @@ class OggPage(FieldSet):
         yield UInt8(self, 'lacing_size')
         if self.lacing_size:
             yield Lacing(self, "lacing", size=self.lacing_size * 8)
-            yield Segments(self, "segments", size=self._size - self._current_size)
+            size = self._size - self._current_size
+            if size:
+                yield Segments(self, "segments", size=size)
 
     def validate(self):
         if self['capture_pattern'].value != "OggS":
-- 
2.43.0


From 14cec9f4ef6e5647178a29f38c3a5d7635f6776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 030/218] fix: inflate the stored blocks and the repeat codes
 shared by both trees of a zlib stream

---
 hachoir/parser/archive/zlib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 302efbd..8e2d121 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -157,6 +157,7 @@ class DeflateBlock(FieldSet):
             # null stored blocks produced by some encoders (e.g. PIL)
             if self["len"].value:
                 yield RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                self.uncomp_data += self["data"].value
             return
         elif self["compression_type"].value == 1:  # Fixed Huffman
             length_tree = {}  # (size, huffman code): value
@@ -216,6 +217,10 @@ class DeflateBlock(FieldSet):
                             extrafield.value, num_repeats)
                         yield extrafield
                         lengths += [repvalue] * num_repeats
+                if name == "length":
+                    # a repeat code can go on with the distance codes
+                    distance_code_lengths += lengths[numcodes:]
+                    del lengths[numcodes:]
             length_tree = build_tree(length_code_lengths)
             distance_tree = build_tree(distance_code_lengths)
         else:
-- 
2.43.0


From d2ee3d7a562908e340925aee0c91934709318359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 031/218] fix: give the files of a CAB folder from its
 uncompressed data

---
 hachoir/parser/archive/cab.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..45d71c8 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -163,13 +163,13 @@ class FolderData(FieldSet):
             if folder["compr_method"].value == 3:  # LZX
                 self.uncompressed_data = lzx_decompress(
                     self["block[0]/data"].getSubIStream(), folder["compr_level"].value)
-            return StringInputStream(self.uncompressed_data, source=source, **args)
+            return StringInputStream(bytes(self.uncompressed_data), source=source, **args)
         self.setSubIStream(createInputStream)
         self.files = files
         self.folder = folder  # Folder fieldset
 
     def createFields(self):
-        self.uncompressed_data = ""
+        self.uncompressed_data = bytearray()
         for index in range(self.folder["data_blocks"].value):
             block = DataBlock(self, "block[]")
             for i in block:
@@ -246,16 +246,16 @@ class CabFile(Parser):
             padding = self.seekByte(folder["offset"].value)
             if padding:
                 yield padding
-            files = []
+            folder_files = []
             for file in files:
                 if file["folder_index"].value == index:
-                    files.append(file)
+                    folder_files.append(file)
             if i + 1 == len(folders):
                 size = (self.size // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, files, size=size * 8)
+            yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 681a073676e67fc7bcaa22d3410a69b5df95d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 032/218] fix: read the whole content of bzip2 files and of PNG
 image data

---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 hachoir/parser/image/png.py            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..b52b174 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 19a99be..84c189f 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -34,8 +34,8 @@ try:
 
         def __call__(self, size, data=None):
             if data is None:
-                data = self.gzip.unconsumed_tail
-            return self.gzip.decompress(data, size)
+                data = b''
+            return self.gzip.decompress(self.gzip.unconsumed_tail + data, size)
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From a55e2911f6968bbd21de782bf3d8e585308e264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 033/218] fix: find the content of the entries of a streamed
 ZIP file

---
 hachoir/parser/archive/zip.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..6695caa 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -275,23 +275,26 @@ class FileEntry(FieldSet):
             return compressed
 
     def resync(self):
-        # Non-seekable output, search the next data descriptor
-        size = self.stream.searchBytesLength(ZipDataDescriptor.HEADER_STRING, False,
-                                             self.absolute_address + self.current_size)
-        if size <= 0:
-            raise ParserError("Couldn't resync to %s" %
-                              ZipDataDescriptor.HEADER_STRING)
-        yield self.data(size)
+        # Non-seekable output, search the next data descriptor: the one which
+        # gives the size of the data before it
+        start = self.absolute_address + self.current_size
+        address = start
+        while True:
+            address = self.stream.searchBytes(ZipDataDescriptor.HEADER_STRING,
+                                              address)
+            if address is None:
+                raise ParserError("Couldn't resync to %s" %
+                                  ZipDataDescriptor.HEADER_STRING)
+            size = (address - start) // 8
+            if self.stream.readBits(address + 64, 32, LITTLE_ENDIAN) == size:
+                break
+            address += 8
+        if size:
+            yield self.data(size)
         yield textHandler(UInt32(self, "header[]", "Header"), hexadecimal)
         data_desc = ZipDataDescriptor(self, "data_desc", "Data descriptor")
         # self.info("Resynced!")
         yield data_desc
-        # The above could be checked anytime, but we prefer trying parsing
-        # than aborting
-        if self["crc32"].value == 0 and \
-                data_desc["file_compressed_size"].value != size:
-            raise ParserError("Bad resync: position=>%i but data_desc=>%i" %
-                              (size, data_desc["file_compressed_size"].value))
 
     def createFields(self):
         yield from ZipStartCommonFields(self)
@@ -308,8 +311,10 @@ class FileEntry(FieldSet):
         size = self["compressed_size"].value
         if size > 0:
             yield self.data(size)
-        elif self["flags/incomplete"].value:
+        elif (self["flags/incomplete"].value
+              or (self["flags/has_descriptor"].value and self['crc32'].value == 0)):
             yield from self.resync()
+            return
         if self["flags/has_descriptor"].value and self['crc32'].value == 0:
             yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
 
-- 
2.43.0


From ee58993e70083b06133f82b66ee23c879bc9ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 034/218] fix: start the LZX frames on 16 bits, don't translate
 a jump twice

---
 hachoir/parser/archive/lzx.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/archive/lzx.py b/hachoir/parser/archive/lzx.py
index b321779..ad4d36b 100644
--- a/hachoir/parser/archive/lzx.py
+++ b/hachoir/parser/archive/lzx.py
@@ -147,7 +147,6 @@ class LZXBlock(FieldSet):
         self.window_size = self.WINDOW_SIZE[self.compression_level]
         self.block_type = self["block_type"].value
         curlen = len(self.parent.uncompressed_data)
-        intel_started = False  # Do we perform Intel jump fixups on this block?
 
         if self.block_type in (1, 2):  # Verbatim or aligned offset block
             if self.block_type == 2:
@@ -160,12 +159,13 @@ class LZXBlock(FieldSet):
             main_tree = build_tree(
                 self["main_tree_start"].lengths + self["main_tree_rest"].lengths)
             if self["main_tree_start"].lengths[0xE8]:
-                intel_started = True
+                self.parent.intel_started = True
             yield LZXPreTreeEncodedTree(self, "length_tree", 249)
             length_tree = build_tree(self["length_tree"].lengths)
             current_decoded_size = 0
             while current_decoded_size < self.uncompressed_size:
-                if (curlen + current_decoded_size) % 32768 == 0 and (curlen + current_decoded_size) != 0:
+                # (at the start of the block, LZXStream did it)
+                if (curlen + current_decoded_size) % 32768 == 0 and current_decoded_size != 0:
                     padding = paddingSize(self.address + self.current_size, 16)
                     if padding:
                         yield PaddingBits(self, "padding[]", padding)
@@ -257,7 +257,7 @@ class LZXBlock(FieldSet):
             else:
                 yield PaddingBits(self, "padding[]", 16)
             self.endian = LITTLE_ENDIAN
-            intel_started = True  # apparently intel fixup may be needed on uncompressed blocks?
+            self.parent.intel_started = True  # apparently intel fixup may be needed on uncompressed blocks?
             yield UInt32(self, "r[]", "New value of R0")
             yield UInt32(self, "r[]", "New value of R1")
             yield UInt32(self, "r[]", "New value of R2")
@@ -276,15 +276,16 @@ class LZXBlock(FieldSet):
         self.parent._lzx_window = self.parent._lzx_window[-(1 << self.root.compr_level):]
 
         if (
-            intel_started
+            self.parent.intel_started  # by this block or by a previous one
             and self.parent["filesize_indicator"].value
             and self.parent["filesize"].value > 0
         ):
             # Note that we're decoding a block-at-a-time instead of a frame-at-a-time,
             # so we need to handle the frame boundaries carefully.
             filesize = self.parent["filesize"].value
-            start_pos = max(0, curlen - 10)  # We may need to correct something from the last block
-            end_pos = len(self.parent.uncompressed_data) - 10
+            # We may need to correct something from the last block, but not the offset of its last jump
+            start_pos = max(0, curlen - 10, self.parent.intel_pos)
+            end_pos = max(0, len(self.parent.uncompressed_data) - 10)
             while 1:
                 jmp_pos = self.parent.uncompressed_data.find(b"\xE8", start_pos, end_pos)
                 if jmp_pos == -1:
@@ -301,6 +302,7 @@ class LZXBlock(FieldSet):
                         rel_off = abs_off - jmp_pos
                     self.parent.uncompressed_data[jmp_pos + 1:jmp_pos + 5] = struct.pack("<i", rel_off)
                 start_pos = jmp_pos + 5
+            self.parent.intel_pos = start_pos
 
 
 class LZXStream(Parser):
@@ -312,16 +314,21 @@ class LZXStream(Parser):
         self.r0 = 1
         self.r1 = 1
         self.r2 = 1
+        self.intel_started = False  # Do we perform Intel jump fixups?
+        self.intel_pos = 0
         yield Bit(self, "filesize_indicator")
         if self["filesize_indicator"].value:
             yield UInt32(self, "filesize")
         while self.current_size < self.size:
             block = LZXBlock(self, "block[]")
             yield block
-            if self.size - self.current_size < 16:
+            end = self.size - self.current_size < 16
+            # each frame starts on a multiple of 16 bits
+            if end or len(self.uncompressed_data) % 32768 == 0:
                 padding = paddingSize(self.address + self.current_size, 16)
                 if padding:
                     yield PaddingBits(self, "padding[]", padding)
+            if end:
                 break
 
 
-- 
2.43.0


From 20ec150ce09c007c1f2c0fdd4f512b91deae1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 035/218] fix: repeat the null length before a repeat code of a
 zlib tree

---
 hachoir/parser/archive/zlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 8e2d121..094cb11 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -206,7 +206,7 @@ class DeflateBlock(FieldSet):
                         if value == 16:
                             repvalue = prev_value
                         else:
-                            repvalue = 0
+                            repvalue = prev_value = 0
                         field._description = "Repeat Code %i, Repeating value (%i) %i to %i times (Huffman Code %i)" % (
                             value, repvalue, info[0], info[1], field.value)
                         yield field
-- 
2.43.0


From c0a8edadff837a77c374dabc99eb2c7ef97bc571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 036/218] fix: inflate all the deflate blocks of a MSZIP data
 block

---
 hachoir/parser/archive/cab.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 45d71c8..8b90d0c 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -119,11 +119,15 @@ class DataBlock(FieldSet):
             self.parent.uncompressed_data += self["data"].value
         elif compr_method == 1:  # MSZIP
             yield String(self, "mszip_signature", 2, "MSZIP Signature (CK)")
-            yield DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            while True:
+                block = DeflateBlock(self, "deflate_block[]", self.parent.uncompressed_data)
+                yield block
+                self.parent.uncompressed_data = block.uncomp_data
+                if block["final"].value:
+                    break
             padding = paddingSize(self.current_size, 8)
             if padding:
                 yield PaddingBits(self, "padding[]", padding)
-            self.parent.uncompressed_data = self["deflate_block"].uncomp_data
         elif compr_method == 2:  # Quantum
             yield RawBytes(self, "compr_data", self["size"].value, "Compressed Folder Data")
         elif compr_method == 3:  # LZX
-- 
2.43.0


From ec8dd59e1944663d73169075dda75a0914108a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 037/218] fix: save the unaligned field sets of an editor

---
 hachoir/editor/fieldset.py |  2 +-
 hachoir/stream/output.py   | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..0ad3ab2 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -277,7 +277,7 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
+            if input.size % 8 or input.absolute_address % 8:
                 output.copyBitsFrom(input.stream,
                                     input.absolute_address, input.size, input.endian)
             else:
diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 11400f3..48d907d 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -111,11 +111,12 @@ class OutputStream(object):
         if (nb_bits % 8) == 0 and (address % 8) == 0 and (self._bit_pos % 8) == 0:
             self.copyBytesFrom(input, address, nb_bits // 8)
         else:
-            # Arbitrary limit (because we should use a buffer, like copyBytesFrom(),
-            # but with endianess problem
-            assert nb_bits <= config.max_bit_length
-            data = input.readBits(address, nb_bits, endian)
-            self.writeBits(nb_bits, data, endian)
+            while 0 < nb_bits:
+                count = min(nb_bits, config.max_bit_length)
+                data = input.readBits(address, count, endian)
+                self.writeBits(count, data, endian)
+                address += count
+                nb_bits -= count
 
     def copyBytesFrom(self, input, address, nb_bytes):
         if (address % 8):
-- 
2.43.0


From 076a66edf4e0304bdd02b9cb5ba9facb5975d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 038/218] fix: set and create any editable field

---
 hachoir/editor/typed_field.py | 67 ++++++++++++++++++-----------------
 hachoir/stream/output.py      |  3 ++
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..6b49884 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -112,6 +112,12 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, value=None):
+        EditableField.__init__(self, parent, name)
+        if value is not None:
+            self._setValue(value)
+            self._is_altered = True
+
     def _setValue(self, value):
         if not value:
             raise ValueError(
@@ -133,16 +139,11 @@ class EditableString(EditableField):
     }
 
     def __init__(self, parent, name, *args, **kw):
-        if len(args) == 2:
-            value = args[1]
-            assert isinstance(value, bytes)  # TODO: support Unicode
-        elif not args:
-            value = None
-        else:
+        if len(args) not in (0, 2):
             raise TypeError(
                 "Wrong argument count, EditableString constructor prototype is:"
                 "(parent, name, [format, value])")
-        EditableField.__init__(self, parent, name, value)
+        EditableField.__init__(self, parent, name)
         if len(args) == 2:
             self._charset = kw.get('charset', None)
             self._format = args[0]
@@ -152,6 +153,7 @@ class EditableString(EditableField):
                 self._prefix_size = 0
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._setValue(args[1])
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
@@ -161,10 +163,12 @@ class EditableString(EditableField):
             self._suffix_str = orig.suffix_str
 
     def _setValue(self, value):
+        if isinstance(value, str):
+            value = value.encode(self._charset or "ASCII")
+        assert isinstance(value, bytes)
         size = len(value)
         if self._format in self.MAX_SIZE and self.MAX_SIZE[self._format] < size:
             raise ValueError("String is too big")
-        assert isinstance(value, bytes)
         self._value = value
 
     def _computeSize(self):
@@ -181,48 +185,40 @@ class EditableString(EditableField):
             size = GenericString.PASCAL_FORMATS[self._format]
             output.writeInteger(len(self._value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+            output.writeBytes(self._value)
 
 
 class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
             value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
+            self._checkValue(value)
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 8)
         if args:
             self._is_altered = True
 
-    def _setValue(self, value):
+    def _checkValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if ord(value) > 255:
+            raise ValueError("EditableCharacter needs a 8-bit character")
+
+    def _setValue(self, value):
+        self._checkValue(value)
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(self._size, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -235,19 +231,21 @@ class EditableInteger(EditableFixedField):
         else:
             size = None
             value = None
-        EditableFixedField.__init__(self, parent, name, value, size)
+        EditableFixedField.__init__(self, parent, name, None, size)
         if args:
             self._signed = args[0]
+            self._setValue(value)
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
@@ -255,7 +253,7 @@ class EditableInteger(EditableFixedField):
 
     def _write(self, output):
         output.writeInteger(
-            self.value, self._signed, self._size // 8, self._parent.endian)
+            self._value, self._signed, self._size // 8, self._parent.endian)
 
 
 class EditableTimestampMac32(EditableFixedField):
@@ -263,7 +261,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
@@ -271,7 +269,10 @@ class EditableTimestampMac32(EditableFixedField):
             assert isinstance(value, datetime)
         else:
             value = None
-        EditableFixedField.__init__(self, parent, name, value, 32)
+        EditableFixedField.__init__(self, parent, name, None, 32)
+        if args:
+            self._setValue(value)
+            self._is_altered = True
 
     def _setValue(self, value):
         if not (self.minval <= value <= self.maxval):
diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 48d907d..b3b9a3e 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -104,6 +104,9 @@ class OutputStream(object):
         if signed and value < 0:
             # Two's complement
             value += 1 << (size_byte * 8)
+        if self._bit_pos != 0:
+            self.writeBits(size_byte * 8, value, endian)
+            return
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From c0867d1c48fe4dfc42655fd524e925754099f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:04 +0000
Subject: [PATCH 039/218] fix: insert fields of an editor where they are asked

---
 hachoir/editor/fieldset.py | 55 +++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 0ad3ab2..951a73b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
@@ -78,6 +78,8 @@ class EditableFieldSet(object):
         # Set unique field name
         for field in new_fields:
             if field._name.endswith("[]"):
+                # Read all fields, to not take their names
+                len(self.input)
                 self.input.setUniqueFieldName(field)
 
         # Check that there is no duplicate in inserted fields
@@ -102,15 +104,8 @@ class EditableFieldSet(object):
                     raise UniqKeyError(
                         "Field name '%s' already exists" % field.name)
 
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
-
         # Whould like to insert in inserted fields?
+        after = False
         if key:
             for fields in self._inserted.values():
                 names = [item.name for item in fields]
@@ -126,20 +121,25 @@ class EditableFieldSet(object):
                     fields.rotate(pos)
                     return
 
+            # Check that the field is in input
+            if key not in self.input:
+                raise MissingField(self, key)
+
             # Get next field. Use None if we are at the end.
             if next:
+                after = True
                 index = self.input[key].index + 1
-                try:
+                if index < len(self.input):
                     key = self.input[index].name
-                except IndexError:
+                else:
                     key = None
 
-            # Check that field names are not in input
-            if key not in self.input:
-                raise MissingField(self, key)
-
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+        # Insert in original input: next to the field
+        fields = self._inserted.setdefault(key, deque())
+        if after:
+            fields.extendleft(reversed(new_fields))
+        else:
+            fields.extend(new_fields)
 
     def _getDescription(self):
         return self.input.description
@@ -238,10 +238,10 @@ class EditableFieldSet(object):
         May raise a MissingField error if the field doesn't exist in original
         field set or it has been deleted.
         """
-        if "/" in key:
-            return self._getItemByPath(key.split("/"))
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
+        if "/" in key:
+            return self._getItemByPath(key.split("/"))
 
         if (key in self._deleted) or (key not in self.input):
             raise MissingField(self, key)
@@ -263,7 +263,7 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        if (name in self._deleted) or (name not in self.input):
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
@@ -302,7 +302,8 @@ class EditableFloat(EditableFieldSet):
     _value = None
 
     def _isAltered(self):
-        return (self._value is not None)
+        return (self._value is not None) \
+            or EditableFieldSet._isAltered(self)
     is_altered = property(_isAltered)
 
     def writeInto(self, output):
@@ -317,9 +318,15 @@ class EditableFloat(EditableFieldSet):
         output.writeBytes(raw)
 
     def _setValue(self, value):
-        self.parent._is_altered = True
+        # Check the value
+        struct.pack(self.input.struct_format, value)
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
@@ -342,7 +349,7 @@ class NewFieldSet(EditableFieldSet):
         if None in self._inserted:
             return iter(self._inserted[None])
         else:
-            raise StopIteration()
+            return iter(())
 
     def _getName(self):
         return self._name
-- 
2.43.0


From cfe54513269492bf3b8df576dbc5f15a4689ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 040/218] fix: give a new field set of an editor its length and
 its names

---
 hachoir/editor/fieldset.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 951a73b..6333130 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,5 +1,5 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
+from hachoir.field import MissingField, Float32, Float64, FakeArray, joinPath
 from hachoir.editor import createEditableField, EditorError
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
@@ -78,9 +78,7 @@ class EditableFieldSet(object):
         # Set unique field name
         for field in new_fields:
             if field._name.endswith("[]"):
-                # Read all fields, to not take their names
-                len(self.input)
-                self.input.setUniqueFieldName(field)
+                self._setUniqueFieldName(field)
 
         # Check that there is no duplicate in inserted fields
         new_names = list(field.name for field in new_fields)
@@ -122,7 +120,7 @@ class EditableFieldSet(object):
                     return
 
             # Check that the field is in input
-            if key not in self.input:
+            if self.input is None or key not in self.input:
                 raise MissingField(self, key)
 
             # Get next field. Use None if we are at the end.
@@ -141,6 +139,11 @@ class EditableFieldSet(object):
         else:
             fields.extend(new_fields)
 
+    def _setUniqueFieldName(self, field):
+        # Read all fields, to not take their names
+        len(self.input)
+        self.input.setUniqueFieldName(field)
+
     def _getDescription(self):
         return self.input.description
     description = property(_getDescription)
@@ -243,7 +246,7 @@ class EditableFieldSet(object):
         if "/" in key:
             return self._getItemByPath(key.split("/"))
 
-        if (key in self._deleted) or (key not in self.input):
+        if (key in self._deleted) or self.input is None or (key not in self.input):
             raise MissingField(self, key)
         if key not in self._fields:
             field = self.input[key]
@@ -263,7 +266,7 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if (name in self._deleted) or (name not in self.input):
+        if (name in self._deleted) or self.input is None or (name not in self.input):
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
@@ -344,6 +347,20 @@ class NewFieldSet(EditableFieldSet):
         EditableFieldSet.__init__(self, parent, None)
         self._name = name
         self._endian = parent.endian
+        self._array_count = {}
+
+    def __len__(self):
+        return len(self._inserted.get(None, ()))
+
+    def _setUniqueFieldName(self, field):
+        key = field._name[:-2]
+        index = self._array_count.get(key, 0)
+        self._array_count[key] = index + 1
+        field._name = "%s[%u]" % (key, index)
+
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
 
     def __iter__(self):
         if None in self._inserted:
-- 
2.43.0


From 887987f428b5a37e0afec17284f4a1a8c6fb5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 041/218] fix: sum bytes for the checksum of a stripped tar
 file

---
 hachoir/strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..eae7729 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -180,7 +180,7 @@ class TarStripper(BasicStripper):
         stream = StringOutputStream()
         file.writeInto(stream)
         data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
+        checksum = sum(data)
         file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
 
     def stripFile(self, file):
-- 
2.43.0


From 09fc7c623578a26e80d78238f356e4accee421a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 042/218] fix: strip compressed and international PNG texts and
 repeated metadata chunks

---
 hachoir/strip.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index eae7729..bc367e8 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -28,6 +28,14 @@ STRIP_METADATA = 0x02   # Timestamp, author, producter, comment, etc.
 STRIP_INDEX = 0x04      # Index in video
 
 
+def baseName(field):
+    """
+    Name of a field without its index: a chunk which should be unique but is
+    found again has an index.
+    """
+    return field.name.partition("[")[0]
+
+
 class BasicStripper:
 
     def __init__(self, editor, level, verbose=False):
@@ -85,11 +93,7 @@ class PngStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            name = field.name
-            if name.startswith("text["):
-                return True
-            if name == "time":
-                return True
+            return baseName(field) in ("text", "utf8_text", "comp_text", "time")
         return False
 
 
@@ -97,9 +101,7 @@ class JpegStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            if field.name.startswith("comment"):
-                return True
-            return field.name in ("photoshop", "exif", "adobe")
+            return baseName(field) in ("comment", "photoshop", "exif", "adobe")
         return False
 
 
@@ -107,7 +109,7 @@ class MpegAudioStripper(CheckStripper):
 
     def checkField(self, field):
         if self.level & STRIP_METADATA:
-            return field.name in ("id3v1", "id3v2")
+            return baseName(field) in ("id3v1", "id3v2")
         return False
 
 
@@ -128,7 +130,7 @@ class RiffStripper(BasicStripper):
         remove = []
         total = 0
         for field in editor:
-            if field.name in names:
+            if baseName(field) in names:
                 remove.append(field)
                 continue
             try:
-- 
2.43.0


From 9f148d7d1a117b40ad1f1ba592ab60e0e23dae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 043/218] fix: escape the special characters of the range of a
 regex

---
 hachoir/regex/parser.py | 24 ++++++++++++------------
 hachoir/regex/regex.py  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 234c935..f119969 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -30,6 +30,11 @@ def parseRange(text, start):
     >>> parseRange(r'[a\-x]', 1)
     (<RegexRange '[ax-]'>, 6)
     """
+    def parseChar(index):
+        if text[index] == '\\' and index + 1 < len(text):
+            index += 1
+        return text[index], index + 1
+
     index = start
     char_range = []
     exclude = False
@@ -41,21 +46,16 @@ def parseRange(text, start):
         index += 1
     while index < len(text) and text[index] != ']':
         if index + 1 < len(text) \
-                and text[index] == '\\':
-            char_range.append(RegexRangeCharacter(text[index + 1]))
-            index += 2
-        elif index + 1 < len(text) \
                 and text[index] == '-' and text[index + 1] == ']':
             break
-        elif index + 3 < len(text) \
-                and text[index + 1] == '-' \
-                and text[index + 2] != ']':
-            char_range.append(RegexRangeItem(
-                ord(text[index]), ord(text[index + 2])))
-            index += 3
+        cmin, index = parseChar(index)
+        if index + 2 < len(text) \
+                and text[index] == '-' \
+                and text[index + 1] != ']':
+            cmax, index = parseChar(index + 1)
+            char_range.append(RegexRangeItem(ord(cmin), ord(cmax)))
         else:
-            char_range.append(RegexRangeCharacter(text[index]))
-            index += 1
+            char_range.append(RegexRangeCharacter(cmin))
     if index < len(text) and text[index] == '-':
         char_range.append(RegexRangeCharacter('-'))
         index += 1
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..77bbafa 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -447,9 +447,12 @@ class RegexRangeItem:
         return (self.cmin <= value.cmin) and (value.cmax <= self.cmax)
 
     def __str__(self, **kw):
-        cmin = chr(self.cmin)
+        if self.cmin == self.cmax and chr(self.cmin) in "]-":
+            # RegexRange moves them where they need no antislash
+            return chr(self.cmin)
+        cmin = self.escape(self.cmin)
         if self.cmin != self.cmax:
-            cmax = chr(self.cmax)
+            cmax = self.escape(self.cmax)
             if (self.cmin + 1) == self.cmax:
                 return "%s%s" % (cmin, cmax)
             else:
@@ -457,6 +460,13 @@ class RegexRangeItem:
         else:
             return cmin
 
+    @staticmethod
+    def escape(code):
+        char = chr(code)
+        if char in "\\^]-":
+            return "\\" + char
+        return char
+
     def __repr__(self):
         return "<RegexRangeItem %u-%u>" % (self.cmin, self.cmax)
 
-- 
2.43.0


From 263f1992d052263c4902e2057f59b18c6a23e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 044/218] fix: don't change a regex when something is added
 after it

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 77bbafa..92b9e01 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -660,8 +660,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From 54ffa2b504f12af73df79f0ccae0bde126595e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 045/218] fix: find the pattern which matches the whole text
 found

---
 hachoir/regex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..99a282b 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -44,7 +44,7 @@ class RegexPattern(Pattern):
         return "<RegexPattern '%s'>" % self
 
     def match(self, data):
-        return self.compiled_regex.match(data)
+        return self.compiled_regex.fullmatch(data)
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-- 
2.43.0


From 00bc8ccfc9d17f8334175c0e5d9fa66b0cfd6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 046/218] fix: keep the newline which the dot of a regex
 doesn't match

---
 hachoir/regex/regex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 92b9e01..ca0cf73 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -329,10 +329,12 @@ class RegexDot(Regex):
         return '.'
 
     def _match(self, other):
+        # The dot matches any character but a newline
         if other.__class__ == RegexRange:
-            return True
+            newline = RegexRangeCharacter("\n")
+            return any(newline in item for item in other.ranges) == other.exclude
         if other.__class__ == RegexString and len(other.text) == 1:
-            return True
+            return other.text != "\n"
         return False
 
     def _eq(self, other):
-- 
2.43.0


From a27576e94216d3f4135a5c35c396fb7ab23b0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 047/218] fix: an excluded character of a regex is not a single
 value

---
 hachoir/regex/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index ca0cf73..5f6a97d 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -59,7 +59,8 @@ def matchSingleValue(regex):
     if cls == RegexAnd:
         return all(matchSingleValue(item) for item in regex)
     if cls == RegexRange:
-        return len(regex.ranges) == 1 and len(regex.ranges[0]) == 1
+        return (not regex.exclude
+                and len(regex.ranges) == 1 and len(regex.ranges[0]) == 1)
     return False
 
 
-- 
2.43.0


From 9f6044ac0add035041e1e451827fb7d5086683c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 048/218] fix: simplify the repetitions of a regex only if the
 result is the same

---
 hachoir/regex/regex.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 5f6a97d..ec65794 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -794,8 +794,9 @@ def optimizeRepeatOr(rmin, rmax, regex):
         if cls == RegexRepeat:
             if item.min == 0:
                 if rmin in (0, 1):
-                    if rmax is item.max is None:
+                    if (rmax is item.max is None) or item.max == 1:
                         # (a*|b){x,} => (a|b){x,}
+                        # (a?|b){0,y} => (a|b){0,y}
                         item = item.regex
                     else:
                         # (a{0,p}|b){x,} => (a{1,p}|b){x,}
@@ -836,7 +837,14 @@ class RegexRepeat(Regex):
             cls = regex.__class__
             if cls == RegexRepeat:
                 # (a{n,p}){x,y) => a{n*x,p*y}
-                if not (rmin == 0 and rmax == 1):
+                # only if all lengths from n*x to p*y are possible
+                if rmin == rmax:
+                    all_lengths = True
+                elif regex.max is None:
+                    all_lengths = (1 <= rmin or regex.min <= 1)
+                else:
+                    all_lengths = (regex.min - 1 <= rmin * (regex.max - regex.min))
+                if all_lengths and not (rmin == 0 and rmax == 1):
                     rmin *= regex.min
                     if regex.max and rmax:
                         rmax *= regex.max
@@ -877,16 +885,23 @@ class RegexRepeat(Regex):
             return None
 
     def maxLength(self):
-        if self.max is not None:
-            return self.regex.maxLength() * self.max
+        length = self.regex.maxLength()
+        if length == 0:
+            return 0
+        if self.max is not None and length is not None:
+            return length * self.max
         else:
             return None
 
     def _str(self, **kw):
-        text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
+        text = self.regex.__str__(**kw)
+        if self.regex.__class__ in (RegexAnd, RegexRepeat) \
+                or isinstance(self.regex, RegexEmpty) \
                 or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
-            text = "(%s)" % text
+            if kw.get('python', False):
+                text = "(?:%s)" % text
+            else:
+                text = "(%s)" % text
         if self.min == 0 and self.max == 1:
             return "%s?" % text
         if self.min == self.max:
-- 
2.43.0


From 79ae269923ee14f3c8780d87ace199ab5d472e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 049/218] fix: declare the signature of Git pack, PDF and CR2
 where the file has it

The search of subfiles crashed on the incomplete entry of git_pack, and
couldn't find the two other formats because offsets are in bits.
---
 hachoir/parser/image/cr2.py     | 2 +-
 hachoir/parser/misc/git_pack.py | 2 +-
 hachoir/parser/misc/pdf.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..c7c5866 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -43,7 +43,7 @@ class CR2File(RootSeekableFieldSet, Parser):
         "file_ext": ("cr2",),
         "mime": ("image/x-canon-cr2",),
         "min_size": 15,
-        "magic": ((b"CR", 8),),
+        "magic": ((b"CR", 8 * 8),),
         "description": "Canon CR2 raw image data, version 2.0"
     }
 
diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index fe07119..25cc10e 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -218,7 +218,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b"PACK", 0),),
         "description": "Git pack file",
     }
 
diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 73c491e..b864f2b 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -484,7 +484,7 @@ class PDFDocument(Parser):
         "file_ext": ("pdf",),
         "mime": ("application/pdf",),
         "min_size": (5 + 4) * 8,
-        "magic": ((MAGIC, 5),),
+        "magic": ((MAGIC, 0),),
         "description": "Portable Document Format (PDF) document"
     }
 
-- 
2.43.0


From b5607ce754f2bd80725d399fc50d083c2b1e9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:09 +0000
Subject: [PATCH 050/218] fix: duration in the description of an AVI file

The frame duration is in microseconds, it was multiplied as seconds.
---
 hachoir/parser/container/riff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 6e7956a..3d7bd0d 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -445,8 +445,8 @@ class RiffFile(Parser):
                 if microsec:
                     desc += ", %.1f fps" % (1000000.0 / microsec)
                     if "total_frame" in header and header["total_frame"].value:
-                        delta = timedelta(seconds=float(
-                            header["total_frame"].value) * microsec)
+                        delta = timedelta(
+                            microseconds=header["total_frame"].value * microsec)
                         desc += ", " + humanDuration(delta)
             return desc
         else:
-- 
2.43.0


From 1188accd4630a5d77d16d52fe7f7f0a504f0ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 051/218] fix: SearchSubfile.main() loads the parsers if
 loadParsers() wasn't called

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From c7f3e7bb861195b9d290443d8496e9a4e0c2a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 052/218] fix: find the magic strings which cross the end of a
 slice in a subfile search

---
 hachoir/subfile/pattern.py |  2 +-
 hachoir/subfile/search.py  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..0b52d1c 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -33,4 +33,4 @@ class HachoirPatternMatching(PatternMatching):
 
     def search(self, data):
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (item.user[1], start * 8 - item.user[0])
+            yield (item.user[1], start * 8 - item.user[0], start * 8)
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..0cf5c83 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,14 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # Also read the end of a magic string which starts in this slice
+        overlap = max(self.patterns.max_length - 1, 0) * 8
+        data_end = min(end + overlap, self.size)
+        data = self.stream.readBytes(start, (data_end - start) // 8)
+        for parser_cls, offset, magic_pos in self.patterns.search(data):
+            # The next slice starts with this magic string
+            if end <= start + magic_pos:
+                break
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From 1b3585b9d0975ddb1455dac5a654adf7a1ed8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 053/218] fix: try all parsers having the same magic string in
 a subfile search

---
 hachoir/subfile/pattern.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index 0b52d1c..37f034f 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -23,14 +23,20 @@ class HachoirPatternMatching(PatternMatching):
         # Create string patterns
         for parser in parser_list:
             for (magic, offset) in parser.getParserTags().get("magic", ()):
-                self.addString(magic.decode('latin1'), (offset, parser))
+                magic = magic.decode('latin1')
+                if magic in self.string_dict:
+                    # Two parsers with the same magic string
+                    self.string_dict[magic].user.append((offset, parser))
+                else:
+                    self.addString(magic, [(offset, parser)])
 
         # Create regex patterns
         for parser in parser_list:
             for (regex, offset) in parser.getParserTags().get("magic_regex", ()):
-                self.addRegex(regex.decode('latin1'), (offset, parser))
+                self.addRegex(regex.decode('latin1'), [(offset, parser)])
         self.commit()
 
     def search(self, data):
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (item.user[1], start * 8 - item.user[0], start * 8)
+            for offset, parser in item.user:
+                yield (parser, start * 8 - offset, start * 8)
-- 
2.43.0


From 34b6219104d707926c84ce9eea051bea88b05f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:47 +0000
Subject: [PATCH 054/218] fix: the dot of magic_regex matches a newline byte

---
 hachoir/regex/pattern.py   | 12 ++++++++----
 hachoir/regex/regex.py     |  4 ++--
 hachoir/subfile/pattern.py |  4 ++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index 99a282b..fab4e84 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -32,9 +32,10 @@ class RegexPattern(Pattern):
     Regular expression pattern
     """
 
-    def __init__(self, regex, user=None):
+    def __init__(self, regex, user=None, flags=0):
         Pattern.__init__(self, user)
         self.regex = parse(regex)
+        self.flags = flags
         self._compiled_regex = None
 
     def __str__(self):
@@ -48,7 +49,7 @@ class RegexPattern(Pattern):
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-            self._compiled_regex = self.regex.compile(python=True)
+            self._compiled_regex = self.regex.compile(self.flags, python=True)
         return self._compiled_regex
     compiled_regex = property(_getCompiledRegex)
 
@@ -74,6 +75,9 @@ class PatternMatching:
     (4, 6, <RegexPattern '[cd]e'>)
     """
 
+    # Flags used to compile regular expressions
+    flags = 0
+
     def __init__(self):
         self.string_patterns = []
         self.string_dict = {}
@@ -109,7 +113,7 @@ class PatternMatching:
         if not regex:
             regex = RegexEmpty()
         self._regex = regex
-        self._compiled_regex = regex.compile(python=True)
+        self._compiled_regex = regex.compile(self.flags, python=True)
         self._max_length = length
 
     def addString(self, magic, user=None):
@@ -122,7 +126,7 @@ class PatternMatching:
         self._need_commit = True
 
     def addRegex(self, regex, user=None):
-        item = RegexPattern(regex, user)
+        item = RegexPattern(regex, user, self.flags)
         if item.regex.maxLength() is None:
             raise ValueError(
                 "Regular expression with no maximum size is forbidden")
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index ec65794..bc46f40 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -257,8 +257,8 @@ class Regex:
         raise NotImplementedError(
             "Class %s has no method _eq()" % self.__class__.__name__)
 
-    def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+    def compile(self, flags=0, **kw):
+        return re.compile(self.__str__(**kw), flags)
 
     def findPrefix(self, regex):
         """
diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index 37f034f..10e46cf 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -1,3 +1,4 @@
+import re
 from hachoir.parser import QueryParser
 from hachoir.regex import PatternMatching
 
@@ -7,6 +8,9 @@ from hachoir.regex import PatternMatching
 # (the closest "raw bytes" encoding) in order for matching to work.
 class HachoirPatternMatching(PatternMatching):
 
+    # The dot matches any byte, the newline too
+    flags = re.DOTALL
+
     def __init__(self, categories=None, parser_ids=None):
         PatternMatching.__init__(self)
 
-- 
2.43.0


From d5fddfce92418d518f1f99d3a8ccc02ac606d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 055/218] fix: statistics of hachoir-subfile --debug

---
 hachoir/subfile/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..e07facd 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -41,7 +41,7 @@ def parseOptions():
 
 
 def displaySearchStat(subfile):
-    stats = [(parser.tags["id"], stats[0], stats[1])
+    stats = [(parser.getParserTags()["id"], stats[0], stats[1])
              for parser, stats in subfile.stats.items()]
     print()
     print("[ Match statistics ]")
-- 
2.43.0


From 16bccc245699f67626f4ec75edaece4e498b7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 056/218] fix: close each file written by hachoir-subfile

---
 hachoir/subfile/output.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index d079839..afdd6fa 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -38,11 +38,10 @@ class Output:
 
         # Create output file
         filename = path.join(self.directory, filename)
-        output = FileOutputStream(filename)
-
-        # Write output
-        try:
-            output.copyBytesFrom(stream, offset, size // 8)
-        except StreamError as err:
-            error("copyBytesFrom() error: %s" % err)
+        with FileOutputStream(filename) as output:
+            # Write output
+            try:
+                output.copyBytesFrom(stream, offset, size // 8)
+            except StreamError as err:
+                error("copyBytesFrom() error: %s" % err)
         return filename
-- 
2.43.0


From 3582c3560d19a701a3654617d002cb95c310c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:04 +0000
Subject: [PATCH 057/218] fix: content size of an AIFF file

The size of the FORM chunk doesn't count its header.
---
 hachoir/parser/audio/aiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 8a9ddc7..d6f0301 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -132,4 +132,5 @@ class AiffFile(Parser):
             return "Audio Interchange File Format (AIFF)"
 
     def createContentSize(self):
-        return self["filesize"].value * 8
+        # filesize excludes the signature and filesize fields
+        return (self["filesize"].value + 8) * 8
-- 
2.43.0


From 7600c16395971ecc399e1dba142464eec944a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:04 +0000
Subject: [PATCH 058/218] fix: the comment of a ZIP archive is part of its
 content

---
 hachoir/parser/archive/zip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 6695caa..0ad8a1c 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -482,5 +482,7 @@ class ZipFile(Parser):
         end = MAX_FILESIZE * 8
         end = self.stream.searchBytes(b"PK\5\6", start, end)
         if end is not None:
-            return end + 22 * 8
+            # The record ends with a comment
+            comment_size = self.stream.readBits(end + 20 * 8, 16, self.endian)
+            return end + (22 + comment_size) * 8
         return None
-- 
2.43.0


From 11e7a0ea7377bd1f5c58e8ff56cbe5039c60bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 059/218] fix: find the end of a GIF picture from its fields

The content size was wrong for a picture with a single image (the search
started after the end of block) and for an animation whose data contains
the bytes searched for.
---
 hachoir/parser/image/gif.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index a33b128..76e762e 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -353,10 +353,10 @@ class GifFile(Parser):
                     "Wrong GIF image separator: 0x%02X" % ord(code))
 
     def createContentSize(self):
-        field = self["image[0]"]
-        start = field.absolute_address + field.size
-        end = start + MAX_FILE_SIZE * 8
-        pos = self.stream.searchBytes(b"\0;", start, end)
-        if pos:
-            return pos + 16
+        # Search the terminator
+        for field in self:
+            if field.absolute_address > MAX_FILE_SIZE * 8:
+                break
+            if field.name.startswith("separator[") and field.value == ";":
+                return field.absolute_address + field.size
         return None
-- 
2.43.0


From 966572c55bb81b2440c5aba1a4320c424170759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 060/218] fix: signature of ICO files searched by
 hachoir-subfile

The regex skipped the second byte of the number of planes: only the icons
with no color depth were found.
---
 hachoir/parser/image/ico.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/ico.py b/hachoir/parser/image/ico.py
index 63556e0..8017288 100644
--- a/hachoir/parser/image/ico.py
+++ b/hachoir/parser/image/ico.py
@@ -83,7 +83,7 @@ class IcoFile(Parser):
             # size=(16x16|32x32|48x48|64x64),
             b"(\x10\x10|\x20\x20|\x30\x30|\x40\x40)"
             # nb_color=0 or 16; nb_plane=(0|1|4), bpp=(0|8|24|32)
-            b"[\x00\x10]\0[\0\1\4][\0\x08\x18\x20]\0",
+            b"[\x00\x10]\0[\0\1\4]\0[\0\x08\x18\x20]\0",
             0),),
         "description": "Microsoft Windows icon or cursor",
     }
-- 
2.43.0


From 85c9dc5e349f06a9f021cb642bded9d0672a5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:11 +0000
Subject: [PATCH 061/218] fix: the limit of the memory (RLIMIT_AS) is in bytes

---
 hachoir/core/memory.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..076683f 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,10 +53,7 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
-- 
2.43.0


From 1c2a414890323e838ebe8e43882fd35c9774ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 062/218] fix: keep the order of the list of parsers in
 QueryParser

---
 hachoir/parser/guess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..2d18805 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -19,7 +19,8 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        # Keep the order of the list
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 02c2854bbfdbedda310ab629cd9b578fcb989d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 063/218] fix: validate the parsers if the identifier asked is
 unknown

---
 hachoir/parser/guess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 2d18805..7b0fc82 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -68,10 +68,10 @@ class QueryParser(object):
                 key = tag[0]
                 byname = self.db.bytag.get(key, {})
                 if tag[1] is None:
-                    values = iter(byname.values())
+                    values = list(byname.values())
                 else:
-                    values = byname.get(tag[1], ()),
-                if key == "id" and values:
+                    values = [byname.get(tag[1], ())]
+                if key == "id" and any(values):
                     self.validate = False
                 for value in values:
                     for parser in value:
-- 
2.43.0


From 744d545487c20f4efef92a86c200583491ab1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 064/218] fix: createParser() doesn't change the list of tags

---
 hachoir/parser/guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 7b0fc82..d4542ed 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -132,8 +132,8 @@ def createParser(filename, real_filename=None, tags=None):
         a byte io.IOBase stream  ;
     - real_filename (str): Real file name.
     """
-    if not tags:
-        tags = []
+    # FileInputStream() adds the filename: don't change the list of the caller
+    tags = list(tags or ())
     stream = FileInputStream(filename, real_filename, tags=tags)
     guess = guessParser(stream)
     if guess is None:
-- 
2.43.0


From aa65f3c7d4c6c0733cf32a98068273dfbef2391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 065/218] fix: read a temporary file without name in
 FileInputStream()

---
 hachoir/stream/input_helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..3c9d69c 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -21,6 +21,9 @@ def FileInputStream(filename, real_filename=None, **args):
         else:
             inputio = filename
             filename = getattr(filename, 'name', '')
+            if not isinstance(filename, str):
+                # tempfile.TemporaryFile().name is a file descriptor
+                filename = ''
     except IOError as err:
         errmsg = str(err)
         raise InputStreamError(
-- 
2.43.0


From 95180ba1180d81c37cb42d6746deba431304eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:45 +0000
Subject: [PATCH 066/218] fix: list of the file extensions of the parsers

---
 hachoir/parser/parser_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/parser_list.py b/hachoir/parser/parser_list.py
index cf6b1d0..2dfff33 100644
--- a/hachoir/parser/parser_list.py
+++ b/hachoir/parser/parser_list.py
@@ -98,7 +98,8 @@ class ParserList(object):
             # Create file extension set
             extensions = set()
             for parser in self:
-                file_ext = parser.getParserTags().get(format, ())
+                file_ext = parser.getParserTags().get(
+                    format.replace("-", "_"), ())
                 file_ext = list(file_ext)
                 try:
                     file_ext.remove("")
-- 
2.43.0


From add6ba58f8882cfad23654cd63a01831cc28d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:43 +0000
Subject: [PATCH 067/218] fix: read the dates with a negative timezone, refuse
 a timezone of a day or more

---
 hachoir/metadata/setter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..e5de851 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,7 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+TIMEZONE_REGEX = re.compile("^(.*)[-/.: ]([+-](?:[01][0-9]|2[0-3]))00$")
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -52,8 +52,15 @@ def parseDatetime(value):
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<TimezoneUTC delta=0, name='UTC'>)
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
+    >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 -0500')
+    datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=-1 day, 19:00:00, name='-0500'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    value = value.strip()
+    # Search the timezone before its sign is replaced
+    match = TIMEZONE_REGEX.match(value)
+    if match:
+        without_timezone = NORMALIZE_REGEX.sub("~", match.group(1).strip())
+    value = NORMALIZE_REGEX.sub("~", value)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -96,9 +103,7 @@ def parseDatetime(value):
             pass
     current_locale = setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
         if match:
-            without_timezone = match.group(1)
             delta = int(match.group(2))
             delta = createTimezone(delta)
         else:
-- 
2.43.0


From 53ec93d1f31e6e7d112ad4b0300c0db13450b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:43 +0000
Subject: [PATCH 068/218] fix: restore the locale after the parsing of a date

---
 hachoir/metadata/setter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index e5de851..e0e4c53 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -101,7 +101,8 @@ def parseDatetime(value):
             return datetime(year, month, day, hour, min, sec)
         except ValueError:
             pass
-    current_locale = setlocale(LC_ALL, "C")
+    current_locale = setlocale(LC_ALL)
+    setlocale(LC_ALL, "C")
     try:
         if match:
             delta = int(match.group(2))
-- 
2.43.0


From ddb1be2a985686a584e980b5cbcbe89da7ab8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:43 +0000
Subject: [PATCH 069/218] fix: accept the dates of the last day of the range

---
 hachoir/metadata/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/filter.py b/hachoir/metadata/filter.py
index a507047..ae78c0c 100644
--- a/hachoir/metadata/filter.py
+++ b/hachoir/metadata/filter.py
@@ -34,11 +34,11 @@ class DatetimeFilter(Filter):
     def __init__(self, min=None, max=None):
         Filter.__init__(self, (date, datetime),
                         datetime(MIN_YEAR, 1, 1),
-                        datetime(MAX_YEAR, 12, 31))
+                        datetime(MAX_YEAR, 12, 31, 23, 59, 59, 999999))
         self.min_date = date(MIN_YEAR, 1, 1)
         self.max_date = date(MAX_YEAR, 12, 31)
         self.min_tz = datetime(MIN_YEAR, 1, 1, tzinfo=UTC)
-        self.max_tz = datetime(MAX_YEAR, 12, 31, tzinfo=UTC)
+        self.max_tz = self.max.replace(tzinfo=UTC)
 
     def __call__(self, value):
         """
-- 
2.43.0


From 0217cbb46b6e1e2ab252a1d994cafc22ea4bb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:43 +0000
Subject: [PATCH 070/218] fix: NaN is not in the range of a filter

---
 hachoir/metadata/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/filter.py b/hachoir/metadata/filter.py
index ae78c0c..0a15053 100644
--- a/hachoir/metadata/filter.py
+++ b/hachoir/metadata/filter.py
@@ -16,9 +16,10 @@ class Filter:
     def __call__(self, value):
         if not isinstance(value, self.types):
             return True
-        if self.min is not None and value < self.min:
+        # not (...): skip also NaN
+        if self.min is not None and not (self.min <= value):
             return False
-        if self.max is not None and self.max < value:
+        if self.max is not None and not (value <= self.max):
             return False
         return True
 
-- 
2.43.0


From b6806a56cea863978aec4579f3af07971eee9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 071/218] fix: a group takes the quality of its parent even if
 it is still empty

---
 hachoir/metadata/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 67df716..85077ae 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -17,7 +17,7 @@ class Metadata(Logger):
         assert isinstance(self.header, str)
 
         # Limit to 0.0 .. 1.0
-        if parent:
+        if parent is not None:
             quality = parent.quality
         else:
             quality = min(max(0.0, quality), 1.0)
-- 
2.43.0


From c21f90c683ca6deee26c74efb124bceafa8ee776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 072/218] fix: use the unit of the resolution of an image to
 compute its DPI

---
 hachoir/metadata/image.py | 42 ++++++++++++++++++++++++++++++---------
 hachoir/metadata/jpeg.py  |  9 ++++++---
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..b93e827 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -27,6 +27,19 @@ def computeComprRate(meta, compr_size):
     meta.compr_rate = float(orig_size) / compr_size
 
 
+# Size of an inch
+INCH_IN_METER = 0.0254
+INCH_IN_CM = 2.54
+
+
+def computeDPI(value, inch):
+    """
+    Number of dots per inch (int) of an image which has 'value' dots per unit
+    of length, where 'inch' is the size of an inch in this unit.
+    """
+    return int(round(value * inch))
+
+
 class BmpMetadata(RootMetadata):
 
     def extract(self, image):
@@ -44,8 +57,9 @@ class BmpMetadata(RootMetadata):
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        self.width_dpi = hdr["horizontal_dpi"].value
-        self.height_dpi = hdr["vertical_dpi"].value
+        # Resolution in pixels per meter
+        self.width_dpi = computeDPI(hdr["horizontal_dpi"].value, INCH_IN_METER)
+        self.height_dpi = computeDPI(hdr["vertical_dpi"].value, INCH_IN_METER)
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
@@ -58,8 +72,6 @@ class TiffMetadata(RootMetadata):
         "Software": "producer",
         "ImageDescription": "comment",
         "DocumentName": "title",
-        "XResolution": "width_dpi",
-        "YResolution": "height_dpi",
         "DateTime": "creation_date",
     }
 
@@ -74,11 +86,20 @@ class TiffMetadata(RootMetadata):
         if 'BitsPerSample' in attr and 'SamplesPerPixel' in attr:
             self.bits_per_pixel = attr[
                 'BitsPerSample'] * attr['SamplesPerPixel']
+        # Unit of the resolution: 1 for no unit, 2 for inch, 3 for centimeter
+        unit = attr.get('ResolutionUnit', 2)
+        if unit in (2, 3):
+            inch = 1 if unit == 2 else INCH_IN_CM
+            if 'XResolution' in attr:
+                self.width_dpi = computeDPI(attr['XResolution'], inch)
+            if 'YResolution' in attr:
+                self.height_dpi = computeDPI(attr['YResolution'], inch)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry, attr):
         tag = entry["tag"].display
-        if tag in {"BitsPerSample", "SamplesPerPixel"}:
+        if tag in {"BitsPerSample", "SamplesPerPixel",
+                   "XResolution", "YResolution", "ResolutionUnit"}:
             value = ifd.getEntryValues(entry)[0].value
             attr[tag] = value
             return
@@ -88,8 +109,6 @@ class TiffMetadata(RootMetadata):
         except KeyError:
             return
         value = ifd.getEntryValues(entry)[0].value
-        if tag in {"XResolution", "YResolution"}:
-            value = round(value)
         setattr(self, attrname, value)
 
 
@@ -218,8 +237,13 @@ class PngMetadata(RootMetadata):
 
     @fault_tolerant
     def usePhysical(self, field):
-        self.width_dpi = field["pixel_per_unit_x"].value
-        self.height_dpi = field["pixel_per_unit_y"].value
+        if field["unit"].value != 1:
+            # Unknown unit: only the aspect ratio is known
+            return
+        self.width_dpi = computeDPI(field["pixel_per_unit_x"].value,
+                                    INCH_IN_METER)
+        self.height_dpi = computeDPI(field["pixel_per_unit_y"].value,
+                                     INCH_IN_METER)
 
     @fault_tolerant
     def useHeader(self, header):
diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index bad0b97..0b3ce23 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -1,5 +1,6 @@
 from hachoir.metadata.metadata import RootMetadata, registerExtractor
-from hachoir.metadata.image import computeComprRate
+from hachoir.metadata.image import (computeComprRate, computeDPI,
+                                    INCH_IN_CM)
 from hachoir.parser.image.exif import IFD, BasicIFDEntry
 from hachoir.parser.image.jpeg import (
     JpegFile, JpegChunk,
@@ -170,8 +171,10 @@ class JpegMetadata(RootMetadata):
         self.format_version = "JFIF %u.%02u" \
             % (app0["ver_maj"].value, app0["ver_min"].value)
         if "y_density" in app0:
-            self.width_dpi = app0["x_density"].value
-            self.height_dpi = app0["y_density"].value
+            # Unit of the density: dots per inch or dots per cm
+            inch = INCH_IN_CM if app0["units"].value == 2 else 1
+            self.width_dpi = computeDPI(app0["x_density"].value, inch)
+            self.height_dpi = computeDPI(app0["y_density"].value, inch)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry):
-- 
2.43.0


From a35dc37c37bb15bd9eb74d4407690f3f31b2aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 073/218] fix: a grayscale PNG picture isn't RGB

---
 hachoir/metadata/image.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index b93e827..4c3ac47 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -256,10 +256,15 @@ class PngMetadata(RootMetadata):
         else:
             nb_colors = None
         if not header["has_palette"].value:
-            if header["has_alpha"].value:
-                self.pixel_format = "RGBA"
+            if header["color"].value:
+                pixel_format = "RGB"
+                alpha = "A"
             else:
-                self.pixel_format = "RGB"
+                pixel_format = "Grayscale"
+                alpha = " with alpha"
+            if header["has_alpha"].value:
+                pixel_format += alpha
+            self.pixel_format = pixel_format
         elif "/transparency" in header:
             self.pixel_format = "Color index with transparency"
             if nb_colors:
-- 
2.43.0


From 5a08fb4bfdda2d6e768980baa5a34bd3648eb0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 074/218] fix: read the version 2 header of a BMP picture, and
 negative heights

---
 hachoir/metadata/image.py   | 14 +++++++++-----
 hachoir/parser/image/bmp.py | 24 ++++++++++++++++++------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 4c3ac47..2312f40 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -47,19 +47,23 @@ class BmpMetadata(RootMetadata):
             return
         hdr = image["header"]
         self.width = hdr["width"].value
-        self.height = hdr["height"].value
+        self.height = abs(hdr["height"].value)
         bpp = hdr["bpp"].value
         if bpp:
             if bpp <= 8 and "used_colors" in hdr:
                 self.nb_colors = hdr["used_colors"].value
             self.bits_per_pixel = bpp
-        self.compression = hdr["compression"].display
+        if "compression" in hdr:
+            self.compression = hdr["compression"].display
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        # Resolution in pixels per meter
-        self.width_dpi = computeDPI(hdr["horizontal_dpi"].value, INCH_IN_METER)
-        self.height_dpi = computeDPI(hdr["vertical_dpi"].value, INCH_IN_METER)
+        if "horizontal_dpi" in hdr:
+            # Resolution in pixels per meter
+            self.width_dpi = computeDPI(hdr["horizontal_dpi"].value,
+                                        INCH_IN_METER)
+            self.height_dpi = computeDPI(hdr["vertical_dpi"].value,
+                                         INCH_IN_METER)
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..0872221 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -8,12 +8,12 @@ Creation: 16 december 2005
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
-                           UInt8, UInt16, UInt32, Bits,
+                           UInt8, UInt16, UInt32, Int32, Bits,
                            String, RawBytes, Enum,
                            PaddingBytes, NullBytes, createPaddingField)
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
-from hachoir.parser.image.common import RGB, PaletteRGBA
+from hachoir.parser.image.common import RGB, PaletteRGB, PaletteRGBA
 from hachoir.core.tools import alignValue
 
 
@@ -49,7 +49,11 @@ class ImagePixels(FieldSet):
         self._pixel = pixel_class
 
     def createFields(self):
-        for y in range(self._height - 1, -1, -1):
+        if self._height < 0:
+            lines = range(-self._height)
+        else:
+            lines = range(self._height - 1, -1, -1)
+        for y in lines:
             yield ImageLine(self, "line[%u]" % y, self._width, self._pixel)
         size = (self.size - self.current_size) // 8
         if size:
@@ -82,8 +86,13 @@ class BmpHeader(FieldSet):
     def createFields(self):
         # Version 2 (12 bytes)
         yield UInt32(self, "header_size", "Header size")
-        yield UInt32(self, "width", "Width (pixels)")
-        yield UInt32(self, "height", "Height (pixels)")
+        if self["header_size"].value < 40:
+            yield UInt16(self, "width", "Width (pixels)")
+            yield UInt16(self, "height", "Height (pixels)")
+        else:
+            yield UInt32(self, "width", "Width (pixels)")
+            yield Int32(self, "height",
+                        "Height (pixels), negative if the top line is the first one")
         yield UInt16(self, "nb_plan", "Number of plan (=1)")
         # may be zero for PNG/JPEG picture
         yield UInt16(self, "bpp", "Bits per pixel")
@@ -188,7 +197,10 @@ class BmpFile(Parser):
 
         # Color palette (if any)
         if nb_color:
-            yield PaletteRGBA(self, "palette", nb_color)
+            if header["header_size"].value < 40:
+                yield PaletteRGB(self, "palette", nb_color)
+            else:
+                yield PaletteRGBA(self, "palette", nb_color)
 
         # Seek to data start
         field = self.seekByte(self["data_start"].value)
-- 
2.43.0


From 42a001e1542dce633fc43db0fcec93e2cfd5a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 075/218] fix: PCX picture: use the origin and the number of
 color planes

---
 hachoir/metadata/image.py   | 11 ++++++-----
 hachoir/parser/image/pcx.py |  8 +++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 2312f40..262dd46 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -160,13 +160,14 @@ class PcxMetadata(RootMetadata):
 
     @fault_tolerant
     def extract(self, pcx):
-        self.width = 1 + pcx["xmax"].value
-        self.height = 1 + pcx["ymax"].value
+        self.width = 1 + pcx["xmax"].value - pcx["xmin"].value
+        self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
-        self.bits_per_pixel = pcx["bpp"].value
-        if 1 <= pcx["bpp"].value <= 8:
-            self.nb_colors = 2 ** pcx["bpp"].value
+        bpp = pcx["bpp"].value * pcx["nb_color_plan"].value
+        self.bits_per_pixel = bpp
+        if 1 <= bpp <= 8:
+            self.nb_colors = 2 ** bpp
         self.compression = "Run-length encoding (RLE)"
         self.format_version = "PCX: %s" % pcx["version"].display
         if "image_data" in pcx:
diff --git a/hachoir/parser/image/pcx.py b/hachoir/parser/image/pcx.py
index a204b1c..1e1b10d 100644
--- a/hachoir/parser/image/pcx.py
+++ b/hachoir/parser/image/pcx.py
@@ -48,8 +48,8 @@ class PcxFile(Parser):
         yield UInt8(self, "bpp", "Bits / pixel")
         yield UInt16(self, "xmin", "Minimum X")
         yield UInt16(self, "ymin", "Minimum Y")
-        yield UInt16(self, "xmax", "Width minus one")  # value + 1
-        yield UInt16(self, "ymax", "Height minus one")  # value + 1
+        yield UInt16(self, "xmax", "Maximum X")
+        yield UInt16(self, "ymax", "Maximum Y")
         yield UInt16(self, "horiz_dpi", "Horizontal DPI")
         yield UInt16(self, "vert_dpi", "Vertical DPI")
         yield PaletteRGB(self, "palette_4bits", 16, "Palette (4 bits)")
@@ -64,7 +64,9 @@ class PcxFile(Parser):
 
         nb_colors = 256
         size = (self._size - self.current_size) // 8
-        has_palette = self["bpp"].value == 8
+        # 8 bits per plane: the picture has a palette if it has only one plane
+        has_palette = (self["bpp"].value == 8
+                       and self["nb_color_plan"].value == 1)
         if has_palette:
             size -= nb_colors * 3
         yield RawBytes(self, "image_data", size, "Image data")
-- 
2.43.0


From 8b3cdfdc8c9e002f3f19ef0fe423819e89b086a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 076/218] fix: parse the pixels of an uncompressed Targa
 picture

---
 hachoir/parser/image/tga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index fc9570f..872e58d 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -98,7 +98,7 @@ class TargaFile(Parser):
         if self["palette_type"].value == 1:
             yield PaletteRGB(self, "palette", 1 << self["bpp"].value)
 
-        if self["codec"] in (1, 2, 3):
+        if self["codec"].value in (1, 2, 3):
             yield Pixels(self, "pixels")
         else:
             size = (self.size - self.current_size) // 8
-- 
2.43.0


From 4a740393945f959a0d1bbd00d5527081f276f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 077/218] fix: use the size of the palette of a Targa picture

---
 hachoir/parser/image/tga.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index 872e58d..a1e6a3a 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -96,7 +96,14 @@ class TargaFile(Parser):
             yield RawBytes(self, "image_id", self["id_length"].value)
 
         if self["palette_type"].value == 1:
-            yield PaletteRGB(self, "palette", 1 << self["bpp"].value)
+            nb_color = self["nb_color"].value
+            if nb_color:
+                if self["color_map_size"].value == 24:
+                    yield PaletteRGB(self, "palette", nb_color)
+                else:
+                    # each entry takes a whole number of bytes
+                    size = (self["color_map_size"].value + 7) // 8
+                    yield RawBytes(self, "palette", nb_color * size)
 
         if self["codec"].value in (1, 2, 3):
             yield Pixels(self, "pixels")
-- 
2.43.0


From 69aa0ac3c908119c1d0ff2685a0d9939ef685cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 078/218] fix: a size of zero in an icon means 256 pixels

---
 hachoir/metadata/image.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 262dd46..ff80d84 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -128,8 +128,9 @@ class IcoMetadata(MultipleMetadata):
             image = Metadata(self)
 
             # Read size and colors from header
-            image.width = header["width"].value
-            image.height = header["height"].value
+            # (0 means 256 pixels)
+            image.width = header["width"].value or 256
+            image.height = header["height"].value or 256
             bpp = header["bpp"].value
             nb_colors = header["nb_color"].value
             if nb_colors != 0:
-- 
2.43.0


From e40c330bff03dd749f652ccb741e648e211c66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 079/218] fix: GIF metadata: number of colors if there is a
 global map, transparency of any image

---
 hachoir/metadata/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ff80d84..51f3ef4 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -296,8 +296,7 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if any(ctl["has_transp"].value for ctl in gif.array("graphic_ctl")):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
@@ -306,7 +305,8 @@ class GifMetadata(RootMetadata):
     def useScreen(self, screen):
         self.width = screen["width"].value
         self.height = screen["height"].value
-        self.bits_per_pixel = (1 + screen["size_global_map"].value)
+        if screen["global_map"].value:
+            self.bits_per_pixel = (1 + screen["size_global_map"].value)
 
 
 class TargaMetadata(RootMetadata):
-- 
2.43.0


From 53b84cb7c1ff03d46f2aef0aa8f967a65176974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 080/218] fix: the height of a Photoshop picture is before its
 width

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From 1c292c75bf304ceab8a1ae5d64ebe787c8fedbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 081/218] fix: the size of a Photoshop resource is a 32 bits
 integer

---
 hachoir/parser/image/photoshop_metadata.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 1879d37..88c15c0 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -160,13 +160,10 @@ class Photoshop8BIM(FieldSet):
             raise ParserError(
                 "Stream doesn't look like 8BIM item (wrong signature)!")
         yield textHandler(UInt16(self, "tag"), hexadecimal)
-        if self.stream.readBytes(self.absolute_address + self.current_size, 4) != b"\0\0\0\0":
-            yield PascalString8(self, "name")
-            size = 2 + (self["name"].size // 8) % 2
-            yield NullBytes(self, "name_padding", size)
-        else:
-            yield String(self, "name", 4, strip="\0")
-        yield UInt16(self, "size")
+        yield PascalString8(self, "name")
+        if (self["name"].size // 8) % 2:
+            yield NullBytes(self, "name_padding", 1)
+        yield UInt32(self, "size")
         size = alignValue(self["size"].value, 2)
         if not size:
             return
-- 
2.43.0


From a4f52b10b830660429dfcc93973a5d9d84b8e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 082/218] fix: compression of a JPEG picture without start of
 frame

---
 hachoir/metadata/jpeg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 0b3ce23..38a18b8 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -100,7 +100,7 @@ class JpegMetadata(RootMetadata):
             computeComprRate(self, jpeg["data"].size)
         if not self.has("producer") and "photoshop" in jpeg:
             self.producer = "Adobe Photoshop"
-        if self.has("compression"):
+        if not self.has("compression"):
             self.compression = "JPEG"
 
     @fault_tolerant
-- 
2.43.0


From fbf85a25851c7da1c180210434a256b21f118dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 083/218] fix: don't read the IPTC envelope as application data

---
 hachoir/metadata/jpeg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 38a18b8..1076b85 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -271,6 +271,11 @@ class JpegMetadata(RootMetadata):
             if "tag" not in field or "content" not in field:
                 continue
 
+            # Skip the envelope record: the tags are these of the application
+            # record
+            if field["dataset_nb"].value != 2:
+                continue
+
             # Get value
             value = field["content"].value
             if isinstance(value, str):
-- 
2.43.0


From 367ff49f536e84d95ace1c412289dc21ab114622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 084/218] fix: GPS altitude of zero

---
 hachoir/metadata/jpeg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 1076b85..c49286d 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -254,7 +254,7 @@ class JpegMetadata(RootMetadata):
             if longitude_ref < 0:
                 value = -value
             self.longitude = value
-        if altitude:
+        if altitude is not None:
             value = altitude
             if altitude_ref < 0:
                 value = -value
-- 
2.43.0


From 4986c405891ff12174be426d85b35d476753d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 085/218] fix: charset of the user comment of an EXIF picture

---
 hachoir/metadata/jpeg.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index c49286d..42d6bb8 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -7,6 +7,7 @@ from hachoir.parser.image.jpeg import (
     QUALITY_HASH_COLOR, QUALITY_SUM_COLOR,
     QUALITY_HASH_GRAY, QUALITY_SUM_GRAY)
 from hachoir.field import MissingField
+from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.tools import makeUnicode
 from hachoir.metadata.safe import fault_tolerant
 from datetime import datetime
@@ -192,7 +193,9 @@ class JpegMetadata(RootMetadata):
         value = ifd.getEntryValues(entry)[0].value
 
         # Convert value to string
-        if tag == "Orientation":
+        if tag == "UserComment":
+            value = self.decodeUserComment(value, entry.endian)
+        elif tag == "Orientation":
             value = self.orientation_name.get(value, value)
         elif tag == "ExposureTime":
             if not value:
@@ -205,6 +208,26 @@ class JpegMetadata(RootMetadata):
         # Store information
         setattr(self, key, value)
 
+    def decodeUserComment(self, value, endian):
+        """
+        Decode a comment (bytes), starting with the name of its charset
+        on 8 bytes.
+        """
+        if not isinstance(value, bytes):
+            return value
+        charset, text = value[:8], value[8:]
+        if charset == b"ASCII\0\0\0":
+            return text.decode("ASCII", "replace")
+        elif charset == b"UNICODE\0":
+            if endian == LITTLE_ENDIAN:
+                return text.decode("UTF-16-LE", "replace")
+            else:
+                return text.decode("UTF-16-BE", "replace")
+        elif charset == bytes(8):
+            # Undefined charset
+            return text
+        return value
+
     @fault_tolerant
     def readGPS(self, ifd):
         # Read latitude and longitude
-- 
2.43.0


From 8db695dead6ef2dacb36f3cf17780f2f58e38314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 086/218] fix: TIFF directory without image data

---
 hachoir/parser/image/tiff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tiff.py b/hachoir/parser/image/tiff.py
index ce3bd28..1115a5e 100644
--- a/hachoir/parser/image/tiff.py
+++ b/hachoir/parser/image/tiff.py
@@ -78,7 +78,9 @@ class TiffFile(RootSeekableFieldSet, Parser):
         for ifd in self:
             if not isinstance(ifd, IFD):
                 continue
-            offs = (off for off, byte in getStrips(ifd))
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
+                continue
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
-- 
2.43.0


From dc861fadb066901b5b76f29f07a5d6262a0c9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:59 +0000
Subject: [PATCH 087/218] fix: GPS time with less than ten minutes

---
 hachoir/metadata/jpeg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 42d6bb8..fb8d1aa 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -266,7 +266,7 @@ class JpegMetadata(RootMetadata):
             elif tag == "GPSDateStamp":
                 datestamp = values[0]
             elif tag == "GPSTimeStamp":
-                timestamp = ':'.join(str(int(x)) for x in values)
+                timestamp = ':'.join('%02u' % int(x) for x in values)
         if latitude_ref and latitude:
             value = deg2float(*latitude)
             if latitude_ref < 0:
-- 
2.43.0


From ef848113cea806ed6de4ead504165863f72d506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 088/218] fix: FLAC file with only one metadata block

---
 hachoir/parser/audio/flac.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..ef453d7 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -147,20 +147,21 @@ class Frames(FieldSet):
 
 class FlacParser(Parser):
     "Parse FLAC audio files: FLAC is a lossless audio codec"
-    MAGIC = b"fLaC\x00"
+    # The first metadata block is the stream info: it can also be the last block
+    MAGICS = (b"fLaC\x00", b"fLaC\x80")
     PARSER_TAGS = {
         "id": "flac",
         "category": "audio",
         "file_ext": ("flac",),
         "mime": ("audio/x-flac",),
-        "magic": ((MAGIC, 0),),
+        "magic": tuple((magic, 0) for magic in MAGICS),
         "min_size": 4 * 8,
         "description": "FLAC audio",
     }
     endian = BIG_ENDIAN
 
     def validate(self):
-        if self.stream.readBytes(0, len(self.MAGIC)) != self.MAGIC:
+        if self.stream.readBytes(0, 5) not in self.MAGICS:
             return "Invalid magic string"
         return True
 
-- 
2.43.0


From ea02b0806ecf2b4c8f1beef0aaad622ecdf0a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 089/218] fix: description of an Ogg file

---
 hachoir/parser/container/ogg.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 97d680e..677513d 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -304,18 +304,23 @@ class OggFile(Parser):
                 return "Invalid page #%s: %s" % (index, err)
         return True
 
+    def hasHeader(self, name):
+        """Test if the first page contains the specified header"""
+        path = "page[0]/segments"
+        return path in self and name in self[path]
+
     def createMimeType(self):
-        if "theora_hdr" in self["page[0]/segments"]:
+        if self.hasHeader("theora_hdr"):
             return "video/theora"
-        elif "vorbis_hdr" in self["page[0]/segments"]:
+        elif self.hasHeader("vorbis_hdr"):
             return "audio/vorbis"
         else:
             return "application/ogg"
 
     def createDescription(self):
-        if "theora_hdr" in self["page[0]"]:
+        if self.hasHeader("theora_hdr"):
             return "Ogg/Theora video"
-        elif "vorbis_hdr" in self["page[0]"]:
+        elif self.hasHeader("vorbis_hdr"):
             return "Ogg/Vorbis audio"
         else:
             return "Ogg multimedia container"
-- 
2.43.0


From 41086426849f91491cb7fd2527ed071e79b3c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 090/218] fix: Ogg duration: use the last page of the audio
 stream

---
 hachoir/metadata/audio.py       |  6 +++++-
 hachoir/parser/container/ogg.py | 27 ++++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/hachoir/metadata/audio.py b/hachoir/metadata/audio.py
index 4bcedf8..0de3d09 100644
--- a/hachoir/metadata/audio.py
+++ b/hachoir/metadata/audio.py
@@ -70,9 +70,11 @@ class OggMetadata(MultipleMetadata):
 
     def extract(self, ogg):
         granule_quotient = None
+        granule_serial = None
         for index, page in enumerate(ogg.array("page")):
             if "segments" not in page:
                 continue
+            serial = page["serial"].value
             page = page["segments"]
             if "vorbis_hdr" in page:
                 meta = Metadata(self)
@@ -80,6 +82,7 @@ class OggMetadata(MultipleMetadata):
                 self.addGroup("audio[]", meta, "Audio")
                 if not granule_quotient and meta.has("sample_rate"):
                     granule_quotient = meta.get('sample_rate')
+                    granule_serial = serial
             if "theora_hdr" in page:
                 meta = Metadata(self)
                 self.theoraHeader(page["theora_hdr"], meta)
@@ -90,6 +93,7 @@ class OggMetadata(MultipleMetadata):
                 self.addGroup("video[]", meta, "Video")
                 if not granule_quotient and meta.has("frame_rate"):
                     granule_quotient = meta.get('frame_rate')
+                    granule_serial = serial
             if "comment" in page:
                 readVorbisComment(self, page["comment"])
             if 3 <= index:
@@ -98,7 +102,7 @@ class OggMetadata(MultipleMetadata):
 
         # Compute duration
         if granule_quotient and QUALITY_NORMAL <= self.quality:
-            page = ogg.createLastPage()
+            page = ogg.createLastPage(granule_serial)
             if page and "abs_granule_pos" in page:
                 try:
                     self.duration = timedelta(seconds=float(
diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 677513d..405b923 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -330,17 +330,26 @@ class OggFile(Parser):
         while not self.eof:
             yield OggPage(self, "page[]")
 
-    def createLastPage(self):
-        start = self[0].size
+    def createLastPage(self, serial=None):
+        """
+        Search the last page of a logical stream: the stream having
+        the specified serial number, or any stream if serial is None.
+        """
+        first = self[0].size
         end = MAX_FILESIZE * 8
         if True:
-            # FIXME: This doesn't work on all files (eg. some Ogg/Theora)
-            offset = self.stream.searchBytes(b"OggS\0\5", start, end)
-            if offset is None:
-                offset = self.stream.searchBytes(b"OggS\0\4", start, end)
-            if offset is None:
-                return None
-            return createOrphanField(self, offset, OggPage, "page")
+            for flags in (b"\5", b"\4"):
+                start = first
+                while True:
+                    offset = self.stream.searchBytes(
+                        b"OggS\0" + flags, start, end)
+                    if offset is None:
+                        break
+                    page = createOrphanField(self, offset, OggPage, "page")
+                    if serial is None or page["serial"].value == serial:
+                        return page
+                    start = offset + 6 * 8
+            return None
         else:
             # Very slow version
             page = None
-- 
2.43.0


From 638f3b68c6c251b1504ead3f7063e48bf6600577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 091/218] fix: ID3v1: a comment of 29 or 30 characters isn't
 followed by a track number

---
 hachoir/parser/audio/id3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index e6f1131..b6b1cb3 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -197,16 +197,15 @@ class ID3v1(FieldSet):
             yield String(self, "comment", 31, "Comment", strip=" \0", charset="ISO-8859-1")
 
     def getVersion(self):
-        addr = self.absolute_address + 126 * 8
-        bytes = self.stream.readBytes(addr, 2)
+        addr = self.absolute_address + 125 * 8
+        bytes = self.stream.readBytes(addr, 3)
 
+        # byte 125 is nul, but byte 126 is not nul: track number
+        if bytes[0] == 0 and bytes[1] != 0:
+            return "v1.1b"
         # last byte (127) is not space?
-        if bytes[1] != 32:
-            # byte 126 is nul?
-            if bytes[0] == 0:
-                return "v1.1"
-            else:
-                return "v1.1b"
+        elif bytes[2] != 32:
+            return "v1.1"
         else:
             return "1.0"
 
-- 
2.43.0


From 4810c18da35c50718477d581cd684103e2da28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 092/218] fix: ID3v2: the MIME type is not in the charset of
 the description

---
 hachoir/parser/audio/id3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index b6b1cb3..66184f8 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -259,7 +259,7 @@ class ID3_GEOB(ID3_StringCharset):
     def createFields(self):
         yield Enum(UInt8(self, "charset"), self.charset_desc)
         charset = getCharset(self["charset"])
-        yield CString(self, "mime", "MIME type", charset=charset)
+        yield CString(self, "mime", "MIME type", charset="ISO-8859-1")
         yield CString(self, "filename", "File name", charset=charset)
         yield CString(self, "description", "Content description", charset=charset)
         size = (self.size - self.current_size) // 8
@@ -362,7 +362,7 @@ class ID3_Picture24(FieldSet):
     def createFields(self):
         yield Enum(UInt8(self, "charset"), ID3_StringCharset.charset_desc)
         charset = getCharset(self["charset"])
-        yield CString(self, "mime", "MIME type", charset=charset)
+        yield CString(self, "mime", "MIME type", charset="ISO-8859-1")
         yield Enum(UInt8(self, "pict_type"), ID3_Picture23.pict_type_name)
         yield CString(self, "description", charset=charset)
         size = (self._size - self._current_size) // 8
-- 
2.43.0


From ad0119c3c945c93de8756d5b048b07cd530f5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 093/218] fix: ID3v2: an URL is not in the charset of its
 description

---
 hachoir/parser/audio/id3.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index 66184f8..a0faff3 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -295,6 +295,21 @@ class ID3_StringTitle(ID3_StringCharset):
         yield String(self, "text", size, "Text", charset=charset, strip=self.STRIP)
 
 
+class ID3_UserURL(ID3_StringCharset):
+
+    def createFields(self):
+        yield Enum(UInt8(self, "charset"), self.charset_desc)
+        if self.current_size == self.size:
+            return
+        charset = getCharset(self["charset"])
+        yield CString(self, "title", "Title", charset=charset, strip=self.STRIP)
+        size = (self.size - self.current_size) // 8
+        if not size:
+            return
+        # The charset is only used for the title
+        yield String(self, "text", size, "URL", charset="ISO-8859-1", strip=self.STRIP)
+
+
 class ID3_Private(FieldSet):
 
     def createFields(self):
@@ -411,7 +426,7 @@ class ID3_Chunk(FieldSet):
         "PRIV": ID3_Private,
         "TXXX": ID3_StringTitle,
         "WOAR": ID3_String,
-        "WXXX": ID3_StringTitle,
+        "WXXX": ID3_UserURL,
     }
 
     def __init__(self, *args):
-- 
2.43.0


From 4660ecf41ee165bf380094dfb89ea09990591adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 094/218] fix: ID3v2: skip the extended header and a short
 padding

---
 hachoir/parser/audio/id3.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index a0faff3..f99ddc1 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -495,6 +495,27 @@ class ID3_Size(Bits):
         return reduce(lambda x, y: x * 128 + y, (item for item in data))
 
 
+class ID3_ExtendedHeader(FieldSet):
+    endian = NETWORK_ENDIAN
+
+    def __init__(self, *args):
+        FieldSet.__init__(self, *args)
+        if 4 <= self["../ver_major"].value:
+            self._size = self["size"].value * 8
+        else:
+            self._size = (4 + self["size"].value) * 8
+
+    def createFields(self):
+        if 4 <= self["../ver_major"].value:
+            # ID3 v2.4: the size includes the size itself
+            yield ID3_Size(self, "size")
+        else:
+            yield UInt32(self, "size")
+        size = (self.size - self.current_size) // 8
+        if size:
+            yield RawBytes(self, "data", size)
+
+
 class ID3v2(FieldSet):
     endian = NETWORK_ENDIAN
     VALID_MAJOR_VERSIONS = (2, 3, 4)
@@ -532,8 +553,16 @@ class ID3v2(FieldSet):
         # Size
         yield ID3_Size(self, "size")
 
+        # Extended header
+        if self["ext"].value and 3 <= self["ver_major"].value:
+            yield ID3_ExtendedHeader(self, "extended_header")
+
         # All tags
-        while self.current_size < self._size:
+        if 3 <= self["ver_major"].value:
+            min_size = 10 * 8
+        else:
+            min_size = 6 * 8
+        while min_size <= self._size - self.current_size:
             field = ID3_Chunk(self, "field[]")
             yield field
             if field["size"].value == 0:
-- 
2.43.0


From 57e9af3452db38fc4c97368d345265ab61a46ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 095/218] fix: ID3v2: flags of a frame

---
 hachoir/parser/audio/id3.py | 46 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index f99ddc1..2b8bd04 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -445,17 +445,43 @@ class ID3_Chunk(FieldSet):
             else:
                 yield UInt32(self, "size")   # ID3 v2.3
 
-            yield Bit(self, "tag_alter", "Tag alter preservation")
-            yield Bit(self, "file_alter", "Tag alter preservation")
-            yield Bit(self, "rd_only", "Read only?")
-            yield NullBits(self, "padding[]", 5)
-
-            yield Bit(self, "compressed", "Frame is compressed?")
-            yield Bit(self, "encrypted", "Frame is encrypted?")
-            yield Bit(self, "group", "Grouping identity")
-            yield NullBits(self, "padding[]", 5)
             size = self["size"].value
-            is_compressed = self["compressed"].value
+            if 4 <= self["../ver_major"].value:
+                # ID3 v2.4
+                yield NullBits(self, "padding[]", 1)
+                yield Bit(self, "tag_alter", "Tag alter preservation")
+                yield Bit(self, "file_alter", "Tag alter preservation")
+                yield Bit(self, "rd_only", "Read only?")
+                yield NullBits(self, "padding[]", 5)
+
+                yield Bit(self, "group", "Grouping identity")
+                yield NullBits(self, "padding[]", 2)
+                yield Bit(self, "compressed", "Frame is compressed?")
+                yield Bit(self, "encrypted", "Frame is encrypted?")
+                yield Bit(self, "unsync", "Unsynchronisation is used?")
+                yield Bit(self, "has_data_length", "Data length indicator?")
+            else:
+                # ID3 v2.3
+                yield Bit(self, "tag_alter", "Tag alter preservation")
+                yield Bit(self, "file_alter", "Tag alter preservation")
+                yield Bit(self, "rd_only", "Read only?")
+                yield NullBits(self, "padding[]", 5)
+
+                yield Bit(self, "compressed", "Frame is compressed?")
+                yield Bit(self, "encrypted", "Frame is encrypted?")
+                yield Bit(self, "group", "Grouping identity")
+                yield NullBits(self, "padding[]", 5)
+            is_compressed = self["compressed"].value \
+                or self["encrypted"].value
+            if size and not is_compressed:
+                # Additional information of the header
+                if self["group"].value:
+                    yield UInt8(self, "group_id", "Group identifier")
+                    size -= 1
+                if 4 <= self["../ver_major"].value \
+                        and self["has_data_length"].value:
+                    yield ID3_Size(self, "data_length")
+                    size -= 4
         else:
             # ID3 v2.2
             yield Enum(String(self, "tag", 3, "Tag", charset="ASCII", strip="\0"), ID3_Chunk.tag22_name)
-- 
2.43.0


From 8093b8453d5a1989188d795458dc05b0d94f3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 096/218] fix: ID3v2: the date is a day and a month of the year

---
 hachoir/metadata/audio.py   | 23 +++++++++++++++++++++--
 hachoir/parser/audio/id3.py |  2 +-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/audio.py b/hachoir/metadata/audio.py
index 0de3d09..e450150 100644
--- a/hachoir/metadata/audio.py
+++ b/hachoir/metadata/audio.py
@@ -4,7 +4,7 @@ from hachoir.parser.audio import (AuFile, MpegAudioFile, RealAudioFile,
                                   AiffFile, FlacParser)
 from hachoir.parser.container import OggFile, RealMediaFile
 from hachoir.core.tools import makePrintable, timedelta2seconds, humanBitRate
-from datetime import timedelta
+from datetime import date, timedelta
 from hachoir.metadata.metadata_item import (QUALITY_FAST, QUALITY_NORMAL,
                                             QUALITY_BEST)
 from hachoir.metadata.safe import fault_tolerant, getValue
@@ -289,7 +289,6 @@ class MpegAudioMetadata(RootMetadata):
         "TCON": "music_genre",
         "TLAN": "language",
         "TCOP": "copyright",
-        "TDAT": "creation_date",
         "TRDA": "creation_date",
         "TORY": "creation_date",
         "TIT1": "title",
@@ -309,6 +308,8 @@ class MpegAudioMetadata(RootMetadata):
 
         # Known tag?
         tag = field["tag"].value
+        if tag in self.YEAR_TO_DAY:
+            value = self.addID3v2Day(field, self.YEAR_TO_DAY[tag], value)
         if tag not in self.TAG_TO_KEY:
             if tag:
                 if isinstance(tag, str):
@@ -318,6 +319,24 @@ class MpegAudioMetadata(RootMetadata):
         key = self.TAG_TO_KEY[tag]
         setattr(self, key, value)
 
+    # Year tag => tag of the day and the month
+    YEAR_TO_DAY = {"TYE": "TDA", "TYER": "TDAT"}
+
+    def addID3v2Day(self, year_field, day_tag, year):
+        """
+        Add the day and the month (DDMM format) to the year
+        """
+        for field in year_field.parent:
+            if field.is_field_set and "tag" in field \
+                    and field["tag"].value == day_tag \
+                    and "content/text" in field:
+                day = field["content/text"].value
+                try:
+                    return date(int(year), int(day[2:]), int(day[:2]))
+                except ValueError:
+                    pass
+        return year
+
     def readID3v2(self, id3):
         for field in id3:
             if field.is_field_set and "tag" in field:
diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index 2b8bd04..a2bb777 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -489,7 +489,7 @@ class ID3_Chunk(FieldSet):
             size = self["size"].value - self.current_size // 8 + 6
             is_compressed = False
 
-        if size:
+        if 0 < size:
             cls = None
             if not is_compressed:
                 tag = self["tag"].value
-- 
2.43.0


From 5dd7bfd4763f1209c3b03972aa8d530352aaa7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 097/218] fix: AIFF: marker, size and padding of a comment

---
 hachoir/parser/audio/aiff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index d6f0301..f16995b 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -9,7 +9,7 @@ from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            UInt16, UInt32, Float80, TimestampMac32,
                            RawBytes, NullBytes,
-                           String, Enum, PascalString32)
+                           String, Enum, PascalString16)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import filesizeHandler
 from hachoir.core.tools import alignValue
@@ -29,7 +29,10 @@ class Comment(FieldSet):
 
     def createFields(self):
         yield TimestampMac32(self, "timestamp")
-        yield PascalString32(self, "text")
+        yield UInt16(self, "marker", "Identifier of the marker")
+        yield PascalString16(self, "text")
+        if self["text"].size % 16:
+            yield NullBytes(self, "padding", 1)
 
 
 def parseText(self):
-- 
2.43.0


From 832ede03e86863c4ff9af2ceb8ba8e7060e88fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 098/218] fix: AIFF: there is no codec in a AIFF file, padding
 of unknown chunks

---
 hachoir/parser/audio/aiff.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index f16995b..100e905 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -54,7 +54,12 @@ def parseCommon(self):
     yield UInt32(self, "nb_sample")
     yield UInt16(self, "sample_size")
     yield Float80(self, "sample_rate")
-    yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+    # AIFC only
+    if 22 <= self["size"].value:
+        yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+        size = self["size"].value - 22
+        if size:
+            yield RawBytes(self, "codec_name", size, "Name of the codec")
 
 
 def parseVersion(self):
@@ -64,8 +69,8 @@ def parseVersion(self):
 def parseSound(self):
     yield UInt32(self, "offset")
     yield UInt32(self, "block_size")
-    size = (self.size - self.current_size) // 8
-    if size:
+    size = self["size"].value - 8
+    if 0 < size:
         yield RawBytes(self, "data", size)
 
 
@@ -96,10 +101,10 @@ class Chunk(FieldSet):
         if size:
             if self._parser:
                 yield from self._parser(self)
-                if size % 2:
-                    yield NullBytes(self, "padding", 1)
             else:
                 yield RawBytes(self, "data", size)
+            if size % 2:
+                yield NullBytes(self, "padding", 1)
 
 
 class AiffFile(Parser):
-- 
2.43.0


From 23c83de56cea69179fd4e0832f2c16c01970b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 099/218] fix: ASF metadata: author and copyright of a file
 without title

---
 hachoir/metadata/video.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 41fd002..74fac71 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -338,12 +338,9 @@ class AsfMetadata(MultipleMetadata):
 
         if "metadata/content" in header:
             info = header["metadata/content"]
-            try:
-                self.title = info["title"].value
-                self.author = info["author"].value
-                self.copyright = info["copyright"].value
-            except MissingField:
-                pass
+            for key in ("title", "author", "copyright"):
+                if key in info:
+                    setattr(self, key, info[key].value)
 
     @fault_tolerant
     def streamAudioHeader(self, audio, meta):
-- 
2.43.0


From 72c7b5547c9f86acca7d577a9ea689c7402a7aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 100/218] fix: ASF: value of a 16-bit descriptor

---
 hachoir/parser/video/asf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/video/asf.py b/hachoir/parser/video/asf.py
index fc41624..bf60592 100644
--- a/hachoir/parser/video/asf.py
+++ b/hachoir/parser/video/asf.py
@@ -163,6 +163,8 @@ class Descriptor(FieldSet):
             yield UInt32(self, name)
         elif type == 4:
             yield UInt64(self, name)
+        elif type == 5:
+            yield UInt16(self, name)
         else:
             yield RawBytes(self, name, size)
 
-- 
2.43.0


From b4ea5e514e5a2a8e6cbb3f06f6601f54e6707111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 101/218] fix: ASF metadata: recognize a variable bit rate

---
 hachoir/metadata/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 74fac71..aba35a2 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -293,7 +293,7 @@ class AsfMetadata(MultipleMetadata):
 
             # "IsVBR" key
             if "IsVBR" in data:
-                is_vbr = (data["IsVBR"] == 1)
+                is_vbr = (data["IsVBR"] == "1")
                 del data["IsVBR"]
 
             # Store data
-- 
2.43.0


From 912ee79451c5cb96a6ded3ac47457f87d023f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 102/218] fix: ASF metadata: the bit rate of a stream is the
 one with its number

---
 hachoir/metadata/video.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index aba35a2..5d65daa 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -320,17 +320,17 @@ class AsfMetadata(MultipleMetadata):
 
         audio_index = 1
         video_index = 1
-        for index, stream_prop in enumerate(header.array("stream_prop")):
+        for stream_prop in header.array("stream_prop"):
             if "content/audio_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamAudioHeader(
                     stream_prop["content/audio_header"], meta)
                 if self.addGroup("audio[%u]" % audio_index, meta, "Audio stream #%u" % audio_index):
                     audio_index += 1
             elif "content/video_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamVideoHeader(
                     stream_prop["content/video_header"], meta)
                 if self.addGroup("video[%u]" % video_index, meta, "Video stream #%u" % video_index):
@@ -394,10 +394,13 @@ class AsfMetadata(MultipleMetadata):
             text = "%s (max)" % text
         self.bit_rate = (value, text)
 
-    def streamProperty(self, header, index, meta):
-        key = "bit_rates/content/bit_rate[%u]/avg_bitrate" % index
-        if key in header:
-            meta.bit_rate = header[key].value
+    def streamProperty(self, header, stream, meta):
+        if "bit_rates/content" in header:
+            index = stream["content/stream_index"].value
+            for bit_rate in header.array("bit_rates/content/bit_rate"):
+                if bit_rate["stream_index"].value == index:
+                    meta.bit_rate = bit_rate["avg_bitrate"].value
+                    break
 
         # TODO: Use codec list
         # It doesn't work when the video uses /header/content/bitrate_mutex
-- 
2.43.0


From 8c6c7d1c54edd1eac62457b8e3cf23d788a2dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 103/218] fix: ASF metadata: WM/TrackNumber is the number of
 the track

---
 hachoir/metadata/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 5d65daa..83d1c45 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -259,7 +259,7 @@ class AsfMetadata(MultipleMetadata):
         "ToolName": "producer",
         "AlbumTitle": "album",
         "Track": "track_number",
-        "TrackNumber": "track_total",
+        "TrackNumber": "track_number",
         "Year": "creation_date",
         "AlbumArtist": "author",
     }
-- 
2.43.0


From e141a81fe1a6f27bc39becb379fa5f54ee913b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:44 +0000
Subject: [PATCH 104/218] fix: AMF: a mixed array is read until its end marker

---
 hachoir/parser/video/amf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/amf.py b/hachoir/parser/video/amf.py
index d82ea31..fda3b87 100644
--- a/hachoir/parser/video/amf.py
+++ b/hachoir/parser/video/amf.py
@@ -43,7 +43,8 @@ def parseObjectAttributes(parent):
 
 def parseMixedArray(parent):
     yield UInt32(parent, "count")
-    for index in range(parent["count"].value + 1):
+    # The count is only a hint: the array stops at the end marker
+    while True:
         item = Attribute(parent, "item[]")
         yield item
         if not item['key'].value:
-- 
2.43.0


From 74f93be22bec53caac7b36359875cf1415b1aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:45 +0000
Subject: [PATCH 105/218] fix: MKV metadata: duration without an explicit
 TimecodeScale

---
 hachoir/metadata/video.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 83d1c45..608cdad 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -125,17 +125,19 @@ class MkvMetadata(MultipleMetadata):
         setattr(self, key, value)
 
     def processInfo(self, info):
-        if "TimecodeScale/unsigned" in info:
-            duration = self.getDouble(info, "Duration")
-            if duration is not None:
-                try:
-                    seconds = duration * \
-                        info["TimecodeScale/unsigned"].value * 1e-9
-                    self.duration = timedelta(seconds=seconds)
-                except OverflowError:
-                    # Catch OverflowError for timedelta (long int too large
-                    # to be converted to an int)
-                    pass
+        duration = self.getDouble(info, "Duration")
+        if duration is not None:
+            if "TimecodeScale/unsigned" in info:
+                scale = info["TimecodeScale/unsigned"].value
+            else:
+                # Default value of the specification: 1 ms
+                scale = 1000000
+            try:
+                self.duration = timedelta(seconds=duration * scale * 1e-9)
+            except OverflowError:
+                # Catch OverflowError for timedelta (long int too large
+                # to be converted to an int)
+                pass
         if "DateUTC/date" in info:
             try:
                 self.creation_date = dateToDatetime(info["DateUTC/date"].value)
-- 
2.43.0


From a4765e2565289c5dd563d42e7682159803a81af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 106/218] fix: ANI metadata: frame rate of a cursor with more
 than 100 rates

---
 hachoir/metadata/riff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/riff.py b/hachoir/metadata/riff.py
index 858f3e6..9c03b56 100644
--- a/hachoir/metadata/riff.py
+++ b/hachoir/metadata/riff.py
@@ -187,9 +187,9 @@ class RiffMetadata(MultipleMetadata):
             count = 0
             total = 0
             for rate in riff.array("anim_rate/rate"):
-                count += 1
-                if 100 < count:
+                if 100 <= count:
                     break
+                count += 1
                 total += rate.value / 60.0
             if count and total:
                 self.frame_rate = count / total
-- 
2.43.0


From 14395eb8d039e104e7375904fe95577526213e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 107/218] fix: RIFF: an empty chunk at the end of a list

---
 hachoir/parser/container/riff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 3d7bd0d..6211709 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -287,7 +287,7 @@ class Chunk(FieldSet):
         if self["tag"].value == "LIST":
             yield String(self, "subtag", 4, "Sub-tag", charset="ASCII")
             handler = self.tag_info[1]
-            while 8 < (self.size - self.current_size) // 8:
+            while 8 <= (self.size - self.current_size) // 8:
                 field = self.__class__(self, "field[]")
                 yield field
                 if (field.size // 8) % 2 != 0:
-- 
2.43.0


From 6bffd928a4d31b6bed79aa6a372fdeecb45da2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:09 +0000
Subject: [PATCH 108/218] fix: FLV: recognize a file with audio only

---
 hachoir/parser/video/flv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/flv.py b/hachoir/parser/video/flv.py
index 8d49ae4..209ef83 100644
--- a/hachoir/parser/video/flv.py
+++ b/hachoir/parser/video/flv.py
@@ -137,7 +137,9 @@ class FlvFile(Parser):
         "magic": (
             # Signature, version=1, flags=5 (video+audio), header size=9
             (b"FLV\1\x05\0\0\0\x09", 0),
-            # Signature, version=1, flags=5 (video), header size=9
+            # Signature, version=1, flags=4 (audio), header size=9
+            (b"FLV\1\x04\0\0\0\x09", 0),
+            # Signature, version=1, flags=1 (video), header size=9
             (b"FLV\1\x01\0\0\0\x09", 0),
         ),
         "description": "Macromedia Flash video"
-- 
2.43.0


From c7a09ca600d38e5898b40361cc66f1bd023aa507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 109/218] fix: MP4: first atom with a 64-bit size

---
 hachoir/parser/container/mp4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3360eb6..efd6f3d 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -1309,7 +1309,8 @@ class MP4File(Parser):
     def validate(self):
         # TODO: Write better code, erk!
         size = self.stream.readBits(0, 32, self.endian)
-        if size < 8:
+        # (1: the size is stored on 64 bits after the tag)
+        if size < 8 and size != 1:
             return "Invalid first atom size"
         tag = self.stream.readBytes(4 * 8, 4)
         if tag not in (b"ftyp", b"moov", b"free", b"skip"):
-- 
2.43.0


From ae94c2e2cde146273de54881993e1bbcd55463e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 110/218] fix: TAR: the name of a file starts with its prefix

---
 hachoir/metadata/archive.py   |  2 +-
 hachoir/parser/archive/tar.py | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/archive.py b/hachoir/metadata/archive.py
index 4905f31..e370dc0 100644
--- a/hachoir/metadata/archive.py
+++ b/hachoir/metadata/archive.py
@@ -113,7 +113,7 @@ class TarMetadata(MultipleMetadata):
 
     @fault_tolerant
     def extractFile(self, field, meta):
-        meta.filename = field["name"].value
+        meta.filename = field.getFilename()
         meta.file_attr = humanUnixAttributes(field.getOctal("mode"))
         meta.file_size = field.getOctal("size")
         try:
diff --git a/hachoir/parser/archive/tar.py b/hachoir/parser/archive/tar.py
index 8bb129e..0766f7f 100644
--- a/hachoir/parser/archive/tar.py
+++ b/hachoir/parser/archive/tar.py
@@ -51,12 +51,12 @@ class FileEntry(FieldSet):
         yield String(self, "gname", 32, "Group name", strip=" \0", charset="ISO-8859-1")
         yield String(self, "devmajor", 8, "Dev major", strip=" \0", charset="ASCII")
         yield String(self, "devminor", 8, "Dev minor", strip=" \0", charset="ASCII")
-        yield String(self, "prefix", 155, "Prefix for filename", strip="\0", charset="ASCII")
+        yield String(self, "prefix", 155, "Prefix for filename", strip="\0", charset="ISO-8859-1")
         yield NullBytes(self, "padding", 12, "Padding (zero)")
 
         filesize = self.getOctal("size")
         if filesize:
-            yield SubFile(self, "content", filesize, filename=self["name"].value)
+            yield SubFile(self, "content", filesize, filename=self.getFilename())
 
         size = paddingSize(self.current_size // 8, 512)
         if size:
@@ -65,6 +65,13 @@ class FileEntry(FieldSet):
     def convertOctal(self, chunk):
         return self.octal2int(chunk.value)
 
+    def getFilename(self):
+        filename = self["name"].value
+        # (GNU tar uses the bytes of the prefix for something else)
+        if self["magic"].value.startswith("ustar\0") and self["prefix"].value:
+            filename = self["prefix"].value + '/' + filename
+        return filename
+
     def isEmpty(self):
         return self["name"].value == ""
 
@@ -78,9 +85,7 @@ class FileEntry(FieldSet):
         if self.isEmpty():
             desc = "(terminator, empty header)"
         else:
-            filename = self["name"].value
-            if self["prefix"].value:
-                filename = self["prefix"].value + '/' + filename
+            filename = self.getFilename()
             filesize = humanFilesize(self.getOctal("size"))
             desc = "(%s: %s, %s)" % \
                 (filename, self["type"].display, filesize)
-- 
2.43.0


From 068ec8a87f5176ff9d6e5b4808d10770f12015f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:35 +0000
Subject: [PATCH 111/218] fix: CAB: value of the attributes of a file

---
 hachoir/parser/archive/cab.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 8b90d0c..01220d7 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -66,6 +66,11 @@ class CabFileAttributes(FieldSet):
         yield Bit(self, "name_is_utf", "Is the filename using UTF-8?")
         yield Bits(self, "reserved[]", 8)
 
+    def createValue(self):
+        mode = [name for name in ("readonly", "hidden", "system", "archive", "exec")
+                if self[name].value]
+        return ", ".join(mode) or "(none)"
+
 
 class File(FieldSet):
 
-- 
2.43.0


From 15177040c49bae3dfc48845101ef5d53f32a0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:35 +0000
Subject: [PATCH 112/218] fix: gzip: empty extra field

---
 hachoir/parser/archive/gzip_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index aff9d28..ecbdab7 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -85,7 +85,8 @@ class GzipParser(Parser):
         # Optional fields
         if self["has_extra"].value:
             yield UInt16(self, "extra_length", "Extra length")
-            yield RawBytes(self, "extra", self["extra_length"].value, "Extra")
+            if self["extra_length"].value:
+                yield RawBytes(self, "extra", self["extra_length"].value, "Extra")
         if self["has_filename"].value:
             yield CString(self, "filename", "Filename", charset="ISO-8859-1")
         if self["has_comment"].value:
-- 
2.43.0


From 4eafff9f6d28fa6f21d3a541af65ed44b121a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:35 +0000
Subject: [PATCH 113/218] fix: gzip: recognize a file written by an unknown
 system

---
 hachoir/parser/archive/gzip_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index ecbdab7..5dfafc7 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -24,7 +24,7 @@ class GzipParser(Parser):
         "min_size": 18 * 8,
         "magic_regex": (
             # (magic, compression=deflate, <flags>, <mtime>, )
-            (b'\x1F\x8B\x08.{5}[\0\2\4\6][\x00-\x0D]', 0),
+            (b'\x1F\x8B\x08.{5}[\0\2\4\6][\x00-\x0D\xFF]', 0),
         ),
         "description": "gzip archive",
     }
@@ -43,6 +43,7 @@ class GzipParser(Parser):
         11: "NTFS filesystem (NT)",
         12: "QDOS",
         13: "Acorn RISCOS",
+        255: "unknown",
     }
     COMPRESSION_NAME = {
         8: "deflate",
-- 
2.43.0


From 645cbfa81411d1d09e82a3f653de033cbf89c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:35 +0000
Subject: [PATCH 114/218] fix: ZIP: MIME type and file suffix of an
 OpenDocument file

---
 hachoir/parser/archive/zip.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 0ad8a1c..7fe103f 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -464,15 +464,30 @@ class ZipFile(Parser):
             ftype, fname, fdesc = self.CHUNK_TYPES[header]
             yield ftype(self, fname, fdesc)
 
-    def createMimeType(self):
-        if self["file[0]/filename"].value == "mimetype":
-            return makeUnicode(self["file[0]/data"].value)
+    def readMimeType(self):
+        """Content of the first file, if it is named "mimetype"."""
+        file0 = self["file[0]"]
+        if "filename" not in file0 or file0["filename"].value != "mimetype":
+            return None
+        compression = file0["compression"].value
+        if compression == 0 and "data" in file0:
+            data = file0["data"]
+        elif compression == COMPRESSION_DEFLATE and "compressed_data" in file0:
+            data = file0["compressed_data"]
         else:
-            return "application/zip"
+            return None
+        size = min(file0["uncompressed_size"].value or 256, 256)
+        stream = data.getSubIStream()
+        if stream.size is not None:
+            size = min(size, stream.size // 8)
+        return makeUnicode(stream.readBytes(0, size))
+
+    def createMimeType(self):
+        return self.readMimeType() or "application/zip"
 
     def createFilenameSuffix(self):
-        if self["file[0]/filename"].value == "mimetype":
-            mime = self["file[0]/compressed_data"].value
+        mime = self.readMimeType()
+        if mime:
             if mime in self.MIME_TYPES:
                 return "." + self.MIME_TYPES[mime]
         return ".zip"
-- 
2.43.0


From 42a96c5405dcf19d4130b43ed831625c8ef93bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 115/218] fix: CAB metadata: compression of a MSZIP folder

---
 hachoir/metadata/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/archive.py b/hachoir/metadata/archive.py
index e370dc0..343374f 100644
--- a/hachoir/metadata/archive.py
+++ b/hachoir/metadata/archive.py
@@ -149,7 +149,7 @@ class CabMetadata(MultipleMetadata):
     @fault_tolerant
     def useFolder(self, folder):
         compr = folder["compr_method"].display
-        if folder["compr_method"].value != 0:
+        if "compr_level" in folder:
             compr += " (level %u)" % folder["compr_level"].value
         self.compression = compr
 
-- 
2.43.0


From 8b27d8c007b59b66d04914353e98bc1d251e96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 116/218] fix: CAB: folder without data

---
 hachoir/parser/archive/cab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 01220d7..38c32b0 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -264,6 +264,9 @@ class CabFile(Parser):
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
+            if not size:
+                # All files of the folder are empty
+                continue
             yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
-- 
2.43.0


From af1c57c3126b50c54637e33cc9c9618de2bbb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:27 +0000
Subject: [PATCH 117/218] fix: CAB: folder without data at the offset of
 another one

---
 hachoir/parser/archive/cab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 38c32b0..cf8cbde 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -247,8 +247,9 @@ class CabFile(Parser):
             yield file
             files.append(file)
 
+        # (a folder without data may start where another one does)
         folders = sorted(enumerate(folders),
-                         key=lambda x: x[1]["offset"].value)
+                         key=lambda x: (x[1]["offset"].value, x[1]["data_blocks"].value))
 
         for i in range(len(folders)):
             index, folder = folders[i]
-- 
2.43.0


From 2216a24e1b97faa2b09ede20cea87ebdd8ce92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:08 +0000
Subject: [PATCH 118/218] fix: ZIP: MIME type of an OpenDocument file written
 to a pipe

---
 hachoir/parser/archive/zip.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 7fe103f..2e8d9eb 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -476,11 +476,11 @@ class ZipFile(Parser):
             data = file0["compressed_data"]
         else:
             return None
-        size = min(file0["uncompressed_size"].value or 256, 256)
-        stream = data.getSubIStream()
-        if stream.size is not None:
-            size = min(size, stream.size // 8)
-        return makeUnicode(stream.readBytes(0, size))
+        if "data_desc" in file0:
+            size = file0["data_desc/file_uncompressed_size"].value
+        else:
+            size = file0["uncompressed_size"].value
+        return makeUnicode(data.getSubIStream().readBytes(0, min(size, 256)))
 
     def createMimeType(self):
         return self.readMimeType() or "application/zip"
-- 
2.43.0


From 9e451a297c0e3be221c50433f0536fa38a5cd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:08 +0000
Subject: [PATCH 119/218] fix: gzip: charset of the comment

---
 hachoir/parser/archive/gzip_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/gzip_parser.py b/hachoir/parser/archive/gzip_parser.py
index 5dfafc7..e767b93 100644
--- a/hachoir/parser/archive/gzip_parser.py
+++ b/hachoir/parser/archive/gzip_parser.py
@@ -91,7 +91,7 @@ class GzipParser(Parser):
         if self["has_filename"].value:
             yield CString(self, "filename", "Filename", charset="ISO-8859-1")
         if self["has_comment"].value:
-            yield CString(self, "comment", "Comment")
+            yield CString(self, "comment", "Comment", charset="ISO-8859-1")
         if self["has_crc16"].value:
             yield textHandler(UInt16(self, "hdr_crc16", "CRC16 of the header"),
                               hexadecimal)
-- 
2.43.0


From d60972963d1fa57a8ebea96edd51a3523ea151f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:31 +0000
Subject: [PATCH 120/218] fix: ZIP: sizes on 64 bits in the header of a file

---
 hachoir/metadata/archive.py   |  6 ++--
 hachoir/parser/archive/zip.py | 52 +++++++++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/hachoir/metadata/archive.py b/hachoir/metadata/archive.py
index 343374f..539fdcd 100644
--- a/hachoir/metadata/archive.py
+++ b/hachoir/metadata/archive.py
@@ -86,9 +86,9 @@ class ZipMetadata(MultipleMetadata):
             if field["data_desc/file_compressed_size"].value:
                 meta.compr_size = field["data_desc/file_compressed_size"].value
         else:
-            meta.file_size = field["uncompressed_size"].value
-            if field["compressed_size"].value:
-                meta.compr_size = field["compressed_size"].value
+            compr_size, meta.file_size = field.getSizes()
+            if compr_size:
+                meta.compr_size = compr_size
         computeCompressionRate(meta)
         self.addGroup(field.name, meta, "File \"%s\"" % meta.get('filename'))
 
diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 2e8d9eb..d37b322 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -117,7 +117,9 @@ class ZipGeneralFlags(FieldSet):
 
 
 class ExtraField(FieldSet):
+    ZIP64 = 0x0001
     EXTRA_FIELD_ID = {
+        0x0001: "ZIP64 sizes and offset",
         0x0007: "AV Info",
         0x0009: "OS/2 extended attributes (also Info-ZIP)",
         0x000a: "PKWARE Win95/WinNT FileTimes",  # undocumented!
@@ -149,7 +151,10 @@ class ExtraField(FieldSet):
                    self.EXTRA_FIELD_ID)
         size = UInt16(self, "field_data_size", "Extra field data size")
         yield size
-        if size.value > 0:
+        if self["field_id"].value == self.ZIP64 and size.value in (8, 16, 24):
+            for index in range(size.value // 8):
+                yield UInt64(self, "value[]")
+        elif size.value > 0:
             yield RawBytes(self, "field_data", size.value, "Unknown field data")
 
 
@@ -259,10 +264,41 @@ class ZipDataDescriptor(FieldSet):
                                      "Uncompressed size (bytes)"))
 
 
+class Zip64DataDescriptor(FieldSet):
+    static_size = 160
+
+    def createFields(self):
+        yield textHandler(UInt32(self, "file_crc32",
+                                 "Checksum (CRC32)"), hexadecimal)
+        yield filesizeHandler(UInt64(self, "file_compressed_size",
+                                     "Compressed size (bytes)"))
+        yield filesizeHandler(UInt64(self, "file_uncompressed_size",
+                                     "Uncompressed size (bytes)"))
+
+
 class FileEntry(FieldSet):
     HEADER = 0x04034B50
     filename = None
 
+    def getZip64(self):
+        """64-bit values of the extra fields, None if there is none."""
+        if "extra" in self:
+            for extra in self.array("extra/extra"):
+                if extra["field_id"].value == ExtraField.ZIP64:
+                    return [field.value for field in extra.array("value")]
+        return None
+
+    def getSizes(self):
+        """Compressed size and uncompressed size of the header."""
+        compressed = self["compressed_size"].value
+        uncompressed = self["uncompressed_size"].value
+        zip64 = self.getZip64() or []
+        if uncompressed == 0xFFFFFFFF and zip64:
+            uncompressed = zip64.pop(0)
+        if compressed == 0xFFFFFFFF and zip64:
+            compressed = zip64.pop(0)
+        return compressed, uncompressed
+
     def data(self, size):
         compression = self["compression"].value
         if compression == 0:
@@ -277,6 +313,10 @@ class FileEntry(FieldSet):
     def resync(self):
         # Non-seekable output, search the next data descriptor: the one which
         # gives the size of the data before it
+        if self.getZip64() is None:
+            size_bits, descriptor = 32, ZipDataDescriptor
+        else:
+            size_bits, descriptor = 64, Zip64DataDescriptor
         start = self.absolute_address + self.current_size
         address = start
         while True:
@@ -286,13 +326,13 @@ class FileEntry(FieldSet):
                 raise ParserError("Couldn't resync to %s" %
                                   ZipDataDescriptor.HEADER_STRING)
             size = (address - start) // 8
-            if self.stream.readBits(address + 64, 32, LITTLE_ENDIAN) == size:
+            if self.stream.readBits(address + 64, size_bits, LITTLE_ENDIAN) == size:
                 break
             address += 8
         if size:
             yield self.data(size)
         yield textHandler(UInt32(self, "header[]", "Header"), hexadecimal)
-        data_desc = ZipDataDescriptor(self, "data_desc", "Data descriptor")
+        data_desc = descriptor(self, "data_desc", "Data descriptor")
         # self.info("Resynced!")
         yield data_desc
 
@@ -308,7 +348,7 @@ class FileEntry(FieldSet):
         if self["extra_length"].value:
             yield ExtraFields(self, "extra", size=self["extra_length"].value * 8,
                               description="Extra fields")
-        size = self["compressed_size"].value
+        size = self.getSizes()[0]
         if size > 0:
             yield self.data(size)
         elif (self["flags/incomplete"].value
@@ -320,7 +360,7 @@ class FileEntry(FieldSet):
 
     def createDescription(self):
         return "File entry: %s (%s)" % \
-            (self["filename"].value, self["compressed_size"].display)
+            (self["filename"].value, self.getSizes()[0])
 
     def validate(self):
         if self["compression"].value not in COMPRESSION_METHOD:
@@ -479,7 +519,7 @@ class ZipFile(Parser):
         if "data_desc" in file0:
             size = file0["data_desc/file_uncompressed_size"].value
         else:
-            size = file0["uncompressed_size"].value
+            size = file0.getSizes()[1]
         return makeUnicode(data.getSubIStream().readBytes(0, min(size, 256)))
 
     def createMimeType(self):
-- 
2.43.0


From 4c47443eb5f7cdcb4fd9de39cd09b693f7356aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 121/218] fix: SWF metadata: give the width and height in
 pixels, not in twips

---
 hachoir/metadata/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index bffdd3a..9568dff 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -254,8 +254,8 @@ class PcfMetadata(RootMetadata):
 class SwfMetadata(RootMetadata):
 
     def extract(self, swf):
-        self.height = swf["rect/ymax"].value  # twips
-        self.width = swf["rect/xmax"].value  # twips
+        self.height = swf["rect"].getHeight()
+        self.width = swf["rect"].getWidth()
         self.format_version = "flash version %s" % swf["version"].value
         self.frame_rate = swf["frame_rate"].value
         self.comment = "Frame count: %s" % swf["frame_count"].value
-- 
2.43.0


From f836e08b08c58050f966126685a0cd0fb07e736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 122/218] fix: TrueType: read all the names in Unicode as such
 (platform Unicode, Microsoft symbol and UCS-4)

---
 hachoir/parser/misc/ttf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index ca5e7c4..5b9878f 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -81,9 +81,10 @@ PLATFORM_NAME = {
 
 CHARSET_MAP = {
     # (platform, encoding) => charset
-    0: {3: "UTF-16-BE"},
+    0: {encoding: "UTF-16-BE" for encoding in range(7)},
     1: {0: "MacRoman"},
-    3: {1: "UTF-16-BE"},
+    2: {1: "UTF-16-BE"},
+    3: {0: "UTF-16-BE", 1: "UTF-16-BE", 10: "UTF-16-BE"},
 }
 
 PERMISSIONS = {
-- 
2.43.0


From 375e15cf32784c7f107014528d606af2102a5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 123/218] fix: TrueType: the font direction hint is signed

---
 hachoir/parser/misc/ttf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 5b9878f..792a490 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -228,7 +228,7 @@ def parseFontHeader(self):
     yield PaddingBits(self, "reserved[]", 9)
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
-    yield Enum(UInt16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
+    yield Enum(Int16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
     yield Enum(UInt16(self, "ofst_format"), {0: "short offsets", 1: "long"})
     yield UInt16(self, "glyph_format", "(=0)")
 
-- 
2.43.0


From 59728c592271a66e5a3c2fbf42dd77c4008d462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 124/218] fix: torrent: read texts in UTF-8, even longer than
 511 bytes

---
 hachoir/parser/misc/torrent.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/torrent.py b/hachoir/parser/misc/torrent.py
index a718c24..5ce5ece 100644
--- a/hachoir/parser/misc/torrent.py
+++ b/hachoir/parser/misc/torrent.py
@@ -16,6 +16,9 @@ from hachoir.core.tools import makePrintable, timestampUNIX, humanFilesize
 # Maximum number of bytes for string length
 MAX_STRING_LENGTH = 6   # length in 0..999999
 
+# Maximum number of bytes of a text
+MAX_TEXT_LENGTH = 100000
+
 # Maximum number of bytes for integer value
 MAX_INTEGER_SIZE = 21    # 21 decimal digits (or "-" sign and 20 digits)
 
@@ -68,8 +71,15 @@ class TorrentString(FieldSet):
         if not len:
             self.info("Empty string: len=%i" % len)
             return
-        if len < 512:
-            yield String(self, "value", len, "String value", charset="ISO-8859-1")
+        # Texts are in UTF-8
+        charset = "UTF-8"
+        if len <= MAX_TEXT_LENGTH:
+            try:
+                self.stream.readBytes(self.absolute_address + self.current_size, len).decode(charset)
+            except UnicodeDecodeError:
+                charset = "ISO-8859-1"
+        if len < 512 or (len <= MAX_TEXT_LENGTH and charset == "UTF-8"):
+            yield String(self, "value", len, "String value", charset=charset)
         else:
             # Probably raw data
             yield RawBytes(self, "value", len, "Raw data")
-- 
2.43.0


From 0243901ea108899208c311061d13a1851e5ea041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:20 +0000
Subject: [PATCH 125/218] fix: PE version information: read texts up to their
 end

---
 hachoir/parser/program/exe_res.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index e943b81..c56b724 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -122,10 +122,9 @@ class VersionInfoNode(FieldSet):
         1: "string",
     }
 
-    def __init__(self, parent, name, is_32bit=True):
+    def __init__(self, parent, name):
         FieldSet.__init__(self, parent, name)
         self._size = alignValue(self["size"].value, 4) * 8
-        self.is_32bit = is_32bit
 
     def createFields(self):
         yield UInt16(self, "size", "Node size (in bytes)")
@@ -139,17 +138,15 @@ class VersionInfoNode(FieldSet):
         size = self["data_size"].value
         if size:
             if self["type"].value == self.TYPE_STRING:
-                if self.is_32bit:
-                    size *= 2
+                # Size in characters, but in bytes for some compilers
+                size = min(size * 2, (self.size - self.current_size) // 8)
                 yield String(self, "value", size, charset="UTF-16-LE", truncate="\0")
             elif self["name"].value == "VS_VERSION_INFO":
                 yield VersionInfoBinary(self, "value", size=size * 8)
-                if self["value/file_flags_mask"].value == 0:
-                    self.is_32bit = False
             else:
                 yield RawBytes(self, "value", size)
         while 12 <= (self.size - self.current_size) // 8:
-            yield VersionInfoNode(self, "node[]", self.is_32bit)
+            yield VersionInfoNode(self, "node[]")
         size = (self.size - self.current_size) // 8
         if size:
             yield NullBytes(self, "padding[]", size)
-- 
2.43.0


From e245f6e7db58d387c54324dcfe700c38744d610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:59 +0000
Subject: [PATCH 126/218] fix: PE version information: the last node may have
 no padding

---
 hachoir/parser/program/exe_res.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index c56b724..9fa9e48 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -124,7 +124,9 @@ class VersionInfoNode(FieldSet):
 
     def __init__(self, parent, name):
         FieldSet.__init__(self, parent, name)
-        self._size = alignValue(self["size"].value, 4) * 8
+        # The last node may have no padding
+        self._size = min(alignValue(self["size"].value, 4) * 8,
+                         parent.size - self.address)
 
     def createFields(self):
         yield UInt16(self, "size", "Node size (in bytes)")
-- 
2.43.0


From 70c9ae5eab8f14c1fe2d4917589d6b76f3480613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:33 +0000
Subject: [PATCH 127/218] fix: PE: find the resources in a section of any name

---
 hachoir/parser/program/exe.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index d0f8ad0..e4755f9 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -175,6 +175,13 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
         if "pe_opt_header/resource/size" in self:
             if not self["pe_opt_header/resource/size"].value:
                 return None
+            # The section may have any name
+            rva = self["pe_opt_header/resource/rva"].value
+            for section in self.array("section_hdr"):
+                if section["rva"].value == rva and section["phys_size"].value:
+                    name = section.createSectionName()
+                    if name in self:
+                        return self[name]
         if "section_rsrc" in self:
             return self["section_rsrc"]
         return None
-- 
2.43.0


From fdf049f8677065a4c258f28151b78111442e007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 128/218] fix: OLE2: the content ends at the last block in use

---
 hachoir/parser/misc/ole2.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index bfc1f7d..13c644a 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -373,16 +373,16 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
             start += count
 
     def createContentSize(self):
-        max_block = 0
+        # The last block which isn't free
+        last_block = None
         for fat in self.array("bbfat"):
-            for entry in fat:
-                block = entry.value
-                if block not in SECT.SPECIALS:
-                    max_block = max(block, max_block)
-        if max_block in SECT.SPECIALS:
+            for index, entry in enumerate(fat, fat.start):
+                if entry.value != SECT.UNUSED:
+                    last_block = index
+        if last_block is None:
             return None
         else:
-            return HEADER_SIZE + (max_block + 1) * self.sector_size
+            return HEADER_SIZE + (last_block + 1) * self.sector_size
 
     def seekBlock(self, block):
         self.seekBit(HEADER_SIZE + block * self.sector_size)
-- 
2.43.0


From 9d95d71ebd2b2b779457804d2249db42d1f539ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 129/218] fix: OLE2: find the blocks of documents with 4 kB
 sectors

---
 hachoir/parser/misc/ole2.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index 13c644a..5668a42 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -120,8 +120,7 @@ class DIFat(SeekableFieldSet):
         entries_per_sect = self.parent.sector_size // 32 - 1
         for ctr in range(self.count):
             # this is relative to real DIFAT start
-            self.seekBit(NB_DIFAT * SECT.static_size +
-                         self.parent.sector_size * difat_sect)
+            self.seekBit(self.parent.getBlockAddress(difat_sect) - self.address)
             for sect_index in range(entries_per_sect):
                 yield SECT(self, "index[%u]" % (index + sect_index))
             index += entries_per_sect
@@ -382,7 +381,11 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
         if last_block is None:
             return None
         else:
-            return HEADER_SIZE + (last_block + 1) * self.sector_size
+            return self.getBlockAddress(last_block + 1)
+
+    def getBlockAddress(self, block):
+        # The header takes a whole block if the blocks are bigger than it
+        return max(HEADER_SIZE, self.sector_size) + block * self.sector_size
 
     def seekBlock(self, block):
-        self.seekBit(HEADER_SIZE + block * self.sector_size)
+        self.seekBit(self.getBlockAddress(block))
-- 
2.43.0


From 2cf38e0b317b7febbad82cf9537f72871f0423bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 130/218] fix: OLE2 metadata: the presentation format isn't a
 title

---
 hachoir/metadata/misc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index 9568dff..4361760 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -103,7 +103,6 @@ class OLE2_Metadata(RootMetadata):
     ))
 
     DOC_SUMMARY_ID_TO_ATTR = {
-        3: "title",     # Subject
         14: "author",    # Manager
     }
     IGNORE_DOC_SUMMARY = set((
-- 
2.43.0


From 0fb6c2e13088a40c1a12314580e920d507f79474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:49 +0000
Subject: [PATCH 131/218] fix: a timestamp out of range has no value

---
 hachoir/field/timestamp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/field/timestamp.py b/hachoir/field/timestamp.py
index e45b832..69d36a1 100644
--- a/hachoir/field/timestamp.py
+++ b/hachoir/field/timestamp.py
@@ -10,6 +10,10 @@ class GenericTimestamp(Bits):
     def __init__(self, parent, name, size, description=None):
         Bits.__init__(self, parent, name, size, description)
 
+    def hasValue(self):
+        # a number of seconds out of range has no value
+        return self.value is not None
+
     def createDisplay(self):
         return humanDatetime(self.value)
 
-- 
2.43.0


From 04664d2e1097e6b623bcd8ef214a6d234f627266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 132/218] fix: a single fragment may be cut by the end of the
 stream

---
 hachoir/stream/input.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 424ec0c..0621b9d 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -512,6 +512,11 @@ class FragmentedStream(InputStream):
         InputStream.__init__(self, **args)
         if not self.next:
             self._current_size = data.size
+            size = self.stream.size
+            if size is not None:
+                # the fragment may be cut by the end of the stream
+                self._current_size = min(
+                    data.size, max(0, size - data.absolute_address))
             self._setSize()
 
     def close(self):
-- 
2.43.0


From 223accea877b8f3e098e15ceeb6723a6296f85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:12 +0000
Subject: [PATCH 133/218] fix: empty arrays, dictionaries and data of a binary
 property list

---
 hachoir/parser/misc/bplist.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 097a197..2b339cc 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -233,12 +233,17 @@ class BPListObject(FieldSet):
             if size:
                 yield BPListArray(self, "value", size)
                 self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<array></array>'
 
         elif markertype == 13:
             # Dict
             yield BPListSize(self, "size")
-            yield BPListDict(self, "value", self['size'].value)
-            self.xml = lambda prefix: self['value'].createXML(prefix)
+            if self['size'].value:
+                yield BPListDict(self, "value", self['size'].value)
+                self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<dict></dict>'
 
         else:
             yield Bits(self, "value", 4)
@@ -247,8 +252,12 @@ class BPListObject(FieldSet):
     def createValue(self):
         if 'value' in self:
             return self['value'].value
-        elif self['marker_type'].value in [4, 5, 6]:
+        elif self['marker_type'].value == 4:
+            return b''
+        elif self['marker_type'].value in [5, 6]:
             return ''
+        elif self['marker_type'].value in [10, 13]:
+            return []
         else:
             return None
 
@@ -257,16 +266,20 @@ class BPListObject(FieldSet):
             return str(self['value'].display)
         elif self['marker_type'].value in [4, 5, 6]:
             return ''
+        elif self['marker_type'].value == 10:
+            return '[]'
+        elif self['marker_type'].value == 13:
+            return '{}'
         else:
             return None
 
     def createXML(self, prefix=''):
-        if 'value' in self:
-            try:
-                return self.xml(prefix)
-            except AttributeError:
-                return ''
-        return ''
+        # The function is set once all the fields are created
+        self._feedAll()
+        try:
+            return self.xml(prefix)
+        except AttributeError:
+            return ''
 
     def getFieldType(self):
         return '%s<%s>' % (FieldSet.getFieldType(self), self['marker_type'].display)
-- 
2.43.0


From e324ea1260c5ef7146fa4237f421ed1a5b8a93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:24 +0000
Subject: [PATCH 134/218] fix: XML of a binary property list with Python 3

---
 hachoir/parser/misc/bplist.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 2b339cc..e37f85d 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -21,9 +21,14 @@ from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum,
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
 from hachoir.core.tools import humanDatetime
+from binascii import b2a_base64
 from datetime import datetime, timedelta
 
 
+def escapeXML(text):
+    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
+
+
 class BPListTrailer(FieldSet):
 
     def createFields(self):
@@ -115,7 +120,7 @@ class BPListDict(FieldSet):
         return '{' + ', '.join(['%s: %s' % (k.display, v.display) for k, v in self.value]) + '}'
 
     def createXML(self, prefix=''):
-        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, k.getRef().value.encode('utf-8'), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
+        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, escapeXML(k.getRef().value), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
 
 
 class BPListObject(FieldSet):
@@ -185,7 +190,7 @@ class BPListObject(FieldSet):
             yield displayHandler(Float64(self, "value"), lambda x: humanDatetime(cvt_time(x)))
             self.xml = lambda prefix: prefix + \
                 "<date>%sZ</date>" % (
-                    cvt_time(self['value'].value).isoformat())
+                    cvt_time(self['value'].value).replace(microsecond=0).isoformat())
 
         elif markertype == 4:
             # Data
@@ -194,7 +199,7 @@ class BPListObject(FieldSet):
                 yield Bytes(self, "value", self['size'].value)
                 self.xml = lambda prefix: prefix + \
                     "<data>\n%s\n%s</data>" % (
-                        self['value'].value.encode('base64').strip(), prefix)
+                        b2a_base64(self['value'].value).decode('ascii').strip(), prefix)
             else:
                 self.xml = lambda prefix: prefix + '<data></data>'
 
@@ -204,8 +209,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value, charset="ASCII")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (self['value'].value.replace(
-                        '&', '&amp;').encode('iso-8859-1'))
+                    "<string>%s</string>" % escapeXML(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
@@ -215,8 +219,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value * 2, charset="UTF-16-BE")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (
-                        self['value'].value.replace('&', '&amp;').encode('utf-8'))
+                    "<string>%s</string>" % escapeXML(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
-- 
2.43.0


From 52f9bfd77c19a00141dbd09a295b3c2593869658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 135/218] fix: the unicode strings of a compiled Python file
 are texts

---
 hachoir/parser/program/python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 4be46bb..3b371a1 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -49,7 +49,10 @@ def parseString(parent):
             line_number += line_number_delta.value
             line_number_delta._description = 'Line Number %i' % line_number
     elif 0 < length:
-        yield RawBytes(parent, "text", length, "Content")
+        if parent["bytecode"].value == "u":
+            yield String(parent, "text", length, "Content", charset="UTF-8")
+        else:
+            yield RawBytes(parent, "text", length, "Content")
     if DISASSEMBLE and parent.name == "compiled_code":
         disassembleBytecode(parent["text"])
 
-- 
2.43.0


From 8455161b2ec498513d2bea7a6499a7119e5f8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 136/218] fix: value of an empty string of a compiled Python
 file

---
 hachoir/parser/program/python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 3b371a1..9ce66f4 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -60,6 +60,9 @@ def parseString(parent):
 def createStringValue(parent):
     if parent.name == "lnotab":
         return "<lnotab>"
+    if "text" not in parent:
+        # Empty string
+        return b"" if parent["bytecode"].value in ("s", "t") else ""
     return parent["text"]
 
 
-- 
2.43.0


From 5ae5a7611df841b0a7faf5768261d73d78291a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 137/218] fix: code objects of Python 2.0 have no free variable

---
 hachoir/parser/program/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 9ce66f4..ba1ab55 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -273,7 +273,7 @@ def parseCode(parent):
         yield Object(parent, "co_localspluskinds")
     else:
         yield Object(parent, "varnames")
-        if 0x2000000 <= version:
+        if 0x2010000 <= version:
             yield Object(parent, "freevars")
             yield Object(parent, "cellvars")
 
-- 
2.43.0


From 8422ab44ad369669f6394c74b9cd704df88e54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 138/218] fix: magic number of the compiled files of Python
 3.11

---
 hachoir/parser/program/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index ba1ab55..f34e92d 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -570,6 +570,7 @@ class PythonCompiledFile(Parser):
         3492: ("Python 3.11a7", VERSION(3, 11)),
         3493: ("Python 3.11a7", VERSION(3, 11)),
         3494: ("Python 3.11a7", VERSION(3, 11)),
+        3495: ("Python 3.11a7", VERSION(3, 11)),
 
         # Python 3.12
         3500: ("Python 3.12a1", VERSION(3, 12)),
-- 
2.43.0


From 185960d559335ba41f589ded3dabada89710f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 139/218] fix: value of a slice of a compiled Python file

---
 hachoir/parser/program/python.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index f34e92d..f9fac93 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -240,6 +240,10 @@ def parseSlice(parent):
     yield Object(parent, "stop")
     yield Object(parent, "step")
 
+
+def createSliceValue(parent):
+    return slice(parent["start"].value, parent["stop"].value, parent["step"].value)
+
 # --- Code ---
 
 
@@ -329,7 +333,7 @@ class Object(FieldSet):
         'A': ("ascii_interned", parseASCII, "ASCII interned", None, createStringValue),
         'z': ("short_ascii", parseShortASCII, "Short ASCII", None, createStringValue),
         'Z': ("short_ascii_interned", parseShortASCII, "Short ASCII interned", None, createStringValue),
-        ':': ("slice", parseSlice, "Slice", None, createStringValue),
+        ':': ("slice", parseSlice, "Slice", None, createSliceValue),
     }
 
     def __init__(self, parent, name, **kw):
-- 
2.43.0


From 857cb18473064f5da570e304b712079fad65a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 140/218] fix: an ASN.1 set may have several items

---
 hachoir/parser/container/asn1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 2d849af..9a02a1d 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -106,7 +106,8 @@ def readSequence(self, content_size):
 
 
 def readSet(self, content_size):
-    yield Object(self, "value", size=content_size * 8)
+    while self.current_size < self.size:
+        yield Object(self, "item[]")
 
 
 def readASCIIString(self, content_size):
-- 
2.43.0


From 2fb6e564ca024867dd728d37bcb6d764801cc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 141/218] fix: charset of the ASN.1 BMP strings

---
 hachoir/parser/container/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 9a02a1d..8404818 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -119,7 +119,7 @@ def readUTF8String(self, content_size):
 
 
 def readBMPString(self, content_size):
-    yield String(self, "value", content_size, charset="UTF-16")
+    yield String(self, "value", content_size, charset="UTF-16-BE")
 
 
 def readBitString(self, content_size):
-- 
2.43.0


From 829049707b7f1c6f1af5a11fc13351514dee44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 142/218] fix: ASN.1 object identifiers starting with a 2

---
 hachoir/parser/container/asn1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 8404818..a6ae0ef 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -140,7 +140,7 @@ def formatObjectID(fieldset):
 
 
 def readObjectID(self, content_size):
-    yield textHandler(UInt8(self, "first"), formatFirstObjectID)
+    yield textHandler(OID_Integer(self, "first"), formatFirstObjectID)
     while self.current_size < self.size:
         yield OID_Integer(self, "item[]")
 
@@ -161,7 +161,9 @@ def readInteger(self, content_size):
 
 def formatFirstObjectID(field):
     value = field.value
-    return "%u.%u" % (value // 40, value % 40)
+    # The first number is 0, 1 or 2; the second is limited to 39 for 0 and 1
+    first = min(value // 40, 2)
+    return "%u.%u" % (first, value - first * 40)
 
 
 def formatValue(fieldset):
-- 
2.43.0


From d764539dcc73fccfd957d95608af19cf9b80967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:58 +0000
Subject: [PATCH 143/218] fix: length of the long strings of a serialized Java
 stream

---
 hachoir/parser/program/java_serialized.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 8021038..3233f9a 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -26,14 +26,17 @@ class LongString(FieldSet):
 
     def createFields(self):
         yield Int64(self, "length")
-        yield String(self, "value", charset="UTF-8")
-
-    def createDescription(self):
-        return self['value'].description
+        if self["length"].value:
+            yield String(self, "value", self["length"].value, charset="UTF-8")
 
     def createValue(self):
+        if not self["length"].value:
+            return ""
         return self['value'].value
 
+    def createDisplay(self):
+        return repr(self.value)
+
 
 class UTF16Character(UInt16):
 
-- 
2.43.0


From 5a820893c5097b2464eb82d481d389a14b097600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:58 +0000
Subject: [PATCH 144/218] fix: references of a serialized Java stream before a
 reset

---
 hachoir/parser/program/java_serialized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 3233f9a..3a1073f 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -66,12 +66,15 @@ class SerializedNull(FieldSet):
 class SerializedReference(FieldSet):
 
     def createFields(self):
+        # A reset of the stream starts another table
+        self.handles = self.root.handles
         yield Enum(UInt8(self, "typecode"), TYPECODE_NAMES)
         yield Int32(self, "handle")
 
     @property
     def referent(self):
-        return self.root.handles[self['handle'].value]
+        handle = self['handle'].value
+        return self.handles[handle]
 
     def createValue(self):
         return self['handle'].value
-- 
2.43.0


From dc039a0eeea15676ea0be2f7b4c6e8e4003337d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 145/218] fix: objects without field of a serialized Java
 stream

---
 hachoir/parser/program/java_serialized.py | 26 ++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 3a1073f..84be6b1 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -195,6 +195,20 @@ class WriteObjectContents(FieldSet):
                 break
 
 
+def hasValues(classDesc):
+    """Is there something to read in an object of the class?"""
+    if isinstance(classDesc, SerializedReference):
+        classDesc = classDesc.referent
+    if isinstance(classDesc, SerializedNull):
+        return False
+    if isinstance(classDesc, SerializedClassDesc) and (
+            classDesc['classDescFlags_externalizable'].value
+            or classDesc['classDescFlags_write_method'].value
+            or classDesc['fieldDesc_count'].value):
+        return True
+    return hasValues(classDesc['superClassDesc'])
+
+
 class SerializedObject(FieldSet):
 
     def createFields(self):
@@ -202,7 +216,13 @@ class SerializedObject(FieldSet):
         yield SerializedContent(self, "classDesc")
         self.root.newHandle(self)
 
-        yield ObjectValue(self, "value")
+        if hasValues(self['classDesc']):
+            yield ObjectValue(self, "value")
+
+    def valueFields(self):
+        if 'value' not in self:
+            return ()
+        return self['value'].array('field')
 
     @property
     def classDesc(self):
@@ -212,11 +232,11 @@ class SerializedObject(FieldSet):
         return classDesc
 
     def createValue(self):
-        return tuple(field.value for field in self['value'].array('field'))
+        return tuple(field.value for field in self.valueFields())
 
     def createDisplay(self):
         out = []
-        for field in self['value'].array('field'):
+        for field in self.valueFields():
             if isinstance(field, SerializedReference) and not isinstance(field.referent, SerializedString):
                 # Avoid recursive references
                 out.append('%s=#<REF:%s>' % (field.fieldName,
-- 
2.43.0


From 482d6662944ff624e826fbce1d9104e94f2b53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 146/218] fix: type of a field which refers to its name in a
 serialized Java stream

---
 hachoir/parser/program/java_serialized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 84be6b1..02bcd64 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -95,7 +95,10 @@ class FieldDesc(FieldSet):
     def typeDescriptor(self):
         typecode = self['typecode'].value
         if typecode in ('[', 'L'):
-            return self['className'].value
+            className = self['className']
+            if isinstance(className, SerializedReference):
+                className = className.referent
+            return className.value
         else:
             return typecode
 
-- 
2.43.0


From 318005565ab46db2699f5df09607a46d6a87dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:57 +0000
Subject: [PATCH 147/218] fix: display of references to long strings and
 classes of a serialized Java stream

---
 hachoir/parser/program/java_serialized.py | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 02bcd64..69c3ed6 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -35,7 +35,9 @@ class LongString(FieldSet):
         return self['value'].value
 
     def createDisplay(self):
-        return repr(self.value)
+        if not self["length"].value:
+            return "(empty)"
+        return self['value'].display
 
 
 class UTF16Character(UInt16):
@@ -240,7 +242,7 @@ class SerializedObject(FieldSet):
     def createDisplay(self):
         out = []
         for field in self.valueFields():
-            if isinstance(field, SerializedReference) and not isinstance(field.referent, SerializedString):
+            if isReference(field):
                 # Avoid recursive references
                 out.append('%s=#<REF:%s>' % (field.fieldName,
                                              field.referent.classDesc.className))
@@ -249,6 +251,12 @@ class SerializedObject(FieldSet):
         return '%s(%s)' % (self.classDesc.className, ', '.join(out))
 
 
+def isReference(field):
+    """Is it a reference to something else than a string?"""
+    return (isinstance(field, SerializedReference)
+            and not isinstance(field.referent, (SerializedString, SerializedLongString)))
+
+
 class SerializedString(FieldSet):
 
     def createFields(self):
@@ -289,7 +297,7 @@ class SerializedArray(FieldSet):
     def createDisplay(self):
         out = []
         for field in self.array('value'):
-            if isinstance(field, SerializedReference) and not isinstance(field.referent, SerializedString):
+            if isReference(field):
                 # Avoid recursive references
                 out.append('#<REF:%s>' % (field.referent.classDesc.className,))
             else:
@@ -304,6 +312,13 @@ class SerializedClass(FieldSet):
         yield SerializedContent(self, "classDesc")
         self.root.newHandle(self)
 
+    @property
+    def classDesc(self):
+        classDesc = self['classDesc']
+        if isinstance(classDesc, SerializedReference):
+            classDesc = classDesc.referent
+        return classDesc
+
 
 class BlockData(FieldSet):
 
@@ -355,6 +370,9 @@ class SerializedLongString(FieldSet):
     def createValue(self):
         return self['value'].value
 
+    def createDisplay(self):
+        return self['value'].display
+
 
 class SerializedProxyClassDesc(FieldSet):
 
-- 
2.43.0


From a28dd0d4ad5d6a4f5172eda5e8b4f9b179a40763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 148/218] fix: FAT: read the chains of clusters

---
 hachoir/parser/file_system/fat.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..9935553 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -343,20 +343,12 @@ class FAT_FS(Parser):
     def clusters(self, cluster_func):
         max_entry = (1 << min(28, self.version)) - 16
         cluster = cluster_func()
-        if 1 < cluster < max_entry:
-            clus_nb = 1
-            next = cluster
-            while True:
-                next = self.fat[next / 1000][next % 1000].value
-                if not 1 < next < max_entry:
-                    break
-                if cluster + clus_nb == next:
-                    clus_nb += 1
-                else:
-                    yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, False
-                    cluster = next
-                    clus_nb = 1
-            yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, True
+        while 1 < cluster < max_entry:
+            next = self.fat["entry[%u]" % cluster].value
+            last = not 1 < next < max_entry
+            # There is one field for each cluster of the disk
+            yield self.data_start + cluster * self.cluster_size, self.cluster_size, last
+            cluster = next
 
     def createFields(self):
         # Read boot seector
-- 
2.43.0


From 362dbe9d090c9f4c0137ac1847cb566ff31624f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 149/218] fix: FAT: follow the link to a file before the end of
 the disk is read

---
 hachoir/parser/file_system/fat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 9935553..1533eac 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -311,6 +311,9 @@ class InodeGen:
             self.done += field.datasize
         else:
             field = Directory(self.root, name, size=size)
+        # Read the disk up to the cluster
+        while not self.root.done and self.root.current_size <= address:
+            self.root.readMoreFields(1)
         padding = self.root.getFieldByAddress(address, feed=False)
         if not isinstance(padding, (PaddingBytes, RawBytes)):
             error("(FAT) address %u doesn't point to a padding field" % address)
-- 
2.43.0


From 86a563b3992afa93dc8ef1383abf6e0492dcaaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 150/218] fix: FAT: address of the first cluster

---
 hachoir/parser/file_system/fat.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 1533eac..0f64925 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -386,13 +386,19 @@ class FAT_FS(Parser):
         # Read inode table (Directory)
         self.cluster_size = boot["cluster_size"].value * self.sector_size * 8
         self.fat = self["fat[0]"]
+        self.data_start = self.current_size - 2 * self.cluster_size
         if "root_start" in boot and boot["root_start"].value != 2:
             self.target_size = 0
             self.getCluster = lambda: boot["root_start"].value
             yield InodeLink(self, "root", "root")
         else:
-            yield Directory(self, "root[]", size=max(boot["max_root"].value * 32 * 8, boot["cluster_size"].value * self.sector_size * 8))
-        self.data_start = self.current_size - 2 * self.cluster_size
+            if "root_start" in boot:
+                # The root directory is the first cluster of the data
+                size = self.cluster_size
+            else:
+                size = boot["max_root"].value * 32 * 8
+                self.data_start += size
+            yield Directory(self, "root[]", size=size)
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
-- 
2.43.0


From 2a933e4bb63dca6ca0c81bdba63c6984ab015a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 151/218] fix: FAT: number of clusters of the disk

---
 hachoir/parser/file_system/fat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 0f64925..4092d04 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -403,8 +403,13 @@ class FAT_FS(Parser):
         if not sectors:
             sectors = boot["sectors2"].value
 
-        for i in range(sectors // boot['cluster_size'].value):
-            yield RawBytes(self, "sector[%d]" % (i + 2), self.cluster_size // 8)
+        end = min(sectors * self.sector_size * 8, self._size)
+        cluster = (self.current_size - self.data_start) // self.cluster_size
+        while self.current_size + self.cluster_size <= end:
+            yield RawBytes(self, "sector[%d]" % cluster, self.cluster_size // 8)
+            cluster += 1
+        if self.current_size < self._size:
+            yield self.seekBit(self._size, "end")
 
 
 class FAT12(FAT_FS):
-- 
2.43.0


From 7cfa35b81c28036de8e8161b560a5c2a0ef50e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 152/218] fix: FAT: root directory of several clusters

---
 hachoir/parser/file_system/fat.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 4092d04..1116114 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -387,9 +387,10 @@ class FAT_FS(Parser):
         self.cluster_size = boot["cluster_size"].value * self.sector_size * 8
         self.fat = self["fat[0]"]
         self.data_start = self.current_size - 2 * self.cluster_size
-        if "root_start" in boot and boot["root_start"].value != 2:
+        if "root_start" in boot:
             self.target_size = 0
             self.getCluster = lambda: boot["root_start"].value
+        if "root_start" in boot and boot["root_start"].value != 2:
             yield InodeLink(self, "root", "root")
         else:
             if "root_start" in boot:
@@ -398,7 +399,15 @@ class FAT_FS(Parser):
             else:
                 size = boot["max_root"].value * 32 * 8
                 self.data_start += size
-            yield Directory(self, "root[]", size=size)
+            root = Directory(self, "root[]", size=size)
+            if "root_start" in boot:
+                inodes = InodeGen(self, self, "root")
+                address, size, last = next(inodes.cluster)
+            if "root_start" in boot and not last:
+                root.setLinks(None, lambda: inodes(root))
+            else:
+                root.setLinks(None)
+            yield root
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
-- 
2.43.0


From 13821f6daec935cd6e7e835ce15531563c75f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 153/218] fix: FAT: name of a file starting with the byte 0xE5

---
 hachoir/parser/file_system/fat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 1116114..636c251 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -177,13 +177,13 @@ class FileEntry(FieldSet):
 
     def getFilename(self):
         name = self["name"].value
-        if isinstance(name, str):
-            name = makePrintable(name, "ASCII")
+        if name.startswith("\5"):
+            # 0xE5 would mean that the file is deleted
+            name = "\xE5" + name[1:]
+        name = makePrintable(name, "ASCII")
         ext = self["ext"].value
         if ext:
             name += "." + ext
-        if name[0] == 5:
-            name = "\xE5" + name[1:]
         if not self.LFN and self["directory"].value:
             name += "/"
         return name
-- 
2.43.0


From fbf808d82f393ba3a984f3ad5dfc9a4158eecdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 154/218] fix: FAT: the sectors of a FAT12 table aren't a whole
 number of entries

---
 hachoir/parser/file_system/fat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 636c251..494e809 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -84,8 +84,11 @@ class FAT(FieldSet):
             else:
                 return str(i)
 
-        while self.current_size < self._size:
+        while self.current_size + version <= self._size:
             yield textHandler(GenericInteger(self, 'entry[]', False, version), FatEntry)
+        padding = self._size - self.current_size
+        if padding:
+            yield createPaddingField(self, padding)
 
 
 class Date(FieldSet):
-- 
2.43.0


From 3e17abcdab687b33685e52de823e75fe0aa99782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:51 +0000
Subject: [PATCH 155/218] fix: FAT: the entries . and .. aren't links to other
 directories

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 494e809..a26bb5a 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -175,7 +175,7 @@ class FileEntry(FieldSet):
             self.absolute_address + 11 * 8, 8, LITTLE_ENDIAN)
         if magic & 0x3F == 0x0F:
             self.LFN = True
-        elif self.getFilename() not in (".", ".."):
+        elif self.getFilename() not in ("./", "../"):
             self.process = True
 
     def getFilename(self):
-- 
2.43.0


From 320babd69c523d0b064844bb2ba7f53ab93faed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 156/218] fix: ext2: size in use

---
 hachoir/parser/file_system/ext2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 44db648..62fdfe5 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -797,7 +797,7 @@ class EXT2_FS(HachoirParser, RootSeekableFieldSet):
         block_size = 1024 << superblock["log_block_size"].value
         nb_block = superblock["blocks_count"].value
         total = nb_block * block_size
-        used = (superblock["free_blocks_count"].value) * block_size
+        used = (nb_block - superblock["free_blocks_count"].value) * block_size
         desc = "EXT2/EXT3"
         if "group[0]/inode_table/inode[7]/blocks" in self:
             if 0 < self["group[0]/inode_table/inode[7]/blocks"].value:
-- 
2.43.0


From 2be54842711179828809d53ec734b10e8a2a04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 157/218] fix: ext2: blocks of a group

---
 hachoir/parser/file_system/ext2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 62fdfe5..11002ac 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -333,7 +333,7 @@ class Bitmap(FieldSet):
     def __init__(self, parent, name, start, count, size, description, **kw):
         description = "%s: %s items" % (description, count)
         FieldSet.__init__(self, parent, name, description, size=size, **kw)
-        self.start = 1 + start
+        self.start = start
         self.count = count
 
     def createFields(self):
@@ -652,6 +652,7 @@ class Group(SeekableFieldSet):
         # Compute number of block and inodes
         block_count = superblock["blocks_per_group"].value
         inode_count = superblock["inodes_per_group"].value
+        first_block = superblock["first_data_block"].value
         block_index = self.descriptor.uniq_id * block_count
         inode_index = self.descriptor.uniq_id * inode_count
         if (block_count % 8) != 0:
@@ -659,7 +660,7 @@ class Group(SeekableFieldSet):
         if (inode_count % 8) != 0:
             raise ParserError("Invalid inode count")
         block_count = min(block_count, superblock[
-                          "blocks_count"].value - block_index)
+                          "blocks_count"].value - first_block - block_index)
         inode_count = min(inode_count, superblock[
                           "inodes_count"].value - inode_index)
 
@@ -670,10 +671,10 @@ class Group(SeekableFieldSet):
                              1) // bitmap_block_size * bitmap_block_size
 
         self.seekBlock(self.descriptor["block_bitmap"].value)
-        yield BlockBitmap(self, "block_bitmap", block_index, block_count, block_bitmap_size, "Block bitmap")
+        yield BlockBitmap(self, "block_bitmap", first_block + block_index, block_count, block_bitmap_size, "Block bitmap")
 
         self.seekBlock(self.descriptor["inode_bitmap"].value)
-        yield InodeBitmap(self, "inode_bitmap", inode_index, inode_count, inode_bitmap_size, "Inode bitmap")
+        yield InodeBitmap(self, "inode_bitmap", 1 + inode_index, inode_count, inode_bitmap_size, "Inode bitmap")
 
         self.seekBlock(self.descriptor["inode_table"].value)
         yield InodeTable(self, "inode_table", inode_index, inode_count)
-- 
2.43.0


From 4a50b1c506c8607051b65905759efb30280ac672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 158/218] fix: MBR: logical partitions after the second one

---
 hachoir/parser/file_system/mbr.py | 42 +++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/mbr.py b/hachoir/parser/file_system/mbr.py
index 362afa6..0889d44 100644
--- a/hachoir/parser/file_system/mbr.py
+++ b/hachoir/parser/file_system/mbr.py
@@ -21,6 +21,7 @@ from hachoir.core.tools import humanFilesize
 from hachoir.core.text_handler import textHandler, hexadecimal
 
 BLOCK_SIZE = 512  # bytes
+EXTENDED = 0x05  # type of an extended partition
 
 
 class CylinderNumber(Bits):
@@ -202,8 +203,8 @@ class Partition(FieldSet):
             name = "partition[%u]" % index
             size = BLOCK_SIZE * header["size"].value
             desc = header["system"].display
-            if header["system"].value == 5:
-                yield Partition(self, name, desc, size * 8)
+            if header["system"].value == EXTENDED:
+                yield ExtendedPartition(self, name, desc, size * 8)
             else:
                 yield RawBytes(self, name, size, desc)
 
@@ -212,6 +213,43 @@ class Partition(FieldSet):
             yield self.seekBit(self._size, "end")
 
 
+class ExtendedPartition(FieldSet):
+    """
+    Logical partitions: each one is described by a boot record which also
+    gives the place of the next boot record.
+    """
+
+    def createFields(self):
+        # Address of the boot record in the extended partition (in blocks)
+        start = 0
+        while True:
+            mbr = MasterBootRecord(self, "mbr[]")
+            yield mbr
+            next = None
+            for header in sorted((hdr for hdr in mbr.headers if hdr.isUsed()),
+                                 key=lambda hdr: hdr["LBA"].value):
+                if header["system"].value == EXTENDED:
+                    # Relative to the start of the extended partition
+                    next = header["LBA"].value
+                    continue
+                # Relative to the boot record
+                padding = self.seekByte((start + header["LBA"].value) * BLOCK_SIZE, "padding[]")
+                if padding:
+                    yield padding
+                yield RawBytes(self, "partition[]", header["size"].value * BLOCK_SIZE,
+                               header["system"].display)
+            if next is None or next * BLOCK_SIZE * 8 < self.current_size:
+                break
+            start = next
+            padding = self.seekByte(start * BLOCK_SIZE, "padding[]")
+            if padding:
+                yield padding
+
+        # Padding at the end
+        if self.current_size < self._size:
+            yield self.seekBit(self._size, "end")
+
+
 class MSDos_HardDrive(Parser, Partition):
     endian = LITTLE_ENDIAN
     MAGIC = b"\x55\xAA"
-- 
2.43.0


From 22d045346f0bc96624ca542928e69ce03711bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:48 +0000
Subject: [PATCH 159/218] fix: ext2: description of a symbolic link whose
 target is in a block

---
 hachoir/parser/file_system/ext2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 11002ac..0f39eae 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -238,7 +238,7 @@ class Inode(FieldSet):
             return out + ' (%d,%d)' % (self['dev_major'].value, self['dev_minor'].value)
         elif filetype == 'l':
             # symlink
-            if self['size'].value <= 60:
+            if 'link_target' in self:
                 return out + ' (-> %s)' % (self['link_target'].value)
         return out
 
-- 
2.43.0


From 78c11a8df483eeef3ad813282eb92cd801713576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 160/218] fix: NTFS: length of the update sequence array

---
 hachoir/parser/file_system/ntfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 84804e2..ce31cb5 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -314,7 +314,8 @@ class File(FieldSet):
                 yield padding
 
             yield UInt16(self, "usa_number")
-            for i in range(self["usa_count"].value):
+            # The number is counted with the values
+            for i in range(self["usa_count"].value - 1):
                 yield UInt16(self, "usa_value[]")
 
         padding = self.seekByte(self["attrs_offset"].value, relative=True)
-- 
2.43.0


From b4101ffaa8b5f3e0d901e33f58005863676df520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 161/218] fix: NTFS: the padding of an attribute isn't a part
 of its data

---
 hachoir/parser/file_system/ntfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index ce31cb5..18bb723 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -252,12 +252,12 @@ class Attribute(FieldSet):
             yield String(self, "filename", size, charset="UTF-16-LE")
 
     def parseData(self):
-        size = (self.size - self.current_size) // 8
+        size = self["length_attr"].value
         if size:
             yield Bytes(self, "data", size)
 
     def parseBitmap(self):
-        size = (self.size - self.current_size)
+        size = self["length_attr"].value * 8
         for index in range(size):
             yield Bit(self, "bit[]")
 
-- 
2.43.0


From 4b8a9c34b30baa2c114bf79be85c4b72780722df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 162/218] fix: NTFS: standard information of NTFS 1.2

---
 hachoir/parser/file_system/ntfs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 18bb723..444bf34 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -230,6 +230,9 @@ class Attribute(FieldSet):
         yield UInt32(self, "max_version", "Maximum Number of Versions")
         yield UInt32(self, "version", "Version Number")
         yield UInt32(self, "class_id")
+        if self["length_attr"].value <= 48:
+            # Before NTFS 3.0
+            return
         yield UInt32(self, "owner_id")
         yield UInt32(self, "security_id")
         yield filesizeHandler(UInt64(self, "quota_charged", "Quota Charged"))
-- 
2.43.0


From 3f52bba4e1dc57332a1dc0c511b9dae21080c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 163/218] fix: NTFS: number of files of the MFT

---
 hachoir/parser/file_system/ntfs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 444bf34..960762f 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -393,8 +393,17 @@ class NTFS(Parser):
         padding = self.seekByte(offset, relative=False)
         if padding:
             yield padding
-        for index in range(1000):
+        count = 1000
+        index = 0
+        while index < count:
             yield File(self, "file[]")
+            index += 1
+            if index == 1 and "data/runlist" in self["file[0]"]:
+                # The first file describes the MFT: read its first fragment
+                mft = self["file[0]"]
+                size = min(mft["data/size_actual"].value,
+                           mft["data/runlist"].value[0][0] * cluster_size)
+                count = min(count, size * 8 // mft.size)
 
         size = (self.size - self.current_size) // 8
         if size:
-- 
2.43.0


From 1db03b76d4679e73a7c1b2b29a3b3ed4f8d08ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 164/218] fix: size of an Ogg file with several streams

---
 hachoir/parser/container/ogg.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 405b923..bef380d 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -362,11 +362,34 @@ class OggFile(Parser):
             return page
 
     def createContentSize(self):
-        page = self.createLastPage()
-        if page:
-            return page.absolute_address + page.size
-        else:
+        # Follow the pages up to the end of the last logical stream
+        address = 0
+        streams = set()
+        headers = True
+        while address < MAX_FILESIZE * 8:
+            try:
+                header = self.stream.readBytes(address, 27)
+            except InputStreamError:
+                break
+            if not header.startswith(b"OggS\0"):
+                break
+            flags = header[5]
+            # The first pages of all streams come before other pages
+            headers = headers and bool(flags & 2)
+            if not streams and address and not headers:
+                break
+            lacing = self.stream.readBytes(address + 27 * 8, header[26])
+            address += (27 + len(lacing) + sum(lacing)) * 8
+            serial = header[14:18]
+            if flags & 4:
+                streams.discard(serial)
+            else:
+                streams.add(serial)
+            if not streams and not headers:
+                break
+        if streams or not address:
             return None
+        return address
 
 
 class OggStream(Parser):
-- 
2.43.0


From 20530022261418c1317a9b6d63eba1af17eebb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 165/218] fix: size of a ZIP archive which holds another one

---
 hachoir/parser/archive/zip.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index d37b322..56b0c3f 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -534,8 +534,23 @@ class ZipFile(Parser):
 
     def createContentSize(self):
         start = 0
-        end = MAX_FILESIZE * 8
-        end = self.stream.searchBytes(b"PK\5\6", start, end)
+        first = None
+        while True:
+            end = self.stream.searchBytes(b"PK\5\6", start, MAX_FILESIZE * 8)
+            if end is None:
+                end = first
+                break
+            # The record follows the central directory: skip the one of
+            # an archive stored in this archive
+            if self.stream.readBytes(max(end - 20 * 8, 0), 4) == b"PK\6\7":
+                break
+            size = self.stream.readBits(end + 12 * 8, 32, self.endian)
+            offset = self.stream.readBits(end + 16 * 8, 32, self.endian)
+            if offset + size == end // 8:
+                break
+            if first is None:
+                first = end
+            start = end + 32
         if end is not None:
             # The record ends with a comment
             comment_size = self.stream.readBits(end + 20 * 8, 16, self.endian)
-- 
2.43.0


From a88ce5f6f66e462b6ccabe7ac9bb2bcb83d7b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:02 +0000
Subject: [PATCH 166/218] fix: metadata of a font with an empty name

---
 hachoir/metadata/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index 4361760..34b52f9 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -72,6 +72,8 @@ class TTF_Metadata(RootMetadata):
         offset = names["offset"].value
         for header in names.array("header"):
             key = header["nameID"].value
+            if not header["length"].value:
+                continue
             foffset = offset + header["offset"].value
             field = names.getFieldByAddress(foffset * 8)
             if not field or not isString(field):
-- 
2.43.0


From c3e2e106687a1a5387c2a5491c39637ec9fb649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 167/218] fix: boolean properties of XCF pictures

---
 hachoir/parser/image/xcf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index f003907..0b50248 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -122,9 +122,6 @@ class LayerMode(FieldSet):
 
 class GimpBoolean(UInt32):
 
-    def __init__(self, parent, name):
-        UInt32.__init__(self, parent, name)
-
     def createValue(self):
         return 1 == UInt32.createValue(self)
 
-- 
2.43.0


From c124e4e9573b6f621895ba4966cd61cacc474f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 168/218] fix: empty elements of Matroska files

---
 hachoir/parser/container/mkv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index d02f673..55ad77c 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -582,6 +582,9 @@ class EBML(FieldSet):
     def createFields(self):
         yield RawInt(self, 'id')
         yield Unsigned(self, 'size')
+        if self['size'].value == 0:
+            # Empty element
+            return
         for val in self.val[1:]:
             if callable(val):
                 yield val(self)
-- 
2.43.0


From b1eac6883a811de0c19c4cdd1ad45466cb4f7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 169/218] fix: parsing of the pictures of a TIFF file stopped
 by an error

---
 hachoir/parser/image/tiff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/image/tiff.py b/hachoir/parser/image/tiff.py
index 1115a5e..25cf7f2 100644
--- a/hachoir/parser/image/tiff.py
+++ b/hachoir/parser/image/tiff.py
@@ -73,11 +73,13 @@ class TiffFile(RootSeekableFieldSet, Parser):
         return True
 
     def createFields(self):
-        yield from TIFF(self)
+        ifds = []
+        for field in TIFF(self):
+            yield field
+            if isinstance(field, IFD):
+                ifds.append(field)
 
-        for ifd in self:
-            if not isinstance(ifd, IFD):
-                continue
+        for ifd in ifds:
             offs = [off for off, byte in getStrips(ifd)]
             if not offs:
                 continue
-- 
2.43.0


From 1d9f773bcd1d1221953ef781401e41f662c05eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 170/218] fix: warning on each file of a ZIP archive which has
 no extra field

---
 hachoir/parser/archive/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 56b0c3f..31cebb7 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -282,7 +282,7 @@ class FileEntry(FieldSet):
 
     def getZip64(self):
         """64-bit values of the extra fields, None if there is none."""
-        if "extra" in self:
+        if self["extra_length"].value:
             for extra in self.array("extra/extra"):
                 if extra["field_id"].value == ExtraField.ZIP64:
                     return [field.value for field in extra.array("value")]
-- 
2.43.0


From 2f7b8d0a99ac844cb13157d90fedee8827426f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 171/218] fix: description of a named PE resource whose name is
 not read yet

---
 hachoir/parser/program/exe_res.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index 9fa9e48..44194e8 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -246,10 +246,15 @@ class NameOffset(FieldSet):
         return self.name_field.value
 
     def createDescription(self):
+        if self.name_field is not None:
+            name = self.name_field.display
+        else:
+            # The name is not read yet
+            name = "name at %s" % self["name_offset"].value
         if self["is_subdir"].value:
-            return "Sub-directory: %s at %s" % (self.name_field.display, self["offset"].value)
+            return "Sub-directory: %s at %s" % (name, self["offset"].value)
         else:
-            return "Index: %s at %s" % (self.name_field.display, self["offset"].value)
+            return "Index: %s at %s" % (name, self["offset"].value)
 
 
 class IndexOffset(FieldSet):
-- 
2.43.0


From 9af03ffe94d0bbab964e888c0bafbc217fe2cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 172/218] fix: codec data of the video header of ASF files

---
 hachoir/parser/video/asf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/video/asf.py b/hachoir/parser/video/asf.py
index bf60592..383c9e6 100644
--- a/hachoir/parser/video/asf.py
+++ b/hachoir/parser/video/asf.py
@@ -82,6 +82,9 @@ class VideoHeader(FieldSet):
             if self["format_data_size"].value < 40:
                 raise ParserError("Unknown format data size")
             yield BitmapInfoHeader(self, "bmp_info", use_fourcc=True)
+            size = self["format_data_size"].value - 40
+            if size:
+                yield RawBytes(self, "codec_data", size)
 
 
 class FileProperty(FieldSet):
-- 
2.43.0


From 6f3ae9dc420346bfe3f91e56df255feaca2992cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:12 +0000
Subject: [PATCH 173/218] fix: boolean properties of XCF pictures (size
 argument)

---
 hachoir/parser/image/xcf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 0b50248..fdb997a 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -122,6 +122,10 @@ class LayerMode(FieldSet):
 
 class GimpBoolean(UInt32):
 
+    def __init__(self, parent, name, size=None):
+        # The size of the property is always 32 bits
+        UInt32.__init__(self, parent, name)
+
     def createValue(self):
         return 1 == UInt32.createValue(self)
 
-- 
2.43.0


From c82a88187bcb7861a14d19eb909d9a04dc3a278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:53 +0000
Subject: [PATCH 174/218] fix: empty block of a Matroska file

---
 hachoir/parser/container/mkv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index 55ad77c..ec9da83 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -257,7 +257,7 @@ class Block(FieldSet):
             yield textHandler(GenericInteger(self, 'n_frames', False, 8),
                               lambda chunk: str(chunk.value + 1))
             yield Lace(self, lacing - 1, size - 1)
-        else:
+        elif size:
             yield RawBytes(self, 'frame', size)
 
 
-- 
2.43.0


From c8617f88e57cf593afb9b5221feb1696db2c39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:32 +0000
Subject: [PATCH 175/218] fix: padding of the bitmaps of an EXT2 file system

---
 hachoir/parser/file_system/ext2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 0f39eae..f6e73bb 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -340,7 +340,11 @@ class Bitmap(FieldSet):
         for index in range(self.count):
             yield Bit(self, "item[]", "%s %s" % (self.itemdesc, self.start + index))
         if self.size > self.count:
-            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern='\xff')
+            padding = self.size - self.count
+            if padding % 8:
+                yield PaddingBits(self, "padding[]", padding % 8)
+            if padding // 8:
+                yield PaddingBytes(self, "padding[]", padding // 8, pattern=b'\xff')
 
 
 class BlockBitmap(Bitmap):
-- 
2.43.0


From 77d7708b17dee4bfa0f6c1f186a6fdc74c0f1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:32 +0000
Subject: [PATCH 176/218] fix: large inodes of an EXT2 file system

---
 hachoir/parser/file_system/ext2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index f6e73bb..3db9b92 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -312,6 +312,10 @@ class Inode(FieldSet):
         else:
             yield RawBytes(self, "raw", 12, "Reserved")
 
+        size = (self._size - self.current_size) // 8
+        if size:
+            yield RawBytes(self, "extra", size, "Extra fields of a large inode")
+
 
 class Directory(Parser):
     PARSER_TAGS = {
-- 
2.43.0


From be530db0d39c7fe28be70b7d67f57bfc690d95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 177/218] fix: end of the superblock of an EXT2 file system
 with large blocks

---
 hachoir/parser/file_system/ext2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 3db9b92..3173d80 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -579,7 +579,7 @@ class SuperBlock(FieldSet):
         yield TimestampUnix32(self, "mkfs_time", "When the filesystem was created")
         yield RawBytes(self, "jnl_blocks", 17 * 4, "Backup of the journal inode's i_block and i_size")
 
-        yield PaddingBytes(self, "reserved[]", (1024 << self['log_block_size'].value) - self.current_size // 8)
+        yield PaddingBytes(self, "reserved[]", (self._size - self.current_size) // 8)
 
     def _getGroupCount(self):
         if self._group_count is None:
-- 
2.43.0


From eec634356c65ea48636d6b6698dc27f2589472c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:19 +0000
Subject: [PATCH 178/218] fix: object encapsulated in an ID3v2 tag read as a
 text

---
 hachoir/parser/audio/id3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index a2bb777..65c0564 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -265,7 +265,7 @@ class ID3_GEOB(ID3_StringCharset):
         size = (self.size - self.current_size) // 8
         if not size:
             return
-        yield String(self, "text", size, "Text", charset=charset)
+        yield RawBytes(self, "object", size, "Encapsulated object")
 
 
 class ID3_Comment(ID3_StringCharset):
-- 
2.43.0


From 1a90bffa54b67562e4db1abd7790a99a40c1e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:46 +0000
Subject: [PATCH 179/218] fix: short private frame of an ID3v2 tag

---
 hachoir/parser/audio/id3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index 65c0564..d1e8a25 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -315,10 +315,11 @@ class ID3_Private(FieldSet):
     def createFields(self):
         size = self._size // 8
         # TODO: Strings charset?
-        if self.stream.readBytes(self.absolute_address, 9) == b"PeakValue":
+        if 9 <= size and self.stream.readBytes(self.absolute_address, 9) == b"PeakValue":
             yield String(self, "text", 9, "Text")
             size -= 9
-        yield String(self, "content", size, "Content")
+        if size:
+            yield String(self, "content", size, "Content")
 
 
 class ID3_TrackLength(FieldSet):
-- 
2.43.0


From a884efe7318361d45d7b4ee519a710f90a8e30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:37 +0000
Subject: [PATCH 180/218] fix: text of empty metadata

---
 hachoir/metadata/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 85077ae..e32cc11 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -129,7 +129,7 @@ class Metadata(Logger):
 
         @see __str__() and exportPlaintext()
         """
-        return "\n".join(self.exportPlaintext())
+        return "\n".join(self.exportPlaintext() or ())
 
     def exportPlaintext(self, priority=None, human=True, line_prefix="- ", title=None):
         r"""
-- 
2.43.0


From 42a1ce099d8a5b6bfca7a34a0f2ac0f32142df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:23 +0000
Subject: [PATCH 181/218] fix: hachoir-grep whose output is closed

---
 hachoir/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..201a6a7 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -159,7 +159,7 @@ class ConsoleGrep(Grep):
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
                     return
                 else:
-- 
2.43.0


From e6947284ccb433b8589c9d2890d104c3555bd140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:54 +0000
Subject: [PATCH 182/218] fix: hard limit of the memory removed by
 limitedMemory()

---
 hachoir/core/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 076683f..817117c 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -61,7 +61,8 @@ try:
         if max_mem is None:
             max_mem = -1
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            # Only change the soft limit
+            setrlimit(RLIMIT_AS, (max_mem, getrlimit(RLIMIT_AS)[1]))
             return True
         except ValueError:
             return False
-- 
2.43.0


From a1b1513655006e951fdb8b65bce992ed38e62692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:54 +0000
Subject: [PATCH 183/218] fix: append argument of Log.setFilename() ignored

---
 hachoir/core/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index 8d0a932..db61fca 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -39,7 +39,7 @@ class Log:
         # Look if file already exists or not
         filename = os.path.expanduser(filename)
         filename = os.path.realpath(filename)
-        append = os.access(filename, os.F_OK)
+        append = append and os.access(filename, os.F_OK)
 
         # Create log file (or open it in append mode, if it already exists)
         try:
-- 
2.43.0


From 370f7c1ea8c344387aa8ad4dcef95a5235b906b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 184/218] fix: padding of the Photoshop resources of odd size

---
 hachoir/parser/image/photoshop_metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 88c15c0..960b11f 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -71,7 +71,8 @@ class PrintFlags(FieldSet):
         yield Enum(UInt8(self, "interpolate"), BOOL)
         yield Enum(UInt8(self, "caption"), BOOL)
         yield Enum(UInt8(self, "print_flags"), BOOL)
-        yield Enum(UInt8(self, "unknown"), BOOL)
+        if not self.eof:
+            yield Enum(UInt8(self, "unknown"), BOOL)
 
     def createValue(self):
         return [field.name for field in self if field.value]
@@ -164,7 +165,7 @@ class Photoshop8BIM(FieldSet):
         if (self["name"].size // 8) % 2:
             yield NullBytes(self, "name_padding", 1)
         yield UInt32(self, "size")
-        size = alignValue(self["size"].value, 2)
+        size = self["size"].value
         if not size:
             return
         if self.handler:
@@ -174,6 +175,10 @@ class Photoshop8BIM(FieldSet):
                 yield self.handler(self, "content")
         else:
             yield RawBytes(self, "content", size)
+        # The size of a resource is even
+        size = (self.size - self.current_size) // 8
+        if size:
+            yield NullBytes(self, "padding", size)
 
 
 class PhotoshopMetadata(FieldSet):
-- 
2.43.0


From 199d760b9545bca7f41db042be73ad151c5a35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 185/218] fix: guides of the Photoshop pictures

---
 hachoir/parser/image/photoshop_metadata.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 960b11f..75e0672 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -91,6 +91,13 @@ class PrintFlags2(FieldSet):
         yield UInt16(self, "bleed_width_scale")
 
 
+class Guide(FieldSet):
+
+    def createFields(self):
+        yield UInt32(self, "location", "Location, in 1/32 pixels")
+        yield Enum(UInt8(self, "direction"), {0: 'vertical', 1: 'horizontal'})
+
+
 class GridGuides(FieldSet):
 
     def createFields(self):
@@ -98,6 +105,8 @@ class GridGuides(FieldSet):
         yield UInt32(self, "horiz_cycle", "Horizontal grid spacing, in quarter inches")
         yield UInt32(self, "vert_cycle", "Vertical grid spacing, in quarter inches")
         yield UInt32(self, "guide_count", "Number of guide resource blocks (can be 0)")
+        for index in range(self["guide_count"].value):
+            yield Guide(self, "guide[]")
 
 
 class Thumbnail(FieldSet):
-- 
2.43.0


From dd4a7ae49841b66f36b55154807e2c68ef9a1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:28 +0000
Subject: [PATCH 186/218] fix: order of the bits of the TrueType font header

---
 hachoir/parser/misc/ttf.py | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 792a490..817f20c 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -188,22 +188,22 @@ def parseFontHeader(self):
     if self["magic"].value != b"\x5F\x0F\x3C\xF5":
         raise ParserError("TTF: invalid magic of font header")
 
-    # Flags
-    yield Bit(self, "y0", "Baseline at y=0")
-    yield Bit(self, "x0", "Left sidebearing point at x=0")
-    yield Bit(self, "instr_point", "Instructions may depend on point size")
-    yield Bit(self, "ppem", "Force PPEM to integer values for all")
-    yield Bit(self, "instr_width", "Instructions may alter advance width")
-    yield Bit(self, "vertical", "e laid out vertically?")
-    yield PaddingBits(self, "reserved[]", 1)
-    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
-    yield Bit(self, "gx", "Metamorphosis effects?")
-    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
-    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
-    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
-    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
-    yield Bit(self, "cleartype", "Optimised for ClearType")
+    # Flags (most significant bit first)
     yield Bits(self, "adobe", 2, "(used by Adobe)")
+    yield Bit(self, "cleartype", "Optimised for ClearType")
+    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
+    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
+    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
+    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
+    yield Bit(self, "gx", "Metamorphosis effects?")
+    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
+    yield PaddingBits(self, "reserved[]", 1)
+    yield Bit(self, "vertical", "e laid out vertically?")
+    yield Bit(self, "instr_width", "Instructions may alter advance width")
+    yield Bit(self, "ppem", "Force PPEM to integer values for all")
+    yield Bit(self, "instr_point", "Instructions may depend on point size")
+    yield Bit(self, "x0", "Left sidebearing point at x=0")
+    yield Bit(self, "y0", "Baseline at y=0")
 
     yield UInt16(self, "unit_per_em", "Units per em")
     if not (16 <= self["unit_per_em"].value <= 16384):
@@ -217,15 +217,15 @@ def parseFontHeader(self):
     yield UInt16(self, "xmax")
     yield UInt16(self, "ymax")
 
-    # Mac style
-    yield Bit(self, "bold")
-    yield Bit(self, "italic")
-    yield Bit(self, "underline")
-    yield Bit(self, "outline")
-    yield Bit(self, "shadow")
-    yield Bit(self, "condensed", "(narrow)")
-    yield Bit(self, "expanded")
+    # Mac style (most significant bit first)
     yield PaddingBits(self, "reserved[]", 9)
+    yield Bit(self, "expanded")
+    yield Bit(self, "condensed", "(narrow)")
+    yield Bit(self, "shadow")
+    yield Bit(self, "outline")
+    yield Bit(self, "underline")
+    yield Bit(self, "italic")
+    yield Bit(self, "bold")
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
     yield Enum(Int16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
-- 
2.43.0


From 31bd93014ec89b0d82d4f1889b08c25202bc4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:56 +0000
Subject: [PATCH 187/218] fix: signed bounding box of the TrueType font header

---
 hachoir/parser/misc/ttf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 817f20c..7f9c1c9 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -212,10 +212,10 @@ def parseFontHeader(self):
     yield TimestampMac32(self, "created")
     yield UInt32(self, "modified_high")
     yield TimestampMac32(self, "modified")
-    yield UInt16(self, "xmin")
-    yield UInt16(self, "ymin")
-    yield UInt16(self, "xmax")
-    yield UInt16(self, "ymax")
+    yield Int16(self, "xmin")
+    yield Int16(self, "ymin")
+    yield Int16(self, "xmax")
+    yield Int16(self, "ymax")
 
     # Mac style (most significant bit first)
     yield PaddingBits(self, "reserved[]", 9)
-- 
2.43.0


From 5c4f7ccbeee954353b43ce944bc3696d31b36053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:23 +0000
Subject: [PATCH 188/218] fix: numbers of the ISO 9660 volume descriptor

---
 hachoir/parser/file_system/iso9660.py | 38 +++++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/file_system/iso9660.py b/hachoir/parser/file_system/iso9660.py
index ecac4a3..e9aff93 100644
--- a/hachoir/parser/file_system/iso9660.py
+++ b/hachoir/parser/file_system/iso9660.py
@@ -11,11 +11,27 @@ Creation: 11 july 2006
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet, ParserError,
-                           UInt8, UInt32, UInt64, Enum,
+                           UInt8, UInt16, UInt32, Enum,
                            NullBytes, RawBytes, String)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 
 
+class UInt16LE(UInt16):
+    """Number stored in little endian in a big endian structure"""
+
+    def createValue(self):
+        return self._parent.stream.readInteger(
+            self.absolute_address, False, self._size, LITTLE_ENDIAN)
+
+
+class UInt32LE(UInt32):
+    """Number stored in little endian in a big endian structure"""
+
+    def createValue(self):
+        return self._parent.stream.readInteger(
+            self.absolute_address, False, self._size, LITTLE_ENDIAN)
+
+
 class PrimaryVolumeDescriptor(FieldSet):
     static_size = 2041 * 8
 
@@ -24,14 +40,20 @@ class PrimaryVolumeDescriptor(FieldSet):
         yield String(self, "system_id", 32, "System identifier", strip=" ")
         yield String(self, "volume_id", 32, "Volume identifier", strip=" ")
         yield NullBytes(self, "unused[]", 8)
-        yield UInt64(self, "space_size", "Volume space size")
+        # Numbers are stored twice: in little endian, then in big endian
+        yield UInt32LE(self, "space_size", "Volume space size")
+        yield UInt32(self, "space_size_be", "Volume space size (big endian)")
         yield NullBytes(self, "unused[]", 32)
-        yield UInt32(self, "set_size", "Volume set size")
-        yield UInt32(self, "seq_num", "Sequence number")
-        yield UInt32(self, "block_size", "Block size")
-        yield UInt64(self, "path_table_size", "Path table size")
-        yield UInt32(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
-        yield UInt32(self, "opt_lpath", "Location of Optional of Type L Path Table")
+        yield UInt16LE(self, "set_size", "Volume set size")
+        yield UInt16(self, "set_size_be", "Volume set size (big endian)")
+        yield UInt16LE(self, "seq_num", "Sequence number")
+        yield UInt16(self, "seq_num_be", "Sequence number (big endian)")
+        yield UInt16LE(self, "block_size", "Block size")
+        yield UInt16(self, "block_size_be", "Block size (big endian)")
+        yield UInt32LE(self, "path_table_size", "Path table size")
+        yield UInt32(self, "path_table_size_be", "Path table size (big endian)")
+        yield UInt32LE(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
+        yield UInt32LE(self, "opt_lpath", "Location of Optional of Type L Path Table")
         yield UInt32(self, "occu_mpath", "Location of Occurrence of Type M Path Table")
         yield UInt32(self, "opt_mpath", "Location of Optional of Type M Path Table")
         yield RawBytes(self, "root", 34, "Directory Record for Root Directory")
-- 
2.43.0


From f4c0ab6ef84bf4bf311a18d54965a1d62b000117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 189/218] fix: sequence flag of the animated cursors

---
 hachoir/parser/container/riff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 6211709..b47e0b6 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -347,7 +347,8 @@ def parseAnimationHeader(self):
     yield UInt32(self, "planes")
     yield UInt32(self, "jiffie_rate", "Default Jiffies (1/60th of a second) if rate chunk not present")
     yield Bit(self, "is_icon")
-    yield NullBits(self, "padding", 31)
+    yield Bit(self, "has_sequence", "The file contains a sequence chunk")
+    yield NullBits(self, "padding", 30)
 
 
 def parseAnimationSequence(self):
-- 
2.43.0


From d1ad860d7b52c28ea450c98866e42aa23c38c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 190/218] fix: negative fixed point numbers of QuickTime movies

---
 hachoir/parser/container/mp4.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index efd6f3d..1bf36d9 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -131,7 +131,7 @@ def timestampMac64(value):
 TimestampMac64 = timestampFactory("TimestampMac64", timestampMac64, 64)
 
 
-def fixedFloatFactory(name, int_bits, float_bits, doc):
+def fixedFloatFactory(name, int_bits, float_bits, doc, signed=True):
     size = int_bits + float_bits
 
     class Float(FieldSet):
@@ -143,7 +143,10 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
             yield Bits(self, "float_part", float_bits)
 
         def createValue(self):
-            return self["int_part"].value + float(self["float_part"].value) / (1 << float_bits)
+            value = self["int_part"].value
+            if signed and value >> (int_bits - 1):
+                value -= 1 << int_bits
+            return value + float(self["float_part"].value) / (1 << float_bits)
     klass = Float
     klass.__name__ = name
     return klass
@@ -151,6 +154,8 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
 
 QTFloat16 = fixedFloatFactory("QTFloat32", 8, 8, "8.8 fixed point number")
 QTFloat32 = fixedFloatFactory("QTFloat32", 16, 16, "16.16 fixed point number")
+QTUFloat32 = fixedFloatFactory(
+    "QTUFloat32", 16, 16, "16.16 unsigned fixed point number", signed=False)
 QTFloat2_30 = fixedFloatFactory(
     "QTFloat2_30", 2, 30, "2.30 fixed point number")
 
@@ -201,8 +206,8 @@ class TrackHeader(FieldSet):
         yield QTFloat32(self, "geom_x", "Position X")
         yield QTFloat32(self, "geom_y", "Position Y")
         yield QTFloat2_30(self, "geom_w", "Divider scale")
-        yield QTFloat32(self, "frame_size_width")
-        yield QTFloat32(self, "frame_size_height")
+        yield QTUFloat32(self, "frame_size_width")
+        yield QTUFloat32(self, "frame_size_height")
 
 
 class TrackReferenceType(FieldSet):
@@ -877,8 +882,8 @@ def VisualSampleEntry(self):
     yield UInt32(self, "spatial_quality")
     yield UInt16(self, "width", "Width (pixels)")
     yield UInt16(self, "height", "Height (pixels)")
-    yield QTFloat32(self, "horizontal_resolution", "Horizontal resolution in DPI")
-    yield QTFloat32(self, "vertical resolution", "Vertical resolution in DPI")
+    yield QTUFloat32(self, "horizontal_resolution", "Horizontal resolution in DPI")
+    yield QTUFloat32(self, "vertical resolution", "Vertical resolution in DPI")
     yield UInt32(self, "data_size")
     yield UInt16(self, "frame_count")
     yield UInt8(self, "compressor_name_length")
@@ -893,7 +898,7 @@ def AudioSampleEntry(self):
     yield UInt16(self, "samplesize", "Sample size in bits")
     yield UInt16(self, "unknown")
     yield NullBytes(self, "reserved[]", 2)
-    yield QTFloat32(self, "samplerate", "Sample rate in Hz")
+    yield QTUFloat32(self, "samplerate", "Sample rate in Hz")
 
 
 class SampleEntry(FieldSet):
-- 
2.43.0


From e9b8c999d1132eab65d73536a37e18d27b1a84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 191/218] fix: size of the numbers of the MP4 fragment random
 access table

---
 hachoir/parser/container/mp4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 1bf36d9..96ce9e9 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -632,27 +632,27 @@ class TrackFragmentRandomAccess(FieldSet):
                 yield UInt32(self, "moof_offset[%i]" % i)
 
             if self['length_size_of_traf_num'].value == 3:
-                yield UInt64(self, "traf_number[%i]" % i)
-            elif self['length_size_of_traf_num'].value == 2:
                 yield UInt32(self, "traf_number[%i]" % i)
+            elif self['length_size_of_traf_num'].value == 2:
+                yield UInt24(self, "traf_number[%i]" % i)
             elif self['length_size_of_traf_num'].value == 1:
                 yield UInt16(self, "traf_number[%i]" % i)
             else:
                 yield UInt8(self, "traf_number[%i]" % i)
 
             if self['length_size_of_trun_num'].value == 3:
-                yield UInt64(self, "trun_number[%i]" % i)
-            elif self['length_size_of_trun_num'].value == 2:
                 yield UInt32(self, "trun_number[%i]" % i)
+            elif self['length_size_of_trun_num'].value == 2:
+                yield UInt24(self, "trun_number[%i]" % i)
             elif self['length_size_of_trun_num'].value == 1:
                 yield UInt16(self, "trun_number[%i]" % i)
             else:
                 yield UInt8(self, "trun_number[%i]" % i)
 
             if self['length_size_of_sample_num'].value == 3:
-                yield UInt64(self, "sample_number[%i]" % i)
-            elif self['length_size_of_sample_num'].value == 2:
                 yield UInt32(self, "sample_number[%i]" % i)
+            elif self['length_size_of_sample_num'].value == 2:
+                yield UInt24(self, "sample_number[%i]" % i)
             elif self['length_size_of_sample_num'].value == 1:
                 yield UInt16(self, "sample_number[%i]" % i)
             else:
-- 
2.43.0


From aeb04abba3bed8554968e05ce08029a11a2ecdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 192/218] fix: signed offsets of the MP4 samples

---
 hachoir/parser/container/mp4.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 96ce9e9..3721208 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -593,7 +593,10 @@ class TrackRunSample(FieldSet):
         if flags & 0x400:
             yield UInt32(self, "sample_flags")
         if flags & 0x800:
-            yield UInt32(self, "sample_composition_time_offset")
+            if self["../version"].value == 0:
+                yield UInt32(self, "sample_composition_time_offset")
+            else:
+                yield Int32(self, "sample_composition_time_offset")
 
 
 class TrackRunBox(FieldSet):
@@ -604,7 +607,7 @@ class TrackRunBox(FieldSet):
 
         yield UInt32(self, "sample_count")
         if flags & 0x1:
-            yield UInt32(self, "data_offset")
+            yield Int32(self, "data_offset")
         if flags & 0x4:
             yield UInt32(self, "first_sample_flags")
         for i in range(self["sample_count"].value):
@@ -772,7 +775,11 @@ class SampleCompositionTimeTable(FieldSet):
         yield UInt32(self, "count", description="Total entries in sample time table")
         for i in range(self['count'].value):
             yield UInt32(self, "sample_count[]", "Number of consecutive samples with this offset")
-            yield UInt32(self, "sample_offset[]", "Difference between decode time and composition time of this sample, in time-units")
+            if self['version'].value == 0:
+                offset = UInt32
+            else:
+                offset = Int32
+            yield offset(self, "sample_offset[]", "Difference between decode time and composition time of this sample, in time-units")
 
 
 class ChunkOffsetTable(FieldSet):
-- 
2.43.0


From 484ff9ad0ecf1811b948e9f4fd5f7a658309838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 193/218] fix: MP4 tracks with several sample descriptions

---
 hachoir/parser/container/mp4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3721208..91f0dcc 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -910,6 +910,10 @@ def AudioSampleEntry(self):
 
 class SampleEntry(FieldSet):
 
+    def __init__(self, *args, **kw):
+        FieldSet.__init__(self, *args, **kw)
+        self._size = self["size"].value * 8
+
     def createFields(self):
         yield UInt32(self, "size")
         yield RawBytes(self, "format", 4, "Data Format (codec)")
-- 
2.43.0


From d7f2548af4d99fcdbafccf48f49692ab53c0d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 194/218] fix: atoms of the EC-3 sample description of MP4
 tracks

---
 hachoir/parser/container/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 91f0dcc..cbe64d9 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -930,7 +930,7 @@ class SampleEntry(FieldSet):
             # Hint sample entry
             pass
 
-        if self["format"].value in (b"enca", b"encv", b"mp4a", b"mp4v", b"mp4s", b"avc1"):
+        if self["format"].value in (b"enca", b"encv", b"mp4a", b"mp4v", b"mp4s", b"avc1", b"ec-3"):
             # MP4VisualSampleEntry, MP4AudioSampleEntry, MpegSampleEntry, EC3SampleEntry, AVCSampleEntry...
             # all just have appended atoms
             while not self.eof:
-- 
2.43.0


From 99c2cd618efc0bc11224dc063038f75bf00a3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 195/218] fix: description of an MP4 stream descriptor field

---
 hachoir/parser/container/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index cbe64d9..821c5ff 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -83,7 +83,7 @@ DecoderConfigDescrTag = 0x04
 def DecoderConfigDescriptor(self):
     yield UInt8(self, "objectTypeIndication")
     yield Bits(self, "streamType", 6)
-    yield Bit(self, "upStream", 1)
+    yield Bit(self, "upStream")
     yield NullBits(self, "reserved", 1)
     yield UInt24(self, "bufferSizeDB")
     yield UInt32(self, "maxBitrate")
-- 
2.43.0


From ac2869bca5f9cd050f98d2a7d00a1a1e2c4cdeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:23 +0000
Subject: [PATCH 196/218] fix: MP4 fragment runs of samples without values

---
 hachoir/parser/container/mp4.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 821c5ff..fd9c9ad 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -610,6 +610,9 @@ class TrackRunBox(FieldSet):
             yield Int32(self, "data_offset")
         if flags & 0x4:
             yield UInt32(self, "first_sample_flags")
+        if not flags & 0xf00:
+            # The samples have the default values
+            return
         for i in range(self["sample_count"].value):
             yield TrackRunSample(self, "sample[]")
 
-- 
2.43.0


From 36bd663782579ceb80448f3bea79e50c3a090efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 197/218] fix: reserved bits of the MP4 codec descriptions are
 set

---
 hachoir/parser/container/mp4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index fd9c9ad..9b0cf8a 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -84,7 +84,7 @@ def DecoderConfigDescriptor(self):
     yield UInt8(self, "objectTypeIndication")
     yield Bits(self, "streamType", 6)
     yield Bit(self, "upStream")
-    yield NullBits(self, "reserved", 1)
+    yield Bit(self, "reserved", "Reserved (the bit is set)")
     yield UInt24(self, "bufferSizeDB")
     yield UInt32(self, "maxBitrate")
     yield UInt32(self, "avgBitrate")
@@ -845,9 +845,9 @@ class AVCDecoderConfigurationRecord(FieldSet):
         yield UInt8(self, "AVCProfileIndication")
         yield UInt8(self, "profile_compatibility")
         yield UInt8(self, "AVCLevelIndication")
-        yield NullBits(self, "reserved[]", 6)
+        yield Bits(self, "reserved[]", 6, "Reserved (all bits are set)")
         yield Bits(self, "lengthSizeMinusOne", 2)
-        yield NullBits(self, "reserved[]", 3)
+        yield Bits(self, "reserved[]", 3, "Reserved (all bits are set)")
 
         yield Bits(self, "numOfSequenceParameterSets", 5)
         for i in range(self["numOfSequenceParameterSets"].value):
@@ -858,11 +858,11 @@ class AVCDecoderConfigurationRecord(FieldSet):
             yield PascalString16(self, "pictureParameterSetNALUnit[]")
 
         if self['AVCProfileIndication'].value in (100, 110, 122, 144) and not self.eof:
-            yield NullBits(self, "reserved[]", 6)
+            yield Bits(self, "reserved[]", 6, "Reserved (all bits are set)")
             yield Bits(self, "chroma_format", 2)
-            yield NullBits(self, "reserved[]", 5)
+            yield Bits(self, "reserved[]", 5, "Reserved (all bits are set)")
             yield Bits(self, "bit_depth_luma_minus8", 3)
-            yield NullBits(self, "reserved[]", 5)
+            yield Bits(self, "reserved[]", 5, "Reserved (all bits are set)")
             yield Bits(self, "bit_depth_chroma_minus8", 3)
 
             yield UInt8(self, "numOfSequenceParameterSetExt")
-- 
2.43.0


From e7064a1be77c6a4c615b3dfdbd49440e81e4df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:42 +0000
Subject: [PATCH 198/218] fix: end of the TCP options

---
 hachoir/parser/network/tcpdump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index 52a84b6..a2555c1 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -66,6 +66,7 @@ class ARP(Layer):
 
 
 class TCP_Option(FieldSet):
+    END = 0
     NOP = 1
     MAX_SEGMENT = 2
     WINDOW_SCALE = 3
@@ -73,6 +74,7 @@ class TCP_Option(FieldSet):
     TIMESTAMP = 8
 
     code_name = {
+        END: "End of options",
         NOP: "NOP",
         MAX_SEGMENT: "Max segment size",
         WINDOW_SCALE: "Window scale",
@@ -82,7 +84,7 @@ class TCP_Option(FieldSet):
 
     def __init__(self, *args):
         FieldSet.__init__(self, *args)
-        if self["code"].value != self.NOP:
+        if self["code"].value not in (self.END, self.NOP):
             self._size = self["length"].value * 8
         else:
             self._size = 8
@@ -90,7 +92,7 @@ class TCP_Option(FieldSet):
     def createFields(self):
         yield Enum(UInt8(self, "code", "Code"), self.code_name)
         code = self["code"].value
-        if code == self.NOP:
+        if code in (self.END, self.NOP):
             return
         yield UInt8(self, "length", "Option size in bytes")
         if code == self.MAX_SEGMENT:
-- 
2.43.0


From e568c745c9e30f11b0caf5eaf4accd89b1535d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:42 +0000
Subject: [PATCH 199/218] fix: time of the tcpdump packets in their description

---
 hachoir/parser/network/tcpdump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index a2555c1..12328cf 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -463,9 +463,9 @@ class Packet(FieldSet):
             yield RawBytes(self, "data", size)
 
     def getTimestamp(self):
-        nano_sec = float(self["ts_nanosec"].value) / 100
+        # (the field counts microseconds, despite its name)
         from datetime import timedelta
-        return self["ts_epoch"].value + timedelta(microseconds=nano_sec)
+        return self["ts_epoch"].value + timedelta(microseconds=self["ts_nanosec"].value)
 
     def createDescription(self):
         t0 = self["/packet[0]"].getTimestamp()
-- 
2.43.0


From 0135ab45bba2f64f3bdc328ed2add0c61c6a0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:42 +0000
Subject: [PATCH 200/218] fix: ELF sections without name table

---
 hachoir/parser/program/elf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/program/elf.py b/hachoir/parser/program/elf.py
index fcb3f39..480e8e4 100644
--- a/hachoir/parser/program/elf.py
+++ b/hachoir/parser/program/elf.py
@@ -177,6 +177,9 @@ class SymbolStringTableOffset(UInt32):
 
     def createDisplay(self):
         section_index = self['/header/shstrndx'].value
+        if section_index == 0:
+            # The file has no table of the section names
+            return UInt32.createDisplay(self)
         section = self['/section[' + str(section_index) + ']']
         text = section.value[self.value:]
         text = text.decode('utf-8')
-- 
2.43.0


From c6f7a83708f1d19d7bb933c89eb36864334d9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 201/218] fix: description of a field of a Java class

---
 hachoir/parser/program/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 1ad9c6d..91a4848 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -934,8 +934,8 @@ class FieldInfo(FieldSet):
             if self[mod].value:
                 bits.append(mod)
         bits.append(parse_field_descriptor(
-            self['descriptor_index'].rawvalue()),
-            name=self['name_index'].rawvalue())
+            self['descriptor_index'].rawvalue(),
+            name=self['name_index'].rawvalue()))
         return ' '.join(bits)
 
 
-- 
2.43.0


From 69c48b1f4cef9cb1896ffd90f281ea803f08788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 202/218] fix: display of the wide instruction of Java

---
 hachoir/parser/program/java.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 91a4848..2625e1e 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -414,11 +414,11 @@ class OpcodeSpecial_wide(JavaOpcode):
         yield UInt16(self, "index")
         if op == "iinc":
             yield Int16(self, "value")
-            self.createDisplay = lambda self: "%s(%i,%i)" % (
-                self.op, self["index"].value, self["value"].value)
-        else:
-            self.createDisplay = lambda self: "%s(%i)" % (
-                self.op, self["index"].value)
+
+    def createDisplay(self):
+        if "value" in self:
+            return "%s(%i,%i)" % (self.op, self["index"].value, self["value"].value)
+        return "%s(%i)" % (self.op, self["index"].value)
 
 
 class OpcodeSpecial_invokeinterface(JavaOpcode):
-- 
2.43.0


From b47dcdd32496dd8186ce439699bf7eb45f18dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 203/218] fix: Java exception handlers without catch type

---
 hachoir/parser/program/java.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 2625e1e..d7cfa7d 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -1153,7 +1153,8 @@ class ExceptionTableEntry(FieldSet):
         yield textHandler(UInt16(self, "start_pc"), hexadecimal)
         yield textHandler(UInt16(self, "end_pc"), hexadecimal)
         yield textHandler(UInt16(self, "handler_pc"), hexadecimal)
-        yield CPIndex(self, "catch_type", target_types="Class")
+        # Zero: the handler is called for all exceptions
+        yield CPIndex(self, "catch_type", target_types="Class", allow_zero=True)
 
 
 class InnerClassesEntry(StaticFieldSet):
-- 
2.43.0


From c285e835078c48b9fc531277d97f5417c67f1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:47 +0000
Subject: [PATCH 204/218] fix: Java classes without super class

---
 hachoir/parser/program/java.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index d7cfa7d..c71aec0 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -1344,7 +1344,8 @@ class JavaCompiledClassFile(Parser):
         yield Bit(self, "public", description="Declared public; may be accessed from outside its package. ")
 
         yield CPIndex(self, "this_class", "Class name", target_types="Class")
-        yield CPIndex(self, "super_class", "Super class name", target_types="Class")
+        # Zero: the class is java.lang.Object, or a module
+        yield CPIndex(self, "super_class", "Super class name", target_types="Class", allow_zero=True)
         yield UInt16(self, "interfaces_count", "Number of implemented interfaces")
         if self["interfaces_count"].value > 0:
             yield FieldArray(self, "interfaces", CPIndex,
-- 
2.43.0


From 9e369c48b8edf90cc1712eaedb81e0a5474f02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:23 +0000
Subject: [PATCH 205/218] fix: access and modification times of shortcuts

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 3a6dfef..13887c3 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -606,8 +606,8 @@ class LnkFile(Parser):
         yield MSDOSFileAttr32(self, "target_attr")
 
         yield TimestampWin64(self, "creation_time")
-        yield TimestampWin64(self, "modification_time")
         yield TimestampWin64(self, "last_access_time")
+        yield TimestampWin64(self, "modification_time")
         yield filesizeHandler(UInt32(self, "target_filesize"))
         yield UInt32(self, "icon_number")
         yield Enum(UInt32(self, "show_window"), self.SHOW_WINDOW_STATE)
-- 
2.43.0


From f9793fdd1767293e1bdb3d61607134a8636203d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:23 +0000
Subject: [PATCH 206/218] fix: data of shell extensions of shortcuts

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 13887c3..dee1beb 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -98,7 +98,7 @@ class ItemId(FieldSet):
         elif entrytype == 0x2E:
             # Shell extension
             yield RawBytes(self, "dummy", 1, "should be 0x50")
-            if self["dummy"].value == '\0':
+            if self["dummy"].value == b'\0':
                 yield UInt16(self, "length_data", "Length of shell extension-specific data")
                 if self["length_data"].value:
                     yield RawBytes(self, "data", self["length_data"].value, "Shell extension-specific data")
-- 
2.43.0


From 45d54b419652bbb95cd4efdf1bea47d6679a2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:23 +0000
Subject: [PATCH 207/218] fix: signed icon number of shortcuts

---
 hachoir/parser/misc/lnk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index dee1beb..a5f3c13 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -25,7 +25,7 @@ Changes:
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            CString, String,
-                           UInt32, UInt16, UInt8,
+                           UInt32, UInt16, UInt8, Int32,
                            Bit, Bits, PaddingBits,
                            TimestampWin64, DateTimeMSDOS32,
                            NullBytes, PaddingBytes, RawBytes, Enum)
@@ -609,7 +609,7 @@ class LnkFile(Parser):
         yield TimestampWin64(self, "last_access_time")
         yield TimestampWin64(self, "modification_time")
         yield filesizeHandler(UInt32(self, "target_filesize"))
-        yield UInt32(self, "icon_number")
+        yield Int32(self, "icon_number")
         yield Enum(UInt32(self, "show_window"), self.SHOW_WINDOW_STATE)
         yield textHandler(UInt8(self, "hot_key", "Hot key used for quick access"), text_hot_key)
         yield Bit(self, "hot_key_shift", "Hot key: is Shift used?")
-- 
2.43.0


From 67822962ad53b2ef149fdef26a7621de024e1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:23 +0000
Subject: [PATCH 208/218] fix: order of the names of the target of shortcuts

---
 hachoir/parser/misc/lnk.py | 40 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index a5f3c13..13b9639 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -245,39 +245,25 @@ class FileLocationInfo(FieldSet):
         if has_unicode_paths:
             yield UInt32(self, "local_pathname_unicode_offset", "Offset to Unicode version of local base pathname; only meaningful if on_local_volume = 1")
             yield UInt32(self, "pathname_unicode_offset", "Offset to Unicode version of remaining pathname")
+        # The parts may be stored in any order
+        parts = [("pathname_offset", CString, ("final_pathname", "Final component of the pathname"), {})]
         if self["on_local_volume"].value:
-            padding = self.seekByte(self["local_info_offset"].value)
-            if padding:
-                yield padding
-            yield LocalVolumeTable(self, "local_volume_table", "Local Volume Table")
-
-            padding = self.seekByte(self["local_pathname_offset"].value)
-            if padding:
-                yield padding
-            yield CString(self, "local_base_pathname", "Local Base Pathname")
+            parts.append(("local_info_offset", LocalVolumeTable, ("local_volume_table", "Local Volume Table"), {}))
+            parts.append(("local_pathname_offset", CString, ("local_base_pathname", "Local Base Pathname"), {}))
             if has_unicode_paths:
-                padding = self.seekByte(
-                    self["local_pathname_unicode_offset"].value)
-                if padding:
-                    yield padding
-                yield CString(self, "local_base_pathname_unicode", "Local Base Pathname in Unicode", charset="UTF-16-LE")
-
+                parts.append(("local_pathname_unicode_offset", CString,
+                              ("local_base_pathname_unicode", "Local Base Pathname in Unicode"), {"charset": "UTF-16-LE"}))
         if self["on_network_volume"].value:
-            padding = self.seekByte(self["remote_info_offset"].value)
-            if padding:
-                yield padding
-            yield NetworkVolumeTable(self, "network_volume_table")
-
-        padding = self.seekByte(self["pathname_offset"].value)
-        if padding:
-            yield padding
-        yield CString(self, "final_pathname", "Final component of the pathname")
-
+            parts.append(("remote_info_offset", NetworkVolumeTable, ("network_volume_table",), {}))
         if has_unicode_paths:
-            padding = self.seekByte(self["pathname_unicode_offset"].value)
+            parts.append(("pathname_unicode_offset", CString,
+                          ("final_pathname_unicode", "Final component of the pathname in Unicode"), {"charset": "UTF-16-LE"}))
+        parts.sort(key=lambda part: self[part[0]].value)
+        for offset, cls, args, kw in parts:
+            padding = self.seekByte(self[offset].value)
             if padding:
                 yield padding
-            yield CString(self, "final_pathname_unicode", "Final component of the pathname in Unicode", charset="UTF-16-LE")
+            yield cls(self, *args, **kw)
 
         padding = self.seekByte(self["length"].value)
         if padding:
-- 
2.43.0


From 93467b3ecb86a93d7d650d5281cfdae0b8b6271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:33 +0000
Subject: [PATCH 209/218] fix: rounded timestamps of Windows

---
 hachoir/core/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 43575f2..fd6bcba 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -533,7 +533,8 @@ def durationWin64(value):
         raise TypeError("an integer or float is required")
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
-    return timedelta(microseconds=value / 10)
+    # Not "value / 10": a float isn't precise enough for a current date
+    return timedelta(microseconds=value // 10)
 
 
 def durationMillisWin64(value):
-- 
2.43.0


From dd14abd98cbdb81969b1d81188d161c07a87ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 210/218] fix: patterns and value of Amiga modules

---
 hachoir/parser/audio/mod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 4e246c6..3fff081 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -79,7 +79,7 @@ class Header(FieldSet):
         yield String(self, "type", 4)
 
     def getNumChannels(self):
-        return MODULE_TYPE[self["type"].value][1]
+        return MODULE_TYPE[self["type"].value.encode("latin-1")][1]
 
 
 class Note(FieldSet):
@@ -132,7 +132,7 @@ class AmigaModule(Parser):
         modtype = self.stream.readBytes(1080 * 8, 4)
         if modtype not in MODULE_TYPE:
             return "Invalid module type %a" % modtype
-        self.createValue = lambda modtype: "%s module, %u channels" % MODULE_TYPE[
+        self.createValue = lambda: "%s module, %u channels" % MODULE_TYPE[
             modtype]
         return True
 
-- 
2.43.0


From 8fd00b7443e3db9c012715e9922dd5649042dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 211/218] fix: notes of Amiga modules

---
 hachoir/parser/audio/mod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 3fff081..7765b3a 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -86,10 +86,10 @@ class Note(FieldSet):
     static_size = 8 * 4
 
     def createFields(self):
-        yield Bits(self, 4, "note_hi_nibble")
-        yield Bits(self, 12, "period")
-        yield Bits(self, 4, "note_low_nibble")
-        yield Bits(self, 4, "effect")
+        yield Bits(self, "note_hi_nibble", 4)
+        yield Bits(self, "period", 12)
+        yield Bits(self, "note_low_nibble", 4)
+        yield Bits(self, "effect", 4)
         yield UInt8(self, "parameter")
 
 
-- 
2.43.0


From 5a22f7713cdc14c4a3147da4415d947f00651795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 212/218] fix: negative fine tune of Amiga modules

---
 hachoir/parser/audio/mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 7765b3a..1e48939 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -44,7 +44,7 @@ MODULE_TYPE = {
 
 
 def getFineTune(val):
-    return ("0", "1", "2", "3", "4", "5", "6", "7", "8",
+    return ("0", "1", "2", "3", "4", "5", "6", "7",
             "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value]
 
 
-- 
2.43.0


From 849660f1e76698370ad54f6847f0721905c74a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 213/218] fix: samples of Amiga modules without volume

---
 hachoir/parser/audio/mod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 1e48939..576633c 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -49,6 +49,8 @@ def getFineTune(val):
 
 
 def getVolume(val):
+    if not val.value:
+        return "mute"
     return "%.1f dB" % (20.0 * log10(val.value / 64.0))
 
 
-- 
2.43.0


From d800c101f22f01c7935a35e82a50ad7ade11a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 214/218] fix: size of the headers of RPM packages

---
 hachoir/parser/archive/rpm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index 5f0d39c..18bd705 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -185,7 +185,8 @@ class PropertySet(FieldSet):
 
     def __init__(self, parent, name, *args):
         FieldSet.__init__(self, parent, name, *args)
-        self._size = self["content_item[1]"].address + self["size"].value * 8
+        # Header (16 bytes), entries (16 bytes each) and their values
+        self._size = (16 + self["count"].value * 16 + self["size"].value) * 8
 
     def createFields(self):
         # Read chunk header
-- 
2.43.0


From 7003ac23380bf499f1ca0c4d4c2b64ba0ab68b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:39 +0000
Subject: [PATCH 215/218] fix: padding after the signature of RPM packages

---
 hachoir/parser/archive/rpm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index 18bd705..2a221d5 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -10,6 +10,7 @@ from hachoir.field import (FieldSet, ParserError,
                            NullBytes, Bytes, RawBytes, SubFile,
                            Character, CString, String)
 from hachoir.core.endian import BIG_ENDIAN
+from hachoir.core.tools import paddingSize
 from hachoir.parser.archive.gzip_parser import GzipParser
 from hachoir.parser.archive.bzip2_parser import Bzip2Parser
 
@@ -258,6 +259,9 @@ class RpmFile(Parser):
         yield UInt16(self, "signature_type", "Type of signature")
         yield NullBytes(self, "reserved", 16, "Reserved")
         yield PropertySet(self, "checksum", "Checksum (signature)")
+        padding = paddingSize(self.current_size // 8, 8)
+        if padding:
+            yield NullBytes(self, "padding", padding)
         yield PropertySet(self, "header", "Header")
 
         if self._size is None:  # TODO: is it possible to handle piped input?
-- 
2.43.0


From 9c3f09be1c9d2cd73b417d37d2e75ea1e5ae2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:25 +0000
Subject: [PATCH 216/218] fix: reserved bits of the clocks of MPEG-TS

---
 hachoir/parser/video/mpeg_ts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index e626e70..cc76597 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -32,10 +32,12 @@ class AdaptationField(FieldSet):
 
         if self['has_pcr'].value:
             yield Bits(self, "pcr_base", 33)
+            yield Bits(self, "pcr_reserved", 6)
             yield Bits(self, "pcr_ext", 9)
 
         if self['has_opcr'].value:
             yield Bits(self, "opcr_base", 33)
+            yield Bits(self, "opcr_reserved", 6)
             yield Bits(self, "opcr_ext", 9)
 
         if self['has_splice_point'].value:
-- 
2.43.0


From b2e68d8e9212485b4f87c48274e34d7fdf80f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:25 +0000
Subject: [PATCH 217/218] fix: empty adaptation fields of MPEG-TS

---
 hachoir/parser/video/mpeg_ts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index cc76597..5e57584 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -20,6 +20,9 @@ class AdaptationField(FieldSet):
 
     def createFields(self):
         yield UInt8(self, "length")
+        if not self["length"].value:
+            # One byte of stuffing, without flags
+            return
 
         yield Bit(self, "discontinuity_indicator")
         yield Bit(self, "random_access_indicator")
@@ -44,7 +47,7 @@ class AdaptationField(FieldSet):
             yield Bits(self, "splice_countdown", 8)
 
         stuff_len = ((self['length'].value + 1) * 8) - self.current_size
-        if self['length'].value and stuff_len:
+        if stuff_len:
             yield RawBits(self, 'stuffing', stuff_len)
 
 
-- 
2.43.0


From 7336065025b4efadee4346f319b44eafea0db659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:25 +0000
Subject: [PATCH 218/218] fix: description of the sync byte of MPEG-TS

---
 hachoir/parser/video/mpeg_ts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index 5e57584..6340329 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -80,7 +80,7 @@ class Packet(FieldSet):
         if self._m2ts:
             yield Bits(self, "c", 2)
             yield Bits(self, "ats", 32 - 2)
-        yield textHandler(UInt8(self, "sync", 8), hexadecimal)
+        yield textHandler(UInt8(self, "sync"), hexadecimal)
         if self["sync"].value != 0x47:
             raise ParserError("MPEG-2 TS: Invalid synchronization byte")
         yield Bit(self, "has_error")
-- 
2.43.0

