From 6534cf254d2bc78c834ddffbdd110990f071aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 001/299] fix: a read past the end of an input window returns
 an error, not bytes of the parent stream

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..d63597a 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -491,6 +491,8 @@ class InputSubStream(InputStream):
         self.stream = None
 
     def read(self, address, size):
+        if self._size is not None and self._size < address + size:
+            raise ReadStreamError(size, address, max(self._size - address, 0))
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From f68d5230145697c20f1656d5020dc0c60856407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 002/299] fix: searching bytes in a stream of unknown size
 handles the end found while reading

---
 hachoir/stream/input.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index d63597a..0aee31a 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -263,12 +263,16 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            shift, data, missing = self.read(start_address, 8 * size)
+            if self._size and (end_address is None or self._size < end_address):
+                # The end of the stream has just been found
                 end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
+                size = min(size, (end_address - start_address) >> 3)
+                if size <= 0:
+                    return None
                 data = data[:size]
+            elif missing:
+                raise ReadStreamError(8 * size, start_address)
             start_address += 8 * size
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
-- 
2.43.0


From bb76130b09ac71f7cb7e445358794f9144e02140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 003/299] fix: a short read of a pipe is not the end of the
 stream

---
 hachoir/stream/input.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 0aee31a..6bc8312 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -376,6 +376,12 @@ class InputPipe(object):
         end = self.address + size
         for i in range(len(self.buffers), (end >> self.buffer_size) + 1):
             data = self._input.read(1 << self.buffer_size)
+            while 0 < len(data) < 1 << self.buffer_size:
+                # Short read: only an empty answer is the end of the input
+                more = self._input.read((1 << self.buffer_size) - len(data))
+                if not more:
+                    break
+                data += more
             if len(data) < 1 << self.buffer_size:
                 self.size = (len(self.buffers) << self.buffer_size) + len(data)
                 if self.set_size:
-- 
2.43.0


From 8ee4945927de934fe9fd8bc3b58f46aeb7c47065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 004/299] fix: a pipe announces its size once, when its end is
 reached

---
 hachoir/stream/input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 6bc8312..0b5546e 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -375,6 +375,9 @@ class InputPipe(object):
     def read(self, size):
         end = self.address + size
         for i in range(len(self.buffers), (end >> self.buffer_size) + 1):
+            if self.size is not None:
+                # The end of the input has already been reached
+                break
             data = self._input.read(1 << self.buffer_size)
             while 0 < len(data) < 1 << self.buffer_size:
                 # Short read: only an empty answer is the end of the input
-- 
2.43.0


From 82d70854a10d79b86566c89c4fd6595e0d599d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 005/299] fix: closing a stream over a pipe closes the pipe

---
 hachoir/stream/input.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 0b5546e..f788abe 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -368,6 +368,11 @@ class InputPipe(object):
             self.buffers[self.first] = None
             self.first += 1
 
+    def close(self):
+        close = getattr(self._input, "close", None)
+        if close is not None:
+            close()
+
     def seek(self, address):
         assert 0 <= address
         self.address = address
-- 
2.43.0


From 24e42a3916cf8a679656587fe05a778814b8c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 006/299] fix: a window open to the end of a stream of unknown
 size

---
 hachoir/stream/input.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index f788abe..f2cf9e1 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -492,7 +492,7 @@ class InputSubStream(InputStream):
             offset = 0
         if size is None and stream.size is not None:
             size = stream.size - offset
-        if size <= 0:
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -502,8 +502,13 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        size = max(0, self.stream._current_size - self._offset)
+        if self._size is None:
+            # Window up to the end of a stream of unknown size
+            return size
+        return min(self._size, size)
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
-- 
2.43.0


From d82126768333f5a97c8a8b1ef74a616a65f65b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 007/299] fix: the file view of a regular file does not share
 its position with the stream

---
 hachoir/stream/input.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index f2cf9e1..0a6f66d 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -5,6 +5,8 @@ from hachoir.core.bits import str2long
 from hachoir.core.tools import lowerBound
 from hachoir.core.tools import alignValue
 from errno import ESPIPE
+from io import BufferedReader
+from os.path import sameopenfile
 from weakref import ref as weakref_ref
 from hachoir.stream import StreamError
 
@@ -456,12 +458,17 @@ class InputIOStream(InputStream):
         return shift, data, missing
 
     def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
+        # A duplicated descriptor would share its position with the stream,
+        # so a regular file is opened again
+        if isinstance(self._input, BufferedReader) \
+                and isinstance(self._input.name, str):
+            try:
+                new_file = open(self._input.name, "rb")
+            except OSError:
+                return InputStream.file(self)
+            if sameopenfile(new_file.fileno(), self._input.fileno()):
+                return new_file
+            new_file.close()
         return InputStream.file(self)
 
 
-- 
2.43.0


From 8a8f6d3fd67af04390243a8899e10ed217782010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 008/299] fix: file view of a stream of unknown size: reads
 relative to or up to the end

---
 hachoir/stream/input.py | 60 ++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 0a6f66d..1dfd6a4 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -80,51 +80,31 @@ class FileFromInputStream:
             if shift:
                 raise InputStreamError("TODO: handle non-byte-aligned data")
             return data
-        if self._size or size is not None and not self._from_end:
-            # We don't want self.tell() to read anything
-            # and the size must be known if we read until the end.
-            pos = self.tell()
-            if size is None or (self._size is not None and self._size < pos + size):
-                size = self._size - pos
+        if size is not None and size < 0:
+            size = None
+        # If the position is relative to the end, the size must be known.
+        # Otherwise, tell() doesn't read anything.
+        pos = self.tell()
+        if self._size is not None:
+            left = self._size - pos
+            if size is None or left < size:
+                size = left
+        if size is not None:
             if size <= 0:
                 return b''
             data = read(pos, size)
             self._offset += len(data)
             return data
-        elif self._from_end:
-            # TODO: not tested
-            max_size = - self._offset
-            if size is None or max_size < size:
-                size = max_size
-            if size <= 0:
-                return b''
-            data = b'', b''
-            self._offset = max(
-                0, self.stream._current_size // 8 + self._offset)
-            self._from_end = False
-            bs = max(max_size, 1 << 16)
-            while True:
-                d = read(self._offset, bs)
-                data = data[1], d
-                self._offset += len(d)
-                if self._size:
-                    bs = self._size - self._offset
-                    if not bs:
-                        data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
-        else:
-            # TODO: not tested
-            data = []
-            size = 1 << 16
-            while True:
-                d = read(self._offset, size)
-                data.append(d)
-                self._offset += len(d)
-                if self._size:
-                    size = self._size - self._offset
-                    if not size:
-                        return b''.join(data)
+        # Read until the end, which is not known yet
+        data = []
+        size = 1 << 16
+        while 0 < size:
+            d = read(self._offset, size)
+            data.append(d)
+            self._offset += len(d)
+            if self._size is not None:
+                size = self._size - self._offset
+        return b''.join(data)
 
 
 class InputStream(Logger):
-- 
2.43.0


From 6abe5ce51d55ec1a82455880862b6dc071cb4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 009/299] fix: single bits are written in the same order as
 groups of bits

---
 hachoir/stream/output.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..9cdc93f 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -34,24 +34,7 @@ class OutputStream(object):
     filename = property(_getFilename)
 
     def writeBit(self, state, endian):
-        # middle endian not yet supported
-        assert endian in (BIG_ENDIAN, LITTLE_ENDIAN)
-        if self._bit_pos == 7:
-            self._bit_pos = 0
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= 1
-                else:
-                    self._byte |= 128
-            self._output.write(bytes([self._byte]))
-            self._byte = 0
-        else:
-            if state:
-                if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
-                    self._byte |= (1 << (7 - self._bit_pos))
-            self._bit_pos += 1
+        self.writeBits(1, 1 if state else 0, endian)
 
     def writeBits(self, count, value, endian):
         # middle endian not yet supported
-- 
2.43.0


From 1b276478390b2ba4cf05479123fbb4da7bb6c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 010/299] fix: signed integers are written in two's complement,
 as they are read

---
 hachoir/stream/output.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 9cdc93f..660fe50 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -89,8 +89,13 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
+        nbits = size_byte * 8
         if signed:
-            value += 1 << (size_byte * 8 - 1)
+            # Two's complement
+            assert -(1 << (nbits - 1)) <= value < 1 << (nbits - 1)
+            value &= (1 << nbits) - 1
+        else:
+            assert 0 <= value < 1 << nbits
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 8ec78229642b84de34a4770af27e4b4039d5384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 011/299] fix: in-memory output streams accept bytes and are
 read at the given address

---
 hachoir/stream/output.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 660fe50..ebebee4 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO, UnsupportedOperation
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -150,11 +150,11 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
             except IOError as err:
-                if err[0] == EBADF:
+                if err.errno == EBADF or isinstance(err, UnsupportedOperation):
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
         finally:
@@ -165,7 +165,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 1ec0c7f1622b64e3752e819113dc7c47bf53796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 012/299] fix: iterating on a field set also gives a field
 added just before the end of the data

---
 hachoir/field/generic_field_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..fcc3d79 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -388,7 +388,11 @@ class GenericFieldSet(BasicFieldSet):
                     yield field
                     done += 1
         except StopIteration:
+            # A field may have been added before asking to stop
+            added = self._fields.values[done:]
             field = self._stopFeeding()
+            for f in added:
+                yield f
             if isinstance(field, Field):
                 yield field
             elif hasattr(field, '__iter__'):
-- 
2.43.0


From 958ee5e8cd9e283207468ae018c712db126e7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 013/299] fix: a field added by the end of the parsing is found
 by its name the first time

---
 hachoir/field/generic_field_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index fcc3d79..09a8b5c 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -338,6 +338,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        # The end of the parsing may have added the field
+        if field_name in self._fields:
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From 421a5efe52989f5231530de8f514429a17747405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 014/299] fix: the length of a field array does not depend on a
 missing index asked before

---
 hachoir/field/fake_array.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..2b71285 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -25,7 +25,6 @@ class FakeArray:
             self.name = name
         self._format = "%s[%%u]" % self.name
         self._cache = {}
-        self._known_size = False
         self._max_index = -1
 
     def __bool__(self):
@@ -38,13 +37,12 @@ class FakeArray:
     def __len__(self):
         "Number of fields in the array"
         total = self._max_index + 1
-        if not self._known_size:
-            for index in itertools.count(total):
-                try:
-                    self[index]
-                    total += 1
-                except MissingField:
-                    break
+        for index in itertools.count(total):
+            try:
+                self[index]
+                total += 1
+            except MissingField:
+                break
         return total
 
     def __contains__(self, index):
@@ -62,11 +60,7 @@ class FakeArray:
         try:
             value = self._cache[index]
         except KeyError:
-            try:
-                value = self.fieldset[self._format % index]
-            except MissingField:
-                self._known_size = True
-                raise
+            value = self.fieldset[self._format % index]
             self._cache[index] = value
             self._max_index = max(index, self._max_index)
         return value
-- 
2.43.0


From 36a38433883b8494e3e1977aac79afa234b5285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 015/299] fix: a repeated field name whose numbered name is
 used too gets another number

---
 hachoir/field/generic_field_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 09a8b5c..fa014b4 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -194,8 +194,10 @@ class GenericFieldSet(BasicFieldSet):
             self._fields.append(field._name, field)
         except UniqKeyError as err:
             self.warning("Duplicate field name " + str(err))
-            field._name += "[]"
-            self.setUniqueFieldName(field)
+            name = field._name
+            while field._name in self._fields:
+                field._name = name + "[]"
+                self.setUniqueFieldName(field)
             self._fields.append(field._name, field)
         if ask_stop:
             raise StopIteration()
-- 
2.43.0


From 515317447027416aa1e0b9b605c6d1c930d2f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 016/299] fix: replacing a field by several ones is refused
 before any change when a name is already used

---
 hachoir/field/generic_field_set.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index fa014b4..5895c9d 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -464,27 +464,26 @@ class GenericFieldSet(BasicFieldSet):
             raise ParserError("Unable to replace %s: "
                               "new field(s) hasn't same size (%u bits instead of %u bits)!"
                               % (name, total_size, old_field.size))
+        # Check all names before changing anything
+        used = set()
+        for field in new_fields:
+            if field._name.endswith("[]"):
+                self.setUniqueFieldName(field)
+            if field.name in used or (field.name != name
+                                      and field.name in self._fields):
+                raise ParserError(
+                    "Unable to replace %s: name \"%s\" is already used!"
+                    % (name, field.name))
+            used.add(field.name)
         field = new_fields[0]
-        if field._name.endswith("[]"):
-            self.setUniqueFieldName(field)
         field._address = old_field.address
-        if field.name != name and field.name in self._fields:
-            raise ParserError(
-                "Unable to replace %s: name \"%s\" is already used!"
-                % (name, field.name))
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
             index = self._fields.index(new_fields[0].name) + 1
             address = field.address + field.size
             for field in new_fields[1:]:
-                if field._name.endswith("[]"):
-                    self.setUniqueFieldName(field)
                 field._address = address
-                if field.name in self._fields:
-                    raise ParserError(
-                        "Unable to replace %s: name \"%s\" is already used!"
-                        % (name, field.name))
                 self._fields.insert(index, field.name, field)
                 self.raiseEvent("field-inserted", index, field)
                 index += 1
-- 
2.43.0


From 5db6f1f773d9d769571d559e3ee3f0aaeb2cc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 017/299] fix: replacing a key of a dictionary by another used
 key is refused

---
 hachoir/core/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..97803be 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -120,6 +120,8 @@ class Dict(object):
         {'two': 'deux', 'three': 4}
         """
         index = self._index[oldkey]
+        if oldkey != newkey and newkey in self._index:
+            raise UniqKeyError("Key '%s' already exists" % newkey)
         self._value_list[index] = new_value
         if oldkey != newkey:
             del self._index[oldkey]
-- 
2.43.0


From 3bc258d2f7fba6573fab217c04691f5b5dae362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 018/299] fix: a field array gives the fields of the tree after
 a replacement

---
 hachoir/field/fake_array.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 2b71285..897a5ab 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -24,15 +24,11 @@ class FakeArray:
             self.fieldset = fieldset
             self.name = name
         self._format = "%s[%%u]" % self.name
-        self._cache = {}
         self._max_index = -1
 
     def __bool__(self):
         "Is the array empty or not?"
-        if self._cache:
-            return True
-        else:
-            return (0 in self)
+        return (0 in self)
 
     def __len__(self):
         "Number of fields in the array"
@@ -57,12 +53,8 @@ class FakeArray:
         Get a field of the array. Returns a field, or raise MissingField
         exception if the field doesn't exist.
         """
-        try:
-            value = self._cache[index]
-        except KeyError:
-            value = self.fieldset[self._format % index]
-            self._cache[index] = value
-            self._max_index = max(index, self._max_index)
+        value = self.fieldset[self._format % index]
+        self._max_index = max(index, self._max_index)
         return value
 
     def __iter__(self):
-- 
2.43.0


From a547f97eced46c55022bff44b494d74d50d53cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 019/299] fix: getgaps() gives no gap past the end of the range

---
 hachoir/field/seekable_field_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..a3fde73 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -14,6 +14,8 @@ def getgaps(start, length, blocks):
     blocks = sorted(blocks, key=lambda b: b[0])
     end = start + length
     for s, l in blocks:
+        if s >= end:
+            break
         if s > start:
             yield (start, s - start)
             start = s
-- 
2.43.0


From 52376073bf712bb9b8167932aa0df777e77abcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 020/299] fix: a seekable field set without fields, or ending
 with a seek, is covered by raw fields

---
 hachoir/field/seekable_field_set.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index a3fde73..50ec0ca 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -59,16 +59,11 @@ class RootSeekableFieldSet(GenericFieldSet):
         message = ["stop parser"]
         self._field_generator = None
 
-        # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
-            message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
-
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        if blocks:
+            self._size = max(self._size, max(
+                a + b for a, b in blocks) - self.absolute_address)
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
-- 
2.43.0


From 25214c4529d833beba55de22bbf50e9d07b8a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 021/299] fix: a field of a seekable set is found by its
 address

---
 hachoir/field/seekable_field_set.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 50ec0ca..4c80003 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -48,6 +48,15 @@ class RootSeekableFieldSet(GenericFieldSet):
     def seekByte(self, address, relative=True):
         return self.seekBit(address * 8, relative)
 
+    def getFieldByAddress(self, address, feed=True):
+        # fields are not sorted by their address
+        if feed and self._field_generator is not None:
+            self._feedAll()
+        for field in self._fields:
+            if field.address <= address < field.address + field.size:
+                return field
+        return None
+
     def _fixLastField(self):
         """
         Try to fix last field when we know current field set size.
-- 
2.43.0


From a67860247397598d1d3fb8a9dc7d29eb8bf602d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 022/299] fix: a raw, padding or null field at a bit address is
 made of bits, so it has a value

---
 hachoir/field/helper.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hachoir/field/helper.py b/hachoir/field/helper.py
index 4d7b7ca..9368e64 100644
--- a/hachoir/field/helper.py
+++ b/hachoir/field/helper.py
@@ -6,10 +6,16 @@ from hachoir.field import (FieldError,
 from hachoir.stream import FileOutputStream
 
 
+def isByteVector(parent, size):
+    # whole bytes, which can only be read at a byte address
+    address = parent.absolute_address + parent.nextFieldAddress()
+    return (size % 8) == 0 and (address % 8) == 0
+
+
 def createRawField(parent, size, name="raw[]", description=None):
     if size <= 0:
         raise FieldError("Unable to create raw field of %s bits" % size)
-    if (size % 8) == 0:
+    if isByteVector(parent, size):
         return RawBytes(parent, name, size // 8, description)
     else:
         return RawBits(parent, name, size, description)
@@ -18,7 +24,7 @@ def createRawField(parent, size, name="raw[]", description=None):
 def createPaddingField(parent, nbits, name="padding[]", description=None):
     if nbits <= 0:
         raise FieldError("Unable to create padding of %s bits" % nbits)
-    if (nbits % 8) == 0:
+    if isByteVector(parent, nbits):
         return PaddingBytes(parent, name, nbits // 8, description)
     else:
         return PaddingBits(parent, name, nbits, description)
@@ -27,7 +33,7 @@ def createPaddingField(parent, nbits, name="padding[]", description=None):
 def createNullField(parent, nbits, name="padding[]", description=None):
     if nbits <= 0:
         raise FieldError("Unable to create null padding of %s bits" % nbits)
-    if (nbits % 8) == 0:
+    if isByteVector(parent, nbits):
         return NullBytes(parent, name, nbits // 8, description)
     else:
         return NullBits(parent, name, nbits, description)
-- 
2.43.0


From 3fbacee7488d7fdfc58d9ec4c952328ffb0bad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 023/299] fix: the end of an UTF-16 or UTF-32 string is a whole
 character

---
 hachoir/field/string_field.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..1707abf 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -154,16 +154,10 @@ class GenericString(Bytes):
                 suffix = self.suffix_str
 
                 # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
+                length = self._searchSuffix(suffix)
                 if length is None:
                     raise FieldError("Unable to find end of string %s (format %s)!"
                                      % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
-                    #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
-                    length = alignValue(length, len(suffix))
 
                 # Compute sizes
                 self._content_size = length  # in bytes
@@ -208,6 +202,23 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _searchSuffix(self, suffix):
+        """
+        Number of bytes before the suffix, or None. The suffix is a whole
+        character: bytes across two characters are not a suffix
+        (eg. u"abc" -> "a\\0b\\0c\\0\\0\\0" in UTF-16-LE: length is 6, not 5).
+        """
+        length = 0
+        while True:
+            found = self._parent.stream.searchBytesLength(
+                suffix, False, self.absolute_address + length * 8)
+            if found is None:
+                return None
+            length += found
+            if length % len(suffix) == 0:
+                return length
+            length = alignValue(length, len(suffix))
+
     @staticmethod
     def staticSuffixStr(format, charset, endian):
         if format not in GenericString.SUFFIX_FORMAT:
-- 
2.43.0


From 382be913e6d15c2e7c02e46a2f517b684a9f767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 024/299] fix: the end of a line in UTF-16 or UTF-32 has the
 byte order of the charset

---
 hachoir/field/string_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 1707abf..d47145c 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -225,8 +225,11 @@ class GenericString(Bytes):
             return ''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, utf_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            if utf_endian in suffix:
+                # The charset sets the endian, whatever the parent is
+                endian = utf_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
-- 
2.43.0


From e0135bdb79d733c96cf2d9ec28670d8d855325dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 025/299] fix: the BOM of a string follows its prefix, and sets
 the byte order of its end

---
 hachoir/field/string_field.py | 46 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index d47145c..9ef0676 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -135,6 +135,9 @@ class GenericString(Bytes):
                              (self.path, charset))
         self._charset = charset
 
+        # For UTF-16 and UTF-32, choose the right charset using BOM
+        bom_size = self._readBOM(self.PASCAL_FORMATS.get(format, 0))
+
         # It is a fixed string?
         if nbytes is not None:
             assert self._format == "fixed"
@@ -177,24 +180,11 @@ class GenericString(Bytes):
                 self._content_size = value   # in bytes
                 self._size = (prefix_size + value) * 8
 
-        # For UTF-16 and UTF-32, choose the right charset using BOM
-        if self._charset in self.UTF_CHARSET:
-            # Charset requires a BOM?
-            bomsize, endian = self.UTF_CHARSET[self._charset]
-            if endian == "BOM":
-                # Read the BOM value
-                nbytes = bomsize // 8
-                bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
-
-                # Choose right charset using the BOM
-                bom_endian = self.UTF_BOM[bomsize]
-                if bom not in bom_endian:
-                    raise FieldError("String %s has invalid BOM (%s)!"
-                                     % (self.path, repr(bom)))
-                self._charset = bom_endian[bom]
-                self._content_size -= nbytes
-                self._content_offset += nbytes
+        # The BOM is not part of the text
+        if self._content_size < bom_size:
+            raise FieldError("String %s is too short for its BOM!" % self.path)
+        self._content_size -= bom_size
+        self._content_offset += bom_size
 
         # Compute length in character if possible
         if self._character_size:
@@ -202,6 +192,26 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _readBOM(self, offset):
+        """
+        If the charset requires a BOM, read it at the offset (in bytes) to
+        choose the charset. Return the size of the BOM (in bytes), or zero.
+        """
+        if self._charset not in self.UTF_CHARSET:
+            return 0
+        bomsize, endian = self.UTF_CHARSET[self._charset]
+        if endian != "BOM":
+            return 0
+        bom_size = bomsize // 8
+        bom = self._parent.stream.readBytes(
+            self.absolute_address + offset * 8, bom_size)
+        bom_endian = self.UTF_BOM[bomsize]
+        if bom not in bom_endian:
+            raise FieldError("String %s has invalid BOM (%s)!"
+                             % (self.path, repr(bom)))
+        self._charset = bom_endian[bom]
+        return bom_size
+
     def _searchSuffix(self, suffix):
         """
         Number of bytes before the suffix, or None. The suffix is a whole
-- 
2.43.0


From 18b5b2b9a81df73933806271dd8c539e1eaad995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 026/299] fix: the parts of a little endian float are read from
 the least significant bits

---
 hachoir/field/float.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hachoir/field/float.py b/hachoir/field/float.py
index c2b62e2..183f25e 100644
--- a/hachoir/field/float.py
+++ b/hachoir/field/float.py
@@ -79,13 +79,20 @@ def floatFactory(name, format, mantissa_bits, exponent_bits, doc):
                                      self.__class__.__name__)
 
         def createFields(self):
-            yield Bit(self, "negative")
-            yield FloatExponent(self, "exponent", exponent_bits)
+            parts = [
+                (Bit, "negative"),
+                (FloatExponent, "exponent", exponent_bits),
+            ]
             if 64 <= mantissa_bits:
-                yield Bit(self, "one")
-                yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                parts.append((Bit, "one"))
+                parts.append((FloatMantissa, "mantissa", mantissa_bits - 1))
             else:
-                yield FloatMantissa(self, "mantissa", mantissa_bits)
+                parts.append((FloatMantissa, "mantissa", mantissa_bits))
+            if self._parent.endian == LITTLE_ENDIAN:
+                # The least significant bits come first
+                parts.reverse()
+            for part in parts:
+                yield part[0](self, *part[1:])
 
     cls = Float
     cls.__name__ = name
-- 
2.43.0


From f6c6e864f857c2d63deb2f48d83238d0c2647f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 027/299] fix: a static field set redefined under the same name
 has its own size

---
 hachoir/field/static_field_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/static_field_set.py b/hachoir/field/static_field_set.py
index d5cb43e..1d24f06 100644
--- a/hachoir/field/static_field_set.py
+++ b/hachoir/field/static_field_set.py
@@ -18,8 +18,8 @@ class StaticFieldSet(FieldSet):
 
     def __new__(cls, *args, **kw):
         assert cls.format is not None, "Class attribute 'format' is not set"
-        if cls._class is not cls.__name__:
-            cls._class = cls.__name__
+        if cls._class is not cls:
+            cls._class = cls
             cls.static_size = cls._computeStaticSize()
         return object.__new__(cls)
 
-- 
2.43.0


From b07ebb9be492fbfb7e266889a8deb56fdf41bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 028/299] fix: the length of a vector is its number of fields,
 also when it is truncated

---
 hachoir/field/vector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/field/vector.py b/hachoir/field/vector.py
index fabb70e..31c8fc5 100644
--- a/hachoir/field/vector.py
+++ b/hachoir/field/vector.py
@@ -16,13 +16,10 @@ class GenericVector(FieldSet):
         self._item_name = item_name
         FieldSet.__init__(self, parent, name, description, size=size)
 
-    def __len__(self):
-        return self.__nb_items
-
     def createFields(self):
         name = self._item_name + "[]"
         parser = self._item_class
-        for index in range(len(self)):
+        for index in range(self.__nb_items):
             yield parser(self, name)
 
 
-- 
2.43.0


From d324f0600a24c45b0bde1109cae862eb8a5e4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 029/299] fix: the size of a static field set is known before
 its first instance

---
 hachoir/field/static_field_set.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/static_field_set.py b/hachoir/field/static_field_set.py
index 1d24f06..b48cec1 100644
--- a/hachoir/field/static_field_set.py
+++ b/hachoir/field/static_field_set.py
@@ -1,6 +1,19 @@
 from hachoir.field import FieldSet, ParserError
 
 
+class _StaticSize:
+    """
+    Static size of a class, in bits: computed from its own format.
+    """
+
+    def __get__(self, instance, cls):
+        if cls.format is None:
+            return None
+        if "_static_size" not in cls.__dict__:
+            cls._static_size = cls._computeStaticSize()
+        return cls._static_size
+
+
 class StaticFieldSet(FieldSet):
     """
     Static field set: format class attribute is a tuple of all fields
@@ -14,13 +27,9 @@ class StaticFieldSet(FieldSet):
     Types with dynamic size are forbidden, eg. CString, PascalString8, etc.
     """
     format = None  # You have to redefine this class variable
-    _class = None
 
     def __new__(cls, *args, **kw):
         assert cls.format is not None, "Class attribute 'format' is not set"
-        if cls._class is not cls:
-            cls._class = cls
-            cls.static_size = cls._computeStaticSize()
         return object.__new__(cls)
 
     @staticmethod
@@ -49,6 +58,4 @@ class StaticFieldSet(FieldSet):
     def _computeStaticSize(cls, *args):
         return sum(cls._computeItemSize(item) for item in cls.format)
 
-    # Initial value of static_size, it changes when first instance
-    # is created (see __new__)
-    static_size = _computeStaticSize
+    static_size = _StaticSize()
-- 
2.43.0


From a246293fdfac2c5f983cd62358460c75bfcd3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 030/299] fix: the link to the first fragment leads to it

---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From abb0be4966b2ed9f693890700a664956118fb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 031/299] fix: a fragment may set its links after its last
 field

---
 hachoir/field/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index dbdb092..61f9785 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -88,7 +88,9 @@ class Fragment(FieldSet):
                     break
                 yield field
             else:
-                raise ParserError("Fragment.setLinks not called")
+                if self._first is None:
+                    raise ParserError("Fragment.setLinks not called")
+                field = None
         else:
             field = None
         if self._first is not self:
-- 
2.43.0


From 64f26dddac0c089eaf538ef5562d307132ef60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:29 +0000
Subject: [PATCH 032/299] fix: inserted fields keep their order, and are found
 and deleted by name

---
 hachoir/editor/fieldset.py | 128 ++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 57 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..9adb33d 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -27,7 +27,7 @@ class EditableFieldSet(object):
     parent = property(_getParent)
 
     def _isAltered(self):
-        if self._inserted:
+        if any(self._inserted.values()):
             return True
         if self._deleted:
             return True
@@ -75,10 +75,27 @@ class EditableFieldSet(object):
         will be inserted. If next is True, the fields will be inserted
         _after_ this field.
         """
+        # The place of the fields: in the list of already inserted fields,
+        # or before a field of the input (None: at the end)
+        fields, pos = None, None
+        if key is not None:
+            fields, pos = self._findInserted(key)
+            if fields is None:
+                if not self._inInput(key):
+                    raise MissingField(self, key)
+                if next:
+                    # Get next field. Use None if we are at the end.
+                    index = self.input[key].index + 1
+                    try:
+                        key = self.input[index].name
+                    except MissingField:
+                        key = None
+                    pos = 0
+            elif next:
+                pos += 1
+
         # Set unique field name
-        for field in new_fields:
-            if field._name.endswith("[]"):
-                self.input.setUniqueFieldName(field)
+        self._setUniqueNames(new_fields)
 
         # Check that there is no duplicate in inserted fields
         new_names = list(field.name for field in new_fields)
@@ -89,57 +106,30 @@ class EditableFieldSet(object):
             raise UniqKeyError(
                 "Duplicates in inserted fields: %s" % ", ".join(duplicates))
 
-        # Check that field names are not in input
-        if self.input:  # Write special version for NewFieldSet?
-            for name in new_names:
-                if name in self.input and name not in self._deleted:
-                    raise UniqKeyError("Field name '%s' already exists" % name)
+        # Check that field names are not in input nor in inserted fields
+        for name in new_names:
+            if name in self:
+                raise UniqKeyError("Field name '%s' already exists" % name)
 
-        # Check that field names are not in inserted fields
-        for fields in self._inserted.values():
-            for field in fields:
-                if field.name in new_names:
-                    raise UniqKeyError(
-                        "Field name '%s' already exists" % field.name)
-
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
+        if fields is None:
+            fields = self._inserted.setdefault(key, deque())
+            if pos is None:
+                pos = len(fields)
+        fields.rotate(-pos)
+        fields.extendleft(reversed(new_fields))
+        fields.rotate(pos)
 
-        # Whould like to insert in inserted fields?
-        if key:
-            for fields in self._inserted.values():
-                names = [item.name for item in fields]
-                try:
-                    pos = names.index(key)
-                except ValueError:
-                    continue
-                if 0 <= pos:
-                    if next:
-                        pos += 1
-                    fields.rotate(-pos)
-                    fields.extendleft(reversed(new_fields))
-                    fields.rotate(pos)
-                    return
-
-            # Get next field. Use None if we are at the end.
-            if next:
-                index = self.input[key].index + 1
-                try:
-                    key = self.input[index].name
-                except IndexError:
-                    key = None
-
-            # Check that field names are not in input
-            if key not in self.input:
-                raise MissingField(self, key)
-
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+    def _setUniqueNames(self, new_fields):
+        for field in new_fields:
+            if not field._name.endswith("[]"):
+                continue
+            # The input gives the next number: it has to know all its fields
+            len(self.input)
+            array = field._name
+            self.input.setUniqueFieldName(field)
+            while field.name in self:
+                field._name = array
+                self.input.setUniqueFieldName(field)
 
     def _getDescription(self):
         return self.input.description
@@ -238,12 +228,15 @@ class EditableFieldSet(object):
         May raise a MissingField error if the field doesn't exist in original
         field set or it has been deleted.
         """
-        if "/" in key:
-            return self._getItemByPath(key.split("/"))
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
+        if "/" in key:
+            return self._getItemByPath(key.split("/"))
 
-        if (key in self._deleted) or (key not in self.input):
+        fields, pos = self._findInserted(key)
+        if fields is not None:
+            return weakref.proxy(fields[pos])
+        if not self._inInput(key):
             raise MissingField(self, key)
         if key not in self._fields:
             field = self.input[key]
@@ -253,6 +246,23 @@ class EditableFieldSet(object):
                 self._fields[key] = createEditableField(self, field)
         return weakref.proxy(self._fields[key])
 
+    def _inInput(self, name):
+        """
+        Is it the name of a field of the input, which is not deleted?
+        """
+        return name not in self._deleted and name in self.input
+
+    def _findInserted(self, name):
+        """
+        Find an inserted field: get the list of inserted fields, and the
+        position in this list. Return (None, None) if there is no such field.
+        """
+        for fields in self._inserted.values():
+            for pos, field in enumerate(fields):
+                if field.name == name:
+                    return fields, pos
+        return None, None
+
     def __delitem__(self, name):
         """
         Remove a field from the field set. May raise an MissingField exception
@@ -263,7 +273,11 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        fields, pos = self._findInserted(name)
+        if fields is not None:
+            del fields[pos]
+            return
+        if not self._inInput(name):
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
-- 
2.43.0


From 0ab43ee80fb87edc37927f566d4f01214d95c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:29 +0000
Subject: [PATCH 033/299] fix: a new field set without input gives its fields,
 names and size

---
 hachoir/editor/fieldset.py | 46 +++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 9adb33d..0c248cf 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,5 +1,5 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
+from hachoir.field import MissingField, Float32, Float64, FakeArray, joinPath
 from hachoir.editor import createEditableField, EditorError
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
@@ -351,12 +351,48 @@ class NewFieldSet(EditableFieldSet):
         EditableFieldSet.__init__(self, parent, None)
         self._name = name
         self._endian = parent.endian
+        self._array_cache = {}
+
+    def __len__(self):
+        return sum(len(new) for new in self._inserted.values())
 
     def __iter__(self):
-        if None in self._inserted:
-            return iter(self._inserted[None])
-        else:
-            raise StopIteration()
+        for field in self._inserted.get(None, ()):
+            yield weakref.proxy(field)
+
+    def _inInput(self, name):
+        return False
+
+    def _setUniqueNames(self, new_fields):
+        for field in new_fields:
+            if not field._name.endswith("[]"):
+                continue
+            key = field._name[:-2]
+            while True:
+                index = self._array_cache.get(key, -1) + 1
+                self._array_cache[key] = index
+                field._name = "%s[%u]" % (key, index)
+                if field.name not in self:
+                    break
+
+    def reset(self):
+        pass
+
+    def _getSize(self):
+        return sum(field.size for field in self)
+    size = property(_getSize)
+
+    def _getDescription(self):
+        return ""
+    description = property(_getDescription)
+
+    def _getStream(self):
+        return self._parent.stream
+    stream = property(_getStream)
+
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
 
     def _getName(self):
         return self._name
-- 
2.43.0


From 8639446943975869534f5d7750ce93650eee69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 034/299] fix: resetting an editor with cached fields does not
 fail

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 0c248cf..43a552e 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
-- 
2.43.0


From b5f4238ccd60ac4607ac8d9d73d682ac54ffdd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 035/299] fix: an unedited field set is saved whatever its bit
 address

---
 hachoir/editor/field.py    | 5 +----
 hachoir/editor/fieldset.py | 8 ++------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..4353701 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -63,7 +63,4 @@ class FakeField(object):
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
         stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(stream, addr, size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 43a552e..8a969d2 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -291,12 +291,8 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
             realaddr = 0
-- 
2.43.0


From aa994f0a99321b59d1ff2ff8a9518fa36c6df655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 036/299] fix: an edited integer is checked against the range
 of its size, when created too

---
 hachoir/editor/typed_field.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..f3f82cc 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -212,16 +212,6 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
 
     def __init__(self, parent, name, *args):
         if args:
@@ -238,16 +228,16 @@ class EditableInteger(EditableFixedField):
         EditableFixedField.__init__(self, parent, name, value, size)
         if args:
             self._signed = args[0]
+            self._setValue(value)
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval, maxval = -(1 << (self._size - 1)), (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval, maxval = 0, (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
-- 
2.43.0


From e146403dae9083bed18f565326c2bb31b7d04ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 037/299] fix: an edited integer is written at any bit address

---
 hachoir/editor/typed_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index f3f82cc..2dd3980 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -244,8 +244,9 @@ class EditableInteger(EditableFixedField):
         self._value = value
 
     def _write(self, output):
-        output.writeInteger(
-            self.value, self._signed, self._size // 8, self._parent.endian)
+        # Two's complement for negative numbers
+        value = self._value & ((1 << self._size) - 1)
+        output.writeBits(self._size, value, self._parent.endian)
 
 
 class EditableTimestampMac32(EditableFixedField):
-- 
2.43.0


From bcc1cfeebbc87e535770d1397fe1e24150430f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 038/299] fix: new bytes can be saved

---
 hachoir/editor/typed_field.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 2dd3980..96eac34 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -112,6 +112,12 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, value=None):
+        EditableField.__init__(self, parent, name, value)
+        if value is not None:
+            self._setValue(value)
+            self._is_altered = True
+
     def _setValue(self, value):
         if not value:
             raise ValueError(
-- 
2.43.0


From 1717595bbaebb472be1ef7a332a49662690b4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 039/299] fix: an edited or new character can be saved

---
 hachoir/editor/typed_field.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 96eac34..1352550 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -195,26 +195,27 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
             value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 8)
         if args:
+            self._setValue(value)
             self._is_altered = True
 
     def _setValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if 0xff < ord(value):
+            raise ValueError("EditableCharacter needs a 8-bit character")
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(8, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-- 
2.43.0


From a8911fef473548c3fe851a389ec3dea1d92d4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 040/299] fix: a new Mac timestamp can be created and saved

---
 hachoir/editor/typed_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 1352550..c15ac4c 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -261,7 +261,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
@@ -270,6 +270,9 @@ class EditableTimestampMac32(EditableFixedField):
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 32)
+        if args:
+            self._setValue(value)
+            self._is_altered = True
 
     def _setValue(self, value):
         if not (self.minval <= value <= self.maxval):
-- 
2.43.0


From 629394c2125c107963e0a901ae1f4fde771aeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 041/299] fix: an edited or new string is saved with its prefix
 and its byte order mark

---
 hachoir/editor/typed_field.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index c15ac4c..ece8e51 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -156,39 +156,44 @@ class EditableString(EditableField):
                 self._prefix_size = GenericString.PASCAL_FORMATS[self._format]
             else:
                 self._prefix_size = 0
+            self._bom = b""
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._setValue(value)
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
             self._charset = orig.charset
             self._format = orig.format
-            self._prefix_size = orig.content_offset
+            self._prefix_size = GenericString.PASCAL_FORMATS.get(self._format, 0)
+            # The byte order mark (if any) is kept before the new text
+            bom_size = orig.content_offset - self._prefix_size
+            self._bom = b""
+            if bom_size:
+                address = orig.absolute_address + self._prefix_size * 8
+                self._bom = self._parent.input.stream.readBytes(address, bom_size)
             self._suffix_str = orig.suffix_str
 
     def _setValue(self, value):
-        size = len(value)
+        size = len(self._bom) + len(value)
         if self._format in self.MAX_SIZE and self.MAX_SIZE[self._format] < size:
             raise ValueError("String is too big")
         assert isinstance(value, bytes)
         self._value = value
 
     def _computeSize(self):
-        return (self._prefix_size + len(self._value) + len(self._suffix_str)) * 8
+        return (self._prefix_size + len(self._bom) + len(self._value)
+                + len(self._suffix_str)) * 8
 
     def _write(self, output):
-        if self._format in GenericString.SUFFIX_FORMAT:
-            output.writeBytes(self._value)
-            output.writeBytes(self._suffix_str)
-        elif self._format == "fixed":
-            output.writeBytes(self._value)
-        else:
-            assert self._format in GenericString.PASCAL_FORMATS
+        value = self._bom + self._value
+        if self._format in GenericString.PASCAL_FORMATS:
             size = GenericString.PASCAL_FORMATS[self._format]
-            output.writeInteger(len(self._value), False,
+            output.writeInteger(len(value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+        output.writeBytes(value)
+        if self._format in GenericString.SUFFIX_FORMAT:
+            output.writeBytes(self._suffix_str)
 
 
 class EditableCharacter(EditableFixedField):
-- 
2.43.0


From a481276c1f83c9db0fa4d55649672380404e88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 042/299] fix: the value of an edited float can be read, and is
 checked when it is set; edits of its parts are saved

---
 hachoir/editor/fieldset.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 8a969d2..e000f9e 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,6 +1,7 @@
 from hachoir.core.dict import UniqKeyError
 from hachoir.field import MissingField, Float32, Float64, FakeArray, joinPath
 from hachoir.editor import createEditableField, EditorError
+from hachoir.stream import StringOutputStream
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
 import struct
@@ -312,9 +313,19 @@ class EditableFloat(EditableFieldSet):
     _value = None
 
     def _isAltered(self):
-        return (self._value is not None)
+        return (self._value is not None) or EditableFieldSet._isAltered(self)
     is_altered = property(_isAltered)
 
+    def hasValue(self):
+        return True
+
+    def _getSize(self):
+        if self._value is not None:
+            return self.input.size
+        else:
+            return EditableFieldSet._getSize(self)
+    size = property(_getSize)
+
     def writeInto(self, output):
         if self._value is not None:
             self._write(output)
@@ -322,14 +333,25 @@ class EditableFloat(EditableFieldSet):
             EditableFieldSet.writeInto(self, output)
 
     def _write(self, output):
+        raw = struct.pack(">" + self.input.struct_format[1:], self._value)
+        output.writeBits(len(raw) * 8, int.from_bytes(raw, "big"), self.endian)
+
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        if not self.is_altered:
+            return self.input.value
+        # Some parts of the number are edited
+        output = StringOutputStream()
+        EditableFieldSet.writeInto(self, output)
         format = self.input.struct_format
-        raw = struct.pack(format, self._value)
-        output.writeBytes(raw)
+        return struct.unpack(format, output.readBytes(0, struct.calcsize(format)))[0]
 
     def _setValue(self, value):
-        self.parent._is_altered = True
-        self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+        # May raise an OverflowError
+        format = self.input.struct_format
+        self._value = struct.unpack(format, struct.pack(format, value))[0]
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From da18de6cc9b09cff2dbc291d3d7df1938894dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 043/299] fix: concatenating a regex does not change it

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..4ea43f5 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -650,8 +650,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From 9358283630d6bde5019dc30774f984eb46044ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 044/299] fix: a regex dot does not include the new line

---
 hachoir/regex/regex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 4ea43f5..efc576e 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -329,10 +329,13 @@ class RegexDot(Regex):
         return '.'
 
     def _match(self, other):
+        # The dot matches any character except the new line
         if other.__class__ == RegexRange:
-            return True
+            newline = any(item.cmin <= ord("\n") <= item.cmax
+                          for item in other.ranges)
+            return newline == other.exclude
         if other.__class__ == RegexString and len(other.text) == 1:
-            return True
+            return other.text != "\n"
         return False
 
     def _eq(self, other):
-- 
2.43.0


From fdc87de66e567912540173cf3a7ea803e9a73232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 045/299] fix: the repetition of a repetition or of an empty
 regex is written between parenthesis

---
 hachoir/regex/regex.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index efc576e..e15ade7 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -873,10 +873,13 @@ class RegexRepeat(Regex):
             return None
 
     def _str(self, **kw):
-        text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
-                or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
-            text = "(%s)" % text
+        text = self.regex.__str__(**kw)
+        if self.regex.__class__ not in (RegexDot, RegexRange, RegexOr) \
+                and not (self.regex.__class__ == RegexString and 1 == len(self.regex.text)):
+            if kw.get('python', False):
+                text = "(?:%s)" % text
+            else:
+                text = "(%s)" % text
         if self.min == 0 and self.max == 1:
             return "%s?" % text
         if self.min == self.max:
-- 
2.43.0


From 334dbd38e14a992e6240ec70117d90d1aefe427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 046/299] fix: nested repetitions are only merged when there is
 no gap between the numbers

---
 hachoir/regex/regex.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index e15ade7..515d938 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -826,7 +826,12 @@ class RegexRepeat(Regex):
             cls = regex.__class__
             if cls == RegexRepeat:
                 # (a{n,p}){x,y) => a{n*x,p*y}
-                if not (rmin == 0 and rmax == 1):
+                # only if there is no gap between the numbers of a:
+                # k*p and (k+1)*n for k in x..y-1
+                if rmin == rmax \
+                        or (regex.max is None and (rmin or regex.min <= 1)) \
+                        or (regex.max is not None
+                            and (rmin + 1) * regex.min <= rmin * regex.max + 1):
                     rmin *= regex.min
                     if regex.max and rmax:
                         rmax *= regex.max
-- 
2.43.0


From 06aec9dee1bc2b72025dd5bf291d15213c67324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 047/299] fix: an excluded range matches the ranges which
 exclude more

---
 hachoir/regex/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 515d938..08fc99a 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -528,8 +528,12 @@ class RegexRange(Regex):
             branges = other.ranges
         else:
             return None
+        aranges = self.ranges
+        if self.exclude:
+            # [^a] matchs [^ab], because [ab] matchs [a]
+            aranges, branges = branges, aranges
         for itemb in branges:
-            if not any(itemb in itema for itema in self.ranges):
+            if not any(itemb in itema for itema in aranges):
                 return False
         return True
 
-- 
2.43.0


From 3a15631b0d3bba43307876037322648a9808168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 048/299] fix: the maximum length of a limited repetition of an
 unlimited regex

---
 hachoir/regex/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 08fc99a..6bd06fb 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -876,8 +876,9 @@ class RegexRepeat(Regex):
             return None
 
     def maxLength(self):
-        if self.max is not None:
-            return self.regex.maxLength() * self.max
+        length = self.regex.maxLength()
+        if self.max is not None and length is not None:
+            return length * self.max
         else:
             return None
 
-- 
2.43.0


From 7aad30d2ca36903242235b15f61b1ac6d5768e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 049/299] fix: the special characters of a range are escaped
 and read back, also as its limits

---
 hachoir/regex/parser.py | 28 ++++++++++++++++------------
 hachoir/regex/regex.py  | 20 ++++++++++++++------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 234c935..4cb039a 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -15,6 +15,15 @@ import re
 REGEX_COMMAND_CHARACTERS = '.^$[](){}|+?*\\'
 
 
+def _parseRangeChar(text, index):
+    """
+    Character of a range, which may be escaped, and index after it.
+    """
+    if index + 1 < len(text) and text[index] == '\\':
+        index += 1
+    return text[index], index + 1
+
+
 def parseRange(text, start):
     r"""
     >>> parseRange('[a]b', 1)
@@ -41,21 +50,16 @@ def parseRange(text, start):
         index += 1
     while index < len(text) and text[index] != ']':
         if index + 1 < len(text) \
-                and text[index] == '\\':
-            char_range.append(RegexRangeCharacter(text[index + 1]))
-            index += 2
-        elif index + 1 < len(text) \
                 and text[index] == '-' and text[index + 1] == ']':
             break
-        elif index + 3 < len(text) \
-                and text[index + 1] == '-' \
-                and text[index + 2] != ']':
-            char_range.append(RegexRangeItem(
-                ord(text[index]), ord(text[index + 2])))
-            index += 3
+        cmin, index = _parseRangeChar(text, index)
+        if index + 2 < len(text) \
+                and text[index] == '-' \
+                and text[index + 1] != ']':
+            cmax, index = _parseRangeChar(text, index + 1)
+            char_range.append(RegexRangeItem(ord(cmin), ord(cmax)))
         else:
-            char_range.append(RegexRangeCharacter(text[index]))
-            index += 1
+            char_range.append(RegexRangeCharacter(cmin))
     if index < len(text) and text[index] == '-':
         char_range.append(RegexRangeCharacter('-'))
         index += 1
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 6bd06fb..9683b6d 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -71,6 +71,14 @@ def escapeRegex(text):
     return re.sub(r"([][^.+*?{}|()\\$])", r"\\\1", text)
 
 
+def escapeRange(char):
+    r"""
+    Escape a character to use it anywhere in a range of characters:
+    prefix special characters « ^-]\ » by an antislash.
+    """
+    return re.sub(r"([]^\\-])", r"\\\1", char)
+
+
 def _join(func, regex_list):
     if not isinstance(regex_list, (tuple, list)):
         regex_list = list(regex_list)
@@ -450,9 +458,9 @@ class RegexRangeItem:
         return (self.cmin <= value.cmin) and (value.cmax <= self.cmax)
 
     def __str__(self, **kw):
-        cmin = chr(self.cmin)
+        cmin = escapeRange(chr(self.cmin))
         if self.cmin != self.cmax:
-            cmax = chr(self.cmax)
+            cmax = escapeRange(chr(self.cmax))
             if (self.cmin + 1) == self.cmax:
                 return "%s%s" % (cmin, cmax)
             else:
@@ -557,13 +565,13 @@ class RegexRange(Regex):
 
     def _str(self, **kw):
         content = [str(item) for item in self.ranges]
-        if "-" in content:
-            content.remove("-")
+        if "\\-" in content:
+            content.remove("\\-")
             suffix = "-"
         else:
             suffix = ""
-        if "]" in content:
-            content.remove("]")
+        if "\\]" in content:
+            content.remove("\\]")
             prefix = "]"
         else:
             prefix = ""
-- 
2.43.0


From 8cfea8418823f6a9a41fb4e70bfbff8e265a008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 050/299] fix: an incomplete regex is a syntax error

---
 hachoir/regex/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 4cb039a..37a149b 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -42,10 +42,10 @@ def parseRange(text, start):
     index = start
     char_range = []
     exclude = False
-    if text[index] == '^':
+    if text[index:index + 1] == '^':
         exclude = True
         index += 1
-    if text[index] == ']':
+    if text[index:index + 1] == ']':
         char_range.append(RegexRangeCharacter(']'))
         index += 1
     while index < len(text) and text[index] != ']':
@@ -81,7 +81,7 @@ def parseOr(text, start):
     # (?:...): Skip Python prefix '?:'
     if text[index:index + 2] == '?:':
         index += 2
-    if text[index] == '?':
+    if text[index:index + 1] == '?':
         raise NotImplementedError("Doesn't support Python extension (?...)")
     regex = None
     while True:
@@ -133,7 +133,7 @@ CHAR_TO_REPEAT = {'*': (0, None), '?': (0, 1), '+': (1, None)}
 
 def _parse(text, start=0, until=None):
     if len(text) == start:
-        return RegexEmpty(), 0
+        return RegexEmpty(), start
     index = start
     regex = RegexEmpty()
     last = None
@@ -148,6 +148,9 @@ def _parse(text, start=0, until=None):
                 new_regex = CHAR_TO_CLASS[char]()
                 index += 1
             elif char == '{':
+                if last is None:
+                    raise SyntaxError(
+                        'Repetition without previous expression: %s' % text[index:])
                 rmin, rmax, index = parseRepeat(text, index + 1)
                 new_regex = RegexRepeat(last, rmin, rmax)
                 last = None
-- 
2.43.0


From 7732ceaf77c4faf4be0b5a2e80fd2db06d66b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:45 +0000
Subject: [PATCH 051/299] fix: lazy and possessive repetitions of a regex are
 not read as something else

---
 hachoir/regex/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 37a149b..5b21896 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -129,6 +129,7 @@ def parseRepeat(text, start):
 CHAR_TO_FUNC = {'[': parseRange, '(': parseOr}
 CHAR_TO_CLASS = {'.': RegexDot, '^': RegexStart, '$': RegexEnd}
 CHAR_TO_REPEAT = {'*': (0, None), '?': (0, 1), '+': (1, None)}
+REPEAT_CHARACTERS = '*?+{'
 
 
 def _parse(text, start=0, until=None):
@@ -137,10 +138,15 @@ def _parse(text, start=0, until=None):
     index = start
     regex = RegexEmpty()
     last = None
+    repeated = False
     while index < len(text):
         char = text[index]
         if until and char in until:
             break
+        if repeated and char in REPEAT_CHARACTERS:
+            raise NotImplementedError(
+                "Doesn't support repetition of repetition: %s" % text[index - 1:])
+        repeated = char in REPEAT_CHARACTERS
         if char in REGEX_COMMAND_CHARACTERS:
             if char in CHAR_TO_FUNC:
                 new_regex, index = CHAR_TO_FUNC[char](text, index + 1)
-- 
2.43.0


From 3cca8108e20f1ebc60c6dad27abdb4062686dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 052/299] fix: an escaped letter in a range is not read as the
 letter

---
 hachoir/regex/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 5b21896..4b49c96 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -21,6 +21,9 @@ def _parseRangeChar(text, index):
     """
     if index + 1 < len(text) and text[index] == '\\':
         index += 1
+        if text[index].isalnum():
+            raise SyntaxError(
+                "Operator '\\%s' is not supported" % text[index])
     return text[index], index + 1
 
 
-- 
2.43.0


From eed57a50b289d4dcc84c9324888686867528caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 053/299] fix: the pattern of a text found by a search matches
 the whole text

---
 hachoir/regex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..4fa1278 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -142,7 +142,7 @@ class PatternMatching:
 
         # Try in regex patterns
         for item in self.regex_patterns:
-            if item.match(data):
+            if item.compiled_regex.fullmatch(data):
                 return item
         raise KeyError("Unable to get pattern item")
 
-- 
2.43.0


From 1f0c347711483a0f48fd42683c33681894a1830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 054/299] fix: the repetition of an alternative with an
 optional part

---
 hachoir/regex/regex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 9683b6d..5675243 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -799,6 +799,9 @@ def optimizeRepeatOr(rmin, rmax, regex):
                     if rmax is item.max is None:
                         # (a*|b){x,} => (a|b){x,}
                         item = item.regex
+                    elif item.max == 1:
+                        # (a?|b){x,} => (a|b){x,}
+                        item = item.regex
                     else:
                         # (a{0,p}|b){x,} => (a{1,p}|b){x,}
                         item = RegexRepeat(
-- 
2.43.0


From 0f65b38095bcd03a1f1acdd504ef621b60531952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 055/299] fix: the last day of 2030 is a valid metadata date,
 whatever its time

---
 hachoir/metadata/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/filter.py b/hachoir/metadata/filter.py
index a507047..ae78c0c 100644
--- a/hachoir/metadata/filter.py
+++ b/hachoir/metadata/filter.py
@@ -34,11 +34,11 @@ class DatetimeFilter(Filter):
     def __init__(self, min=None, max=None):
         Filter.__init__(self, (date, datetime),
                         datetime(MIN_YEAR, 1, 1),
-                        datetime(MAX_YEAR, 12, 31))
+                        datetime(MAX_YEAR, 12, 31, 23, 59, 59, 999999))
         self.min_date = date(MIN_YEAR, 1, 1)
         self.max_date = date(MAX_YEAR, 12, 31)
         self.min_tz = datetime(MIN_YEAR, 1, 1, tzinfo=UTC)
-        self.max_tz = datetime(MAX_YEAR, 12, 31, tzinfo=UTC)
+        self.max_tz = self.max.replace(tzinfo=UTC)
 
     def __call__(self, value):
         """
-- 
2.43.0


From 6f1f80dbeb02732b3438344869d95a70b9f160b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 056/299] fix: reading a date leaves the locale as it was

---
 hachoir/metadata/setter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..f8d4404 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -94,7 +94,8 @@ def parseDatetime(value):
             return datetime(year, month, day, hour, min, sec)
         except ValueError:
             pass
-    current_locale = setlocale(LC_ALL, "C")
+    current_locale = setlocale(LC_ALL)
+    setlocale(LC_ALL, "C")
     try:
         match = TIMEZONE_REGEX.match(value)
         if match:
-- 
2.43.0


From 712d61f6b6a3f3fe27e1aa54d28892dfb1561196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 057/299] fix: a date in a time zone west of Greenwich is read

---
 hachoir/metadata/setter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index f8d4404..53ae960 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,7 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+TIMEZONE_REGEX = re.compile("^(.*) ([+-][0-9]{2})00$", re.DOTALL)
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -53,7 +53,8 @@ def parseDatetime(value):
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    raw_value = value.strip()
+    value = NORMALIZE_REGEX.sub("~", raw_value)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -97,9 +98,9 @@ def parseDatetime(value):
     current_locale = setlocale(LC_ALL)
     setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
+        match = TIMEZONE_REGEX.match(raw_value)
         if match:
-            without_timezone = match.group(1)
+            without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
             delta = int(match.group(2))
             delta = createTimezone(delta)
         else:
-- 
2.43.0


From 50f3e11ac114aec3a4dde4e7952b7e55566ecc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 058/299] fix: a date with an impossible time zone is no date

---
 hachoir/metadata/setter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 53ae960..0722550 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -102,6 +102,8 @@ def parseDatetime(value):
         if match:
             without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
             delta = int(match.group(2))
+            if not -24 < delta < 24:
+                return None
             delta = createTimezone(delta)
         else:
             without_timezone = value
-- 
2.43.0


From fa88bcbdbe419af914104d470bee4cf26dd33fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 059/299] fix: exporting groups with the same header to a
 dictionary keeps them all

---
 hachoir/metadata/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 67df716..38137ba 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -300,6 +300,9 @@ class MultipleMetadata(RootMetadata):
         for key, metadata in self.__groups.items():
             if not human:
                 title = key
+            elif metadata.header in text:
+                # Don't replace the previous group with the same header
+                title = "%s (%s)" % (metadata.header, key)
             else:
                 title = None
             value = metadata.exportDictionary(priority, human, title=title)
-- 
2.43.0


From 6fb159e673404d15417c694357003ba1c2679598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 060/299] fix: the parsers are tried in a stable order

---
 hachoir/parser/guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..ff87cb3 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -19,7 +19,7 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 31750b6a9af1d5e18e755a80d3114a1bce5ba51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 061/299] fix: an unknown parser identifier does not disable
 the validation of the others

---
 hachoir/parser/guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index ff87cb3..b9a048f 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -70,13 +70,13 @@ class QueryParser(object):
                     values = iter(byname.values())
                 else:
                     values = byname.get(tag[1], ()),
-                if key == "id" and values:
-                    self.validate = False
                 for value in values:
                     for parser in value:
                         if parser in self.parsers:
                             parsers.append(parser)
                             self.parsers.remove(parser)
+                if key == "id" and parsers:
+                    self.validate = False
         return parsers
 
     def parse(self, stream, fallback=True):
-- 
2.43.0


From f2f5cf6d0dbe01368dfe9e6f291f4cfec4f4c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 062/299] fix: opening a file does not change the tags of the
 caller

---
 hachoir/stream/input_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..759706d 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -34,7 +34,7 @@ def FileInputStream(filename, real_filename=None, **args):
         stream = InputIOStream(inputio, source=source, **args)
         return InputSubStream(stream, 8 * offset, size, **args)
     else:
-        args.setdefault("tags", []).append(("filename", filename))
+        args["tags"] = list(args.get("tags", ())) + [("filename", filename)]
         return InputIOStream(inputio, source=source, **args)
 
 
-- 
2.43.0


From 7667d6f558aea44e52d3b1f6e512347dcafd124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 063/299] fix: parsing a CHM file does not write on the
 standard output

---
 hachoir/parser/misc/chm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index 7e76965..dd969d8 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -145,7 +145,6 @@ class PMGL(FieldSet):
         num_quickref = (entry_count // quickref_frequency)
         if entry_count % quickref_frequency == 0:
             num_quickref -= 1
-        print(self.current_size // 8, quickref_frequency, num_quickref)
         padding = (self["free_space"].value - (num_quickref * 2 + 2))
         if padding:
             yield PaddingBytes(self, "padding", padding)
-- 
2.43.0


From 7869d76d9143840603443f61b8da9f8151c58b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 064/299] fix: parsing a truncated Git pack ends

---
 hachoir/parser/misc/git_pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..a76461e 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -200,6 +200,9 @@ class ObjectEntry(FieldSet):
         while not decompressor.eof:
             max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
             num_bytes_to_read = min(1000, max_remaining_bytes)
+            if num_bytes_to_read <= 0:
+                # Truncated data
+                break
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
             read_addr_in_bits += (len(bytes_read) * 8)
-- 
2.43.0


From 81fd1b4f1b852dd054e30f903234ed10b973f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 065/299] fix: the magic of Git pack files has an offset, so
 that files can be searched

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index a76461e..990a039 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -219,7 +219,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From b72e5db3f26f0a4c3a39203ed7220bb54f6769ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 066/299] fix: the extension of Git pack files has no dot

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 990a039..ed1d8fe 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -216,7 +216,7 @@ class GitPackFile(Parser):
     PARSER_TAGS = {
         "id": "git_pack",
         "category": "misc",
-        "file_ext": (".pack",),
+        "file_ext": ("pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
         "magic": ((b'PACK', 0),),
-- 
2.43.0


From aaeac6ac6b7ca961e8b3717e4253353f69d36ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 067/299] fix: a .DS_Store file is found by its extension

---
 hachoir/parser/misc/dsstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index f4a7bec..7e0aaa0 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -174,7 +174,7 @@ class DSStore(HachoirParser, RootSeekableFieldSet):
     PARSER_TAGS = {
         "id": "dsstore",
         "category": "misc",
-        "file_ext": ("DS_Store",),
+        "file_ext": ("DS_Store", "ds_store"),
         "magic": ((MAGIC, 0),),
         "min_size": 4 + 32,  # \0\0\0\1 + 32-byte header
         "description": "Mac OS X DS_Store",
-- 
2.43.0


From 7054b86ed2e209c76526130f922070b7587654ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 068/299] fix: the filename suffix of an OpenDocument or
 truncated ZIP file is found

---
 hachoir/parser/archive/zip.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..495fe75 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -466,10 +466,9 @@ class ZipFile(Parser):
             return "application/zip"
 
     def createFilenameSuffix(self):
-        if self["file[0]/filename"].value == "mimetype":
-            mime = self["file[0]/compressed_data"].value
-            if mime in self.MIME_TYPES:
-                return "." + self.MIME_TYPES[mime]
+        mime = self.mime_type
+        if mime in self.MIME_TYPES:
+            return "." + self.MIME_TYPES[mime]
         return ".zip"
 
     def createContentSize(self):
-- 
2.43.0


From 9307d3decaa77ca0605fb3397e3ff6d9a0eea24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 069/299] fix: deleting the last item of a Dict takes constant
 time

---
 hachoir/core/dict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index 97803be..5554f95 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -142,19 +142,13 @@ class Dict(object):
         if not (0 <= index < len(self._value_list)):
             raise IndexError("list assignment index out of range (%s/%s)"
                              % (index, len(self._value_list)))
+        del self._index[self._key_list[index]]
         del self._value_list[index]
         del self._key_list[index]
 
-        # First loop which may alter self._index
-        for key, item_index in self._index.items():
-            if item_index == index:
-                del self._index[key]
-                break
-
-        # Second loop update indexes
-        for key, item_index in self._index.items():
-            if index < item_index:
-                self._index[key] -= 1
+        # Update indexes of the next items
+        for key in self._key_list[index:]:
+            self._index[key] -= 1
 
     def insert(self, index, key, value):
         """
-- 
2.43.0


From dec25398e23d31b45a37a12905ffdd4be4224654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:34 +0000
Subject: [PATCH 070/299] fix: searching subfiles finds a magic whose wildcard
 bytes include a newline

---
 hachoir/regex/pattern.py   | 14 ++++++++++----
 hachoir/regex/regex.py     |  4 ++--
 hachoir/subfile/pattern.py |  3 +++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index 4fa1278..d1ca418 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -32,9 +32,10 @@ class RegexPattern(Pattern):
     Regular expression pattern
     """
 
-    def __init__(self, regex, user=None):
+    def __init__(self, regex, user=None, flags=0):
         Pattern.__init__(self, user)
         self.regex = parse(regex)
+        self.flags = flags
         self._compiled_regex = None
 
     def __str__(self):
@@ -48,7 +49,8 @@ class RegexPattern(Pattern):
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-            self._compiled_regex = self.regex.compile(python=True)
+            self._compiled_regex = self.regex.compile(
+                flags=self.flags, python=True)
         return self._compiled_regex
     compiled_regex = property(_getCompiledRegex)
 
@@ -74,6 +76,9 @@ class PatternMatching:
     (4, 6, <RegexPattern '[cd]e'>)
     """
 
+    # Flags used to compile regular expressions (eg. re.DOTALL)
+    regex_flags = 0
+
     def __init__(self):
         self.string_patterns = []
         self.string_dict = {}
@@ -109,7 +114,8 @@ class PatternMatching:
         if not regex:
             regex = RegexEmpty()
         self._regex = regex
-        self._compiled_regex = regex.compile(python=True)
+        self._compiled_regex = regex.compile(
+            flags=self.regex_flags, python=True)
         self._max_length = length
 
     def addString(self, magic, user=None):
@@ -122,7 +128,7 @@ class PatternMatching:
         self._need_commit = True
 
     def addRegex(self, regex, user=None):
-        item = RegexPattern(regex, user)
+        item = RegexPattern(regex, user, self.regex_flags)
         if item.regex.maxLength() is None:
             raise ValueError(
                 "Regular expression with no maximum size is forbidden")
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 5675243..b240795 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -264,8 +264,8 @@ class Regex:
         raise NotImplementedError(
             "Class %s has no method _eq()" % self.__class__.__name__)
 
-    def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+    def compile(self, flags=0, **kw):
+        return re.compile(self.__str__(**kw), flags)
 
     def findPrefix(self, regex):
         """
diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..375adf1 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -1,11 +1,14 @@
 from hachoir.parser import QueryParser
 from hachoir.regex import PatternMatching
+import re
 
 
 # XXX hachoir.regex uses str but the rest of hachoir uses bytes,
 # which means we have to convert bytes to str using latin1 encoding
 # (the closest "raw bytes" encoding) in order for matching to work.
 class HachoirPatternMatching(PatternMatching):
+    # Dot of magic_regex matches any byte, including newline
+    regex_flags = re.DOTALL
 
     def __init__(self, categories=None, parser_ids=None):
         PatternMatching.__init__(self)
-- 
2.43.0


From 966515b267ed3b8a8f8c3bc2ea14832d506407c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 071/299] fix: searching subfiles without choosing parsers uses
 all parsers

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From af27961e8402713d1ea7616c743ce8e5e9f344c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 072/299] fix: searching subfiles finds a magic across two
 slices

---
 hachoir/subfile/pattern.py | 8 +++++++-
 hachoir/subfile/search.py  | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index 375adf1..7baa6cf 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -34,6 +34,12 @@ class HachoirPatternMatching(PatternMatching):
                 self.addRegex(regex.decode('latin1'), (offset, parser))
         self.commit()
 
-    def search(self, data):
+    def search(self, data, size=None):
+        """
+        Search magics in data, only those which start in the first size bytes
+        if size is set.
+        """
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
+            if size is not None and size <= start:
+                break
             yield (item.user[1], start * 8 - item.user[0])
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..4f41f0b 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,10 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # Read also the end of a magic which starts in this slice
+        stop = min(end + self.patterns.max_length * 8, self.size)
+        data = self.stream.readBytes(start, (stop - start) // 8)
+        for parser_cls, offset in self.patterns.search(data, (end - start) // 8):
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From cc6f799bf189065c14aa4b97259ece9b910f301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 073/299] fix: the statistics of hachoir-subfile --debug are
 displayed

---
 hachoir/subfile/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..e07facd 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -41,7 +41,7 @@ def parseOptions():
 
 
 def displaySearchStat(subfile):
-    stats = [(parser.tags["id"], stats[0], stats[1])
+    stats = [(parser.getParserTags()["id"], stats[0], stats[1])
              for parser, stats in subfile.stats.items()]
     print()
     print("[ Match statistics ]")
-- 
2.43.0


From 0463960814c30eaddcddbcc54a1ff0c29b3da9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 074/299] fix: the memory limit of the process is restored as
 it was

---
 hachoir/core/memory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..f8b5fec 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,10 +53,8 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            # Limit is already in bytes
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
@@ -64,7 +62,8 @@ try:
         if max_mem is None:
             max_mem = -1
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            # Only change the soft limit
+            setrlimit(RLIMIT_AS, (max_mem, getrlimit(RLIMIT_AS)[1]))
             return True
         except ValueError:
             return False
-- 
2.43.0


From 9f822f921f280186b16be6bbbc37fb3dcf1a55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:58 +0000
Subject: [PATCH 075/299] fix: hachoir-strip removes all parts having the same
 name

---
 hachoir/strip.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..ba68842 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -28,6 +28,14 @@ STRIP_METADATA = 0x02   # Timestamp, author, producter, comment, etc.
 STRIP_INDEX = 0x04      # Index in video
 
 
+def baseName(field):
+    """
+    Name of a field without the index of a field which isn't unique:
+    "exif[1]" => "exif".
+    """
+    return field.name.split("[", 1)[0]
+
+
 class BasicStripper:
 
     def __init__(self, editor, level, verbose=False):
@@ -88,7 +96,7 @@ class PngStripper(CheckStripper):
             name = field.name
             if name.startswith("text["):
                 return True
-            if name == "time":
+            if baseName(field) == "time":
                 return True
         return False
 
@@ -99,7 +107,7 @@ class JpegStripper(CheckStripper):
         if self.level & STRIP_METADATA:
             if field.name.startswith("comment"):
                 return True
-            return field.name in ("photoshop", "exif", "adobe")
+            return baseName(field) in ("photoshop", "exif", "adobe")
         return False
 
 
@@ -128,7 +136,7 @@ class RiffStripper(BasicStripper):
         remove = []
         total = 0
         for field in editor:
-            if field.name in names:
+            if baseName(field) in names:
                 remove.append(field)
                 continue
             try:
@@ -138,7 +146,7 @@ class RiffStripper(BasicStripper):
             if self.level & STRIP_USELESS and tag in "JUNK":
                 remove.append(field)
                 continue
-            if tag == "LIST" and field.name != "movie":
+            if tag == "LIST" and baseName(field) != "movie":
                 # Strip a chunk list
                 size = self.stripSub(field, names)
                 if size:
-- 
2.43.0


From 27593a5a638582fc3faf1766808b3c0cb8cc10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:10 +0000
Subject: [PATCH 076/299] fix: hachoir-strip removes the metadata of a TAR
 archive

---
 hachoir/strip.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index ba68842..075b749 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -180,23 +180,26 @@ def usage():
 class TarStripper(BasicStripper):
 
     def strip(self):
-        for file in self.editor.array("file"):
-            self.stripFile(file)
+        if self.level & STRIP_METADATA:
+            for file in self.editor.array("file"):
+                self.stripFile(file)
+        # The size of the archive doesn't change
+        return 0
 
     def fixChecksum(self, file):
-        file["check_sum"].value = " " * 8
+        file["check_sum"].value = b" " * 8
         stream = StringOutputStream()
         file.writeInto(stream)
         data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
-        file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
+        checksum = b"0%o\0" % sum(data)
+        file["check_sum"].value = checksum.ljust(8, b" ")
 
     def stripFile(self, file):
-        empty32 = "\0" * 32
-        uid = "0000000\0"
+        empty32 = b"\0" * 32
+        uid = b"0000000\0"
         file["uid"].value = uid
         file["gid"].value = uid
-        file["mtime"].value = "00000000000\0"
+        file["mtime"].value = b"00000000000\0"
         file["uname"].value = empty32
         file["gname"].value = empty32
         self.fixChecksum(file)
-- 
2.43.0


From 2ebee2b747f1478497920f22d750a11819e856d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 077/299] fix: hachoir-grep skips a text which cannot be read

---
 hachoir/grep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..277c19a 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -84,7 +84,8 @@ class Grep:
 
     def match(self, field):
         value = field.value
-        if len(value) == 0:
+        if not value:
+            # Empty string, or the value cannot be read
             return False
         if not self.pattern:
             return True
-- 
2.43.0


From 9897375a3cb6a514fedb79dbc31444ef8f74dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 078/299] fix: hachoir-grep handles an error of its output

---
 hachoir/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index 277c19a..7f7b484 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -160,7 +160,7 @@ class ConsoleGrep(Grep):
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
                     return
                 else:
-- 
2.43.0


From 8a89d6884997d49735ef1f7cbad5492164a5fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:30 +0000
Subject: [PATCH 079/299] fix: the handler of SIGALRM is restored if the alarm
 comes at the end

---
 hachoir/core/timeout.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/timeout.py b/hachoir/core/timeout.py
index 9bc4d3e..202bdc6 100644
--- a/hachoir/core/timeout.py
+++ b/hachoir/core/timeout.py
@@ -47,10 +47,13 @@ if not IMPLEMENTATION:
             second = fixTimeout(second)
             old_alarm = signal(SIGALRM, signalHandler)
             try:
-                alarm(second)
-                return func(*args, **kw)
+                try:
+                    alarm(second)
+                    return func(*args, **kw)
+                finally:
+                    # The alarm may raise Timeout until it is cancelled
+                    alarm(0)
             finally:
-                alarm(0)
                 signal(SIGALRM, old_alarm)
 
         IMPLEMENTATION = "signal.alarm()"
-- 
2.43.0


From a14fc595f1436ce6409ecf8530be72ec2a26c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:35 +0000
Subject: [PATCH 080/299] fix: stored blocks are part of inflated data

---
 hachoir/parser/archive/zlib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 302efbd..d947899 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -156,7 +156,9 @@ class DeflateBlock(FieldSet):
                     "len must be equal to the one's complement of nlen!")
             # null stored blocks produced by some encoders (e.g. PIL)
             if self["len"].value:
-                yield RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                data = RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                yield data
+                self.uncomp_data += data.value
             return
         elif self["compression_type"].value == 1:  # Fixed Huffman
             length_tree = {}  # (size, huffman code): value
-- 
2.43.0


From 55f633e15fcde6cad37f8f2ee346ecbd11b8a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 081/299] fix: the content of a bzip2 archive is readable

---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..b52b174 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From 6516bd0410b816ce933c2fba877d27c72195c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 082/299] fix: the code lengths of a deflate block are a single
 sequence

---
 hachoir/parser/archive/zlib.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index d947899..a216f65 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -184,18 +184,19 @@ class DeflateBlock(FieldSet):
                 yield field
                 code_length_code_lengths[i] = field.value
             code_length_tree = build_tree(code_length_code_lengths)
-            length_code_lengths = []
-            distance_code_lengths = []
-            for numcodes, name, lengths in (
-                (self["huff_num_length_codes"].value +
-                 257, "length", length_code_lengths),
-                    (self["huff_num_distance_codes"].value + 1, "distance", distance_code_lengths)):
+            # The lengths of both codes are a single sequence: a repeat code
+            # may cross from the literal/length codes to the distance codes
+            lengths = []
+            num_length_codes = self["huff_num_length_codes"].value + 257
+            num_distance_codes = self["huff_num_distance_codes"].value + 1
+            for numcodes, name in (
+                    (num_length_codes, "length"),
+                    (num_length_codes + num_distance_codes, "distance")):
                 while len(lengths) < numcodes:
                     field = HuffmanCode(self, "huff_%s_code[]" %
                                         name, code_length_tree)
                     value = field.realvalue
                     if value < 16:
-                        prev_value = value
                         field._description = "Literal Code Length %i (Huffman Code %i)" % (
                             value, field.value)
                         yield field
@@ -205,7 +206,9 @@ class DeflateBlock(FieldSet):
                                 17: (3, 10, 3),
                                 18: (11, 138, 7)}[value]
                         if value == 16:
-                            repvalue = prev_value
+                            if not lengths:
+                                raise ParserError("No code length to repeat!")
+                            repvalue = lengths[-1]
                         else:
                             repvalue = 0
                         field._description = "Repeat Code %i, Repeating value (%i) %i to %i times (Huffman Code %i)" % (
@@ -218,6 +221,8 @@ class DeflateBlock(FieldSet):
                             extrafield.value, num_repeats)
                         yield extrafield
                         lengths += [repvalue] * num_repeats
+            length_code_lengths = lengths[:num_length_codes]
+            distance_code_lengths = lengths[num_length_codes:numcodes]
             length_tree = build_tree(length_code_lengths)
             distance_tree = build_tree(distance_code_lengths)
         else:
-- 
2.43.0


From 51e9fb2833408504709cbf1b4d52919d91821fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 083/299] fix: the files of a ZIP archive written to a pipe are
 delimited

---
 hachoir/parser/archive/zip.py | 45 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 495fe75..bfce91d 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -274,24 +274,25 @@ class FileEntry(FieldSet):
         else:
             return compressed
 
-    def resync(self):
-        # Non-seekable output, search the next data descriptor
-        size = self.stream.searchBytesLength(ZipDataDescriptor.HEADER_STRING, False,
-                                             self.absolute_address + self.current_size)
-        if size <= 0:
-            raise ParserError("Couldn't resync to %s" %
-                              ZipDataDescriptor.HEADER_STRING)
-        yield self.data(size)
+    def findDescriptor(self):
+        # Non-seekable output, search the data descriptor of this file
+        start = self.absolute_address + self.current_size
+        address = self.stream.searchBytes(ZipDataDescriptor.HEADER_STRING, start)
+        while address is not None:
+            size = (address - start) // 8
+            try:
+                if self.stream.readBits(address + 64, 32, self.endian) == size:
+                    return size
+            except ReadStreamError:
+                break
+            address = self.stream.searchBytes(ZipDataDescriptor.HEADER_STRING, address + 8)
+        return None
+
+    def resync(self, size):
+        if size:
+            yield self.data(size)
         yield textHandler(UInt32(self, "header[]", "Header"), hexadecimal)
-        data_desc = ZipDataDescriptor(self, "data_desc", "Data descriptor")
-        # self.info("Resynced!")
-        yield data_desc
-        # The above could be checked anytime, but we prefer trying parsing
-        # than aborting
-        if self["crc32"].value == 0 and \
-                data_desc["file_compressed_size"].value != size:
-            raise ParserError("Bad resync: position=>%i but data_desc=>%i" %
-                              (size, data_desc["file_compressed_size"].value))
+        yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
 
     def createFields(self):
         yield from ZipStartCommonFields(self)
@@ -308,8 +309,14 @@ class FileEntry(FieldSet):
         size = self["compressed_size"].value
         if size > 0:
             yield self.data(size)
-        elif self["flags/incomplete"].value:
-            yield from self.resync()
+        elif self["flags/has_descriptor"].value or self["flags/incomplete"].value:
+            size = self.findDescriptor()
+            if size is not None:
+                yield from self.resync(size)
+                return
+            if self["flags/incomplete"].value:
+                raise ParserError("Couldn't resync to %s" %
+                                  ZipDataDescriptor.HEADER_STRING)
         if self["flags/has_descriptor"].value and self['crc32'].value == 0:
             yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
 
-- 
2.43.0


From 20615d400fd6bb3d1fb20c59af1dfa5201322c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 084/299] fix: the size of a ZIP archive includes its comment
 and stored archives

---
 hachoir/parser/archive/zip.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index bfce91d..2360117 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -479,9 +479,21 @@ class ZipFile(Parser):
         return ".zip"
 
     def createContentSize(self):
-        start = 0
-        end = MAX_FILESIZE * 8
-        end = self.stream.searchBytes(b"PK\5\6", start, end)
-        if end is not None:
-            return end + 22 * 8
-        return None
+        first = None
+        end = self.stream.searchBytes(b"PK\5\6", 0, MAX_FILESIZE * 8)
+        while end is not None:
+            try:
+                # The central directory is just before its end: otherwise, it
+                # is the end of an archive stored in this archive
+                dir_size = self.stream.readBits(end + 12 * 8, 32, self.endian)
+                dir_offset = self.stream.readBits(end + 16 * 8, 32, self.endian)
+                comment = self.stream.readBits(end + 20 * 8, 16, self.endian)
+            except ReadStreamError:
+                break
+            size = end + (22 + comment) * 8
+            if (dir_offset + dir_size) * 8 == end:
+                return size
+            if first is None:
+                first = size
+            end = self.stream.searchBytes(b"PK\5\6", end + 8, MAX_FILESIZE * 8)
+        return first
-- 
2.43.0


From c17a80ee80c2239cc72680ea4cf6b1da912d85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:45 +0000
Subject: [PATCH 085/299] fix: the colors of BMP, ICO and TGA pictures are
 blue, green, red

---
 hachoir/parser/image/bmp.py    |  6 +++---
 hachoir/parser/image/common.py | 25 +++++++++++++++++++++++++
 hachoir/parser/image/ico.py    |  4 ++--
 hachoir/parser/image/tga.py    |  4 ++--
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..145bfad 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -13,7 +13,7 @@ from hachoir.field import (FieldSet,
                            PaddingBytes, NullBytes, createPaddingField)
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
-from hachoir.parser.image.common import RGB, PaletteRGBA
+from hachoir.parser.image.common import BGR, PaletteBGRA
 from hachoir.core.tools import alignValue
 
 
@@ -122,7 +122,7 @@ def parseImageData(parent, name, size, header):
         if bpp == 32:
             cls = UInt32
         elif bpp == 24:
-            cls = RGB
+            cls = BGR
         elif bpp == 8:
             cls = UInt8
         elif bpp == 4:
@@ -188,7 +188,7 @@ class BmpFile(Parser):
 
         # Color palette (if any)
         if nb_color:
-            yield PaletteRGBA(self, "palette", nb_color)
+            yield PaletteBGRA(self, "palette", nb_color)
 
         # Seek to data start
         field = self.seekByte(self["data_start"].value)
diff --git a/hachoir/parser/image/common.py b/hachoir/parser/image/common.py
index a4ee5fd..0c1e0fc 100644
--- a/hachoir/parser/image/common.py
+++ b/hachoir/parser/image/common.py
@@ -39,6 +39,23 @@ class RGBA(RGB):
         return "%s (opacity: %s%%)" % (description, opacity)
 
 
+class BGR(RGB):
+    """Color of Windows and Targa pictures: the blue comes first"""
+
+    def createFields(self):
+        yield UInt8(self, "blue", "Blue")
+        yield UInt8(self, "green", "Green")
+        yield UInt8(self, "red", "Red")
+
+
+class BGRA(RGBA):
+    def createFields(self):
+        yield UInt8(self, "blue", "Blue")
+        yield UInt8(self, "green", "Green")
+        yield UInt8(self, "red", "Red")
+        yield UInt8(self, "alpha", "Alpha")
+
+
 class PaletteRGB(UserVector):
     item_class = RGB
     item_name = "color"
@@ -52,3 +69,11 @@ class PaletteRGBA(PaletteRGB):
 
     def createDescription(self):
         return "Palette of %u RGBA colors" % len(self)
+
+
+class PaletteBGR(PaletteRGB):
+    item_class = BGR
+
+
+class PaletteBGRA(PaletteRGBA):
+    item_class = BGRA
diff --git a/hachoir/parser/image/ico.py b/hachoir/parser/image/ico.py
index 63556e0..3ac450d 100644
--- a/hachoir/parser/image/ico.py
+++ b/hachoir/parser/image/ico.py
@@ -7,7 +7,7 @@ Author: Victor Stinner
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet, ParserError,
                            UInt8, UInt16, UInt32, Enum, RawBytes)
-from hachoir.parser.image.common import PaletteRGBA
+from hachoir.parser.image.common import PaletteBGRA
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.parser.common.win32 import BitmapInfoHeader
 
@@ -58,7 +58,7 @@ class IconData(FieldSet):
         if self.header["bpp"].value == 8:
             nb_color = 256
         if nb_color != 0:
-            yield PaletteRGBA(self, "palette", nb_color)
+            yield PaletteBGRA(self, "palette", nb_color)
 
         # Read pixels
         size = self.header["size"].value - self.current_size // 8
diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index fc9570f..9501db3 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -8,7 +8,7 @@ Creation: 18 december 2006
 from hachoir.parser import Parser
 from hachoir.field import FieldSet, UInt8, UInt16, Enum, RawBytes, Bit, Bits, RawBits
 from hachoir.core.endian import LITTLE_ENDIAN
-from hachoir.parser.image.common import PaletteRGB
+from hachoir.parser.image.common import PaletteBGR
 from hachoir.core.text_handler import textHandler, hexadecimal
 
 
@@ -96,7 +96,7 @@ class TargaFile(Parser):
             yield RawBytes(self, "image_id", self["id_length"].value)
 
         if self["palette_type"].value == 1:
-            yield PaletteRGB(self, "palette", 1 << self["bpp"].value)
+            yield PaletteBGR(self, "palette", 1 << self["bpp"].value)
 
         if self["codec"] in (1, 2, 3):
             yield Pixels(self, "pixels")
-- 
2.43.0


From be8a1980acb91fe9650071005ddd83f090036bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 086/299] fix: BMP pictures with a header of 12 bytes, 4 bits
 per pixel or the top line first

---
 hachoir/metadata/image.py   | 17 ++++++++++++-----
 hachoir/parser/image/bmp.py | 29 ++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..d875ad5 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -27,6 +27,10 @@ def computeComprRate(meta, compr_size):
     meta.compr_rate = float(orig_size) / compr_size
 
 
+def dotsPerInch(dots_per_meter):
+    return round(dots_per_meter * 0.0254)
+
+
 class BmpMetadata(RootMetadata):
 
     def extract(self, image):
@@ -34,18 +38,21 @@ class BmpMetadata(RootMetadata):
             return
         hdr = image["header"]
         self.width = hdr["width"].value
-        self.height = hdr["height"].value
+        self.height = abs(hdr["height"].value)
         bpp = hdr["bpp"].value
         if bpp:
-            if bpp <= 8 and "used_colors" in hdr:
+            if bpp <= 8 and "used_colors" in hdr \
+                    and hdr["used_colors"].value:
                 self.nb_colors = hdr["used_colors"].value
             self.bits_per_pixel = bpp
-        self.compression = hdr["compression"].display
+        if "compression" in hdr:
+            self.compression = hdr["compression"].display
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        self.width_dpi = hdr["horizontal_dpi"].value
-        self.height_dpi = hdr["vertical_dpi"].value
+        if "horizontal_dpi" in hdr:
+            self.width_dpi = dotsPerInch(hdr["horizontal_dpi"].value)
+            self.height_dpi = dotsPerInch(hdr["vertical_dpi"].value)
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 145bfad..3577a77 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -8,12 +8,12 @@ Creation: 16 december 2005
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
-                           UInt8, UInt16, UInt32, Bits,
+                           UInt8, UInt16, UInt32, Int32, Bits,
                            String, RawBytes, Enum,
                            PaddingBytes, NullBytes, createPaddingField)
-from hachoir.core.endian import LITTLE_ENDIAN
+from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
-from hachoir.parser.image.common import BGR, PaletteBGRA
+from hachoir.parser.image.common import BGR, PaletteBGR, PaletteBGRA
 from hachoir.core.tools import alignValue
 
 
@@ -29,6 +29,9 @@ class ImageLine(FieldSet):
     def __init__(self, parent, name, width, pixel_class):
         FieldSet.__init__(self, parent, name)
         self._pixel = pixel_class
+        if pixel_class is Pixel4bit:
+            # The first pixel is in the high bits of the byte
+            self.endian = BIG_ENDIAN
         self._width = width
         self._size = alignValue(self._width * self._pixel.static_size, 32)
 
@@ -49,7 +52,12 @@ class ImagePixels(FieldSet):
         self._pixel = pixel_class
 
     def createFields(self):
-        for y in range(self._height - 1, -1, -1):
+        if self._height < 0:
+            # A negative height: the picture starts with its top line
+            lines = range(-self._height)
+        else:
+            lines = range(self._height - 1, -1, -1)
+        for y in lines:
             yield ImageLine(self, "line[%u]" % y, self._width, self._pixel)
         size = (self.size - self.current_size) // 8
         if size:
@@ -82,8 +90,12 @@ class BmpHeader(FieldSet):
     def createFields(self):
         # Version 2 (12 bytes)
         yield UInt32(self, "header_size", "Header size")
-        yield UInt32(self, "width", "Width (pixels)")
-        yield UInt32(self, "height", "Height (pixels)")
+        if self["header_size"].value < 40:
+            yield UInt16(self, "width", "Width (pixels)")
+            yield UInt16(self, "height", "Height (pixels)")
+        else:
+            yield UInt32(self, "width", "Width (pixels)")
+            yield Int32(self, "height", "Height (pixels), negative if the first line is the top one")
         yield UInt16(self, "nb_plan", "Number of plan (=1)")
         # may be zero for PNG/JPEG picture
         yield UInt16(self, "bpp", "Bits per pixel")
@@ -188,7 +200,10 @@ class BmpFile(Parser):
 
         # Color palette (if any)
         if nb_color:
-            yield PaletteBGRA(self, "palette", nb_color)
+            if header["header_size"].value < 40:
+                yield PaletteBGR(self, "palette", nb_color)
+            else:
+                yield PaletteBGRA(self, "palette", nb_color)
 
         # Seek to data start
         field = self.seekByte(self["data_start"].value)
-- 
2.43.0


From cd4f4a184f069a27bcd5c9cbc207d0238df6f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 087/299] fix: the resolution of a PNG picture is in dots per
 meter

---
 hachoir/metadata/image.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index d875ad5..f89f2ac 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -225,8 +225,11 @@ class PngMetadata(RootMetadata):
 
     @fault_tolerant
     def usePhysical(self, field):
-        self.width_dpi = field["pixel_per_unit_x"].value
-        self.height_dpi = field["pixel_per_unit_y"].value
+        if field["unit"].value != 1:
+            # Only the aspect ratio is known
+            return
+        self.width_dpi = dotsPerInch(field["pixel_per_unit_x"].value)
+        self.height_dpi = dotsPerInch(field["pixel_per_unit_y"].value)
 
     @fault_tolerant
     def useHeader(self, header):
-- 
2.43.0


From 2e2dddc19f2effcc171d7997848466b7940fc3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 088/299] fix: background color of PNG pictures with a palette
 or gray levels

---
 hachoir/parser/image/png.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 19a99be..2eeef0b 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -139,12 +139,22 @@ def physicalDescription(parent):
 
 
 def parseBackgroundColor(parent):
-    yield UInt16(parent, "red")
-    yield UInt16(parent, "green")
-    yield UInt16(parent, "blue")
+    size = parent["size"].value
+    if size == 1:
+        yield UInt8(parent, "index", "Index in the palette")
+    elif size == 2:
+        yield UInt16(parent, "gray")
+    else:
+        yield UInt16(parent, "red")
+        yield UInt16(parent, "green")
+        yield UInt16(parent, "blue")
 
 
 def backgroundColorDesc(parent):
+    if "index" in parent:
+        return "Background color: color #%u" % parent["index"].value
+    if "gray" in parent:
+        return "Background color: gray %u" % parent["gray"].value
     rgb = parent["red"].value, parent["green"].value, parent["blue"].value
     name = RGB.color_name.get(rgb)
     if not name:
-- 
2.43.0


From fc86aa554d7f4119cb97c23a8f5d585154d6fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 089/299] fix: PNG pictures with empty data chunks

---
 hachoir/parser/image/png.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/hachoir/parser/image/png.py b/hachoir/parser/image/png.py
index 2eeef0b..aa9792a 100644
--- a/hachoir/parser/image/png.py
+++ b/hachoir/parser/image/png.py
@@ -167,21 +167,26 @@ class ImageData(Fragment):
     def __init__(self, parent, name="compressed_data"):
         Fragment.__init__(self, parent, name, None, 8 * parent["size"].value)
         data = parent.name.split('[')
-        data, next = "../%s[%%u]" % data[0], int(data[1][:-1]) + 1
-        first = parent.getField(data % 0)
-        if first is parent:
-            first = None
-            if has_deflate:
-                CompressedField(self, Gunzip)
-        else:
-            first = first[name]
+        data, index = "../%s[%%u]" % data[0], int(data[1][:-1])
+        # Chunks without any data are skipped
+        first = None
+        for i in range(index):
+            chunk = parent[data % i]
+            if chunk["size"].value:
+                first = chunk[name]
+                break
+        if first is None and has_deflate:
+            CompressedField(self, Gunzip)
+        next = None
         try:
-            _next = parent[data % next]
-
-            def next():
-                return _next[name]
+            while next is None:
+                index += 1
+                _next = parent[data % index]
+                if _next["size"].value:
+                    def next():
+                        return _next[name]
         except MissingField:
-            next = None
+            pass
         self.setLinks(first, next)
 
 
-- 
2.43.0


From ad2d4993313ebebb1e14befe8864ced408aec34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 090/299] fix: GIF codes have at most 12 bits

---
 hachoir/parser/image/gif.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index a33b128..604d1af 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -26,6 +26,10 @@ MAX_WIDTH = 6000
 MAX_HEIGHT = MAX_WIDTH
 MAX_FILE_SIZE = 100 * 1024 * 1024
 
+# Maximum size of an LZW code (in bits): when the dictionary is full, it stays
+# as it is until the next reset code
+MAX_CODE_SIZE = 12
+
 
 def rle_repr(chain):
     """Run-length encode a list into an "eval"-able form
@@ -77,16 +81,10 @@ class GifImageBlock(Parser):
         obuf = []
         output = []
         while True:
-            if compress_code >= 2**self.nbits:
+            if compress_code >= 2**self.nbits and self.nbits < MAX_CODE_SIZE:
                 self.nbits += 1
             code = Bits(self, "code[]", self.nbits)
             if code.value == CLEAR_CODE:
-                if compress_code == 2**(self.nbits - 1):
-                    # this fixes a bizarre edge case where the reset code could
-                    # appear just after the bits incremented. Apparently, the
-                    # correct behaviour is to express the reset code with the
-                    # old number of bits, not the new...
-                    code = Bits(self, "code[]", self.nbits - 1)
                 self.nbits = self.startbits + 1
                 dictionary = {}
                 compress_code = CLEAR_CODE + 2
@@ -99,7 +97,7 @@ class GifImageBlock(Parser):
                 yield code
                 break
             if code.value < CLEAR_CODE:  # literal
-                if obuf:
+                if obuf and compress_code < 2**MAX_CODE_SIZE:
                     chain = obuf + [code.value]
                     dictionary[compress_code] = chain
                     compress_code += 1
@@ -115,8 +113,9 @@ class GifImageBlock(Parser):
                     chain = obuf + [obuf[0]]
                     code._description = "Compression Code %i (not found in dictionary; guessed to be %s)" % (
                         code.value, rle_repr(chain))
-                dictionary[compress_code] = obuf + [chain[0]]
-                compress_code += 1
+                if compress_code < 2**MAX_CODE_SIZE:
+                    dictionary[compress_code] = obuf + [chain[0]]
+                    compress_code += 1
                 obuf = chain
                 output += chain
             code._description += "; Current Decoded Length %i" % len(output)
-- 
2.43.0


From 752f87a7cdbe9d89f006bcfb3a01abba4b426b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 091/299] fix: the size of a GIF picture ends at its terminator

---
 hachoir/parser/image/gif.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index 604d1af..b21c3be 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -352,10 +352,9 @@ class GifFile(Parser):
                     "Wrong GIF image separator: 0x%02X" % ord(code))
 
     def createContentSize(self):
-        field = self["image[0]"]
-        start = field.absolute_address + field.size
-        end = start + MAX_FILE_SIZE * 8
-        pos = self.stream.searchBytes(b"\0;", start, end)
-        if pos:
-            return pos + 16
+        for field in self.array("separator"):
+            if MAX_FILE_SIZE * 8 < field.address:
+                break
+            if field.value == ";":
+                return field.address + field.size
         return None
-- 
2.43.0


From e6ce76b477a32e3efc5a494fecff2e681ac49828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 092/299] fix: delay, transparency and unknown extensions of
 GIF pictures

---
 hachoir/metadata/image.py   | 4 ++--
 hachoir/parser/image/gif.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index f89f2ac..79b40c1 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -271,8 +271,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index b21c3be..3b5a5f1 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -204,7 +204,8 @@ def parseGraphicControl(parent):
 
     if parent["size"].value != 4:
         raise ParserError("Invalid graphic control size")
-    yield displayHandler(UInt16(parent, "delay", "Delay time in millisecond"), humanDuration)
+    yield displayHandler(UInt16(parent, "delay", "Delay time in hundredths of a second"),
+                         lambda delay: humanDuration(delay * 10))
     yield UInt8(parent, "transp", "Transparent color index")
     yield NullBytes(parent, "terminator", 1, "Terminator (0)")
 
@@ -265,7 +266,7 @@ class Extension(FieldSet):
         yield from self.parser(self)
 
     def createDescription(self):
-        return "Extension: function %s" % self["func"].display
+        return "Extension: function %s" % self["code"].display
 
 
 class ScreenDescriptor(FieldSet):
-- 
2.43.0


From 08ab4506b3ce5d7c8fc479e28e4bd4dd1a5dc2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 093/299] fix: palette and pixels of uncompressed TGA pictures

---
 hachoir/parser/image/tga.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index 9501db3..cc04c4a 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -96,11 +96,18 @@ class TargaFile(Parser):
             yield RawBytes(self, "image_id", self["id_length"].value)
 
         if self["palette_type"].value == 1:
-            yield PaletteBGR(self, "palette", 1 << self["bpp"].value)
-
-        if self["codec"] in (1, 2, 3):
+            size = self["nb_color"].value * self["color_map_size"].value // 8
+            if self["color_map_size"].value == 24:
+                yield PaletteBGR(self, "palette", self["nb_color"].value)
+            elif size:
+                yield RawBytes(self, "raw_palette", size)
+
+        size = self["width"].value * self["height"].value * self.getBpp() // 8
+        left = (self.size - self.current_size) // 8
+        if self["codec"].value in (1, 2, 3) and 0 < size <= left:
             yield Pixels(self, "pixels")
-        else:
-            size = (self.size - self.current_size) // 8
-            if size:
-                yield RawBytes(self, "raw_pixels", size)
+            left -= size
+            if left:
+                yield RawBytes(self, "footer", left)
+        elif left:
+            yield RawBytes(self, "raw_pixels", left)
-- 
2.43.0


From 5a66fee97af89dbe7231eb22864a7dd35c19aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 094/299] fix: PCX pictures with several plans or a position

---
 hachoir/metadata/image.py   | 11 ++++++-----
 hachoir/parser/image/pcx.py |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 79b40c1..fe59acf 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -144,13 +144,14 @@ class PcxMetadata(RootMetadata):
 
     @fault_tolerant
     def extract(self, pcx):
-        self.width = 1 + pcx["xmax"].value
-        self.height = 1 + pcx["ymax"].value
+        self.width = 1 + pcx["xmax"].value - pcx["xmin"].value
+        self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
-        self.bits_per_pixel = pcx["bpp"].value
-        if 1 <= pcx["bpp"].value <= 8:
-            self.nb_colors = 2 ** pcx["bpp"].value
+        bpp = pcx["bpp"].value * pcx["nb_color_plan"].value
+        self.bits_per_pixel = bpp
+        if 1 <= bpp <= 8:
+            self.nb_colors = 2 ** bpp
         self.compression = "Run-length encoding (RLE)"
         self.format_version = "PCX: %s" % pcx["version"].display
         if "image_data" in pcx:
diff --git a/hachoir/parser/image/pcx.py b/hachoir/parser/image/pcx.py
index a204b1c..d6e162e 100644
--- a/hachoir/parser/image/pcx.py
+++ b/hachoir/parser/image/pcx.py
@@ -64,7 +64,8 @@ class PcxFile(Parser):
 
         nb_colors = 256
         size = (self._size - self.current_size) // 8
-        has_palette = self["bpp"].value == 8
+        has_palette = (self["bpp"].value == 8
+                       and self["nb_color_plan"].value == 1)
         if has_palette:
             size -= nb_colors * 3
         yield RawBytes(self, "image_data", size, "Image data")
-- 
2.43.0


From c809f2167af228b79d17c5b45955925a57d56cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 095/299] fix: a size of zero is 256 in icons

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index fe59acf..5386e92 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -112,8 +112,8 @@ class IcoMetadata(MultipleMetadata):
             image = Metadata(self)
 
             # Read size and colors from header
-            image.width = header["width"].value
-            image.height = header["height"].value
+            image.width = header["width"].value or 256
+            image.height = header["height"].value or 256
             bpp = header["bpp"].value
             nb_colors = header["nb_color"].value
             if nb_colors != 0:
-- 
2.43.0


From c0bb3329c7d61f0a1f775a26de5c410d54899ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 096/299] fix: palette of TGA pictures with entries of 15 bits

---
 hachoir/parser/image/tga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index cc04c4a..f943cc8 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -96,7 +96,7 @@ class TargaFile(Parser):
             yield RawBytes(self, "image_id", self["id_length"].value)
 
         if self["palette_type"].value == 1:
-            size = self["nb_color"].value * self["color_map_size"].value // 8
+            size = self["nb_color"].value * ((self["color_map_size"].value + 7) // 8)
             if self["color_map_size"].value == 24:
                 yield PaletteBGR(self, "palette", self["nb_color"].value)
             elif size:
-- 
2.43.0


From 64efa7af065bb07306ebdb491e047b70196a4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 097/299] fix: several video streams in the metadata of an AVI
 file

---
 hachoir/metadata/riff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/riff.py b/hachoir/metadata/riff.py
index 858f3e6..a8e1e10 100644
--- a/hachoir/metadata/riff.py
+++ b/hachoir/metadata/riff.py
@@ -152,6 +152,7 @@ class RiffMetadata(MultipleMetadata):
 
     def extractAVI(self, headers):
         audio_index = 1
+        video_index = 1
         for stream in headers.array("stream"):
             if "stream_hdr/stream_type" not in stream:
                 continue
@@ -160,7 +161,11 @@ class RiffMetadata(MultipleMetadata):
                 if "stream_hdr" in stream:
                     meta = Metadata(self)
                     self.extractAVIVideo(stream["stream_hdr"], meta)
-                    self.addGroup("video", meta, "Video stream")
+                    key = "video"
+                    if 1 < video_index:
+                        key = "video[%u]" % video_index
+                    self.addGroup(key, meta, "Video stream")
+                    video_index += 1
             elif stream_type == "auds":
                 if "stream_fmt" in stream:
                     meta = Metadata(self)
-- 
2.43.0


From 987ab77c8122d23230e93f06ce021e9a81faf304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 098/299] fix: AU files whose data have no known size

---
 hachoir/parser/audio/au.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/audio/au.py b/hachoir/parser/audio/au.py
index e7c0003..2df0f8b 100644
--- a/hachoir/parser/audio/au.py
+++ b/hachoir/parser/audio/au.py
@@ -87,4 +87,7 @@ class AuFile(Parser):
         yield RawBytes(self, "audio_data", size, "Audio data")
 
     def createContentSize(self):
+        if self["data_size"].value == 0xFFFFFFFF:
+            # Size not known when the header was written
+            return None
         return (self["data_ofs"].value + self["data_size"].value) * 8
-- 
2.43.0


From b46249f6e94645a7aff323ebda8635d413abb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 099/299] fix: empty chunk at the end of a RIFF list

---
 hachoir/parser/container/riff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 6e7956a..20f2b88 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -287,7 +287,8 @@ class Chunk(FieldSet):
         if self["tag"].value == "LIST":
             yield String(self, "subtag", 4, "Sub-tag", charset="ASCII")
             handler = self.tag_info[1]
-            while 8 < (self.size - self.current_size) // 8:
+            # The last chunk may be empty: only a tag and a size
+            while 8 <= (self.size - self.current_size) // 8:
                 field = self.__class__(self, "field[]")
                 yield field
                 if (field.size // 8) % 2 != 0:
-- 
2.43.0


From 7764118be686bfbe4f3639564f936e7800e72ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 100/299] fix: duration of an AVI file in its description

---
 hachoir/parser/container/riff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/riff.py b/hachoir/parser/container/riff.py
index 20f2b88..0831314 100644
--- a/hachoir/parser/container/riff.py
+++ b/hachoir/parser/container/riff.py
@@ -446,8 +446,8 @@ class RiffFile(Parser):
                 if microsec:
                     desc += ", %.1f fps" % (1000000.0 / microsec)
                     if "total_frame" in header and header["total_frame"].value:
-                        delta = timedelta(seconds=float(
-                            header["total_frame"].value) * microsec)
+                        delta = timedelta(
+                            microseconds=header["total_frame"].value * microsec)
                         desc += ", " + humanDuration(delta)
             return desc
         else:
-- 
2.43.0


From 633f73109146efdc4aaca46a263ec07315370074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 101/299] fix: size of an AIFF file

---
 hachoir/parser/audio/aiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 8a9ddc7..4997326 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -132,4 +132,5 @@ class AiffFile(Parser):
             return "Audio Interchange File Format (AIFF)"
 
     def createContentSize(self):
-        return self["filesize"].value * 8
+        # The signature and the size itself are not counted
+        return (8 + self["filesize"].value) * 8
-- 
2.43.0


From 21d29e23fb35273ab6ab180c85a78cadf25e81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 102/299] fix: comments of AIFF files

---
 hachoir/parser/audio/aiff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index 4997326..a38eda0 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -9,7 +9,7 @@ from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            UInt16, UInt32, Float80, TimestampMac32,
                            RawBytes, NullBytes,
-                           String, Enum, PascalString32)
+                           String, Enum, PascalString16)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import filesizeHandler
 from hachoir.core.tools import alignValue
@@ -29,7 +29,10 @@ class Comment(FieldSet):
 
     def createFields(self):
         yield TimestampMac32(self, "timestamp")
-        yield PascalString32(self, "text")
+        yield UInt16(self, "marker", "Marker of the comment (0: no marker)")
+        yield PascalString16(self, "text", charset="ISO-8859-1")
+        if self["text"].length % 2:
+            yield NullBytes(self, "padding", 1)
 
 
 def parseText(self):
-- 
2.43.0


From 2c7acfaff42e14505241c61583b8965419c04b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 103/299] fix: codec in the common chunk of AIFF files

---
 hachoir/parser/audio/aiff.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index a38eda0..d95b92c 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -9,7 +9,7 @@ from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            UInt16, UInt32, Float80, TimestampMac32,
                            RawBytes, NullBytes,
-                           String, Enum, PascalString16)
+                           String, Enum, PascalString8, PascalString16)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import filesizeHandler
 from hachoir.core.tools import alignValue
@@ -54,7 +54,15 @@ def parseCommon(self):
     yield UInt32(self, "nb_sample")
     yield UInt16(self, "sample_size")
     yield Float80(self, "sample_rate")
-    yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+    if 22 <= self["size"].value:
+        # Only in compressed files (AIFC)
+        yield Enum(String(self, "codec", 4, strip="\0", charset="ASCII"), CODEC_NAME)
+        size = self["size"].value - 22
+        if size:
+            yield PascalString8(self, "codec_name", charset="ISO-8859-1")
+            padding = 8 + self["size"].value - self.current_size // 8
+            if padding:
+                yield RawBytes(self, "codec_padding", padding)
 
 
 def parseVersion(self):
-- 
2.43.0


From 0f547bb6706db037c85f75a1cdfacbc6f0a1ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 104/299] fix: system exclusive events of MIDI

---
 hachoir/parser/audio/midi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/parser/audio/midi.py b/hachoir/parser/audio/midi.py
index ccee235..4d486f7 100644
--- a/hachoir/parser/audio/midi.py
+++ b/hachoir/parser/audio/midi.py
@@ -91,6 +91,13 @@ def parseTimeSignature(parser, size):
     yield UInt8(parser, "nb_32nd_note", "Number of 32nd notes to the quarter note")
 
 
+def parseSysEx(parser):
+    yield Integer(parser, "data_len")
+    size = parser["data_len"].value
+    if size:
+        yield RawBytes(parser, "data", size)
+
+
 class Command(FieldSet):
     COMMAND = {}
     for channel in range(16):
@@ -107,6 +114,8 @@ class Command(FieldSet):
             0xD0 + channel] = ("Channel after-touch (channel %u)" % channel, parseChannel)
         COMMAND[
             0xE0 + channel] = ("Pitch wheel change (channel %u)" % channel, parsePitch)
+    COMMAND[0xF0] = ("System exclusive", parseSysEx)
+    COMMAND[0xF7] = ("System exclusive (continued)", parseSysEx)
     COMMAND_DESC = createDict(COMMAND, 0)
     COMMAND_PARSER = createDict(COMMAND, 1)
 
-- 
2.43.0


From bc9ea23f8d81a1097f5e9eae050bb26e4ff12017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 105/299] fix: a MIDI file ends with its last track

---
 hachoir/parser/audio/midi.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/audio/midi.py b/hachoir/parser/audio/midi.py
index 4d486f7..e7c245b 100644
--- a/hachoir/parser/audio/midi.py
+++ b/hachoir/parser/audio/midi.py
@@ -16,8 +16,6 @@ from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict, humanDurationNanosec
 from hachoir.parser.common.tracker import NOTE_NAME
 
-MAX_FILESIZE = 10 * 1024 * 1024
-
 
 class Integer(Bits):
 
@@ -270,9 +268,7 @@ class MidiFile(Parser):
 
     def createContentSize(self):
         count = self["/header/nb_track"].value - 1
-        start = self["track[%u]" % count].absolute_address
-        # Search "End of track" of last track
-        end = self.stream.searchBytes(b"\xff\x2f\x00", start, MAX_FILESIZE * 8)
-        if end is not None:
-            return end + 3 * 8
-        return None
+        if count < 0:
+            return self["header"].absolute_address + self["header"].size
+        track = self["track[%u]" % count]
+        return track.absolute_address + track.size
-- 
2.43.0


From 55b8189261644596d7ab16ab541cec29749d13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 106/299] fix: track number and genre of ID3v1

---
 hachoir/parser/audio/id3.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index e6f1131..4b0e292 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -183,32 +183,22 @@ class ID3v1(FieldSet):
 
         # TODO: Write better algorithm to guess ID3v1 version
         version = self.getVersion()
-        if version in ("v1.1", "v1.1b"):
-            if version == "v1.1b":
-                # ID3 v1.1b
-                yield String(self, "comment", 29, "Comment", strip=" \0", charset="ISO-8859-1")
-                yield UInt8(self, "track_nb", "Track number")
-            else:
-                # ID3 v1.1
-                yield String(self, "comment", 30, "Comment", strip=" \0", charset="ISO-8859-1")
-            yield Enum(UInt8(self, "genre", "Genre"), self.GENRE_NAME)
+        if version == "v1.1":
+            yield String(self, "comment", 29, "Comment", strip=" \0", charset="ISO-8859-1")
+            yield UInt8(self, "track_nb", "Track number")
         else:
-            # ID3 v1.0
-            yield String(self, "comment", 31, "Comment", strip=" \0", charset="ISO-8859-1")
+            yield String(self, "comment", 30, "Comment", strip=" \0", charset="ISO-8859-1")
+        yield Enum(UInt8(self, "genre", "Genre"), self.GENRE_NAME)
 
     def getVersion(self):
-        addr = self.absolute_address + 126 * 8
+        addr = self.absolute_address + 125 * 8
         bytes = self.stream.readBytes(addr, 2)
 
-        # last byte (127) is not space?
-        if bytes[1] != 32:
-            # byte 126 is nul?
-            if bytes[0] == 0:
-                return "v1.1"
-            else:
-                return "v1.1b"
+        # The track number follows a nul byte; else the comment has 30 bytes
+        if bytes[0] == 0 and bytes[1] != 0:
+            return "v1.1"
         else:
-            return "1.0"
+            return "v1.0"
 
     def createDescription(self):
         version = self.getVersion()
-- 
2.43.0


From 88063d96e1a40b073eec088af8e68e97a9005b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 107/299] fix: padding of less than a frame header in ID3v2
 tags

---
 hachoir/parser/audio/id3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index 4b0e292..faf1616 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -509,7 +509,11 @@ class ID3v2(FieldSet):
         yield ID3_Size(self, "size")
 
         # All tags
-        while self.current_size < self._size:
+        if 3 <= self["ver_major"].value:
+            header_size = 10 * 8
+        else:
+            header_size = 6 * 8
+        while self.current_size + header_size <= self._size:
             field = ID3_Chunk(self, "field[]")
             yield field
             if field["size"].value == 0:
-- 
2.43.0


From ccba26bc02ff5668923b3348616e6dd090495b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 108/299] fix: URL, MIME types and objects of ID3v2 do not use
 the charset of the texts

---
 hachoir/parser/audio/id3.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/audio/id3.py b/hachoir/parser/audio/id3.py
index faf1616..8e62194 100644
--- a/hachoir/parser/audio/id3.py
+++ b/hachoir/parser/audio/id3.py
@@ -250,13 +250,13 @@ class ID3_GEOB(ID3_StringCharset):
     def createFields(self):
         yield Enum(UInt8(self, "charset"), self.charset_desc)
         charset = getCharset(self["charset"])
-        yield CString(self, "mime", "MIME type", charset=charset)
+        yield CString(self, "mime", "MIME type", charset="ISO-8859-1")
         yield CString(self, "filename", "File name", charset=charset)
         yield CString(self, "description", "Content description", charset=charset)
         size = (self.size - self.current_size) // 8
         if not size:
             return
-        yield String(self, "text", size, "Text", charset=charset)
+        yield RawBytes(self, "object", size)
 
 
 class ID3_Comment(ID3_StringCharset):
@@ -283,7 +283,17 @@ class ID3_StringTitle(ID3_StringCharset):
         size = (self.size - self.current_size) // 8
         if not size:
             return
-        yield String(self, "text", size, "Text", charset=charset, strip=self.STRIP)
+        yield String(self, "text", size, "Text", charset=self.getTextCharset(charset), strip=self.STRIP)
+
+    def getTextCharset(self, charset):
+        return charset
+
+
+class ID3_URL(ID3_StringTitle):
+
+    def getTextCharset(self, charset):
+        # Only the description uses the charset
+        return "ISO-8859-1"
 
 
 class ID3_Private(FieldSet):
@@ -353,7 +363,7 @@ class ID3_Picture24(FieldSet):
     def createFields(self):
         yield Enum(UInt8(self, "charset"), ID3_StringCharset.charset_desc)
         charset = getCharset(self["charset"])
-        yield CString(self, "mime", "MIME type", charset=charset)
+        yield CString(self, "mime", "MIME type", charset="ISO-8859-1")
         yield Enum(UInt8(self, "pict_type"), ID3_Picture23.pict_type_name)
         yield CString(self, "description", charset=charset)
         size = (self._size - self._current_size) // 8
@@ -402,7 +412,7 @@ class ID3_Chunk(FieldSet):
         "PRIV": ID3_Private,
         "TXXX": ID3_StringTitle,
         "WOAR": ID3_String,
-        "WXXX": ID3_StringTitle,
+        "WXXX": ID3_URL,
     }
 
     def __init__(self, *args):
-- 
2.43.0


From 6d6b022368dc768ee0a4d93d822d3dbff899b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 109/299] fix: size of MPEG audio with padding before the first
 frame

---
 hachoir/parser/audio/mpeg_audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/mpeg_audio.py b/hachoir/parser/audio/mpeg_audio.py
index 645daa0..bae37c8 100644
--- a/hachoir/parser/audio/mpeg_audio.py
+++ b/hachoir/parser/audio/mpeg_audio.py
@@ -395,7 +395,7 @@ class MpegAudioFile(Parser):
         frames = field
         frame = frames["frame[0]"]
         address0 = field.absolute_address
-        size = address0 + frame.size
+        size = frame.absolute_address + frame.size
         while True:
             try:
                 # Parse one MPEG audio frame
-- 
2.43.0


From 05873dc41b19fba020e1533b1949b7c805a6a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 110/299] fix: FLAC files with a single metadata block

---
 hachoir/parser/audio/flac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..f440859 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -147,7 +147,7 @@ class Frames(FieldSet):
 
 class FlacParser(Parser):
     "Parse FLAC audio files: FLAC is a lossless audio codec"
-    MAGIC = b"fLaC\x00"
+    MAGIC = b"fLaC"
     PARSER_TAGS = {
         "id": "flac",
         "category": "audio",
-- 
2.43.0


From 88ea1c624c5d1d7123c467b41e5ce48f327ed314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 111/299] fix: packets of Ogg streams of several pages

---
 hachoir/parser/container/ogg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..3ad4ccd 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -178,7 +178,7 @@ class Packets:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+            fragment = fragment.next
         if size:
             yield size * 8
 
-- 
2.43.0


From 164e9b9ac83270f2d4bba1ca21ff5036ce81dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 112/299] fix: kind of an Ogg file in its description

---
 hachoir/parser/container/ogg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 3ad4ccd..65c47d9 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -307,9 +307,9 @@ class OggFile(Parser):
             return "application/ogg"
 
     def createDescription(self):
-        if "theora_hdr" in self["page[0]"]:
+        if "theora_hdr" in self["page[0]/segments"]:
             return "Ogg/Theora video"
-        elif "vorbis_hdr" in self["page[0]"]:
+        elif "vorbis_hdr" in self["page[0]/segments"]:
             return "Ogg/Vorbis audio"
         else:
             return "Ogg multimedia container"
-- 
2.43.0


From fced370d53adf0c587c63ba32741c32be9da00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 113/299] fix: Ogg pages without data do not end a stream

---
 hachoir/parser/container/ogg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 65c47d9..728b804 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -210,9 +210,9 @@ class Segments(Fragment):
         try:
             while True:
                 index += 1
-                next = parent[index][self.name]
-                if next.first is first:
-                    return next
+                page = parent[index]
+                if self.name in page and page[self.name].first is first:
+                    return page[self.name]
         except MissingField:
             pass
 
-- 
2.43.0


From b3f1dd950190ce2ae18325cce809df160c5c4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 114/299] fix: clusters of the files of FAT file systems are
 followed

---
 hachoir/parser/file_system/fat.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..179c0f2 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -311,6 +311,9 @@ class InodeGen:
             self.done += field.datasize
         else:
             field = Directory(self.root, name, size=size)
+        # The cluster may not have been read yet
+        while not self.root.done and self.root.current_size <= address:
+            self.root.readMoreFields(1)
         padding = self.root.getFieldByAddress(address, feed=False)
         if not isinstance(padding, (PaddingBytes, RawBytes)):
             error("(FAT) address %u doesn't point to a padding field" % address)
@@ -341,22 +344,15 @@ class FAT_FS(Parser):
         return True
 
     def clusters(self, cluster_func):
-        max_entry = (1 << min(28, self.version)) - 16
+        # The 4 high bits of the entries of FAT32 are reserved
+        mask = (1 << min(28, self.version)) - 1
+        max_entry = mask - 15
         cluster = cluster_func()
-        if 1 < cluster < max_entry:
-            clus_nb = 1
-            next = cluster
-            while True:
-                next = self.fat[next / 1000][next % 1000].value
-                if not 1 < next < max_entry:
-                    break
-                if cluster + clus_nb == next:
-                    clus_nb += 1
-                else:
-                    yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, False
-                    cluster = next
-                    clus_nb = 1
-            yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, True
+        while 1 < cluster < max_entry:
+            next = self.fat["entry[%u]" % cluster].value & mask
+            last = not 1 < next < max_entry
+            yield self.data_start + cluster * self.cluster_size, self.cluster_size, last
+            cluster = next
 
     def createFields(self):
         # Read boot seector
-- 
2.43.0


From 33096930b6fa751ff27992ec3e1cba4b34686606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 115/299] fix: root directory and place of the clusters of FAT
 file systems

---
 hachoir/parser/file_system/fat.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 179c0f2..8b3fa6e 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -7,7 +7,7 @@ from hachoir.field.integer import GenericInteger
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.error import error
-from hachoir.core.tools import humanFilesize, makePrintable
+from hachoir.core.tools import alignValue, humanFilesize, makePrintable
 import datetime
 import re
 
@@ -387,19 +387,35 @@ class FAT_FS(Parser):
         # Read inode table (Directory)
         self.cluster_size = boot["cluster_size"].value * self.sector_size * 8
         self.fat = self["fat[0]"]
-        if "root_start" in boot and boot["root_start"].value != 2:
+        first = 2
+        if self.version == 32:
+            # The root directory is stored in clusters, like a file
+            self.data_start = self.current_size - 2 * self.cluster_size
             self.target_size = 0
             self.getCluster = lambda: boot["root_start"].value
-            yield InodeLink(self, "root", "root")
+            if boot["root_start"].value != 2:
+                yield InodeLink(self, "root", "root")
+            else:
+                inode = InodeGen(self, self, "root")
+                last = next(inode.cluster)[2]
+                root = Directory(self, "root[]", size=self.cluster_size)
+                root.setLinks(None, None if last else (lambda: inode(root)))
+                yield root
+                first = 3
         else:
-            yield Directory(self, "root[]", size=max(boot["max_root"].value * 32 * 8, boot["cluster_size"].value * self.sector_size * 8))
-        self.data_start = self.current_size - 2 * self.cluster_size
+            # Full sectors before the first cluster
+            size = alignValue(boot["max_root"].value * 32, self.sector_size)
+            self.data_start = self.current_size + size * 8 - 2 * self.cluster_size
+            root = Directory(self, "root[]", size=size * 8)
+            root.setLinks(None)
+            yield root
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
 
-        for i in range(sectors // boot['cluster_size'].value):
-            yield RawBytes(self, "sector[%d]" % (i + 2), self.cluster_size // 8)
+        size = sectors * self.sector_size * 8 - self.data_start
+        for i in range(first, size // self.cluster_size):
+            yield RawBytes(self, "sector[%d]" % i, self.cluster_size // 8)
 
 
 class FAT12(FAT_FS):
-- 
2.43.0


From bfd330149a037ff400fba819bff09407cd8f26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 116/299] fix: names of FAT files whose first letter is 0xE5

---
 hachoir/parser/file_system/fat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 8b3fa6e..3aa601a 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -178,12 +178,17 @@ class FileEntry(FieldSet):
     def getFilename(self):
         name = self["name"].value
         if isinstance(name, str):
-            name = makePrintable(name, "ASCII")
+            first = ""
+            if name.startswith("\x05"):
+                # 0xE5 is the mark of deleted files
+                first = "\xE5"
+                name = name[1:]
+            if name or not first:
+                name = makePrintable(name, "ASCII")
+            name = first + name
         ext = self["ext"].value
         if ext:
             name += "." + ext
-        if name[0] == 5:
-            name = "\xE5" + name[1:]
         if not self.LFN and self["directory"].value:
             name += "/"
         return name
-- 
2.43.0


From 4e4f967ca06ba512f64fd58e0ff4f696a62976e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 117/299] fix: third and next logical partitions of an extended
 partition

---
 hachoir/parser/file_system/mbr.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/mbr.py b/hachoir/parser/file_system/mbr.py
index 362afa6..de22e00 100644
--- a/hachoir/parser/file_system/mbr.py
+++ b/hachoir/parser/file_system/mbr.py
@@ -182,6 +182,9 @@ class MasterBootRecord(FieldSet):
 
 
 class Partition(FieldSet):
+    # Number of blocks between the beginning of an extended partition
+    # and this record (None if it's not in an extended partition)
+    first_block = None
 
     def createFields(self):
         mbr = MasterBootRecord(self, "mbr")
@@ -193,6 +196,9 @@ class Partition(FieldSet):
 
         for start, index, header in sorted((hdr["LBA"].value, index, hdr)
                                            for index, hdr in enumerate(mbr.headers) if hdr.isUsed()):
+            if self.first_block is not None and header["system"].value == 5:
+                start -= self.first_block
+
             # Seek to the beginning of the partition
             padding = self.seekByte(start * BLOCK_SIZE, "padding[]")
             if padding:
@@ -203,7 +209,16 @@ class Partition(FieldSet):
             size = BLOCK_SIZE * header["size"].value
             desc = header["system"].display
             if header["system"].value == 5:
-                yield Partition(self, name, desc, size * 8)
+                partition = Partition(self, name, desc, size * 8)
+                if self.first_block is not None:
+                    # Next record of the same extended partition: the addresses
+                    # are relative to the first record, and the records which
+                    # follow are not counted in the size
+                    partition.first_block = self.first_block + start
+                    partition._size = self._size - self.current_size
+                else:
+                    partition.first_block = 0
+                yield partition
             else:
                 yield RawBytes(self, name, size, desc)
 
-- 
2.43.0


From ea4898d4a19f3f2179a098940039c0c22ff9fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 118/299] fix: numbers of the volume descriptors of ISO 9660

---
 hachoir/parser/file_system/iso9660.py | 37 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/file_system/iso9660.py b/hachoir/parser/file_system/iso9660.py
index ecac4a3..fda2235 100644
--- a/hachoir/parser/file_system/iso9660.py
+++ b/hachoir/parser/file_system/iso9660.py
@@ -11,11 +11,32 @@ Creation: 11 july 2006
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet, ParserError,
-                           UInt8, UInt32, UInt64, Enum,
+                           Bits, UInt8, UInt32, Enum,
                            NullBytes, RawBytes, String)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 
 
+class BothEndian(Bits):
+    """
+    Number stored twice: little endian and then big endian
+    """
+
+    def createValue(self):
+        size = self._size // 2
+        return self.parent.stream.readInteger(
+            self.absolute_address + size, False, size, BIG_ENDIAN)
+
+
+class LittleEndian32(Bits):
+
+    def __init__(self, parent, name, description=None):
+        Bits.__init__(self, parent, name, 32, description)
+
+    def createValue(self):
+        return self.parent.stream.readInteger(
+            self.absolute_address, False, self._size, LITTLE_ENDIAN)
+
+
 class PrimaryVolumeDescriptor(FieldSet):
     static_size = 2041 * 8
 
@@ -24,14 +45,14 @@ class PrimaryVolumeDescriptor(FieldSet):
         yield String(self, "system_id", 32, "System identifier", strip=" ")
         yield String(self, "volume_id", 32, "Volume identifier", strip=" ")
         yield NullBytes(self, "unused[]", 8)
-        yield UInt64(self, "space_size", "Volume space size")
+        yield BothEndian(self, "space_size", 64, "Volume space size")
         yield NullBytes(self, "unused[]", 32)
-        yield UInt32(self, "set_size", "Volume set size")
-        yield UInt32(self, "seq_num", "Sequence number")
-        yield UInt32(self, "block_size", "Block size")
-        yield UInt64(self, "path_table_size", "Path table size")
-        yield UInt32(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
-        yield UInt32(self, "opt_lpath", "Location of Optional of Type L Path Table")
+        yield BothEndian(self, "set_size", 32, "Volume set size")
+        yield BothEndian(self, "seq_num", 32, "Sequence number")
+        yield BothEndian(self, "block_size", 32, "Block size")
+        yield BothEndian(self, "path_table_size", 64, "Path table size")
+        yield LittleEndian32(self, "occu_lpath", "Location of Occurrence of Type L Path Table")
+        yield LittleEndian32(self, "opt_lpath", "Location of Optional of Type L Path Table")
         yield UInt32(self, "occu_mpath", "Location of Occurrence of Type M Path Table")
         yield UInt32(self, "opt_mpath", "Location of Optional of Type M Path Table")
         yield RawBytes(self, "root", 34, "Directory Record for Root Directory")
-- 
2.43.0


From bca6c915bb9f6afec1160e31287e22b8cd42b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 119/299] fix: identifiers of ISO 9660 boot records have 32
 bytes

---
 hachoir/parser/file_system/iso9660.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/file_system/iso9660.py b/hachoir/parser/file_system/iso9660.py
index fda2235..3bba048 100644
--- a/hachoir/parser/file_system/iso9660.py
+++ b/hachoir/parser/file_system/iso9660.py
@@ -77,9 +77,9 @@ class BootRecord(FieldSet):
     static_size = 2041 * 8
 
     def createFields(self):
-        yield String(self, "sys_id", 31, "Boot system identifier", strip="\0")
-        yield String(self, "boot_id", 31, "Boot identifier", strip="\0")
-        yield RawBytes(self, "system_use", 1979, "Boot system use")
+        yield String(self, "sys_id", 32, "Boot system identifier", strip="\0")
+        yield String(self, "boot_id", 32, "Boot identifier", strip="\0")
+        yield RawBytes(self, "system_use", 1977, "Boot system use")
 
 
 class Terminator(FieldSet):
-- 
2.43.0


From 712bc96f166b2d63df20ef479d6955b0c258886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 120/299] fix: number of usable pages of a Linux swap file

---
 hachoir/parser/file_system/linux_swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/linux_swap.py b/hachoir/parser/file_system/linux_swap.py
index 79e1c83..b7aa896 100644
--- a/hachoir/parser/file_system/linux_swap.py
+++ b/hachoir/parser/file_system/linux_swap.py
@@ -71,8 +71,8 @@ class LinuxSwapFile(Parser):
         Number of pages which can really be used for swapping:
         number of page minus bad pages minus one page (used for the header)
         """
-        # -1 because first page is used for the header
-        return self["last_page"].value - self["nb_badpage"].value - 1
+        # The first page, used for the header, has the index 0
+        return self["last_page"].value - self["nb_badpage"].value
 
     def createDescription(self):
         if self["magic"].value == "S1SUSPEND\0":
-- 
2.43.0


From 2c3e2672ace956a88aadfd8f5dd1fc268b39106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 121/299] fix: used size of EXT2 file systems

---
 hachoir/parser/file_system/ext2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 44db648..62fdfe5 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -797,7 +797,7 @@ class EXT2_FS(HachoirParser, RootSeekableFieldSet):
         block_size = 1024 << superblock["log_block_size"].value
         nb_block = superblock["blocks_count"].value
         total = nb_block * block_size
-        used = (superblock["free_blocks_count"].value) * block_size
+        used = (nb_block - superblock["free_blocks_count"].value) * block_size
         desc = "EXT2/EXT3"
         if "group[0]/inode_table/inode[7]/blocks" in self:
             if 0 < self["group[0]/inode_table/inode[7]/blocks"].value:
-- 
2.43.0


From 4c45727e1cfe43df03f0913775482a5dcc67364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:53 +0000
Subject: [PATCH 122/299] fix: the superblock of EXT2 file systems has 1024
 bytes

---
 hachoir/parser/file_system/ext2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 62fdfe5..a2fed2f 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -571,7 +571,7 @@ class SuperBlock(FieldSet):
         yield TimestampUnix32(self, "mkfs_time", "When the filesystem was created")
         yield RawBytes(self, "jnl_blocks", 17 * 4, "Backup of the journal inode's i_block and i_size")
 
-        yield PaddingBytes(self, "reserved[]", (1024 << self['log_block_size'].value) - self.current_size // 8)
+        yield PaddingBytes(self, "reserved[]", 1024 - self.current_size // 8)
 
     def _getGroupCount(self):
         if self._group_count is None:
-- 
2.43.0


From 7157c1d38e32db11557db4946a253edf1845d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:53 +0000
Subject: [PATCH 123/299] fix: end of the bitmaps of EXT2 file systems

---
 hachoir/parser/file_system/ext2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index a2fed2f..7c463fa 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -339,8 +339,11 @@ class Bitmap(FieldSet):
     def createFields(self):
         for index in range(self.count):
             yield Bit(self, "item[]", "%s %s" % (self.itemdesc, self.start + index))
-        if self.size > self.count:
-            yield PaddingBytes(self, "padding", (self.size - self.count) // 8, pattern='\xff')
+        padding = -self.count % 8
+        if padding:
+            yield PaddingBits(self, "padding[]", padding)
+        if self.current_size < self.size:
+            yield PaddingBytes(self, "padding[]", (self.size - self.current_size) // 8, pattern=b'\xff')
 
 
 class BlockBitmap(Bitmap):
-- 
2.43.0


From 6a83580caccc9c9c30e18cb1fcd33fb8a437e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 124/299] fix: blocks of the last group of EXT2 file systems

---
 hachoir/parser/file_system/ext2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/ext2.py b/hachoir/parser/file_system/ext2.py
index 7c463fa..f7836e4 100644
--- a/hachoir/parser/file_system/ext2.py
+++ b/hachoir/parser/file_system/ext2.py
@@ -655,7 +655,8 @@ class Group(SeekableFieldSet):
         # Compute number of block and inodes
         block_count = superblock["blocks_per_group"].value
         inode_count = superblock["inodes_per_group"].value
-        block_index = self.descriptor.uniq_id * block_count
+        block_index = (superblock["first_data_block"].value
+                       + self.descriptor.uniq_id * block_count)
         inode_index = self.descriptor.uniq_id * inode_count
         if (block_count % 8) != 0:
             raise ParserError("Invalid block count")
@@ -673,7 +674,7 @@ class Group(SeekableFieldSet):
                              1) // bitmap_block_size * bitmap_block_size
 
         self.seekBlock(self.descriptor["block_bitmap"].value)
-        yield BlockBitmap(self, "block_bitmap", block_index, block_count, block_bitmap_size, "Block bitmap")
+        yield BlockBitmap(self, "block_bitmap", block_index - 1, block_count, block_bitmap_size, "Block bitmap")
 
         self.seekBlock(self.descriptor["inode_bitmap"].value)
         yield InodeBitmap(self, "inode_bitmap", inode_index, inode_count, inode_bitmap_size, "Inode bitmap")
-- 
2.43.0


From 9bf2c87b3466401ec08346885ebff33e20536d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:12 +0000
Subject: [PATCH 125/299] fix: the entries . and .. of FAT directories are not
 followed

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 3aa601a..71ec5be 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -172,7 +172,7 @@ class FileEntry(FieldSet):
             self.absolute_address + 11 * 8, 8, LITTLE_ENDIAN)
         if magic & 0x3F == 0x0F:
             self.LFN = True
-        elif self.getFilename() not in (".", ".."):
+        elif self.getFilename() not in ("./", "../"):
             self.process = True
 
     def getFilename(self):
-- 
2.43.0


From da878e5249aa0410125e44a121bf958a4f3468da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:12 +0000
Subject: [PATCH 126/299] fix: fragments which are not read yet are in the
 content

---
 hachoir/field/fragment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hachoir/field/fragment.py b/hachoir/field/fragment.py
index 43fb6bb..20f2e3b 100644
--- a/hachoir/field/fragment.py
+++ b/hachoir/field/fragment.py
@@ -40,6 +40,13 @@ class CustomFragment(FieldSet):
         yield RawBytes(self, "rawdata", self.field_size // 8)
 
     def _createInputStream(self, **args):
+        # The next fragments may not have been read yet
+        parent = self._parent
+        while parent is not None:
+            generator = parent._field_generator
+            if not getattr(generator, "gi_running", False):
+                parent._feedAll()
+            parent = parent._parent
         return self.group.createInputStream()
 
     def createValue(self):
-- 
2.43.0


From 19ebbdb0645744c2044d91770739207d34ce4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:45 +0000
Subject: [PATCH 127/299] fix: FAT32 file systems without a copy of the boot
 sector

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 71ec5be..f49f03a 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -370,7 +370,7 @@ class FAT_FS(Parser):
                 (boot["inf_sector"].value, lambda: FSInfo(self, "fsinfo")),
                 (boot["boot_copy"].value, lambda: Boot(
                     self, "bkboot", "Copy of the boot sector")),
-            )):
+            ), key=lambda field: field[0]):
                 if field[0]:
                     padding = self.seekByte(field[0] * self.sector_size)
                     if padding:
-- 
2.43.0


From df0b0f61eafbe982793b73664ca26918fea54e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 128/299] fix: the display of cut raw bytes tells that they are
 cut

---
 hachoir/field/byte_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/byte_field.py b/hachoir/field/byte_field.py
index e0bdb08..336dee2 100644
--- a/hachoir/field/byte_field.py
+++ b/hachoir/field/byte_field.py
@@ -35,7 +35,7 @@ class RawBytes(Field):
                 length = min(self._size // 8, max_bytes)
                 self._display = self._parent.stream.readBytes(address, length)
             display = makePrintable(self._display, "ASCII")
-        truncated = (8 * len(display) < self._size)
+        truncated = (max_bytes < self._size // 8)
         if human:
             if truncated:
                 display += "(...)"
-- 
2.43.0


From 5e4f6f2071bd881ff5f4c43597b024e7c297c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 129/299] fix: the first two numbers of ASN.1 object
 identifiers from 2.40 on

---
 hachoir/parser/container/asn1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 2d849af..89f2e00 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -139,7 +139,7 @@ def formatObjectID(fieldset):
 
 
 def readObjectID(self, content_size):
-    yield textHandler(UInt8(self, "first"), formatFirstObjectID)
+    yield textHandler(OID_Integer(self, "first"), formatFirstObjectID)
     while self.current_size < self.size:
         yield OID_Integer(self, "item[]")
 
@@ -160,7 +160,8 @@ def readInteger(self, content_size):
 
 def formatFirstObjectID(field):
     value = field.value
-    return "%u.%u" % (value // 40, value % 40)
+    first = min(value // 40, 2)
+    return "%u.%u" % (first, value - first * 40)
 
 
 def formatValue(fieldset):
-- 
2.43.0


From 996f468ed6022492fa8b87d7a1989d71d41e9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 130/299] fix: ASN.1 BMP strings are in big endian

---
 hachoir/parser/container/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 89f2e00..7b841ff 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -118,7 +118,7 @@ def readUTF8String(self, content_size):
 
 
 def readBMPString(self, content_size):
-    yield String(self, "value", content_size, charset="UTF-16")
+    yield String(self, "value", content_size, charset="UTF-16-BE")
 
 
 def readBitString(self, content_size):
-- 
2.43.0


From 742d7092fc06658e19beacba90ce746b14f2a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 131/299] fix: the XML of binary property lists has the texts,
 the data and the empty values

---
 hachoir/parser/misc/bplist.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 097a197..dc1ae60 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -16,12 +16,14 @@ Created: 2008-09-21
 """
 
 from hachoir.parser import HachoirParser
-from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum,
+from hachoir.field import (RootSeekableFieldSet, FieldSet, Enum, MissingField,
                            Bits, GenericInteger, Float32, Float64, UInt8, UInt64, Bytes, NullBytes, RawBytes, String)
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import displayHandler
 from hachoir.core.tools import humanDatetime
+from base64 import b64encode
 from datetime import datetime, timedelta
+from xml.sax.saxutils import escape
 
 
 class BPListTrailer(FieldSet):
@@ -115,7 +117,7 @@ class BPListDict(FieldSet):
         return '{' + ', '.join(['%s: %s' % (k.display, v.display) for k, v in self.value]) + '}'
 
     def createXML(self, prefix=''):
-        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, k.getRef().value.encode('utf-8'), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
+        return prefix + '<dict>\n' + ''.join(['%s\t<key>%s</key>\n%s\n' % (prefix, escape(k.getRef().value), v.createXML(prefix + '\t')) for k, v in self.value]) + prefix + '</dict>'
 
 
 class BPListObject(FieldSet):
@@ -194,7 +196,7 @@ class BPListObject(FieldSet):
                 yield Bytes(self, "value", self['size'].value)
                 self.xml = lambda prefix: prefix + \
                     "<data>\n%s\n%s</data>" % (
-                        self['value'].value.encode('base64').strip(), prefix)
+                        b64encode(self['value'].value).decode('ascii'), prefix)
             else:
                 self.xml = lambda prefix: prefix + '<data></data>'
 
@@ -204,8 +206,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value, charset="ASCII")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (self['value'].value.replace(
-                        '&', '&amp;').encode('iso-8859-1'))
+                    "<string>%s</string>" % escape(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
@@ -215,8 +216,7 @@ class BPListObject(FieldSet):
             if self['size'].value:
                 yield String(self, "value", self['size'].value * 2, charset="UTF-16-BE")
                 self.xml = lambda prefix: prefix + \
-                    "<string>%s</string>" % (
-                        self['value'].value.replace('&', '&amp;').encode('utf-8'))
+                    "<string>%s</string>" % escape(self['value'].value)
             else:
                 self.xml = lambda prefix: prefix + '<string></string>'
 
@@ -233,6 +233,8 @@ class BPListObject(FieldSet):
             if size:
                 yield BPListArray(self, "value", size)
                 self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<array></array>'
 
         elif markertype == 13:
             # Dict
@@ -261,11 +263,13 @@ class BPListObject(FieldSet):
             return None
 
     def createXML(self, prefix=''):
-        if 'value' in self:
-            try:
-                return self.xml(prefix)
-            except AttributeError:
-                return ''
+        len(self)   # read all fields: self.xml depends on them
+        try:
+            return self.xml(prefix)
+        except MissingField:
+            return ''
+
+    def xml(self, prefix):
         return ''
 
     def getFieldType(self):
-- 
2.43.0


From 68a192181aa2fa04d6d0b9117481b349cfc9e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 132/299] fix: texts of compiled Python which are empty or in
 UTF-8, and slices, have their value

---
 hachoir/parser/program/python.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/python.py b/hachoir/parser/program/python.py
index 4be46bb..19e26a1 100644
--- a/hachoir/parser/program/python.py
+++ b/hachoir/parser/program/python.py
@@ -49,7 +49,11 @@ def parseString(parent):
             line_number += line_number_delta.value
             line_number_delta._description = 'Line Number %i' % line_number
     elif 0 < length:
-        yield RawBytes(parent, "text", length, "Content")
+        code = parent["bytecode"].value
+        if code == "u" or code == "t" and 0x3000000 <= parent.root.getVersion():
+            yield String(parent, "text", length, "Content", charset="UTF-8")
+        else:
+            yield RawBytes(parent, "text", length, "Content")
     if DISASSEMBLE and parent.name == "compiled_code":
         disassembleBytecode(parent["text"])
 
@@ -57,6 +61,11 @@ def parseString(parent):
 def createStringValue(parent):
     if parent.name == "lnotab":
         return "<lnotab>"
+    if "text" not in parent:
+        code = parent["bytecode"].value
+        if code == "s" or code == "t" and parent.root.getVersion() < 0x3000000:
+            return b""
+        return ""
     return parent["text"]
 
 
@@ -234,6 +243,10 @@ def parseSlice(parent):
     yield Object(parent, "stop")
     yield Object(parent, "step")
 
+
+def createSliceValue(parent):
+    return slice(*(parent[name].value for name in ("start", "stop", "step")))
+
 # --- Code ---
 
 
@@ -323,7 +336,7 @@ class Object(FieldSet):
         'A': ("ascii_interned", parseASCII, "ASCII interned", None, createStringValue),
         'z': ("short_ascii", parseShortASCII, "Short ASCII", None, createStringValue),
         'Z': ("short_ascii_interned", parseShortASCII, "Short ASCII interned", None, createStringValue),
-        ':': ("slice", parseSlice, "Slice", None, createStringValue),
+        ':': ("slice", parseSlice, "Slice", None, createSliceValue),
     }
 
     def __init__(self, parent, name, **kw):
-- 
2.43.0


From d5ca5c5552568acba5a0dafd8e73fdf9f66424f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 133/299] fix: all the items of an ASN.1 set are shown

---
 hachoir/parser/container/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/asn1.py b/hachoir/parser/container/asn1.py
index 7b841ff..ae9fcef 100644
--- a/hachoir/parser/container/asn1.py
+++ b/hachoir/parser/container/asn1.py
@@ -106,7 +106,7 @@ def readSequence(self, content_size):
 
 
 def readSet(self, content_size):
-    yield Object(self, "value", size=content_size * 8)
+    yield from readSequence(self, content_size)
 
 
 def readASCIIString(self, content_size):
-- 
2.43.0


From 29d7701e5901d55ac4e38905ab0a52cf76527ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 134/299] fix: empty dictionaries of binary property lists have
 the size of their head

---
 hachoir/parser/misc/bplist.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index dc1ae60..67b65fc 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -239,8 +239,12 @@ class BPListObject(FieldSet):
         elif markertype == 13:
             # Dict
             yield BPListSize(self, "size")
-            yield BPListDict(self, "value", self['size'].value)
-            self.xml = lambda prefix: self['value'].createXML(prefix)
+            size = self['size'].value
+            if size:
+                yield BPListDict(self, "value", size)
+                self.xml = lambda prefix: self['value'].createXML(prefix)
+            else:
+                self.xml = lambda prefix: prefix + '<dict></dict>'
 
         else:
             yield Bits(self, "value", 4)
-- 
2.43.0


From 8351f8104432150a36765b0892b10eb9a11dd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 135/299] fix: each entry of a table of MP4 samples ends where
 its size says

---
 hachoir/parser/container/mp4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3360eb6..f6ee76c 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -898,6 +898,10 @@ def AudioSampleEntry(self):
 
 class SampleEntry(FieldSet):
 
+    def __init__(self, *args):
+        FieldSet.__init__(self, *args)
+        self._size = self["size"].value * 8
+
     def createFields(self):
         yield UInt32(self, "size")
         yield RawBytes(self, "format", 4, "Data Format (codec)")
-- 
2.43.0


From b827422f624e200a3b78b4e50271126aece56a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 136/299] fix: Matroska elements without data have no value

---
 hachoir/parser/container/mkv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/mkv.py b/hachoir/parser/container/mkv.py
index d02f673..6c8b0e6 100644
--- a/hachoir/parser/container/mkv.py
+++ b/hachoir/parser/container/mkv.py
@@ -584,7 +584,8 @@ class EBML(FieldSet):
         yield Unsigned(self, 'size')
         for val in self.val[1:]:
             if callable(val):
-                yield val(self)
+                if self["size"].value != 0:
+                    yield val(self)
             else:
                 while not self.eof:
                     yield EBML(self, val)
-- 
2.43.0


From e0cd6c45e3a002e7fe2dc152bcb9fa235ac56812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 137/299] fix: signed fixed point numbers of QuickTime are
 signed

---
 hachoir/parser/container/mp4.py | 43 +++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index f6ee76c..178052c 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -131,7 +131,7 @@ def timestampMac64(value):
 TimestampMac64 = timestampFactory("TimestampMac64", timestampMac64, 64)
 
 
-def fixedFloatFactory(name, int_bits, float_bits, doc):
+def fixedFloatFactory(name, int_bits, float_bits, doc, signed=False):
     size = int_bits + float_bits
 
     class Float(FieldSet):
@@ -143,7 +143,10 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
             yield Bits(self, "float_part", float_bits)
 
         def createValue(self):
-            return self["int_part"].value + float(self["float_part"].value) / (1 << float_bits)
+            int_part = self["int_part"].value
+            if signed and int_part >> (int_bits - 1):
+                int_part -= 1 << int_bits
+            return int_part + float(self["float_part"].value) / (1 << float_bits)
     klass = Float
     klass.__name__ = name
     return klass
@@ -151,8 +154,12 @@ def fixedFloatFactory(name, int_bits, float_bits, doc):
 
 QTFloat16 = fixedFloatFactory("QTFloat32", 8, 8, "8.8 fixed point number")
 QTFloat32 = fixedFloatFactory("QTFloat32", 16, 16, "16.16 fixed point number")
+QTSFloat16 = fixedFloatFactory(
+    "QTSFloat16", 8, 8, "8.8 signed fixed point number", signed=True)
+QTSFloat32 = fixedFloatFactory(
+    "QTSFloat32", 16, 16, "16.16 signed fixed point number", signed=True)
 QTFloat2_30 = fixedFloatFactory(
-    "QTFloat2_30", 2, 30, "2.30 fixed point number")
+    "QTFloat2_30", 2, 30, "2.30 signed fixed point number", signed=True)
 
 
 class AtomList(FieldSet):
@@ -192,14 +199,14 @@ class TrackHeader(FieldSet):
         yield Int16(self, "alternate_group", "Group ID that this track belongs to (0=no group)")
         yield QTFloat16(self, "volume", "Track relative audio volume (1.0 = full)")
         yield NullBytes(self, "reserved[]", 2)
-        yield QTFloat32(self, "geom_a", "Width scale")
-        yield QTFloat32(self, "geom_b", "Width rotate")
+        yield QTSFloat32(self, "geom_a", "Width scale")
+        yield QTSFloat32(self, "geom_b", "Width rotate")
         yield QTFloat2_30(self, "geom_u", "Width angle")
-        yield QTFloat32(self, "geom_c", "Height rotate")
-        yield QTFloat32(self, "geom_d", "Height scale")
+        yield QTSFloat32(self, "geom_c", "Height rotate")
+        yield QTSFloat32(self, "geom_d", "Height scale")
         yield QTFloat2_30(self, "geom_v", "Height angle")
-        yield QTFloat32(self, "geom_x", "Position X")
-        yield QTFloat32(self, "geom_y", "Position Y")
+        yield QTSFloat32(self, "geom_x", "Position X")
+        yield QTSFloat32(self, "geom_y", "Position Y")
         yield QTFloat2_30(self, "geom_w", "Divider scale")
         yield QTFloat32(self, "frame_size_width")
         yield QTFloat32(self, "frame_size_height")
@@ -420,7 +427,7 @@ class SoundMediaHeader(FieldSet):
     def createFields(self):
         yield UInt8(self, "version", "Version")
         yield NullBits(self, "flags", 24)
-        yield QTFloat16(self, "balance")
+        yield QTSFloat16(self, "balance")
         yield UInt16(self, "reserved[]")
 
 
@@ -485,7 +492,7 @@ class EditList(FieldSet):
         for i in range(self['count'].value):
             yield UInt(self, "duration[]", "Duration of this edit segment")
             yield Int(self, "time[]", "Starting time of this edit segment within the media (-1 = empty edit)")
-            yield QTFloat32(self, "play_speed[]", "Playback rate (0 = dwell edit, 1 = normal playback)")
+            yield QTSFloat32(self, "play_speed[]", "Playback rate (0 = dwell edit, 1 = normal playback)")
 
 
 class Load(FieldSet):
@@ -517,17 +524,17 @@ class MovieHeader(FieldSet):
             yield TimestampMac64(self, "lastmod_date", "Last modification time of this presentation")
             yield UInt32(self, "time_scale", "Number of time-units per second")
             yield UInt64(self, "duration", "Length of presentation, in time-units")
-        yield QTFloat32(self, "play_speed", "Preferred playback speed (1.0 = normal)")
+        yield QTSFloat32(self, "play_speed", "Preferred playback speed (1.0 = normal)")
         yield QTFloat16(self, "volume", "Preferred playback volume (1.0 = full)")
         yield NullBytes(self, "reserved[]", 10)
-        yield QTFloat32(self, "geom_a", "Width scale")
-        yield QTFloat32(self, "geom_b", "Width rotate")
+        yield QTSFloat32(self, "geom_a", "Width scale")
+        yield QTSFloat32(self, "geom_b", "Width rotate")
         yield QTFloat2_30(self, "geom_u", "Width angle")
-        yield QTFloat32(self, "geom_c", "Height rotate")
-        yield QTFloat32(self, "geom_d", "Height scale")
+        yield QTSFloat32(self, "geom_c", "Height rotate")
+        yield QTSFloat32(self, "geom_d", "Height scale")
         yield QTFloat2_30(self, "geom_v", "Height angle")
-        yield QTFloat32(self, "geom_x", "Position X")
-        yield QTFloat32(self, "geom_y", "Position Y")
+        yield QTSFloat32(self, "geom_x", "Position X")
+        yield QTSFloat32(self, "geom_y", "Position Y")
         yield QTFloat2_30(self, "geom_w", "Divider scale")
         yield UInt32(self, "preview_start")
         yield UInt32(self, "preview_length")
-- 
2.43.0


From 37d304ecf797304d457b01e8cc3bded1fdd7a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:23 +0000
Subject: [PATCH 138/299] fix: null bytes behind 0xFF bytes in the additional
 bits of JPEG data are skipped

---
 hachoir/parser/image/jpeg.py | 78 ++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 419d6f4..02f0378 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -289,38 +289,54 @@ class DefineHuffmanTable(FieldSet):
             yield HuffmanTable(self, "huffman_table[]")
 
 
-class HuffmanCode(Field):
-    """Huffman code. Uses tree parameter as the Huffman tree."""
+class EntropyCodedBits(Field):
+    """Bits of image data, where the null byte behind a byte 0xFF is skipped."""
 
-    def __init__(self, parent, name, tree, description=""):
+    def __init__(self, parent, name, description=""):
         Field.__init__(self, parent, name, 0, description)
 
-        endian = self.parent.endian
+    def readBit(self):
         stream = self.parent.stream
-        addr = self.absolute_address
+        addr = self.absolute_address + self._size
+        if addr % 8 == 0:
+            last_byte = stream.readBytes(addr - 8, 1)
+            if last_byte == b'\xFF':
+                next_byte = stream.readBytes(addr, 1)
+                if next_byte != b'\x00':
+                    raise FieldError(
+                        "Unexpected byte sequence %r!" % (last_byte + next_byte))
+                addr += 8
+                self._size += 8
+                self._description = "[skipped 8 bits after 0xFF] "
+        self._size += 1
+        return stream.readBits(addr, 1, self.parent.endian)
+
+
+class HuffmanCode(EntropyCodedBits):
+    """Huffman code. Uses tree parameter as the Huffman tree."""
+
+    def __init__(self, parent, name, tree, description=""):
+        EntropyCodedBits.__init__(self, parent, name, description)
+
+        value = 0
+        length = 0
+        while (length, value) not in tree:
+            value = (value << 1) + self.readBit()
+            length += 1
+        self.createValue = lambda: value
+        self.realvalue = tree[(length, value)]
+
+
+class ExtraBits(EntropyCodedBits):
+    """Additional bits, behind a Huffman code."""
+
+    def __init__(self, parent, name, nbits, description=""):
+        EntropyCodedBits.__init__(self, parent, name, description)
 
         value = 0
-        met_ff = False
-        while (self.size, value) not in tree:
-            if addr % 8 == 0:
-                last_byte = stream.readBytes(addr - 8, 1)
-                if last_byte == b'\xFF':
-                    next_byte = stream.readBytes(addr, 1)
-                    if next_byte != b'\x00':
-                        raise FieldError(
-                            "Unexpected byte sequence %r!" % (last_byte + next_byte))
-                    addr += 8  # hack hack hack
-                    met_ff = True
-                    self._description = "[skipped 8 bits after 0xFF] "
-            bit = stream.readBits(addr, 1, endian)
-            value <<= 1
-            value += bit
-            self._size += 1
-            addr += 1
+        for i in range(nbits):
+            value = (value << 1) + self.readBit()
         self.createValue = lambda: value
-        self.realvalue = tree[(self.size, value)]
-        if met_ff:
-            self._size += 8
 
 
 class JpegHuffmanImageUnit(FieldSet):
@@ -337,12 +353,13 @@ class JpegHuffmanImageUnit(FieldSet):
             field.realvalue, field.value) + field._description
         yield field
         if field.realvalue != 0:
-            extra = Bits(self, "dc_data_extra", field.realvalue)
+            extra = ExtraBits(self, "dc_data_extra", field.realvalue)
             if extra.value < 2**(field.realvalue - 1):
                 corrected_value = extra.value + (-1 << field.realvalue) + 1
             else:
                 corrected_value = extra.value
-            extra._description = "Extra Bits: Corrected DC Value %i" % corrected_value
+            extra._description = "Extra Bits: Corrected DC Value %i" % corrected_value + \
+                extra._description
             yield extra
         data = []
         while len(data) < 63:
@@ -360,13 +377,14 @@ class JpegHuffmanImageUnit(FieldSet):
                 value_r, value_s, field.value) + field._description
             yield field
             if value_s != 0:
-                extra = Bits(self, "ac_data_extra[%s" %
-                             field.name.split('[')[1], value_s)
+                extra = ExtraBits(self, "ac_data_extra[%s" %
+                                  field.name.split('[')[1], value_s)
                 if extra.value < 2**(value_s - 1):
                     corrected_value = extra.value + (-1 << value_s) + 1
                 else:
                     corrected_value = extra.value
-                extra._description = "Extra Bits: Corrected AC Value %i" % corrected_value
+                extra._description = "Extra Bits: Corrected AC Value %i" % corrected_value + \
+                    extra._description
                 data.append(corrected_value)
                 yield extra
             else:
-- 
2.43.0


From fb47d74bd47756c48ac83bdd4157351dd82e1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:24 +0000
Subject: [PATCH 139/299] fix: only items of the second IPTC record are texts
 of the metadata

---
 hachoir/metadata/jpeg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index bad0b97..a29bb3d 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -267,6 +267,9 @@ class JpegMetadata(RootMetadata):
             # Skip incomplete field
             if "tag" not in field or "content" not in field:
                 continue
+            # Skip the envelope: its tags have another meaning
+            if field["dataset_nb"].value != 2:
+                continue
 
             # Get value
             value = field["content"].value
-- 
2.43.0


From 5ccc51260e85a2a8b6a49bfa474f070b3a5dbaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:24 +0000
Subject: [PATCH 140/299] fix: GPS times have minutes of two digits

---
 hachoir/metadata/jpeg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index a29bb3d..870e4cf 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -240,7 +240,7 @@ class JpegMetadata(RootMetadata):
             elif tag == "GPSDateStamp":
                 datestamp = values[0]
             elif tag == "GPSTimeStamp":
-                timestamp = ':'.join(str(int(x)) for x in values)
+                timestamp = ':'.join('%02d' % int(x) for x in values)
         if latitude_ref and latitude:
             value = deg2float(*latitude)
             if latitude_ref < 0:
-- 
2.43.0


From a284e88d8aa080aa35c7fd921d795931d5f541d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 141/299] fix: JPEG scans may have any component of the frame

---
 hachoir/parser/image/jpeg.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 02f0378..ee603a6 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -203,10 +203,7 @@ class AdobeChunk(FieldSet):
 class SOSComponent(FieldSet):
 
     def createFields(self):
-        comp_id = UInt8(self, "component_id")
-        yield comp_id
-        if not (1 <= comp_id.value <= self["../nr_components"].value):
-            raise ParserError("JPEG error: Invalid component-id")
+        yield UInt8(self, "component_id")
         yield Bits(self, "dc_coding_table", 4, "DC entropy coding table destination selector")
         yield Bits(self, "ac_coding_table", 4, "AC entropy coding table destination selector")
 
-- 
2.43.0


From a88708e9521e042be8579f572f9bfc810ea0c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 142/299] fix: JPEG scans of one component are not interleaved

---
 hachoir/parser/image/jpeg.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index ee603a6..05dd33f 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -428,20 +428,27 @@ class JpegImageData(FieldSet):
                         self.huffman_tables[table["table_class"].value, table[
                             "index"].value] = table.tree
             components = []  # sos_comp, samples
-            max_vert = 0
-            max_horiz = 0
+            frame_vert = max(sof_comp["vert_sample"].value
+                             for sof_comp in self.frame.array("component"))
+            frame_horiz = max(sof_comp["horiz_sample"].value
+                              for sof_comp in self.frame.array("component"))
             for component in self.scan.array("component"):
                 for sof_comp in self.frame.array("component"):
                     if sof_comp["component_id"].value == component["component_id"].value:
                         vert = sof_comp["vert_sample"].value
                         horiz = sof_comp["horiz_sample"].value
                         components.append((component, vert * horiz))
-                        max_vert = max(max_vert, vert)
-                        max_horiz = max(max_horiz, horiz)
-            mcu_height = alignValue(
-                self.frame["height"].value, 8 * max_vert) // (8 * max_vert)
-            mcu_width = alignValue(
-                self.frame["width"].value, 8 * max_horiz) // (8 * max_horiz)
+            height = self.frame["height"].value
+            width = self.frame["width"].value
+            if len(components) == 1:
+                # not interleaved: a unit is one block of the component,
+                # blocks outside the image are not written
+                components = [(components[0][0], 1)]
+                height = alignValue(height * vert, frame_vert) // frame_vert
+                width = alignValue(width * horiz, frame_horiz) // frame_horiz
+                frame_vert = frame_horiz = 1
+            mcu_height = alignValue(height, 8 * frame_vert) // (8 * frame_vert)
+            mcu_width = alignValue(width, 8 * frame_horiz) // (8 * frame_horiz)
             if self.restart_interval and self.restart_offset > 0:
                 mcu_number = self.restart_interval * self.restart_offset
             else:
-- 
2.43.0


From 0ee3aeea004606f1773cf8bccec6fa2a80a4f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 143/299] fix: restart markers of JPEG are counted in each scan

---
 hachoir/parser/image/jpeg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 05dd33f..762aaee 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -621,6 +621,7 @@ class JpegFile(Parser):
                     self.warning("Missing or invalid SOF marker before SOS!")
                     continue
                 scan = chunk["content"]
+                restart_offset = 0
                 # hack: scan only the fields seen so far (in _fields): don't
                 # use the generator
                 if "restart_interval" in self._fields:
-- 
2.43.0


From 10764712c564e154bbc839d0752b7ecee12f0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 144/299] fix: thumbnails of JFIF have 3 bytes per pixel and no
 palette

---
 hachoir/parser/image/jpeg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 762aaee..35e01c3 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -19,7 +19,6 @@ from hachoir.field import (FieldSet, ParserError, FieldError,
                            UInt8, UInt16, Enum, Field,
                            Bit, Bits, NullBits, NullBytes, PaddingBits,
                            String, RawBytes)
-from hachoir.parser.image.common import PaletteRGB
 from hachoir.core.endian import BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.parser.image.exif import Exif
@@ -119,8 +118,7 @@ class JpegChunkApp0(FieldSet):
         yield UInt8(self, "thumb_h", "Thumbnail height")
         thumb_size = self["thumb_w"].value * self["thumb_h"].value
         if thumb_size != 0:
-            yield PaletteRGB(self, "thumb_palette", 256)
-            yield RawBytes(self, "thumb_data", thumb_size, "Thumbnail data")
+            yield RawBytes(self, "thumb_data", thumb_size * 3, "Thumbnail data (RGB)")
 
 
 class Ducky(FieldSet):
-- 
2.43.0


From 884c7cbc90ef9ba9612807ceeb0165a427916a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 145/299] fix: JFIF and TIFF resolutions per centimetre are
 shown per inch

---
 hachoir/metadata/image.py | 13 ++++++++-----
 hachoir/metadata/jpeg.py  |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 5386e92..9ae7cc4 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -65,8 +65,6 @@ class TiffMetadata(RootMetadata):
         "Software": "producer",
         "ImageDescription": "comment",
         "DocumentName": "title",
-        "XResolution": "width_dpi",
-        "YResolution": "height_dpi",
         "DateTime": "creation_date",
     }
 
@@ -81,11 +79,18 @@ class TiffMetadata(RootMetadata):
         if 'BitsPerSample' in attr and 'SamplesPerPixel' in attr:
             self.bits_per_pixel = attr[
                 'BitsPerSample'] * attr['SamplesPerPixel']
+        # Resolution per inch or per centimeter
+        factor = 2.54 if attr.get("ResolutionUnit") == 3 else 1
+        if attr.get("XResolution"):
+            self.width_dpi = round(attr["XResolution"] * factor)
+        if attr.get("YResolution"):
+            self.height_dpi = round(attr["YResolution"] * factor)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry, attr):
         tag = entry["tag"].display
-        if tag in {"BitsPerSample", "SamplesPerPixel"}:
+        if tag in {"BitsPerSample", "SamplesPerPixel", "ResolutionUnit",
+                   "XResolution", "YResolution"}:
             value = ifd.getEntryValues(entry)[0].value
             attr[tag] = value
             return
@@ -95,8 +100,6 @@ class TiffMetadata(RootMetadata):
         except KeyError:
             return
         value = ifd.getEntryValues(entry)[0].value
-        if tag in {"XResolution", "YResolution"}:
-            value = round(value)
         setattr(self, attrname, value)
 
 
diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index 870e4cf..2165a9e 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -170,8 +170,10 @@ class JpegMetadata(RootMetadata):
         self.format_version = "JFIF %u.%02u" \
             % (app0["ver_maj"].value, app0["ver_min"].value)
         if "y_density" in app0:
-            self.width_dpi = app0["x_density"].value
-            self.height_dpi = app0["y_density"].value
+            # Resolution per inch or per centimeter
+            factor = 2.54 if app0["units"].value == 2 else 1
+            self.width_dpi = round(app0["x_density"].value * factor)
+            self.height_dpi = round(app0["y_density"].value * factor)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry):
-- 
2.43.0


From 207c5aa094bfb5a046ecb5ac9a57dc77e9b059a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:28 +0000
Subject: [PATCH 146/299] fix: TIFF directories without image data do not hide
 the images of the next ones

---
 hachoir/parser/image/tiff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tiff.py b/hachoir/parser/image/tiff.py
index ce3bd28..1115a5e 100644
--- a/hachoir/parser/image/tiff.py
+++ b/hachoir/parser/image/tiff.py
@@ -78,7 +78,9 @@ class TiffFile(RootSeekableFieldSet, Parser):
         for ifd in self:
             if not isinstance(ifd, IFD):
                 continue
-            offs = (off for off, byte in getStrips(ifd))
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
+                continue
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
-- 
2.43.0


From 6ee92d4569ba2980dae8e8ae9c207e9d1289ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 147/299] fix: ELF program headers are read where the header
 says

---
 hachoir/parser/program/elf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/program/elf.py b/hachoir/parser/program/elf.py
index fcb3f39..628bfd3 100644
--- a/hachoir/parser/program/elf.py
+++ b/hachoir/parser/program/elf.py
@@ -348,6 +348,8 @@ class ElfFile(HachoirParser, RootSeekableFieldSet):
         yield ElfHeader(self, "header", "Header")
         self.is64bit = (self["header/class"].value == 2)
 
+        self.seekByte(self["header/phoff"].value, relative=False)
+
         for index in range(self["header/phnum"].value):
             if self.is64bit:
                 yield ProgramHeader64(self, "prg_header[]")
-- 
2.43.0


From fedd002623f30e19544f6aa86729de72d23c723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 148/299] fix: MS-DOS programs whose last page is full are not
 shown 512 bytes too short

---
 hachoir/parser/program/exe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index d0f8ad0..fea06ed 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -218,7 +218,8 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
             # TODO: Guess NE size
             return None
         else:
-            size = self["msdos/size_mod_512"].value + \
+            # a null number of bytes in the last page means a full page
+            size = (self["msdos/size_mod_512"].value or 512) + \
                 (self["msdos/size_div_512"].value - 1) * 512
             if size < 0:
                 return None
-- 
2.43.0


From e23fb14e6944143eb443a8b614a7c885f4636db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 149/299] fix: names of PE sections with a slash are found,
 names used twice do not hide the sections behind

---
 hachoir/parser/program/exe_pe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe_pe.py b/hachoir/parser/program/exe_pe.py
index 576d1a0..199f29b 100644
--- a/hachoir/parser/program/exe_pe.py
+++ b/hachoir/parser/program/exe_pe.py
@@ -69,8 +69,13 @@ class SectionHeader(FieldSet):
     def createSectionName(self):
         try:
             name = str(self["name"].value.strip("."))
+            # a slash is used to separate the names of a path
+            name = name.replace("/", "_")
             if name:
-                return "section_%s" % name
+                name = "section_%s" % name
+                if name in self.parent:
+                    name += "[]"
+                return name
         except Exception as err:
             self.warning(str(err))
         return "section[]"
-- 
2.43.0


From 0f64342cfc912f5c96b0e876812f15687266a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 150/299] fix: metadata of PE files use resources of a section
 of any name

---
 hachoir/parser/program/exe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/exe.py b/hachoir/parser/program/exe.py
index fea06ed..5351f70 100644
--- a/hachoir/parser/program/exe.py
+++ b/hachoir/parser/program/exe.py
@@ -175,8 +175,9 @@ class ExeFile(HachoirParser, RootSeekableFieldSet):
         if "pe_opt_header/resource/size" in self:
             if not self["pe_opt_header/resource/size"].value:
                 return None
-        if "section_rsrc" in self:
-            return self["section_rsrc"]
+        for field in self:
+            if isinstance(field, PE_Resource):
+                return field
         return None
 
     def createDescription(self):
-- 
2.43.0


From b4c941d9cac28bd698ce5989723275e2554e7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 151/299] fix: system of the Windows version information: the
 minor number is first

---
 hachoir/parser/program/exe_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index e943b81..c353e8f 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -102,8 +102,8 @@ class VersionInfoBinary(FieldSet):
         yield Bit(self, "special_build")
         yield NullBits(self, "reserved", 26)
 
-        yield Enum(textHandler(UInt16(self, "file_os_major"), hexadecimal), MAJOR_OS_NAME)
         yield Enum(textHandler(UInt16(self, "file_os_minor"), hexadecimal), MINOR_OS_NAME)
+        yield Enum(textHandler(UInt16(self, "file_os_major"), hexadecimal), MAJOR_OS_NAME)
         yield Enum(textHandler(UInt32(self, "file_type"), hexadecimal), FILETYPE_NAME)
         field = textHandler(UInt32(self, "file_subfile"), hexadecimal)
         if field.value == FILETYPE_DRIVER:
-- 
2.43.0


From 4d05d8ddfa84c4efdf0751b5e15c1e278d461f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 152/299] fix: subtypes of Windows drivers and fonts are chosen
 by the type of the file

---
 hachoir/parser/program/exe_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index c353e8f..1e01271 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -106,9 +106,9 @@ class VersionInfoBinary(FieldSet):
         yield Enum(textHandler(UInt16(self, "file_os_major"), hexadecimal), MAJOR_OS_NAME)
         yield Enum(textHandler(UInt32(self, "file_type"), hexadecimal), FILETYPE_NAME)
         field = textHandler(UInt32(self, "file_subfile"), hexadecimal)
-        if field.value == FILETYPE_DRIVER:
+        if self["file_type"].value == FILETYPE_DRIVER:
             field = Enum(field, DRIVER_SUBTYPE_NAME)
-        elif field.value == FILETYPE_FONT:
+        elif self["file_type"].value == FILETYPE_FONT:
             field = Enum(field, FONT_SUBTYPE_NAME)
         yield field
         yield TimestampUnix32(self, "date_ms")
-- 
2.43.0


From 260a67343f383cfda9b58fa05997d299f2bc5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 153/299] fix: Java instructions with a wide index have a text

---
 hachoir/parser/program/java.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 1ad9c6d..452ce86 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -414,11 +414,12 @@ class OpcodeSpecial_wide(JavaOpcode):
         yield UInt16(self, "index")
         if op == "iinc":
             yield Int16(self, "value")
-            self.createDisplay = lambda self: "%s(%i,%i)" % (
+
+    def createDisplay(self):
+        if "value" in self:
+            return "%s(%i,%i)" % (
                 self.op, self["index"].value, self["value"].value)
-        else:
-            self.createDisplay = lambda self: "%s(%i)" % (
-                self.op, self["index"].value)
+        return "%s(%i)" % (self.op, self["index"].value)
 
 
 class OpcodeSpecial_invokeinterface(JavaOpcode):
-- 
2.43.0


From 011d2739cd5a4457d9a74459ec36230f1a98b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 154/299] fix: Java exception handlers for anything and classes
 without a super class are shown

---
 hachoir/parser/program/java.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 452ce86..b009f61 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -1154,7 +1154,8 @@ class ExceptionTableEntry(FieldSet):
         yield textHandler(UInt16(self, "start_pc"), hexadecimal)
         yield textHandler(UInt16(self, "end_pc"), hexadecimal)
         yield textHandler(UInt16(self, "handler_pc"), hexadecimal)
-        yield CPIndex(self, "catch_type", target_types="Class")
+        yield CPIndex(self, "catch_type", target_types="Class",
+                      allow_zero=True)
 
 
 class InnerClassesEntry(StaticFieldSet):
@@ -1344,7 +1345,8 @@ class JavaCompiledClassFile(Parser):
         yield Bit(self, "public", description="Declared public; may be accessed from outside its package. ")
 
         yield CPIndex(self, "this_class", "Class name", target_types="Class")
-        yield CPIndex(self, "super_class", "Super class name", target_types="Class")
+        yield CPIndex(self, "super_class", "Super class name", target_types="Class",
+                      allow_zero=True)
         yield UInt16(self, "interfaces_count", "Number of implemented interfaces")
         if self["interfaces_count"].value > 0:
             yield FieldArray(self, "interfaces", CPIndex,
-- 
2.43.0


From 4387b03a8f88fcdafadd3d6203a3a918140e6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:14 +0000
Subject: [PATCH 155/299] fix: Java fields have a description

---
 hachoir/parser/program/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index b009f61..9b9dc35 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -935,8 +935,8 @@ class FieldInfo(FieldSet):
             if self[mod].value:
                 bits.append(mod)
         bits.append(parse_field_descriptor(
-            self['descriptor_index'].rawvalue()),
-            name=self['name_index'].rawvalue())
+            self['descriptor_index'].rawvalue(),
+            name=self['name_index'].rawvalue()))
         return ' '.join(bits)
 
 
-- 
2.43.0


From 3ea0b7e737a6a4b72d59e9fc6b6518f16941e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:32 +0000
Subject: [PATCH 156/299] fix: Windows version information whose size is not a
 multiple of 4 is shown

---
 hachoir/parser/program/exe_res.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index 1e01271..bb6410a 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -124,7 +124,10 @@ class VersionInfoNode(FieldSet):
 
     def __init__(self, parent, name, is_32bit=True):
         FieldSet.__init__(self, parent, name)
-        self._size = alignValue(self["size"].value, 4) * 8
+        # the last node is not always aligned
+        self._size = min(alignValue(self["size"].value, 4) * 8,
+                         max(parent.size - parent.current_size,
+                             self["size"].value * 8))
         self.is_32bit = is_32bit
 
     def createFields(self):
-- 
2.43.0


From a4d1c2913b6da878d28b05732c30ffab596c228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 157/299] fix: sectors of OLE2 files of version 4 follow a
 header of a whole sector

---
 hachoir/parser/misc/ole2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index bfc1f7d..ac277d5 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -121,6 +121,7 @@ class DIFat(SeekableFieldSet):
         for ctr in range(self.count):
             # this is relative to real DIFAT start
             self.seekBit(NB_DIFAT * SECT.static_size +
+                         self.parent.header_size - HEADER_SIZE +
                          self.parent.sector_size * difat_sect)
             for sect_index in range(entries_per_sect):
                 yield SECT(self, "index[%u]" % (index + sect_index))
@@ -227,6 +228,7 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
 
         # Configure values
         self.sector_size = (8 << header["bb_shift"].value)
+        self.header_size = max(HEADER_SIZE, self.sector_size)
         self.fat_count = header["bb_count"].value
         self.items_per_bbfat = self.sector_size // SECT.static_size
         self.ss_size = (8 << header["sb_shift"].value)
@@ -382,7 +384,7 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
         if max_block in SECT.SPECIALS:
             return None
         else:
-            return HEADER_SIZE + (max_block + 1) * self.sector_size
+            return self.header_size + (max_block + 1) * self.sector_size
 
     def seekBlock(self, block):
-        self.seekBit(HEADER_SIZE + block * self.sector_size)
+        self.seekBit(self.header_size + block * self.sector_size)
-- 
2.43.0


From fcfb2f26f1d1b21110f7fceac0d1512326a7952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 158/299] fix: size of an OLE2 file ends with its last used
 sector

---
 hachoir/parser/misc/ole2.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/misc/ole2.py b/hachoir/parser/misc/ole2.py
index ac277d5..fd17fa8 100644
--- a/hachoir/parser/misc/ole2.py
+++ b/hachoir/parser/misc/ole2.py
@@ -375,13 +375,14 @@ class OLE2_File(HachoirParser, RootSeekableFieldSet):
             start += count
 
     def createContentSize(self):
-        max_block = 0
+        max_block = None
+        block = 0
         for fat in self.array("bbfat"):
             for entry in fat:
-                block = entry.value
-                if block not in SECT.SPECIALS:
-                    max_block = max(block, max_block)
-        if max_block in SECT.SPECIALS:
+                if entry.value != SECT.UNUSED:
+                    max_block = block
+                block += 1
+        if max_block is None:
             return None
         else:
             return self.header_size + (max_block + 1) * self.sector_size
-- 
2.43.0


From d07845188ff3e7b9ede6d7cae2093406f2d59d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 159/299] fix: size of a thumbnail of an OLE2 summary does not
 count itself

---
 hachoir/parser/misc/msoffice_summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/msoffice_summary.py b/hachoir/parser/misc/msoffice_summary.py
index 34c7a35..4ec89de 100644
--- a/hachoir/parser/misc/msoffice_summary.py
+++ b/hachoir/parser/misc/msoffice_summary.py
@@ -155,10 +155,10 @@ class Thumbnail(FieldSet):
 
     def __init__(self, *args):
         FieldSet.__init__(self, *args)
-        self._size = self["size"].value * 8
+        self._size = (4 + self["size"].value) * 8
 
     def createFields(self):
-        yield filesizeHandler(UInt32(self, "size"))
+        yield filesizeHandler(UInt32(self, "size", "Size without this field"))
         yield Enum(Int32(self, "format"), self.FORMAT_NAME)
         if self["format"].value == self.FORMAT_CLIPBOARD:
             yield Enum(UInt32(self, "dib_format"), self.DIB_FORMAT)
-- 
2.43.0


From 7e76042040df1ae9f8e297c77209e20b1d813f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 160/299] fix: types of the properties of a big endian OLE2
 summary are shown

---
 hachoir/parser/misc/msoffice_summary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/misc/msoffice_summary.py b/hachoir/parser/misc/msoffice_summary.py
index 4ec89de..d810e15 100644
--- a/hachoir/parser/misc/msoffice_summary.py
+++ b/hachoir/parser/misc/msoffice_summary.py
@@ -259,12 +259,14 @@ class PropertyContent(FieldSet):
 
     def createFields(self):
         self.osconfig = self.parent.osconfig
-        if True:
+        if self.endian == BIG_ENDIAN:
+            yield NullBits(self, "padding", 32 - 12 - 1)
+            yield Bit(self, "is_vector")
+            yield Enum(Bits(self, "type", 12), self.TYPE_NAME)
+        else:
             yield Enum(Bits(self, "type", 12), self.TYPE_NAME)
             yield Bit(self, "is_vector")
             yield NullBits(self, "padding", 32 - 12 - 1)
-        else:
-            yield Enum(Bits(self, "type", 32), self.TYPE_NAME)
         tag = self["type"].value
         kw = {}
         try:
-- 
2.43.0


From 97e8936e1997a576a6255164a67a74d757b16ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 161/299] fix: metadata of OLE2 documents show the system of
 the summary

---
 hachoir/metadata/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index bffdd3a..fe0c2d1 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -152,8 +152,8 @@ class OLE2_Metadata(RootMetadata):
 
     @fault_tolerant
     def useSummary(self, summary, is_doc_summary):
-        if "os" in summary:
-            self.os = summary["os"].display
+        if "os_type" in summary:
+            self.os = summary["os_type"].display
         if "section[0]" not in summary:
             return
         summary = summary["section[0]"]
-- 
2.43.0


From 01ce918f20aebabe2fe7fb48068184c33f00430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 162/299] fix: OLE2 streams with an endian mark are valid

---
 hachoir/parser/misc/ole2_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ole2_util.py b/hachoir/parser/misc/ole2_util.py
index d55859c..3d8515c 100644
--- a/hachoir/parser/misc/ole2_util.py
+++ b/hachoir/parser/misc/ole2_util.py
@@ -25,8 +25,8 @@ class OLE2FragmentParser(HachoirParser, RootSeekableFieldSet):
 
     def validate(self):
         if self.ENDIAN_CHECK:
-            if self["endian"].value not in ["\xFF\xFE", "\xFE\xFF"]:
-                return "Unknown endian value %s" % self["endian"].value.encode('hex')
+            if self["endian"].value not in (b"\xFF\xFE", b"\xFE\xFF"):
+                return "Unknown endian value %s" % self["endian"].value.hex()
         return True
 
 
-- 
2.43.0


From d8171e498551744bc2d88f4ef6f72e8449ec5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 163/299] fix: RAR block flags are read from the bits where
 they are

---
 hachoir/parser/archive/rar.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 3bb7e00..ccb37b5 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -66,8 +66,8 @@ def formatRARVersion(field):
 
 
 def commonFlags(s):
-    yield Bit(s, "has_added_size", "Additional field indicating additional size")
     yield Bit(s, "is_ignorable", "Old versions of RAR should ignore this block when copying data")
+    yield Bit(s, "has_added_size", "Additional field indicating additional size")
 
 
 class ArchiveFlags(StaticFieldSet):
@@ -149,14 +149,14 @@ class FileFlags(FieldSet):
         yield Bit(self, "is_solid", "Information from previous files is used (solid flag)")
         # The 3 following lines are what blocks more staticity
         yield Enum(Bits(self, "dictionary_size", 3, "Dictionary size"), DICTIONARY_SIZE)
-        for bit in commonFlags(self):
-            yield bit
         yield Bit(self, "is_large", "file64 operations needed")
         yield Bit(self, "is_unicode", "Filename also encoded using Unicode")
         yield Bit(self, "has_salt", "Has salt for encryption")
         yield Bit(self, "uses_file_version", "File versioning is used")
         yield Bit(self, "has_ext_time", "Extra time ??")
         yield Bit(self, "has_ext_flags", "Extra flag ??")
+        for bit in commonFlags(self):
+            yield bit
 
 
 def fileFlags(s):
@@ -239,11 +239,10 @@ class EndFlags(StaticFieldSet):
         (Bit, "has_data_crc", "Whether a CRC value is present"),
         (Bit, "rev_space"),
         (Bit, "has_vol_number", "Whether the volume number is present"),
-        (Bits, "unused[]", 4),
-        (Bit, "has_added_size", "Additional field indicating additional size"),
+        (Bits, "unused[]", 10),
         (Bit, "is_ignorable",
          "Old versions of RAR should ignore this block when copying data"),
-        (Bits, "unused[]", 6),
+        (Bit, "has_added_size", "Additional field indicating additional size"),
     )
 
 
@@ -255,10 +254,9 @@ class BlockFlags(FieldSet):
     static_size = 16
 
     def createFields(self):
-        yield textHandler(Bits(self, "unused[]", 8, "Unused flag bits"), hexadecimal)
-        yield Bit(self, "has_added_size", "Additional field indicating additional size")
-        yield Bit(self, "is_ignorable", "Old versions of RAR should ignore this block when copying data")
-        yield Bits(self, "unused[]", 6)
+        yield textHandler(Bits(self, "unused[]", 14, "Unused flag bits"), hexadecimal)
+        for bit in commonFlags(self):
+            yield bit
 
 
 class Block(FieldSet):
-- 
2.43.0


From 60a6d494d443615cddd206ef35aefd84fb83597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 164/299] fix: salt of encrypted RAR files has 8 bytes

---
 hachoir/parser/archive/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index ccb37b5..b70e7a3 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -206,7 +206,7 @@ def specialHeader(s, is_file):
     # Start additional fields from unrar - file only
     if is_file:
         if s["flags/has_salt"].value:
-            yield textHandler(UInt8(s, "salt", "Salt"), hexadecimal)
+            yield RawBytes(s, "salt", 8, "Salt")
         if s["flags/has_ext_time"].value:
             yield ExtTime(s, "extra_time", "Extra time info")
 
-- 
2.43.0


From d06d64c863be29c404b1870206c94a945734060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 165/299] fix: sizes of large RAR files: high part of the
 compressed size, then of the other

---
 hachoir/parser/archive/rar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index b70e7a3..656297f 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -8,7 +8,7 @@ Author: Christophe Gisquet
 from hachoir.parser import Parser
 from hachoir.field import (StaticFieldSet, FieldSet,
                            Bit, Bits, Enum,
-                           UInt8, UInt16, UInt32, UInt64,
+                           UInt8, UInt16, UInt32,
                            String, TimeDateMSDOS32,
                            NullBytes, NullBits, RawBytes)
 from hachoir.core.text_handler import textHandler, filesizeHandler, hexadecimal
@@ -193,7 +193,8 @@ def specialHeader(s, is_file):
 
     # Start additional field from unrar
     if s["flags/is_large"].value:
-        yield filesizeHandler(UInt64(s, "large_size", "Extended 64bits filesize"))
+        yield UInt32(s, "high_compressed_size", "High 32 bits of the compressed size")
+        yield UInt32(s, "high_uncompressed_size", "High 32 bits of the uncompressed size")
 
     # End additional field
     size = s["filename_length"].value
@@ -219,7 +220,7 @@ def fileBody(s):
     # File compressed data
     size = s["compressed_size"].value
     if s["flags/is_large"].value:
-        size += s["large_size"].value
+        size += s["high_compressed_size"].value << 32
     if size > 0:
         yield RawBytes(s, "compressed_data", size, "File compressed data")
 
@@ -298,7 +299,7 @@ class Block(FieldSet):
         if t == 0x74 or t == 0x7A:
             self._size += 8 * self["compressed_size"].value
             if "is_large" in self["flags"] and self["flags/is_large"].value:
-                self._size += 8 * self["large_size"].value
+                self._size += 8 * (self["high_compressed_size"].value << 32)
         elif "has_added_size" in self:
             self._size += 8 * self["added_size"].value
         # TODO: check if any other member is needed here
-- 
2.43.0


From 6317e5e7426e5a65369c85cbf6e2c5faa5676ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 166/299] fix: size of unknown RAR blocks counts their added
 size

---
 hachoir/parser/archive/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 656297f..44ddd86 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -300,7 +300,7 @@ class Block(FieldSet):
             self._size += 8 * self["compressed_size"].value
             if "is_large" in self["flags"] and self["flags/is_large"].value:
                 self._size += 8 * (self["high_compressed_size"].value << 32)
-        elif "has_added_size" in self:
+        elif "added_size" in self:
             self._size += 8 * self["added_size"].value
         # TODO: check if any other member is needed here
 
-- 
2.43.0


From 8ddd7864b547add66533598da9fc129a78eb2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 167/299] fix: content of cabinet folders has the files of the
 folder

---
 hachoir/parser/archive/cab.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..298ab47 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -246,16 +246,14 @@ class CabFile(Parser):
             padding = self.seekByte(folder["offset"].value)
             if padding:
                 yield padding
-            files = []
-            for file in files:
-                if file["folder_index"].value == index:
-                    files.append(file)
+            folder_files = [file for file in files
+                            if file["folder_index"].value == index]
             if i + 1 == len(folders):
                 size = (self.size // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, files, size=size * 8)
+            yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 592c06d523a592f25ab1fc5ee9b9b9f4282619c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 168/299] fix: content of uncompressed cabinet folders is read

---
 hachoir/parser/archive/cab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 298ab47..02491b4 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -169,7 +169,7 @@ class FolderData(FieldSet):
         self.folder = folder  # Folder fieldset
 
     def createFields(self):
-        self.uncompressed_data = ""
+        self.uncompressed_data = b""
         for index in range(self.folder["data_blocks"].value):
             block = DataBlock(self, "block[]")
             for i in block:
-- 
2.43.0


From e521f472dc8c6ddeef9d560dc3b088d23d0bcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 169/299] fix: MSZIP blocks of cabinets can have several
 deflate blocks

---
 hachoir/parser/archive/cab.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 02491b4..8020c32 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -119,11 +119,15 @@ class DataBlock(FieldSet):
             self.parent.uncompressed_data += self["data"].value
         elif compr_method == 1:  # MSZIP
             yield String(self, "mszip_signature", 2, "MSZIP Signature (CK)")
-            yield DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            block = DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            yield block
+            while not block["final"].value:
+                block = DeflateBlock(self, "deflate_block[]", block.uncomp_data)
+                yield block
             padding = paddingSize(self.current_size, 8)
             if padding:
                 yield PaddingBits(self, "padding[]", padding)
-            self.parent.uncompressed_data = self["deflate_block"].uncomp_data
+            self.parent.uncompressed_data = block.uncomp_data
         elif compr_method == 2:  # Quantum
             yield RawBytes(self, "compr_data", self["size"].value, "Compressed Folder Data")
         elif compr_method == 3:  # LZX
-- 
2.43.0


From dbcba184c16d7f279eaf4966d518f694a0065d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 170/299] fix: metadata of deflated cabinets have the
 compression

---
 hachoir/metadata/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/archive.py b/hachoir/metadata/archive.py
index 4905f31..331ab61 100644
--- a/hachoir/metadata/archive.py
+++ b/hachoir/metadata/archive.py
@@ -149,7 +149,7 @@ class CabMetadata(MultipleMetadata):
     @fault_tolerant
     def useFolder(self, folder):
         compr = folder["compr_method"].display
-        if folder["compr_method"].value != 0:
+        if "compr_level" in folder:
             compr += " (level %u)" % folder["compr_level"].value
         self.compression = compr
 
-- 
2.43.0


From 602d0426c1bfdfd3913fcb8b2b84971b6035c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 171/299] fix: RPM headers follow the signature at a multiple
 of 8 bytes

---
 hachoir/parser/archive/rpm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index 5f0d39c..ab722ad 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -10,6 +10,7 @@ from hachoir.field import (FieldSet, ParserError,
                            NullBytes, Bytes, RawBytes, SubFile,
                            Character, CString, String)
 from hachoir.core.endian import BIG_ENDIAN
+from hachoir.core.tools import paddingSize
 from hachoir.parser.archive.gzip_parser import GzipParser
 from hachoir.parser.archive.bzip2_parser import Bzip2Parser
 
@@ -257,6 +258,9 @@ class RpmFile(Parser):
         yield UInt16(self, "signature_type", "Type of signature")
         yield NullBytes(self, "reserved", 16, "Reserved")
         yield PropertySet(self, "checksum", "Checksum (signature)")
+        padding = paddingSize(self.current_size // 8, 8)
+        if padding:
+            yield NullBytes(self, "padding", padding)
         yield PropertySet(self, "header", "Header")
 
         if self._size is None:  # TODO: is it possible to handle piped input?
-- 
2.43.0


From f9fbca687ab8c5d077ab9c7e517d61beafe3a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 172/299] fix: size of RPM properties does not depend on their
 order

---
 hachoir/parser/archive/rpm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/rpm.py b/hachoir/parser/archive/rpm.py
index ab722ad..68df5bf 100644
--- a/hachoir/parser/archive/rpm.py
+++ b/hachoir/parser/archive/rpm.py
@@ -56,6 +56,7 @@ class ItemContent(FieldSet):
 
 
 class Item(FieldSet):
+    static_size = 16 * 8
     type_name = {
         0: "NULL",
         1: "CHAR",
@@ -186,7 +187,9 @@ class PropertySet(FieldSet):
 
     def __init__(self, parent, name, *args):
         FieldSet.__init__(self, parent, name, *args)
-        self._size = self["content_item[1]"].address + self["size"].value * 8
+        self._size = (self["size"].address + self["size"].size
+                      + self["count"].value * ItemHeader.static_size
+                      + self["size"].value * 8)
 
     def createFields(self):
         # Read chunk header
-- 
2.43.0


From 6b73c29392faa67250dc7eda9d9e045f67802a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 173/299] fix: empty files of Mozilla archives do not hide the
 next ones

---
 hachoir/parser/archive/mozilla_ar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/mozilla_ar.py b/hachoir/parser/archive/mozilla_ar.py
index 3ee0217..2fa5bbf 100644
--- a/hachoir/parser/archive/mozilla_ar.py
+++ b/hachoir/parser/archive/mozilla_ar.py
@@ -61,5 +61,6 @@ class MozillaArchive(HachoirParser, RootSeekableFieldSet):
             entry = IndexEntry(self, "index_entry[]")
             yield entry
             current_index_size += entry.size // 8
-            self.seekByte(entry["offset"].value, False)
-            yield RawBytes(self, "file[]", entry["length"].value)
+            if entry["length"].value:
+                self.seekByte(entry["offset"].value, False)
+                yield RawBytes(self, "file[]", entry["length"].value)
-- 
2.43.0


From dd47528f65269e23b09bab2e25be8abaa87c9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 174/299] fix: empty files of cabinets do not hide the files
 behind

---
 hachoir/parser/archive/cab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 8020c32..cd0745e 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -145,6 +145,8 @@ class FolderParser(Parser):
 
     def createFields(self):
         for file in sorted(self.files, key=lambda x: x["folder_offset"].value):
+            if not file["filesize"].value:
+                continue
             padding = self.seekByte(file["folder_offset"].value)
             if padding:
                 yield padding
-- 
2.43.0


From df81c882afb754e09cfe7a216ea77486479c4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 175/299] fix: files of cabinet folders are bytes

---
 hachoir/parser/archive/cab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index cd0745e..3177f62 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -169,7 +169,7 @@ class FolderData(FieldSet):
             if folder["compr_method"].value == 3:  # LZX
                 self.uncompressed_data = lzx_decompress(
                     self["block[0]/data"].getSubIStream(), folder["compr_level"].value)
-            return StringInputStream(self.uncompressed_data, source=source, **args)
+            return StringInputStream(bytes(self.uncompressed_data), source=source, **args)
         self.setSubIStream(createInputStream)
         self.files = files
         self.folder = folder  # Folder fieldset
-- 
2.43.0


From c7dff6616bde3b4c10732e0581c727c92a15b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 176/299] fix: empty files of Starfighter archives are shown

---
 hachoir/parser/archive/prs_pak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/prs_pak.py b/hachoir/parser/archive/prs_pak.py
index 8a89ccf..4b46b9c 100644
--- a/hachoir/parser/archive/prs_pak.py
+++ b/hachoir/parser/archive/prs_pak.py
@@ -18,7 +18,8 @@ class FileEntry(FieldSet):
     def createFields(self):
         yield String(self, "filename", 56, truncate="\0")
         yield filesizeHandler(UInt32(self, "size"))
-        yield SubFile(self, "data", self["size"].value, filename=self["filename"].value)
+        if self["size"].value:
+            yield SubFile(self, "data", self["size"].value, filename=self["filename"].value)
 
     def createDescription(self):
         return self["filename"].value
-- 
2.43.0


From 94f9f79fd6ddccdef9aaf29f1320fa7bb3592811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 177/299] fix: BOM files without blank entries are shown

---
 hachoir/parser/archive/bomstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/bomstore.py b/hachoir/parser/archive/bomstore.py
index 483c58f..d1c3861 100644
--- a/hachoir/parser/archive/bomstore.py
+++ b/hachoir/parser/archive/bomstore.py
@@ -35,7 +35,8 @@ class BomTrailer(FieldSet):
         nspace = self['num_spaces'].value
         for i in range(nobj + 1):
             yield BomTrailerEntry(self, "entry[]")
-        yield NullBytes(self, "blank_entries", (nspace - nobj - 1) * (BomTrailerEntry.static_size // 8))
+        if nspace - nobj - 1:
+            yield NullBytes(self, "blank_entries", (nspace - nobj - 1) * (BomTrailerEntry.static_size // 8))
         yield UInt32(self, "num_trail")
         ntrail = self['num_trail'].value
         for i in range(ntrail):
-- 
2.43.0


From db5e5a79551d7f896c9f84d939b8a59fd098b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 178/299] fix: AIFF chunks of odd size: the byte of padding is
 a field of its own

---
 hachoir/parser/audio/aiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/audio/aiff.py b/hachoir/parser/audio/aiff.py
index d95b92c..4662431 100644
--- a/hachoir/parser/audio/aiff.py
+++ b/hachoir/parser/audio/aiff.py
@@ -72,7 +72,7 @@ def parseVersion(self):
 def parseSound(self):
     yield UInt32(self, "offset")
     yield UInt32(self, "block_size")
-    size = (self.size - self.current_size) // 8
+    size = 8 + self["size"].value - self.current_size // 8
     if size:
         yield RawBytes(self, "data", size)
 
@@ -104,10 +104,10 @@ class Chunk(FieldSet):
         if size:
             if self._parser:
                 yield from self._parser(self)
-                if size % 2:
-                    yield NullBytes(self, "padding", 1)
             else:
                 yield RawBytes(self, "data", size)
+            if size % 2:
+                yield NullBytes(self, "padding", 1)
 
 
 class AiffFile(Parser):
-- 
2.43.0


From 5e5b32fe8c7973d65eae841e418481f0baad26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 179/299] fix: Sun/NeXT sound without any sample: no empty
 field

---
 hachoir/parser/audio/au.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/au.py b/hachoir/parser/audio/au.py
index 2df0f8b..08e9164 100644
--- a/hachoir/parser/audio/au.py
+++ b/hachoir/parser/audio/au.py
@@ -84,7 +84,8 @@ class AuFile(Parser):
 
         size = min(self["data_size"].value,
                    (self.size - self.current_size) // 8)
-        yield RawBytes(self, "audio_data", size, "Audio data")
+        if 0 < size:
+            yield RawBytes(self, "audio_data", size, "Audio data")
 
     def createContentSize(self):
         if self["data_size"].value == 0xFFFFFFFF:
-- 
2.43.0


From c6f5bb1725e18f3ea394e9ce1f7c2cc0e63fb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 180/299] fix: Ogg page whose segments are all empty: no empty
 field

---
 hachoir/parser/container/ogg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 728b804..b8ffef1 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -252,7 +252,8 @@ class OggPage(FieldSet):
         yield UInt8(self, 'lacing_size')
         if self.lacing_size:
             yield Lacing(self, "lacing", size=self.lacing_size * 8)
-            yield Segments(self, "segments", size=self._size - self._current_size)
+            if self._current_size < self._size:
+                yield Segments(self, "segments", size=self._size - self._current_size)
 
     def validate(self):
         if self['capture_pattern'].value != "OggS":
-- 
2.43.0


From 27e853bb9775fc717431662f4f2f04794262f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 181/299] fix: FLAC without any frame: no empty field

---
 hachoir/parser/audio/flac.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index f440859..d793946 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -167,4 +167,5 @@ class FlacParser(Parser):
     def createFields(self):
         yield String(self, "signature", 4, charset="ASCII", description="FLAC signature: fLaC string")
         yield Metadata(self, "metadata")
-        yield Frames(self, "frames")
+        if not self.eof:
+            yield Frames(self, "frames")
-- 
2.43.0


From 88a937e25624df144f586bbce5bc72319a345cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 182/299] fix: Photoshop resources of one byte: their byte of
 padding is a field

---
 hachoir/parser/image/photoshop_metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 1879d37..c69ea1a 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -175,6 +175,9 @@ class Photoshop8BIM(FieldSet):
                 yield self.handler(self, "content", size=size * 8)
             else:
                 yield self.handler(self, "content")
+                size = (self.size - self.current_size) // 8
+                if size:
+                    yield RawBytes(self, "content_padding", size)
         else:
             yield RawBytes(self, "content", size)
 
-- 
2.43.0


From 6aeb68256c7cb59b285391a0ddf34b50e83a3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:11 +0000
Subject: [PATCH 183/299] fix: MP4 track runs whose samples have no field: no
 empty fields

---
 hachoir/parser/container/mp4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 178052c..3ebd2ac 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -609,8 +609,9 @@ class TrackRunBox(FieldSet):
             yield UInt32(self, "data_offset")
         if flags & 0x4:
             yield UInt32(self, "first_sample_flags")
-        for i in range(self["sample_count"].value):
-            yield TrackRunSample(self, "sample[]")
+        if flags & 0xf00:
+            for i in range(self["sample_count"].value):
+                yield TrackRunSample(self, "sample[]")
 
 
 # ISO/IEC 14496-12:2012 8.8.10
-- 
2.43.0


From 51a46e13dcc27ea50bd4ce3b74c0258881d0ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:36 +0000
Subject: [PATCH 184/299] fix: cabinet folders without any data: no empty field

---
 hachoir/parser/archive/cab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 3177f62..98d608c 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -259,7 +259,8 @@ class CabFile(Parser):
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
+            if size:
+                yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 69819063bf200a1eb070040d0e536b852f819291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 185/299] fix: TCP options: the end of the options has no
 length, and the bytes behind it are padding

---
 hachoir/parser/network/tcpdump.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index 52a84b6..acb5415 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -66,6 +66,7 @@ class ARP(Layer):
 
 
 class TCP_Option(FieldSet):
+    END = 0
     NOP = 1
     MAX_SEGMENT = 2
     WINDOW_SCALE = 3
@@ -73,6 +74,7 @@ class TCP_Option(FieldSet):
     TIMESTAMP = 8
 
     code_name = {
+        END: "End of options",
         NOP: "NOP",
         MAX_SEGMENT: "Max segment size",
         WINDOW_SCALE: "Window scale",
@@ -82,15 +84,15 @@ class TCP_Option(FieldSet):
 
     def __init__(self, *args):
         FieldSet.__init__(self, *args)
-        if self["code"].value != self.NOP:
-            self._size = self["length"].value * 8
-        else:
+        if self["code"].value in (self.END, self.NOP):
             self._size = 8
+        else:
+            self._size = max(self["length"].value, 2) * 8
 
     def createFields(self):
         yield Enum(UInt8(self, "code", "Code"), self.code_name)
         code = self["code"].value
-        if code == self.NOP:
+        if code in (self.END, self.NOP):
             return
         yield UInt8(self, "length", "Option size in bytes")
         if code == self.MAX_SEGMENT:
@@ -154,6 +156,10 @@ class TCP(Layer):
             option = TCP_Option(self, "option[]")
             yield option
             size -= option.size
+            if option["code"].value == TCP_Option.END:
+                break
+        if 0 < size:
+            yield NullBits(self, "padding", size)
 
     def parseNext(self, parent):
         return None
-- 
2.43.0


From 220f9d7b9a379a01786fc78b487e69d8372254d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 186/299] fix: network captures: the fraction of a second of a
 packet is in microseconds

---
 hachoir/parser/network/tcpdump.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index acb5415..de1f9b5 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -451,7 +451,7 @@ class Packet(FieldSet):
 
     def createFields(self):
         yield TimestampUnix32(self, "ts_epoch", "Timestamp (Epoch)")
-        yield UInt32(self, "ts_nanosec", "Timestamp (nano second)")
+        yield UInt32(self, "ts_nanosec", "Timestamp (micro second)")
         yield UInt32(self, "caplen", "length of portion present")
         yield UInt32(self, "len", "length this packet (off wire)")
 
@@ -467,9 +467,10 @@ class Packet(FieldSet):
             yield RawBytes(self, "data", size)
 
     def getTimestamp(self):
-        nano_sec = float(self["ts_nanosec"].value) / 100
+        # (in spite of its name, the field contains microseconds)
+        microsec = self["ts_nanosec"].value
         from datetime import timedelta
-        return self["ts_epoch"].value + timedelta(microseconds=nano_sec)
+        return self["ts_epoch"].value + timedelta(microseconds=microsec)
 
     def createDescription(self):
         t0 = self["/packet[0]"].getTimestamp()
-- 
2.43.0


From 717569662747a81950791c8e2a763d0bd8ad017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 187/299] fix: IPv4 fragments: only the first one starts with
 the header of the protocol

---
 hachoir/parser/network/tcpdump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/network/tcpdump.py b/hachoir/parser/network/tcpdump.py
index de1f9b5..102216a 100644
--- a/hachoir/parser/network/tcpdump.py
+++ b/hachoir/parser/network/tcpdump.py
@@ -373,6 +373,11 @@ class IPv4(IP):
         if size:
             yield RawBytes(self, "options", size)
 
+    def parseNext(self, parent):
+        if self["frag_ofst_lo"].value or self["frag_ofst_hi"].value:
+            return None
+        return IP.parseNext(self, parent)
+
     def createDescription(self):
         return "IPv4 (%s>%s)" % (self["src"].display, self["dst"].display)
 
-- 
2.43.0


From 281d0a9cc33402c1fb21e979f1d432b047e37aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:11 +0000
Subject: [PATCH 188/299] fix: the list of file extensions of the parsers is
 not empty

---
 hachoir/parser/parser_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/parser_list.py b/hachoir/parser/parser_list.py
index cf6b1d0..711ddf3 100644
--- a/hachoir/parser/parser_list.py
+++ b/hachoir/parser/parser_list.py
@@ -98,7 +98,7 @@ class ParserList(object):
             # Create file extension set
             extensions = set()
             for parser in self:
-                file_ext = parser.getParserTags().get(format, ())
+                file_ext = parser.getParserTags().get(format.replace("-", "_"), ())
                 file_ext = list(file_ext)
                 try:
                     file_ext.remove("")
-- 
2.43.0


From 3637be733dc117359d903520945f6983f0230591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:06 +0000
Subject: [PATCH 189/299] fix: flags of Flash functions are read from the bits
 where they are

---
 hachoir/parser/container/action_script.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/container/action_script.py b/hachoir/parser/container/action_script.py
index d006424..afdf79a 100644
--- a/hachoir/parser/container/action_script.py
+++ b/hachoir/parser/container/action_script.py
@@ -115,16 +115,16 @@ def parseDeclareFunctionV7(parent, size):
     argCount = UInt16(parent, "arg_count")
     yield argCount
     yield UInt8(parent, "reg_count")
-    yield Bits(parent, "reserved", 7)
-    yield Bit(parent, "preload_global")
-    yield Bit(parent, "preload_parent")
-    yield Bit(parent, "preload_root")
-    yield Bit(parent, "suppress_super")
-    yield Bit(parent, "preload_super")
-    yield Bit(parent, "suppress_arguments")
-    yield Bit(parent, "preload_arguments")
-    yield Bit(parent, "suppress_this")
     yield Bit(parent, "preload_this")
+    yield Bit(parent, "suppress_this")
+    yield Bit(parent, "preload_arguments")
+    yield Bit(parent, "suppress_arguments")
+    yield Bit(parent, "preload_super")
+    yield Bit(parent, "suppress_super")
+    yield Bit(parent, "preload_root")
+    yield Bit(parent, "preload_parent")
+    yield Bit(parent, "preload_global")
+    yield Bits(parent, "reserved", 7)
     for i in range(argCount.value):
         yield UInt8(parent, "register[]")
         yield CString(parent, "arg[]")
-- 
2.43.0


From ee50b72b3b4e3aa4ba5540dda511ad555fefb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:06 +0000
Subject: [PATCH 190/299] fix: Flash try blocks: place of the flags, sizes of
 16 bits, register or name

---
 hachoir/parser/container/action_script.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/container/action_script.py b/hachoir/parser/container/action_script.py
index afdf79a..0e10a53 100644
--- a/hachoir/parser/container/action_script.py
+++ b/hachoir/parser/container/action_script.py
@@ -132,18 +132,18 @@ def parseDeclareFunctionV7(parent, size):
 
 
 def parseTry(parent, size):
-    yield Bits(parent, "reserved", 5)
+    yield Bit(parent, "catch")
+    yield Bit(parent, "finally")
     catchInReg = Bit(parent, "catch_in_register")
     yield catchInReg
-    yield Bit(parent, "finally")
-    yield Bit(parent, "catch")
-    yield UInt8(parent, "try_size")
-    yield UInt8(parent, "catch_size")
-    yield UInt8(parent, "finally_size")
+    yield Bits(parent, "reserved", 5)
+    yield UInt16(parent, "try_size")
+    yield UInt16(parent, "catch_size")
+    yield UInt16(parent, "finally_size")
     if catchInReg.value:
-        yield CString(parent, "name")
-    else:
         yield UInt8(parent, "register")
+    else:
+        yield CString(parent, "name")
 
 
 def parsePushData(parent, size):
-- 
2.43.0


From 5d67e687a1e4b9c565fdf1e071ba4381617eb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:06 +0000
Subject: [PATCH 191/299] fix: pictures of Flash files without transparency

---
 hachoir/parser/container/swf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/container/swf.py b/hachoir/parser/container/swf.py
index 1c03812..3f7fbc4 100644
--- a/hachoir/parser/container/swf.py
+++ b/hachoir/parser/container/swf.py
@@ -205,7 +205,8 @@ def parseJpeg(parent, size):
     yield SubFile(parent, "image", img_size, "JPEG picture", parser=JpegFile)
     if code == Tag.TAG_BITS_JPEG3:
         size = (parent.size - parent.current_size) // 8
-        yield RawBytes(parent, "alpha", size, "Image data")
+        if size:
+            yield RawBytes(parent, "alpha", size, "Image data")
 
 
 def parseVideoFrame(parent, size):
-- 
2.43.0


From a0dd7655cb20cced10db07d40d3989e3340994b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:06 +0000
Subject: [PATCH 192/299] fix: size of Flash movies in the metadata is in
 pixels

---
 hachoir/metadata/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index fe0c2d1..6367e59 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -254,8 +254,8 @@ class PcfMetadata(RootMetadata):
 class SwfMetadata(RootMetadata):
 
     def extract(self, swf):
-        self.height = swf["rect/ymax"].value  # twips
-        self.width = swf["rect/xmax"].value  # twips
+        self.height = swf["rect"].getHeight()
+        self.width = swf["rect"].getWidth()
         self.format_version = "flash version %s" % swf["version"].value
         self.frame_rate = swf["frame_rate"].value
         self.comment = "Frame count: %s" % swf["frame_count"].value
-- 
2.43.0


From 1ba92d6d9df2038da7d466bb17913719edb8d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 193/299] fix: notes of Amiga modules can be read

---
 hachoir/parser/audio/mod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 4e246c6..b9848af 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -86,10 +86,10 @@ class Note(FieldSet):
     static_size = 8 * 4
 
     def createFields(self):
-        yield Bits(self, 4, "note_hi_nibble")
-        yield Bits(self, 12, "period")
-        yield Bits(self, 4, "note_low_nibble")
-        yield Bits(self, 4, "effect")
+        yield Bits(self, "note_hi_nibble", 4)
+        yield Bits(self, "period", 12)
+        yield Bits(self, "note_low_nibble", 4)
+        yield Bits(self, "effect", 4)
         yield UInt8(self, "parameter")
 
 
-- 
2.43.0


From 151b628bc1e8fd89536a83373e4a316e9b857326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 194/299] fix: channels, volume and fine tune of Amiga modules

---
 hachoir/parser/audio/mod.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index b9848af..2296e27 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -44,11 +44,13 @@ MODULE_TYPE = {
 
 
 def getFineTune(val):
-    return ("0", "1", "2", "3", "4", "5", "6", "7", "8",
-            "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value]
+    return ("0", "1", "2", "3", "4", "5", "6", "7",
+            "-8", "-7", "-6", "-5", "-4", "-3", "-2", "-1")[val.value & 0x0F]
 
 
 def getVolume(val):
+    if not val.value:
+        return "-inf dB"
     return "%.1f dB" % (20.0 * log10(val.value / 64.0))
 
 
@@ -79,7 +81,8 @@ class Header(FieldSet):
         yield String(self, "type", 4)
 
     def getNumChannels(self):
-        return MODULE_TYPE[self["type"].value][1]
+        modtype = self.stream.readBytes(self["type"].absolute_address, 4)
+        return MODULE_TYPE[modtype][1]
 
 
 class Note(FieldSet):
@@ -132,10 +135,12 @@ class AmigaModule(Parser):
         modtype = self.stream.readBytes(1080 * 8, 4)
         if modtype not in MODULE_TYPE:
             return "Invalid module type %a" % modtype
-        self.createValue = lambda modtype: "%s module, %u channels" % MODULE_TYPE[
-            modtype]
         return True
 
+    def createDescription(self):
+        modtype = self.stream.readBytes(1080 * 8, 4)
+        return "%s module, %u channels" % MODULE_TYPE[modtype]
+
     def createFields(self):
         header = Header(self, "header")
         yield header
-- 
2.43.0


From 5efae4628e8a51ec02d06175465934c982c7e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 195/299] fix: flags of the samples, envelopes and notes of XM
 modules are read from the bits where they are

---
 hachoir/parser/audio/xm.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 84c999d..0a7242c 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -39,10 +39,10 @@ class SampleType(FieldSet):
     static_size = 8
 
     def createFields(self):
-        yield Bits(self, "unused[]", 4)
-        yield Bit(self, "16bits")
-        yield Bits(self, "unused[]", 1)
         yield Enum(Bits(self, "loop_mode", 2), SAMPLE_LOOP_MODE)
+        yield Bits(self, "unused[]", 2)
+        yield Bit(self, "16bits")
+        yield Bits(self, "unused[]", 3)
 
 
 class SampleHeader(FieldSet):
@@ -71,10 +71,10 @@ class SampleHeader(FieldSet):
 
 class StuffType(StaticFieldSet):
     format = (
-        (Bits, "unused", 5),
-        (Bit, "loop"),
+        (Bit, "on"),
         (Bit, "sustain"),
-        (Bit, "on")
+        (Bit, "loop"),
+        (Bits, "unused", 5)
     )
 
 
@@ -193,6 +193,7 @@ class RealBit(RawBits):
 
 
 class NoteInfo(StaticFieldSet):
+    endian = BIG_ENDIAN
     format = (
         (RawBits, "unused", 2),
         (RealBit, "has_parameter"),
@@ -240,6 +241,7 @@ class Effect(RawBits):
 
 
 class Note(FieldSet):
+    endian = BIG_ENDIAN
 
     def __init__(self, parent, name, desc=None):
         FieldSet.__init__(self, parent, name, desc)
-- 
2.43.0


From bce86d5fa890626daba046e7f36f23d93cecfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 196/299] fix: volumes, effects and descriptions of the notes
 of XM modules

---
 hachoir/parser/audio/xm.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 0a7242c..91851f4 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -177,9 +177,11 @@ VOLUME_NAME = (
 def parseVolume(val):
     val = val.value
     if 0x10 <= val <= 0x50:
-        return "Volume %i" % val - 16
+        return "Volume %i" % (val - 16)
+    elif val >= 0x60:
+        return VOLUME_NAME[val // 16 - 6]
     else:
-        return VOLUME_NAME[val / 16 - 6]
+        return VOLUME_NAME[-1]
 
 
 class RealBit(RawBits):
@@ -211,7 +213,7 @@ EFFECT_NAME = (
     "Set volume", "Pattern break", None, "Set tempo/BPM",
     "Set global volume", "Global volume slide", "Unused", "Unused",
     "Unused", "Set envelope position", "Unused", "Unused",
-    "Panning slide", "Unused", "Multi retrig note", "Unused",
+    "Unused", "Panning slide", "Unused", "Multi retrig note", "Unused",
     "Tremor", "Unused", "Unused", "Unused", None)
 
 EFFECT_E_NAME = (
@@ -233,11 +235,14 @@ class Effect(RawBits):
         param = self.parent.stream.readBits(
             self.absolute_address + 8, 8, LITTLE_ENDIAN)
         if t == 0x0E:
-            return EFFECT_E_NAME[param >> 4] + " %i" % (param & 0x07)
+            if (param >> 4) < len(EFFECT_E_NAME):
+                return EFFECT_E_NAME[param >> 4] + " %i" % (param & 0x0F)
         elif t == 0x21:
-            return ("Extra fine porta up", "Extra fine porta down")[param >> 4]
-        else:
+            if (param >> 4) in (1, 2):
+                return ("Extra fine porta up", "Extra fine porta down")[(param >> 4) - 1]
+        elif t < len(EFFECT_NAME):
             return EFFECT_NAME[t]
+        return "Unknown"
 
 
 class Note(FieldSet):
@@ -298,14 +303,14 @@ class Note(FieldSet):
             if info["has_instrument"].value:
                 desc.append("instrument %i" % self["instrument"].value)
             if info["has_volume"].value:
-                desc.append(self["has_volume"].display)
+                desc.append(self["volume"].display)
             if info["has_type"].value:
                 desc.append("effect %s" % self["effect_type"].value)
             if info["has_parameter"].value:
                 desc.append("parameter %i" % self["effect_parameter"].value)
         else:
             desc = (self["note"].display, "instrument %i" % self["instrument"].value,
-                    self["has_volume"].display, "effect %s" % self[
+                    self["volume"].display, "effect %s" % self[
                         "effect_type"].value,
                     "parameter %i" % self["effect_parameter"].value)
         if desc:
-- 
2.43.0


From 05167590ed35f7a65bdb1ab06c7491ac6afc33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 197/299] fix: XM modules: descriptions of the samples

---
 hachoir/parser/audio/xm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 91851f4..be9059e 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -60,13 +60,13 @@ class SampleHeader(FieldSet):
         yield UInt8(self, "reserved")
         yield String(self, "name", 22, charset="ASCII", strip=' \0')
 
-    def createValue(self):
+    def createDescription(self):
         bytes = 1 + self["type/16bits"].value
         C5_speed = int(16726.0 * pow(SEMITONE_BASE, self["relative_note"].value)
                        * pow(PITCH_BASE, self["fine_tune"].value * 2))
         return "%s, %ubits, %u samples, %uHz" % \
                (self["name"].display, 8 * bytes,
-                self["length"].value / bytes, C5_speed)
+                self["length"].value // bytes, C5_speed)
 
 
 class StuffType(StaticFieldSet):
-- 
2.43.0


From eeee3ee3ae93a1b3821e30d5b0440a63845a33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 198/299] fix: empty patterns of XM modules

---
 hachoir/parser/audio/xm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index be9059e..957dfcb 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -344,6 +344,9 @@ class Pattern(FieldSet):
         yield UInt16(self, "data_size", r"Packed patterndata size")
         rows = self["rows"].value
         self.info("Pattern: %i rows" % rows)
+        if not self["data_size"].value:
+            # Empty pattern
+            return
         for index in range(rows):
             yield Row(self, "row[]")
 
-- 
2.43.0


From c14e9ca52516b164ec5d54f93086f6e6f6f516b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 199/299] fix: S3M modules: instruments without samples,
 channels which are disabled

---
 hachoir/parser/audio/s3m.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index b9784e6..f3e1c80 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -141,7 +141,7 @@ class ChannelSettings(FieldSet):
 
     def createFields(self):
         yield textHandler(Bits(self, "type", 7), parseChannelType)
-        yield Bit(self, "enabled")
+        yield Bit(self, "disabled")
 
 
 class ChannelPanning(FieldSet):
@@ -491,13 +491,15 @@ class S3MInstrument(Instrument):
         yield Enum(UInt8(self, "packing"), self.PACKING)
         yield SampleFlags(self, "flags")
         yield UInt32(self, "c4_speed", "Frequency for middle C note")
-        yield UInt32(self, "reserved[]", 4)
+        yield UInt32(self, "reserved[]")
         yield UInt16(self, "internal[]", "Sample address in GUS memory")
         yield UInt16(self, "internal[]", "Flags for SoundBlaster loop expansion")
         yield UInt32(self, "internal[]", "Last used position (SB)")
 
     def getSubChunks(self):
         size = self["sample_size"].value
+        if self["type"].value != 1 or not size:
+            return
         if self["flags/stereo"].value:
             size *= 2
         if self["flags/16bits"].value:
-- 
2.43.0


From 79d2ba651285551c541b531aabe551dc4408d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:21 +0000
Subject: [PATCH 200/299] fix: PTM modules: type of the instruments, order of
 effect and volume, instruments without samples

---
 hachoir/parser/audio/s3m.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index f3e1c80..f394ee8 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -367,7 +367,7 @@ class PTMHeader(Header):
         # It goes like this in the BS: patterns->instruments->instr. samples
 
         if self._parent._size:
-            min_off = self.absolute_address + self._parent._size
+            min_off = (self.absolute_address + self._parent._size) // 8
         else:
             min_off = 99999999999
 
@@ -381,7 +381,8 @@ class PTMHeader(Header):
                         PTMInstrument.static_size // 8)
             offset = self.stream.readBits(
                 addr + 8 * (offset + 18), 32, LITTLE_ENDIAN)
-            min_off = min(min_off, offset)
+            if offset:
+                min_off = min(min_off, offset)
 
         # Patterns
         count = self["num_patterns"].value
@@ -514,12 +515,12 @@ class PTMType(FieldSet):
     static_size = 8
 
     def createFields(self):
-        yield Bits(self, "unused", 2)
-        yield Bit(self, "is_tonable")
-        yield Bit(self, "16bits")
-        yield Bit(self, "loop_bidir")
-        yield Bit(self, "loop")
         yield Enum(Bits(self, "origin", 2), self.TYPES)
+        yield Bit(self, "loop")
+        yield Bit(self, "loop_bidir")
+        yield Bit(self, "16bits")
+        yield Bit(self, "is_tonable")
+        yield Bits(self, "unused", 2)
 
 #  class PTMType(StaticFieldSet):
 #  format = (
@@ -612,6 +613,19 @@ class S3MNote(Note):
 class PTMNote(Note):
     NOTE_INFO = PTMNoteInfo
 
+    def createFields(self):
+        # The effect is before the volume
+        info = self.NOTE_INFO(self, "info")
+        yield info
+        if info["has_note"].value:
+            yield UInt8(self, "note")
+            yield UInt8(self, "instrument")
+        if info["has_effect"].value:
+            yield UInt8(self, "effect")
+            yield UInt8(self, "param")
+        if info["has_volume"].value:
+            yield UInt8(self, "volume")
+
 
 class Row(FieldSet):
 
-- 
2.43.0


From f96db803d8ba5dfd7d8584b113f5364126ca5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 201/299] fix: names of the extended effects 8 to 14 of XM
 modules

---
 hachoir/parser/audio/xm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 957dfcb..cc49a6a 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -219,7 +219,7 @@ EFFECT_NAME = (
 EFFECT_E_NAME = (
     "Unknown", "Fine porta up", "Fine porta down",
     "Set gliss control", "Set vibrato control", "Set finetune",
-    "Set loop begin/loop", "Set tremolo control", "Retrig note",
+    "Set loop begin/loop", "Set tremolo control", "Unknown", "Retrig note",
     "Fine volume slide up", "Fine volume slide down", "Note cut",
     "Note delay", "Pattern delay")
 
-- 
2.43.0


From 2bbfa6b36a93162eef9bbcdc0bfbe4a775695edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:19 +0000
Subject: [PATCH 202/299] fix: ModPlug extensions of modules: the fields are
 recognized

---
 hachoir/parser/audio/modplug.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/audio/modplug.py b/hachoir/parser/audio/modplug.py
index 05b8643..08d5427 100644
--- a/hachoir/parser/audio/modplug.py
+++ b/hachoir/parser/audio/modplug.py
@@ -219,7 +219,7 @@ class MPField(FieldSet):
 
     def createFields(self):
         # Identify tag
-        code = self.stream.readBytes(self.absolute_address, 4)
+        code = self.stream.readBytes(self.absolute_address, 4).decode("latin-1")
         if code in self.ext:
             cls, count, comment = self.ext[code]
         else:
@@ -255,14 +255,14 @@ def parseFields(parser):
 
     # Parse fields
     addr = parser.absolute_address + parser.current_size
-    while not parser.eof and parser.stream.readBytes(addr, 4) in ext:
+    while (parser.stream.sizeGe(addr + 6 * 8)
+           and parser.stream.readBytes(addr, 4).decode("latin-1") in ext):
         field = MPField(parser, "field[]", ext)
         yield field
         addr += field._size
 
     # Abort on unknown codes
-    parser.info("End of extension '%s' when finding '%s'" %
-                (parser["block_type"].value, parser.stream.readBytes(addr, 4)))
+    parser.info("End of extension '%s'" % parser["block_type"].value)
 
 
 class ModplugBlock(FieldSet):
-- 
2.43.0


From 70441819170f3d5ea60466a692035a5ca5954ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:15 +0000
Subject: [PATCH 203/299] fix: shell extensions of Windows shortcuts which have
 data

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 3a6dfef..bb5354e 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -98,7 +98,7 @@ class ItemId(FieldSet):
         elif entrytype == 0x2E:
             # Shell extension
             yield RawBytes(self, "dummy", 1, "should be 0x50")
-            if self["dummy"].value == '\0':
+            if self["dummy"].value == b'\0':
                 yield UInt16(self, "length_data", "Length of shell extension-specific data")
                 if self["length_data"].value:
                     yield RawBytes(self, "data", self["length_data"].value, "Shell extension-specific data")
-- 
2.43.0


From f2166c0b47db87ab1d6313d355ebd03468b74273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:15 +0000
Subject: [PATCH 204/299] fix: paths of Windows shortcuts are read in the order
 of their offsets

---
 hachoir/parser/misc/lnk.py | 46 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index bb5354e..4529197 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -245,39 +245,31 @@ class FileLocationInfo(FieldSet):
         if has_unicode_paths:
             yield UInt32(self, "local_pathname_unicode_offset", "Offset to Unicode version of local base pathname; only meaningful if on_local_volume = 1")
             yield UInt32(self, "pathname_unicode_offset", "Offset to Unicode version of remaining pathname")
-        if self["on_local_volume"].value:
-            padding = self.seekByte(self["local_info_offset"].value)
-            if padding:
-                yield padding
-            yield LocalVolumeTable(self, "local_volume_table", "Local Volume Table")
 
-            padding = self.seekByte(self["local_pathname_offset"].value)
-            if padding:
-                yield padding
-            yield CString(self, "local_base_pathname", "Local Base Pathname")
+        # The parts are in the order of their offsets
+        parts = []
+        if self["on_local_volume"].value:
+            parts.append((self["local_info_offset"].value,
+                          lambda: LocalVolumeTable(self, "local_volume_table", "Local Volume Table")))
+            parts.append((self["local_pathname_offset"].value,
+                          lambda: CString(self, "local_base_pathname", "Local Base Pathname")))
             if has_unicode_paths:
-                padding = self.seekByte(
-                    self["local_pathname_unicode_offset"].value)
-                if padding:
-                    yield padding
-                yield CString(self, "local_base_pathname_unicode", "Local Base Pathname in Unicode", charset="UTF-16-LE")
-
+                parts.append((self["local_pathname_unicode_offset"].value,
+                              lambda: CString(self, "local_base_pathname_unicode", "Local Base Pathname in Unicode", charset="UTF-16-LE")))
         if self["on_network_volume"].value:
-            padding = self.seekByte(self["remote_info_offset"].value)
-            if padding:
-                yield padding
-            yield NetworkVolumeTable(self, "network_volume_table")
-
-        padding = self.seekByte(self["pathname_offset"].value)
-        if padding:
-            yield padding
-        yield CString(self, "final_pathname", "Final component of the pathname")
-
+            parts.append((self["remote_info_offset"].value,
+                          lambda: NetworkVolumeTable(self, "network_volume_table")))
+        parts.append((self["pathname_offset"].value,
+                      lambda: CString(self, "final_pathname", "Final component of the pathname")))
         if has_unicode_paths:
-            padding = self.seekByte(self["pathname_unicode_offset"].value)
+            parts.append((self["pathname_unicode_offset"].value,
+                          lambda: CString(self, "final_pathname_unicode", "Final component of the pathname in Unicode", charset="UTF-16-LE")))
+        parts.sort(key=lambda part: part[0])
+        for offset, create in parts:
+            padding = self.seekByte(offset)
             if padding:
                 yield padding
-            yield CString(self, "final_pathname_unicode", "Final component of the pathname in Unicode", charset="UTF-16-LE")
+            yield create()
 
         padding = self.seekByte(self["length"].value)
         if padding:
-- 
2.43.0


From fc1b57b3f1267c3590b6da8b3716e6589960c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:16 +0000
Subject: [PATCH 205/299] fix: number of the icon of Windows shortcuts is
 signed

---
 hachoir/parser/misc/lnk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 4529197..6566293 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -25,7 +25,7 @@ Changes:
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet,
                            CString, String,
-                           UInt32, UInt16, UInt8,
+                           UInt32, UInt16, UInt8, Int32,
                            Bit, Bits, PaddingBits,
                            TimestampWin64, DateTimeMSDOS32,
                            NullBytes, PaddingBytes, RawBytes, Enum)
@@ -601,7 +601,7 @@ class LnkFile(Parser):
         yield TimestampWin64(self, "modification_time")
         yield TimestampWin64(self, "last_access_time")
         yield filesizeHandler(UInt32(self, "target_filesize"))
-        yield UInt32(self, "icon_number")
+        yield Int32(self, "icon_number")
         yield Enum(UInt32(self, "show_window"), self.SHOW_WINDOW_STATE)
         yield textHandler(UInt8(self, "hot_key", "Hot key used for quick access"), text_hot_key)
         yield Bit(self, "hot_key_shift", "Hot key: is Shift used?")
-- 
2.43.0


From 6f7a317eab077c5e9b6914e35192e66845ed7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:16 +0000
Subject: [PATCH 206/299] fix: Unicode labels of the volumes of Windows
 shortcuts

---
 hachoir/parser/misc/lnk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 6566293..907df88 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -197,6 +197,14 @@ class LocalVolumeTable(FieldSet):
         yield textHandler(UInt32(self, "volume_serial", "Volume Serial Number"), formatVolumeSerial)
 
         yield UInt32(self, "label_offset", "Offset to volume label")
+        if self["label_offset"].value == 0x14:
+            yield UInt32(self, "label_unicode_offset", "Offset to Unicode volume label")
+            padding = self.seekByte(self["label_unicode_offset"].value)
+            if padding:
+                yield padding
+            yield CString(self, "drive", charset="UTF-16-LE")
+            return
+
         padding = self.seekByte(self["label_offset"].value)
         if padding:
             yield padding
-- 
2.43.0


From 832a8260ec4801327f3d47ec2a373cf760d87711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 207/299] fix: user data and signature of Windows tasks

---
 hachoir/parser/misc/mstask.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/mstask.py b/hachoir/parser/misc/mstask.py
index 92a582a..50f3416 100644
--- a/hachoir/parser/misc/mstask.py
+++ b/hachoir/parser/misc/mstask.py
@@ -155,7 +155,8 @@ class MSTaskFile(Parser, RootSeekableFieldSet):
         yield PascalStringWin16(self, "Comment", strip='\0')
 
         yield UInt16(self, "UserDataSize")
-        # todo: read optional userdata
+        if self["UserDataSize"].value:
+            yield RawBytes(self, "UserData", self["UserDataSize"].value)
         yield UInt16(self, "ReservedDataSize")
         if self["ReservedDataSize"].value == 8:
             yield Enum(UInt32(self, "StartError", "contains the HRESULT error from the most recent attempt to start the task"), self.TASK_STATUS)
@@ -165,3 +166,7 @@ class MSTaskFile(Parser, RootSeekableFieldSet):
         yield UInt16(self, "TriggerCount", "size of the array of triggers")
         for i in range(self["TriggerCount"].value):
             yield TaskTrigger(self, "Trigger[]")
+
+        size = (self._size - self.current_size) // 8
+        if size:
+            yield RawBytes(self, "Signature", size, "Signature of the job")
-- 
2.43.0


From d531f98dfda1279adab335bbf936a24275fe1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 208/299] fix: flags and style of TrueType fonts are read from
 the bits where they are

---
 hachoir/parser/misc/ttf.py | 50 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index ca5e7c4..de72e29 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -188,21 +188,21 @@ def parseFontHeader(self):
         raise ParserError("TTF: invalid magic of font header")
 
     # Flags
-    yield Bit(self, "y0", "Baseline at y=0")
-    yield Bit(self, "x0", "Left sidebearing point at x=0")
-    yield Bit(self, "instr_point", "Instructions may depend on point size")
-    yield Bit(self, "ppem", "Force PPEM to integer values for all")
-    yield Bit(self, "instr_width", "Instructions may alter advance width")
-    yield Bit(self, "vertical", "e laid out vertically?")
-    yield PaddingBits(self, "reserved[]", 1)
-    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
-    yield Bit(self, "gx", "Metamorphosis effects?")
-    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
-    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
-    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
-    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
-    yield Bit(self, "cleartype", "Optimised for ClearType")
     yield Bits(self, "adobe", 2, "(used by Adobe)")
+    yield Bit(self, "cleartype", "Optimised for ClearType")
+    yield Bit(self, "converted", "Font converted (produce compatible metrics)")
+    yield Bit(self, "lossless", "Data is lossless (Agfa MicroType compression)")
+    yield Bit(self, "indic", "contains Indic-style rearrangement effects?")
+    yield Bit(self, "strong", "Contains strong right-to-left glyphs?")
+    yield Bit(self, "gx", "Metamorphosis effects?")
+    yield Bit(self, "linguistic", "Requires layout for correct linguistic rendering?")
+    yield PaddingBits(self, "reserved[]", 1)
+    yield Bit(self, "vertical", "e laid out vertically?")
+    yield Bit(self, "instr_width", "Instructions may alter advance width")
+    yield Bit(self, "ppem", "Force PPEM to integer values for all")
+    yield Bit(self, "instr_point", "Instructions may depend on point size")
+    yield Bit(self, "x0", "Left sidebearing point at x=0")
+    yield Bit(self, "y0", "Baseline at y=0")
 
     yield UInt16(self, "unit_per_em", "Units per em")
     if not (16 <= self["unit_per_em"].value <= 16384):
@@ -217,14 +217,14 @@ def parseFontHeader(self):
     yield UInt16(self, "ymax")
 
     # Mac style
-    yield Bit(self, "bold")
-    yield Bit(self, "italic")
-    yield Bit(self, "underline")
-    yield Bit(self, "outline")
-    yield Bit(self, "shadow")
-    yield Bit(self, "condensed", "(narrow)")
-    yield Bit(self, "expanded")
     yield PaddingBits(self, "reserved[]", 9)
+    yield Bit(self, "expanded")
+    yield Bit(self, "condensed", "(narrow)")
+    yield Bit(self, "shadow")
+    yield Bit(self, "outline")
+    yield Bit(self, "underline")
+    yield Bit(self, "italic")
+    yield Bit(self, "bold")
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
     yield Enum(UInt16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
@@ -591,15 +591,15 @@ def parseHhea(self):
 
 class fsType(FieldSet):
     def createFields(self):
-        yield Enum(Bits(self, "usage_permissions", 4), PERMISSIONS)
-        yield PaddingBits(self, "reserved[]", 4)
-        yield Bit(self, "no_subsetting", "Font may not be subsetted prior to embedding")
+        yield PaddingBits(self, "reserved[]", 6)
         yield Bit(
             self,
             "bitmap_embedding",
             "Only bitmaps contained in the font may be embedded",
         )
-        yield PaddingBits(self, "reserved[]", 6)
+        yield Bit(self, "no_subsetting", "Font may not be subsetted prior to embedding")
+        yield PaddingBits(self, "reserved[]", 4)
+        yield Enum(Bits(self, "usage_permissions", 4), PERMISSIONS)
 
 
 def parseOS2(self):
-- 
2.43.0


From 959867ac2f7bfe0f6a3fb1e5b15bfd040dedcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 209/299] fix: signed values of TrueType fonts

---
 hachoir/parser/misc/ttf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index de72e29..468f863 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -115,7 +115,7 @@ class Version16Dot16(FieldSet):
 
 class Fixed(FieldSet):
     def createFields(self):
-        yield UInt16(self, "int_part")
+        yield Int16(self, "int_part")
         yield UInt16(self, "float_part")
 
     def createValue(self):
@@ -211,10 +211,10 @@ def parseFontHeader(self):
     yield TimestampMac32(self, "created")
     yield UInt32(self, "modified_high")
     yield TimestampMac32(self, "modified")
-    yield UInt16(self, "xmin")
-    yield UInt16(self, "ymin")
-    yield UInt16(self, "xmax")
-    yield UInt16(self, "ymax")
+    yield Int16(self, "xmin")
+    yield Int16(self, "ymin")
+    yield Int16(self, "xmax")
+    yield Int16(self, "ymax")
 
     # Mac style
     yield PaddingBits(self, "reserved[]", 9)
@@ -227,7 +227,7 @@ def parseFontHeader(self):
     yield Bit(self, "bold")
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
-    yield Enum(UInt16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
+    yield Enum(Int16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
     yield Enum(UInt16(self, "ofst_format"), {0: "short offsets", 1: "long"})
     yield UInt16(self, "glyph_format", "(=0)")
 
-- 
2.43.0


From 0c8ffbcb842fb5364a354af954d4de59cf9c5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 210/299] fix: instances of TrueType fonts with names for
 PostScript

---
 hachoir/parser/misc/ttf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 468f863..0ff706a 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -317,7 +317,7 @@ def parseFvar(self):
                 "instances[]",
                 axisCount=self["axisCount"].value,
                 hasPSNameID=(
-                    self["instanceSize"].value == (2 * self["axisCount"].value + 6)
+                    self["instanceSize"].value == (4 * self["axisCount"].value + 6)
                 ),
             )
         )
-- 
2.43.0


From 82d2a2e15263893b7bc842b71b1dc4d158c85499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 211/299] fix: tables of characters of TrueType fonts: array of
 glyphs, several tables of a format

---
 hachoir/parser/misc/ttf.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 0ff706a..f83d427 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -356,7 +356,7 @@ class CmapTable4(FieldSet):
         yield GenericVector(self, "startCode", segments, UInt16)
         yield GenericVector(self, "idDelta", segments, Int16)
         yield GenericVector(self, "idRangeOffsets", segments, UInt16)
-        remainder = (self["length"].value - (self.current_size / 8)) / 2
+        remainder = (self["length"].value - (self.current_size // 8)) // 2
         if remainder:
             yield GenericVector(self, "glyphIdArray", remainder, UInt16)
 
@@ -433,16 +433,23 @@ def parseCmap(self):
         if padding:
             yield padding
         format = UInt16(self, "format").value
+        name = "cmap table format %u" % format
+        if name in self:
+            name += "[]"
         if format == 0:
-            yield CmapTable0(self, "cmap table format 0")
+            yield CmapTable0(self, name)
         elif format == 4:
-            yield CmapTable4(self, "cmap table format 4")
+            yield CmapTable4(self, name)
         elif format == 6:
-            yield CmapTable6(self, "cmap table format 6")
+            yield CmapTable6(self, name)
         elif format == 12:
-            yield CmapTable12(self, "cmap table format 12")
+            yield CmapTable12(self, name)
         elif format == 14:
-            yield CmapTable14(self, "cmap table format 14")
+            yield CmapTable14(self, name)
+
+    padding = (self.size - self.current_size) // 8
+    if padding:
+        yield RawBytes(self, "padding_end", padding)
 
 
 class SignatureRecord(FieldSet):
-- 
2.43.0


From ac8ea521c1aac6cfbf336e1a1b9517d49b25e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 212/299] fix: signatures of TrueType fonts

---
 hachoir/parser/misc/ttf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index f83d427..a82ffb9 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -454,9 +454,9 @@ def parseCmap(self):
 
 class SignatureRecord(FieldSet):
     def createFields(self):
-        yield UInt16(self, "format", "Table format")
-        yield UInt16(self, "length", "Length of signature")
-        yield UInt16(self, "signatureBlockOffset", "Offset to signature block")
+        yield UInt32(self, "format", "Table format")
+        yield UInt32(self, "length", "Length of signature")
+        yield UInt32(self, "signatureBlockOffset", "Offset to signature block")
 
 
 class SignatureBlock(FieldSet):
@@ -467,14 +467,15 @@ class SignatureBlock(FieldSet):
             "length",
             "Length (in bytes) of the PKCS#7 packet in the signature field",
         )
-        yield String(self, "signature", self["length"].value, "Signature block")
+        if self["length"].value:
+            yield RawBytes(self, "signature", self["length"].value, "Signature block")
 
 
 def parseDSIG(self):
     yield UInt32(self, "version")
     yield UInt16(self, "numSignatures", "Number of signatures in the table")
+    yield PaddingBits(self, "reserved[]", 15)
     yield Bit(self, "flag", "Cannot be resigned")
-    yield PaddingBits(self, "reserved[]", 7)
     entries = []
     for i in range(self["numSignatures"].value):
         record = SignatureRecord(self, "signatureRecords[]")
@@ -491,6 +492,7 @@ def parseDSIG(self):
         padding = self.seekByte(offset, relative=True, null=False)
         if padding:
             yield padding
+        yield SignatureBlock(self, "signatureBlocks[]")
 
     padding = (self.size - self.current_size) // 8
     if padding:
-- 
2.43.0


From a778d1bf1db9bc251281372ed919ed8f15319174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 213/299] fix: charset of the Unicode names of TrueType fonts,
 empty names in the metadata

---
 hachoir/metadata/misc.py   | 2 ++
 hachoir/parser/misc/ttf.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index 6367e59..1dda1cb 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -71,6 +71,8 @@ class TTF_Metadata(RootMetadata):
     def extractNames(self, names):
         offset = names["offset"].value
         for header in names.array("header"):
+            if not header["length"].value:
+                continue
             key = header["nameID"].value
             foffset = offset + header["offset"].value
             field = names.getFieldByAddress(foffset * 8)
diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index a82ffb9..e09f9d6 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -81,9 +81,9 @@ PLATFORM_NAME = {
 
 CHARSET_MAP = {
     # (platform, encoding) => charset
-    0: {3: "UTF-16-BE"},
+    0: dict.fromkeys(range(7), "UTF-16-BE"),
     1: {0: "MacRoman"},
-    3: {1: "UTF-16-BE"},
+    3: {0: "UTF-16-BE", 1: "UTF-16-BE", 10: "UTF-16-BE"},
 }
 
 PERMISSIONS = {
-- 
2.43.0


From 405e37270549e4d440966986aabdc0bf8994832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 214/299] fix: offsets of the glyphs in the table post 2.5 of
 TrueType fonts

---
 hachoir/parser/misc/ttf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index e09f9d6..d98b381 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -20,6 +20,7 @@ from hachoir.field import (
     UInt16,
     UInt24,
     UInt32,
+    Int8,
     Int16,
     Bit,
     Bits,
@@ -683,13 +684,13 @@ def parsePost(self):
         for gid, index in enumerate(indices):
             if index.value >= 258:
                 yield PascalString8(self, "glyphname[%i]" % gid)
-    elif self["version"].value == 2.0:
+    elif self["version"].value == 2.5:
         yield UInt16(self, "numGlyphs")
         indices = GenericVector(
             self,
             "Difference between graphic index and standard order of glyph",
             self["numGlyphs"].value,
-            UInt16,
+            Int8,
             "offset",
         )
         yield indices
-- 
2.43.0


From f024b50507c5842708d3f2cf1226f3c0fd18b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 215/299] fix: table GSUB of TrueType fonts can be read

---
 hachoir/parser/misc/ttf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index d98b381..b1431e4 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -718,20 +718,25 @@ def parseGSUB(self):
         )
         yield offset
         offsets.append((offset.value, parser))
-    if self["min_ver"].value == 1:
+    if self["minorVersion"].value == 1:
         offset = UInt32(
             self, "featureVariationsOffset", "Offset to feature variations table"
         )
+        yield offset
         offsets.append((offset.value, parseFeatureVariationsTable))
 
+    # A null offset means that there is no such table
+    offsets = [item for item in offsets if item[0]]
     offsets.sort(key=lambda field: field[0])
+    offsets.append((self.size // 8, None))
     padding = self.seekByte(offsets[0][0], null=True)
     if padding:
         yield padding
     lastOffset, first_parser = offsets[0]
     for offset, parser in offsets[1:]:
         # yield parser(self)
-        yield RawBytes(self, "content", offset - lastOffset)
+        if offset > lastOffset:
+            yield RawBytes(self, "content[]", offset - lastOffset)
         lastOffset = offset
 
 
-- 
2.43.0


From a570aaabecacee6efb673a85e8f0ebdec145d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:07 +0000
Subject: [PATCH 216/299] fix: properties of PCF fonts may be written in any
 order, share texts and be numbers

---
 hachoir/metadata/misc.py   |  2 ++
 hachoir/parser/misc/pcf.py | 37 ++++++++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/hachoir/metadata/misc.py b/hachoir/metadata/misc.py
index 1dda1cb..7e1fed4 100644
--- a/hachoir/metadata/misc.py
+++ b/hachoir/metadata/misc.py
@@ -233,6 +233,8 @@ class PcfMetadata(RootMetadata):
         last = properties["total_str_length"]
         offset0 = last.address + last.size
         for index in properties.array("property"):
+            if not index["is_string"].value:
+                continue
             # Search name and value
             value = properties.getFieldByAddress(
                 offset0 + index["value_offset"].value * 8)
diff --git a/hachoir/parser/misc/pcf.py b/hachoir/parser/misc/pcf.py
index 418cfe4..14ff005 100644
--- a/hachoir/parser/misc/pcf.py
+++ b/hachoir/parser/misc/pcf.py
@@ -12,7 +12,7 @@ Creation date: 2007-03-20
 
 from hachoir.parser import Parser
 from hachoir.field import (FieldSet, Enum,
-                           UInt8, UInt32, Bytes, RawBytes, NullBytes,
+                           UInt8, UInt32, Int32, Bytes, RawBytes, NullBytes,
                            Bit, Bits, PaddingBits, CString)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal, filesizeHandler
@@ -67,12 +67,16 @@ class Property(FieldSet):
     def createFields(self):
         yield UInt32(self, "name_offset")
         yield UInt8(self, "is_string")
-        yield UInt32(self, "value_offset")
+        if self["is_string"].value:
+            yield UInt32(self, "value_offset")
+        else:
+            yield Int32(self, "value")
 
     def createDescription(self):
-        # FIXME: Use link or any better way to read name value
-        name = self["../name[%s]" % (self.index - 2)].value
-        return "Property %s" % name
+        name = self.parent.getText(self["name_offset"].value)
+        if name is None:
+            return "Property"
+        return "Property %s" % name.value
 
 
 class GlyphNames(FieldSet):
@@ -108,6 +112,12 @@ class GlyphNames(FieldSet):
 
 class Properties(GlyphNames):
 
+    def getText(self, offset):
+        """Get the text at an offset relative to the first text"""
+        last = self["total_str_length"]
+        return self.getFieldByAddress(last.address + last.size + offset * 8,
+                                      feed=True)
+
     def createFields(self):
         yield PropertiesFormat(self, "format")
         yield UInt32(self, "nb_prop")
@@ -120,15 +130,20 @@ class Properties(GlyphNames):
         if padding:
             yield NullBytes(self, "padding", padding)
         yield UInt32(self, "total_str_length")
-        properties.sort(key=lambda entry: entry["name_offset"].value)
-        offset0 = self.current_size // 8
+        texts = {}
+        for property in properties:
+            texts.setdefault(property["name_offset"].value,
+                             ("name[]", "Name of %s" % property.name))
         for property in properties:
-            padding = self.seekByte(offset0 + property["name_offset"].value)
+            if property["is_string"].value:
+                texts.setdefault(property["value_offset"].value,
+                                 ("value[]", "Value of %s" % property.name))
+        offset0 = self.current_size // 8
+        for offset, (name, description) in sorted(texts.items()):
+            padding = self.seekByte(offset0 + offset)
             if padding:
                 yield padding
-            yield CString(self, "name[]", "Name of %s" % property.name)
-            if property["is_string"].value:
-                yield CString(self, "value[]", "Value of %s" % property.name)
+            yield CString(self, name, description)
         padding = (self.size - self.current_size) // 8
         if padding:
             yield NullBytes(self, "end_padding", padding)
-- 
2.43.0


From 17d4dbb8f571569e32281d023854714a8ed6409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:07 +0000
Subject: [PATCH 217/299] fix: glyphs of PCF fonts may share their name

---
 hachoir/parser/misc/pcf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/pcf.py b/hachoir/parser/misc/pcf.py
index 14ff005..4e38067 100644
--- a/hachoir/parser/misc/pcf.py
+++ b/hachoir/parser/misc/pcf.py
@@ -98,9 +98,8 @@ class GlyphNames(FieldSet):
             yield offset
             offsets.append(offset.value)
         yield UInt32(self, "total_str_length")
-        offsets.sort()
         offset0 = self.current_size // 8
-        for offset in offsets:
+        for offset in sorted(set(offsets)):
             padding = self.seekByte(offset0 + offset)
             if padding:
                 yield padding
-- 
2.43.0


From ffaf0f0e957701f81704c9ef9626e2f42f1712e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:28 +0000
Subject: [PATCH 218/299] fix: offsets of the layers of Gimp pictures are
 signed

---
 hachoir/parser/image/xcf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index f003907..ebd25ee 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -10,7 +10,7 @@ Author: Victor Stinner
 
 from hachoir.parser import Parser
 from hachoir.field import (StaticFieldSet, FieldSet, ParserError,
-                           UInt8, UInt32, UInt64, Enum, Float32, String, PascalString32, RawBytes)
+                           UInt8, UInt32, UInt64, Int32, Enum, Float32, String, PascalString32, RawBytes)
 from hachoir.parser.image.common import RGBA
 from hachoir.core.endian import NETWORK_ENDIAN
 
@@ -41,8 +41,8 @@ class XcfTattoo(StaticFieldSet):
 
 class LayerOffsets(StaticFieldSet):
     format = (
-        (UInt32, "ofst_x", "Offset X"),
-        (UInt32, "ofst_y", "Offset Y")
+        (Int32, "ofst_x", "Offset X"),
+        (Int32, "ofst_y", "Offset Y")
     )
 
 
-- 
2.43.0


From 9bdfaff3610690a5fbd4a3f545091dcfa3eb09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:28 +0000
Subject: [PATCH 219/299] fix: tiles of Gimp pictures: offsets of 64 bits, last
 tile

---
 hachoir/parser/image/xcf.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index ebd25ee..69b7649 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -146,27 +146,35 @@ class XcfLevel(FieldSet):
     def createFields(self):
         yield UInt32(self, "width", "Width in pixel")
         yield UInt32(self, "height", "Height in pixel")
-        yield UInt32(self, "offset", "Offset")
+        # The next levels are not used: their offset is a null 32-bit integer
+        if self.root.version >= 11 and self.name == "level[0]":
+            yield UInt64(self, "offset", "Offset")
+        else:
+            yield UInt32(self, "offset", "Offset")
         offset = self["offset"].value
         if offset == 0:
             return
         data_offsets = []
         while (self.absolute_address + self.current_size) // 8 < offset:
-            if self._parent._parent._parent.version >= 11:
+            if self.root.version >= 11:
                 chunk = UInt64(self, "data_offset[]", "Data offset")
             else:
                 chunk = UInt32(self, "data_offset[]", "Data offset")
             yield chunk
             if chunk.value == 0:
                 break
-            data_offsets.append(chunk)
+            data_offsets.append(chunk.value)
         if (self.absolute_address + self.current_size) // 8 != offset:
             raise ParserError("Problem with level offset.")
+        if self._size is not None:
+            # The last tile ends where the level ends
+            data_offsets.append((self.absolute_address + self._size) // 8)
         previous = offset
-        for chunk in data_offsets:
-            data_offset = chunk.value
+        for index, data_offset in enumerate(sorted(data_offsets)):
             size = data_offset - previous
-            yield RawBytes(self, "data[]", size, "Data content of %s" % chunk.name)
+            if size <= 0:
+                continue
+            yield RawBytes(self, "data[]", size, "Data of the tile %s" % index)
             previous = data_offset
 
 
@@ -179,7 +187,7 @@ class XcfHierarchy(FieldSet):
 
         offsets = []
         while True:
-            if self._parent._parent.version >= 11:
+            if self.root.version >= 11:
                 chunk = UInt64(self, "offset[]", "Level offset")
             else:
                 chunk = UInt32(self, "offset[]", "Level offset")
@@ -187,11 +195,14 @@ class XcfHierarchy(FieldSet):
             if chunk.value == 0:
                 break
             offsets.append(chunk.value)
-        for offset in offsets:
+        for index, offset in enumerate(offsets):
             padding = self.seekByte(offset, relative=False)
             if padding is not None:
                 yield padding
-            yield XcfLevel(self, "level[]", "Level")
+            size = None
+            if index + 1 < len(offsets):
+                size = (offsets[index + 1] - offset) * 8
+            yield XcfLevel(self, "level[]", "Level", size=size)
 #        yield XcfChannel(self, "channel[]", "Channel"))
 
 
-- 
2.43.0


From 1d0dbcbecac26823469b6fae5b86f8cdfd62b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:28 +0000
Subject: [PATCH 220/299] fix: channels of Gimp pictures: hierarchy anywhere
 after the channel

---
 hachoir/parser/image/xcf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 69b7649..6c6854b 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -218,7 +218,9 @@ class XcfChannel(FieldSet):
             yield UInt64(self, "hierarchy_ofs", "Hierarchy offset")
         else:
             yield UInt32(self, "hierarchy_ofs", "Hierarchy offset")
-
+        padding = self.seekByte(self["hierarchy_ofs"].value, relative=False)
+        if padding is not None:
+            yield padding
         yield XcfHierarchy(self, "hierarchy", "Hierarchy")
 
     def createDescription(self):
-- 
2.43.0


From 1cd7ee4c77254657bb1de800986e70ff8044d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:28 +0000
Subject: [PATCH 221/299] fix: width and height of Photoshop pictures were
 swapped

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From 66508b8b5daa867adb892afcb2af74bc2b0fe4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:28 +0000
Subject: [PATCH 222/299] fix: sizes of Photoshop resources are written on 32
 bits

---
 hachoir/parser/image/photoshop_metadata.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index c69ea1a..652d51d 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -160,13 +160,10 @@ class Photoshop8BIM(FieldSet):
             raise ParserError(
                 "Stream doesn't look like 8BIM item (wrong signature)!")
         yield textHandler(UInt16(self, "tag"), hexadecimal)
-        if self.stream.readBytes(self.absolute_address + self.current_size, 4) != b"\0\0\0\0":
-            yield PascalString8(self, "name")
-            size = 2 + (self["name"].size // 8) % 2
-            yield NullBytes(self, "name_padding", size)
-        else:
-            yield String(self, "name", 4, strip="\0")
-        yield UInt16(self, "size")
+        yield PascalString8(self, "name")
+        if (self["name"].size // 8) % 2:
+            yield NullBytes(self, "name_padding", 1)
+        yield UInt32(self, "size")
         size = alignValue(self["size"].value, 2)
         if not size:
             return
-- 
2.43.0


From ca46a230c6c3b079d9dbd380fb817229b102bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:02 +0000
Subject: [PATCH 223/299] fix: names of the types of the layers of Gimp
 pictures

---
 hachoir/parser/image/xcf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 6c6854b..5c66cef 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -228,11 +228,19 @@ class XcfChannel(FieldSet):
 
 
 class XcfLayer(FieldSet):
+    TYPE_NAME = {
+        0: "RGB",
+        1: "RGB with alpha",
+        2: "Gray",
+        3: "Gray with alpha",
+        4: "Indexed",
+        5: "Indexed with alpha",
+    }
 
     def createFields(self):
         yield UInt32(self, "width", "Layer width in pixels")
         yield UInt32(self, "height", "Layer height in pixels")
-        yield Enum(UInt32(self, "type", "Layer type"), XcfFile.IMAGE_TYPE_NAME)
+        yield Enum(UInt32(self, "type", "Layer type"), self.TYPE_NAME)
         yield PascalString32(self, "name", "Layer name", strip="\0", charset="UTF-8")
         for prop in readProperties(self):
             yield prop
-- 
2.43.0


From 22343bb983fd08b9ba04161b2e1d284d6188ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:02 +0000
Subject: [PATCH 224/299] fix: Gimp pictures of all versions are recognized by
 their content

---
 hachoir/parser/image/xcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 5c66cef..cefa933 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -381,7 +381,7 @@ class XcfFile(Parser):
         "min_size": (26 + 8 + 4 + 4) * 8,
         "magic": (
             (b'gimp xcf file\0', 0),
-            (b'gimp xcf v002\0', 0),
+            (b'gimp xcf v0', 0),
         ),
         "description": "Gimp (XCF) picture"
     }
-- 
2.43.0


From 48c2eb4e109746bbf8fb6373b6355f17ae727a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:45 +0000
Subject: [PATCH 225/299] fix: flags of the layers of Gimp pictures can be read

---
 hachoir/parser/image/xcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index cefa933..8775963 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -122,7 +122,7 @@ class LayerMode(FieldSet):
 
 class GimpBoolean(UInt32):
 
-    def __init__(self, parent, name):
+    def __init__(self, parent, name, size=32):
         UInt32.__init__(self, parent, name)
 
     def createValue(self):
-- 
2.43.0


From 471ac13a2d3e570b2799ceb11dfb029e5dbf956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:45 +0000
Subject: [PATCH 226/299] fix: channels of Gimp pictures are described by their
 name

---
 hachoir/parser/image/xcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index 8775963..a918d6c 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -508,4 +508,4 @@ class XcfFile(Parser):
             padding = self.seekByte(offset, relative=False)
             if padding is not None:
                 yield padding
-            yield XcfChannel(self, "channel[]", "Channel", size=size)
+            yield XcfChannel(self, "channel[]", size=size)
-- 
2.43.0


From e13cfaef72c397ff68ca1ef4faadff3ea37d909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:45 +0000
Subject: [PATCH 227/299] fix: Photoshop resources of odd sizes: the padding is
 not in the content

---
 hachoir/parser/image/photoshop_metadata.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/image/photoshop_metadata.py b/hachoir/parser/image/photoshop_metadata.py
index 652d51d..aa4689c 100644
--- a/hachoir/parser/image/photoshop_metadata.py
+++ b/hachoir/parser/image/photoshop_metadata.py
@@ -71,7 +71,8 @@ class PrintFlags(FieldSet):
         yield Enum(UInt8(self, "interpolate"), BOOL)
         yield Enum(UInt8(self, "caption"), BOOL)
         yield Enum(UInt8(self, "print_flags"), BOOL)
-        yield Enum(UInt8(self, "unknown"), BOOL)
+        if not self.eof:
+            yield Enum(UInt8(self, "unknown"), BOOL)
 
     def createValue(self):
         return [field.name for field in self if field.value]
@@ -164,7 +165,7 @@ class Photoshop8BIM(FieldSet):
         if (self["name"].size // 8) % 2:
             yield NullBytes(self, "name_padding", 1)
         yield UInt32(self, "size")
-        size = alignValue(self["size"].value, 2)
+        size = self["size"].value
         if not size:
             return
         if self.handler:
@@ -172,11 +173,11 @@ class Photoshop8BIM(FieldSet):
                 yield self.handler(self, "content", size=size * 8)
             else:
                 yield self.handler(self, "content")
-                size = (self.size - self.current_size) // 8
-                if size:
-                    yield RawBytes(self, "content_padding", size)
         else:
             yield RawBytes(self, "content", size)
+        size = (self.size - self.current_size) // 8
+        if size:
+            yield RawBytes(self, "content_padding", size)
 
 
 class PhotoshopMetadata(FieldSet):
-- 
2.43.0


From a0901f6144a3b129ae48a098656403511db2f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:28 +0000
Subject: [PATCH 228/299] fix: masks of the layers and last level of Gimp
 pictures can be read

---
 hachoir/parser/image/xcf.py | 43 +++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/hachoir/parser/image/xcf.py b/hachoir/parser/image/xcf.py
index a918d6c..999e890 100644
--- a/hachoir/parser/image/xcf.py
+++ b/hachoir/parser/image/xcf.py
@@ -202,6 +202,8 @@ class XcfHierarchy(FieldSet):
             size = None
             if index + 1 < len(offsets):
                 size = (offsets[index + 1] - offset) * 8
+            elif self._size is not None:
+                size = self._size - self.current_size
             yield XcfLevel(self, "level[]", "Level", size=size)
 #        yield XcfChannel(self, "channel[]", "Channel"))
 
@@ -214,14 +216,17 @@ class XcfChannel(FieldSet):
         yield PascalString32(self, "name", "Channel name", strip="\0", charset="UTF-8")
         yield from readProperties(self)
 
-        if self._parent.version >= 11:
+        if self.root.version >= 11:
             yield UInt64(self, "hierarchy_ofs", "Hierarchy offset")
         else:
             yield UInt32(self, "hierarchy_ofs", "Hierarchy offset")
         padding = self.seekByte(self["hierarchy_ofs"].value, relative=False)
         if padding is not None:
             yield padding
-        yield XcfHierarchy(self, "hierarchy", "Hierarchy")
+        size = None
+        if self._size is not None:
+            size = self._size - self.current_size
+        yield XcfHierarchy(self, "hierarchy", "Hierarchy", size=size)
 
     def createDescription(self):
         return 'Channel "%s"' % self["name"].value
@@ -257,8 +262,17 @@ class XcfLayer(FieldSet):
         padding = self.seekByte(self["hierarchy_ofs"].value, relative=False)
         if padding is not None:
             yield padding
-        yield XcfHierarchy(self, "hierarchy", "Hierarchy")
-        # TODO: Read layer mask if needed: self["mask_ofs"].value != 0
+        size = mask_size = None
+        mask = self["mask_ofs"].value
+        if mask:
+            size = (mask - self["hierarchy_ofs"].value) * 8
+        if self._size is not None:
+            mask_size = self.absolute_address + self._size - mask * 8
+            if not mask:
+                size = self._size - self.current_size
+        yield XcfHierarchy(self, "hierarchy", "Hierarchy", size=size)
+        if mask:
+            yield XcfChannel(self, "mask", size=mask_size)
 
     def createDescription(self):
         return 'Layer "%s"' % self["name"].value
@@ -488,23 +502,24 @@ class XcfFile(Parser):
                 break
             channel_offsets.append(chunk.value)
 
+        # A layer or a channel ends where the next one starts
+        ends = sorted(layer_offsets + channel_offsets)
+        if self.size is not None:
+            ends.append(self.size // 8)
+        sizes = {start: (end - start) * 8
+                 for start, end in zip(ends, ends[1:])}
+
         # Read layers
-        for index, offset in enumerate(layer_offsets):
-            if index + 1 < len(layer_offsets):
-                size = (layer_offsets[index + 1] - offset) * 8
-            else:
-                size = None
+        for offset in layer_offsets:
+            size = sizes.get(offset)
             padding = self.seekByte(offset, relative=False)
             if padding:
                 yield padding
             yield XcfLayer(self, "layer[]", size=size)
 
         # Read channels
-        for index, offset in enumerate(channel_offsets):
-            if index + 1 < len(channel_offsets):
-                size = (channel_offsets[index + 1] - offset) * 8
-            else:
-                size = None
+        for offset in channel_offsets:
+            size = sizes.get(offset)
             padding = self.seekByte(offset, relative=False)
             if padding is not None:
                 yield padding
-- 
2.43.0


From d295b650482dcf63ccc2b1da328dc6a5a2155a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:52 +0000
Subject: [PATCH 229/299] fix: author and copyright of ASF files without title

---
 hachoir/metadata/video.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 41fd002..74fac71 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -338,12 +338,9 @@ class AsfMetadata(MultipleMetadata):
 
         if "metadata/content" in header:
             info = header["metadata/content"]
-            try:
-                self.title = info["title"].value
-                self.author = info["author"].value
-                self.copyright = info["copyright"].value
-            except MissingField:
-                pass
+            for key in ("title", "author", "copyright"):
+                if key in info:
+                    setattr(self, key, info[key].value)
 
     @fault_tolerant
     def streamAudioHeader(self, audio, meta):
-- 
2.43.0


From 239edcae1df5401d812434df04abe342f470c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:52 +0000
Subject: [PATCH 230/299] fix: variable bit rate of ASF files

---
 hachoir/metadata/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 74fac71..1838761 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -293,7 +293,7 @@ class AsfMetadata(MultipleMetadata):
 
             # "IsVBR" key
             if "IsVBR" in data:
-                is_vbr = (data["IsVBR"] == 1)
+                is_vbr = (data["IsVBR"] == "1")
                 del data["IsVBR"]
 
             # Store data
@@ -373,7 +373,7 @@ class AsfMetadata(MultipleMetadata):
             # Skip some keys
             return
         value = desc["value"].value
-        if not value:
+        if not value and key != "IsVBR":
             return
         value = makeUnicode(value)
         data[key] = value
-- 
2.43.0


From 266c1c11e765bdb49007bcf1e625b39940ffff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:52 +0000
Subject: [PATCH 231/299] fix: track number of ASF files

---
 hachoir/metadata/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 1838761..ce02c65 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -259,7 +259,7 @@ class AsfMetadata(MultipleMetadata):
         "ToolName": "producer",
         "AlbumTitle": "album",
         "Track": "track_number",
-        "TrackNumber": "track_total",
+        "TrackNumber": "track_number",
         "Year": "creation_date",
         "AlbumArtist": "author",
     }
-- 
2.43.0


From bc8590056de15f30abe4d87bd5131c0054393c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 232/299] fix: bit rates of the streams of ASF files are found
 by the number of the stream

---
 hachoir/metadata/video.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index ce02c65..8010906 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -320,17 +320,17 @@ class AsfMetadata(MultipleMetadata):
 
         audio_index = 1
         video_index = 1
-        for index, stream_prop in enumerate(header.array("stream_prop")):
+        for stream_prop in header.array("stream_prop"):
             if "content/audio_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamAudioHeader(
                     stream_prop["content/audio_header"], meta)
                 if self.addGroup("audio[%u]" % audio_index, meta, "Audio stream #%u" % audio_index):
                     audio_index += 1
             elif "content/video_header" in stream_prop:
                 meta = Metadata(self)
-                self.streamProperty(header, index, meta)
+                self.streamProperty(header, stream_prop, meta)
                 self.streamVideoHeader(
                     stream_prop["content/video_header"], meta)
                 if self.addGroup("video[%u]" % video_index, meta, "Video stream #%u" % video_index):
@@ -394,10 +394,13 @@ class AsfMetadata(MultipleMetadata):
             text = "%s (max)" % text
         self.bit_rate = (value, text)
 
-    def streamProperty(self, header, index, meta):
-        key = "bit_rates/content/bit_rate[%u]/avg_bitrate" % index
-        if key in header:
-            meta.bit_rate = header[key].value
+    def streamProperty(self, header, stream_prop, meta):
+        stream_index = stream_prop["content/stream_index"].value
+        if "bit_rates/content" in header:
+            for bit_rate in header.array("bit_rates/content/bit_rate"):
+                if bit_rate["stream_index"].value == stream_index:
+                    meta.bit_rate = bit_rate["avg_bitrate"].value
+                    break
 
         # TODO: Use codec list
         # It doesn't work when the video uses /header/content/bitrate_mutex
-- 
2.43.0


From 38e9024bc02672e856b58504c0d0a8c68d56a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 233/299] fix: words and empty values of ASF descriptions

---
 hachoir/parser/video/asf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/asf.py b/hachoir/parser/video/asf.py
index fc41624..4b03395 100644
--- a/hachoir/parser/video/asf.py
+++ b/hachoir/parser/video/asf.py
@@ -163,7 +163,9 @@ class Descriptor(FieldSet):
             yield UInt32(self, name)
         elif type == 4:
             yield UInt64(self, name)
-        else:
+        elif type == 5:
+            yield UInt16(self, name)
+        elif size:
             yield RawBytes(self, name, size)
 
 
-- 
2.43.0


From c776b59e6c9737ea06a6b974aff44aac389f9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 234/299] fix: ASF data without packet, format data of ASF
 videos

---
 hachoir/parser/video/asf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/asf.py b/hachoir/parser/video/asf.py
index 4b03395..22f5990 100644
--- a/hachoir/parser/video/asf.py
+++ b/hachoir/parser/video/asf.py
@@ -82,6 +82,9 @@ class VideoHeader(FieldSet):
             if self["format_data_size"].value < 40:
                 raise ParserError("Unknown format data size")
             yield BitmapInfoHeader(self, "bmp_info", use_fourcc=True)
+            size = self["format_data_size"].value - 40
+            if size:
+                yield RawBytes(self, "codec_specific", size)
 
 
 class FileProperty(FieldSet):
@@ -260,7 +263,8 @@ class Data(FieldSet):
         yield UInt64(self, "packet_count")
         yield PaddingBytes(self, "reserved", 2)
         size = (self.size - self.current_size) // 8
-        yield RawBytes(self, "data", size)
+        if size:
+            yield RawBytes(self, "data", size)
 
 
 class StreamProperty(FieldSet):
-- 
2.43.0


From b168d3bc9b5fcf5da7281ff003713276fce7c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 235/299] fix: adaptation fields of MPEG transport streams:
 empty ones, clocks

---
 hachoir/parser/video/mpeg_ts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index e626e70..8c195a6 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -20,6 +20,8 @@ class AdaptationField(FieldSet):
 
     def createFields(self):
         yield UInt8(self, "length")
+        if not self["length"].value:
+            return
 
         yield Bit(self, "discontinuity_indicator")
         yield Bit(self, "random_access_indicator")
@@ -32,17 +34,19 @@ class AdaptationField(FieldSet):
 
         if self['has_pcr'].value:
             yield Bits(self, "pcr_base", 33)
+            yield Bits(self, "reserved[]", 6)
             yield Bits(self, "pcr_ext", 9)
 
         if self['has_opcr'].value:
             yield Bits(self, "opcr_base", 33)
+            yield Bits(self, "reserved[]", 6)
             yield Bits(self, "opcr_ext", 9)
 
         if self['has_splice_point'].value:
             yield Bits(self, "splice_countdown", 8)
 
         stuff_len = ((self['length'].value + 1) * 8) - self.current_size
-        if self['length'].value and stuff_len:
+        if stuff_len:
             yield RawBits(self, 'stuffing', stuff_len)
 
 
-- 
2.43.0


From ac28e07be00e1bae2b722a3683b7deed6f3a4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 236/299] fix: MPEG transport streams: format of the packets,
 synchronization

---
 hachoir/parser/video/mpeg_ts.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index 8c195a6..c0e8cff 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -135,8 +135,14 @@ class MPEG_TS(Parser):
     endian = BIG_ENDIAN
 
     def is_m2ts(self):
-        # FIXME: detect using file content, not file name
-        # maybe detect sync at offset+4 bytes?
+        if self.stream.readBytes(0, 1) == b"\x47":
+            # Is there a synchronization byte at the start of two packets?
+            if self.size is not None and self.size <= 192 * 8:
+                return False
+            if self.stream.readBytes(188 * 8, 1) == b"\x47":
+                return False
+        elif self.stream.readBytes(4 * 8, 1) == b"\x47":
+            return True
         source = self.stream.source
         if not (source and source.startswith("file:")):
             return True
@@ -168,11 +174,11 @@ class MPEG_TS(Parser):
             next_sync = current
             if m2ts:
                 next_sync += 4 * 8
-            sync = self.stream.searchBytes(b"\x47", current,
+            sync = self.stream.searchBytes(b"\x47", next_sync,
                                            current + MAX_PACKET_SIZE * 8)
             if sync is None:
                 raise ParserError("Unable to find synchronization byte")
             elif sync > next_sync:
                 yield RawBytes(self, "incomplete_packet[]",
-                               (sync - current) // 8)
+                               (sync - next_sync) // 8)
             yield Packet(self, "packet[]", m2ts=m2ts)
-- 
2.43.0


From 9a6bf7329a743f8b354fa02609cc8ef78a0bce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 237/299] fix: end of MPEG program streams has no length

---
 hachoir/parser/video/mpeg_video.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index d77d758..9ffda70 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -479,7 +479,6 @@ class Stream(FieldSet):
 class Chunk(FieldSet):
     ISO_END_CODE = 0xB9
     tag_info = {
-        0xB9: ("end", None, "End"),
         0xBA: ("pack_start[]", PackHeader, "Pack start"),
         0xBB: ("system_start[]", SystemHeader, "System start"),
         # streams
@@ -496,7 +495,10 @@ class Chunk(FieldSet):
             for tag in range(0xBC, 0x100):
                 self.root.streamgroups[tag] = None
         tag = self["tag"].value
-        if tag in self.tag_info:
+        if tag == self.ISO_END_CODE:
+            self._name, self.parser, self._description = ("end", None, "End")
+            return
+        elif tag in self.tag_info:
             self._name, self.parser, self._description = self.tag_info[tag]
         elif 0xBC <= tag <= 0xFF:
             if 0xC0 <= tag < 0xE0:
-- 
2.43.0


From 8f3255b2f9386f8e6c500f510bae94d6c3c229e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 238/299] fix: headers of MPEG packets: rate, trick mode,
 extensions, stuffing

---
 hachoir/parser/video/mpeg_video.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index 9ffda70..b2aa809 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -140,7 +140,6 @@ class VideoExtension2(FieldSet):
     def createFields(self):
         yield Bit(self, "sync[]")  # =True
         yield Bits(self, "ext_length", 7)
-        yield NullBits(self, "reserved[]", 8)
         size = self["ext_length"].value
         if size:
             yield RawBytes(self, "ext_bytes", size)
@@ -161,6 +160,9 @@ class VideoExtension1(FieldSet):
 
         if self["has_pack_lgth"].value:
             yield UInt8(self, "pack_lgth")
+            size = self["pack_lgth"].value
+            if size:
+                yield RawBytes(self, "pack_header", size)
 
         if self["has_pack_seq"].value:
             yield Bit(self, "sync[]")  # =True
@@ -172,7 +174,7 @@ class VideoExtension1(FieldSet):
         if self["has_pstd_buffer"].value:
             yield Bits(self, "sync[]", 2)  # =1
             yield Enum(Bit(self, "pstd_buffer_scale"),
-                       {True: "128 bytes", False: "1024 bytes"})
+                       {True: "1024 bytes", False: "128 bytes"})
             yield Bits(self, "pstd_size", 13)
 
 
@@ -255,9 +257,12 @@ class PacketElement(FieldSet):
 
         if self["has_es_rate"].value:
             yield Bit(self, "sync[]")  # =True
-            yield Bits(self, "es_rate", 14)  # in units of 50 bytes/second
+            yield Bits(self, "es_rate", 22)  # in units of 50 bytes/second
             yield Bit(self, "sync[]")  # =True
 
+        if self["dsm_trick_mode"].value:
+            yield UInt8(self, "trick_mode")
+
         if self["has_copy_info"].value:
             yield Bit(self, "sync[]")  # =True
             yield Bits(self, "copy_info", 7)
@@ -271,6 +276,11 @@ class PacketElement(FieldSet):
             if self["extension/has_extension2"].value:
                 yield VideoExtension2(self, "extension2")
 
+        # The size is the number of bytes after itself
+        size = 3 + self["size"].value - self.current_size // 8
+        if size > 0:
+            yield PaddingBytes(self, "stuffing", size, pattern="\xff")
+
 
 class VideoExtension(FieldSet):
     EXT_TYPE = {1: 'Sequence', 2: 'Sequence Display', 8: 'Picture Coding'}
-- 
2.43.0


From 14f0d20c9b9fe99b652dbbe3c32e30d99dbe66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 239/299] fix: user data of MPEG videos can be read

---
 hachoir/parser/video/mpeg_video.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index b2aa809..50c2921 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -378,6 +378,19 @@ class VideoSlice(FieldSet):
         yield RawBits(self, "data", pos - start + 3)
 
 
+class VideoData(FieldSet):
+
+    def createFields(self):
+        start = self.absolute_address
+        # The data ends at the next start code
+        pos = self.stream.searchBytes(
+            b'\0\0\1', start, start + 1024 * 1024 * 8)
+        if pos is None:
+            pos = self.root.size
+        if pos > start:
+            yield RawBytes(self, "data", (pos - start) // 8)
+
+
 class VideoChunk(FieldSet):
     tag_info = {
         0x00: ("pict_start[]", VideoPicture, "Picture start"),
@@ -395,12 +408,12 @@ class VideoChunk(FieldSet):
         if tag in self.tag_info:
             self._name, self.parser, self._description = self.tag_info[tag]
             if not self.parser:
-                self.parser = defaultParser
+                self.parser = VideoData
         elif 0x01 <= tag <= 0xaf:
             self._name, self.parser, self._description = (
                 'slice[]', VideoSlice, 'Picture slice')
         else:
-            self.parser = defaultParser
+            self.parser = VideoData
 
     def createFields(self):
         yield Bytes(self, "sync", 3)
-- 
2.43.0


From 9cf3dc14ed24858d09d211ffa826d1a8e6d7a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 240/299] fix: MPEG streams which have no packet header

---
 hachoir/parser/video/mpeg_video.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index 50c2921..82954dd 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -438,11 +438,16 @@ class VideoStream(Parser):
 
 
 class Stream(FieldSet):
+    # Program stream map, private stream 2, ECM, EMM, DSM-CC, type E
+    # and program stream directory have no packet header
+    NO_HEADER = (0xBC, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF)
 
     def createFields(self):
         padding = 0
         position = 0
         streamlength = self["../length"].value
+        if self["../tag"].value in self.NO_HEADER:
+            streamlength = 0
         while position < streamlength * 8:
             next = ord(self.parent.stream.readBytes(
                 self.absolute_address + self.current_size + position, 1))
-- 
2.43.0


From 11d2a1027e3c36d227faa1e3d95e3741df0d6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:13 +0000
Subject: [PATCH 241/299] fix: stuffing of MPEG packs and packets, padding of
 HLP and 3DO files

---
 hachoir/parser/misc/file_3do.py    | 2 +-
 hachoir/parser/misc/hlp.py         | 2 +-
 hachoir/parser/video/mpeg_video.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/misc/file_3do.py b/hachoir/parser/misc/file_3do.py
index e27c8ed..5bbf9cc 100644
--- a/hachoir/parser/misc/file_3do.py
+++ b/hachoir/parser/misc/file_3do.py
@@ -132,7 +132,7 @@ class Node(FieldSet):
 
     def createFields(self):
         yield String(self, "name", 32, strip="\0")
-        yield PaddingBytes(self, "unknown[]", 32, pattern="\xCC")
+        yield PaddingBytes(self, "unknown[]", 32, pattern=b"\xCC")
         yield UInt32(self, "flags")
         yield UInt32(self, "id")
         yield UInt32(self, "type")
diff --git a/hachoir/parser/misc/hlp.py b/hachoir/parser/misc/hlp.py
index b16792c..45c9a03 100644
--- a/hachoir/parser/misc/hlp.py
+++ b/hachoir/parser/misc/hlp.py
@@ -37,7 +37,7 @@ class FileEntry(FieldSet):
         yield NullBytes(self, "zero", 2)
         yield UInt16(self, "nb_page_splits", "Number of page splits B+ tree has suffered")
         yield UInt16(self, "root_page", "Page number of B+ tree root page")
-        yield PaddingBytes(self, "one", 2, pattern="\xFF")
+        yield PaddingBytes(self, "one", 2, pattern=b"\xFF")
         yield UInt16(self, "nb_page", "Number of B+ tree pages")
         yield UInt16(self, "nb_level", "Number of levels of B+ tree")
         yield UInt16(self, "nb_entry", "Number of entries in B+ tree")
diff --git a/hachoir/parser/video/mpeg_video.py b/hachoir/parser/video/mpeg_video.py
index 82954dd..f72a4fe 100644
--- a/hachoir/parser/video/mpeg_video.py
+++ b/hachoir/parser/video/mpeg_video.py
@@ -78,7 +78,7 @@ class PackHeader(FieldSet):
             yield Bits(self, "stuffing_length", 3)
             count = self["stuffing_length"].value
             if count:
-                yield PaddingBytes(self, "stuffing", count, pattern="\xff")
+                yield PaddingBytes(self, "stuffing", count, pattern=b"\xff")
         else:
             # MPEG version 1
             yield Bits(self, "sync[]", 4)
@@ -279,7 +279,7 @@ class PacketElement(FieldSet):
         # The size is the number of bytes after itself
         size = 3 + self["size"].value - self.current_size // 8
         if size > 0:
-            yield PaddingBytes(self, "stuffing", size, pattern="\xff")
+            yield PaddingBytes(self, "stuffing", size, pattern=b"\xff")
 
 
 class VideoExtension(FieldSet):
-- 
2.43.0


From 1776eca91bc0333aac6f2a387ba41479e4faef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 242/299] fix: digests of the files of 7-zip archives when some
 folders have their own

---
 hachoir/parser/archive/sevenzip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/sevenzip.py b/hachoir/parser/archive/sevenzip.py
index b147825..239fe8b 100644
--- a/hachoir/parser/archive/sevenzip.py
+++ b/hachoir/parser/archive/sevenzip.py
@@ -505,8 +505,11 @@ class SubStreamInfo(FieldSet):
                         yield SZUInt64(self, "unpack_size[%d][%d]" % (i, j))
             elif uid == kCRC:
                 digests = []
+                folders = ()
+                if 'digests' in self['../unpack_info']:
+                    folders = self['../unpack_info/digests/defined'].value
                 for i in range(num_folders):
-                    if num_unpackstreams[i] == 1 and 'digests' in self['../unpack_info']:
+                    if num_unpackstreams[i] == 1 and i in folders:
                         continue
                     for j in range(num_unpackstreams[i]):
                         digests.append('folder %i, stream %i' % (i, j))
-- 
2.43.0


From 7ce2075260dd0128619e80237f7708eb2b20d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 243/299] fix: 7-zip coders with empty properties and packed
 headers of unknown method

---
 hachoir/parser/archive/sevenzip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/sevenzip.py b/hachoir/parser/archive/sevenzip.py
index 239fe8b..93a30cc 100644
--- a/hachoir/parser/archive/sevenzip.py
+++ b/hachoir/parser/archive/sevenzip.py
@@ -372,7 +372,8 @@ class Coder(FieldSet):
         if self['has_attribs'].value:
             size = SZUInt64(self, "properties_size")
             yield size
-            yield RawBytes(self, "properties", size.value)
+            if size.value:
+                yield RawBytes(self, "properties", size.value)
 
     def _get_num_streams(self, direction):
         if self['is_not_simple'].value:
@@ -736,7 +737,7 @@ def get_header_decompressor(self):
     unpack_info = self['/next_hdr/encoded_hdr/unpack_info']
     assert unpack_info['num_folders'].value == 1
     coder = unpack_info['folder[0]/coders[0]/coder[0]']
-    method = METHODS[coder['id'].value]
+    method = METHODS.get(coder['id'].value)
     if method == 'Copy':
         return lambda data: data
     elif method == '7z-LZMA' and has_lzma:
-- 
2.43.0


From 0b4bc4c906d558e493c92d167474caf6f5cfa07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 244/299] fix: 7-zip archives without body or header

---
 hachoir/parser/archive/sevenzip.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/sevenzip.py b/hachoir/parser/archive/sevenzip.py
index 93a30cc..b4ea7ba 100644
--- a/hachoir/parser/archive/sevenzip.py
+++ b/hachoir/parser/archive/sevenzip.py
@@ -815,8 +815,11 @@ class SevenZipParser(Parser):
 
     def createFields(self):
         yield SignatureHeader(self, "signature", "Signature Header")
-        yield Body(self, "body_data")
-        yield NextHeader(self, "next_hdr")
+        start = self["signature/start_hdr"]
+        if start["next_hdr_offset"].value:
+            yield Body(self, "body_data")
+        if start["next_hdr_size"].value:
+            yield NextHeader(self, "next_hdr")
 
     def validate(self):
         if self.stream.readBytes(0, len(self.MAGIC)) != self.MAGIC:
-- 
2.43.0


From 3321edd7e957403f153fd79d42d148fe160a769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 245/299] fix: size of Windows metafiles whose data looks like
 an end

---
 hachoir/parser/image/wmf.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2a60951..875859f 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -23,8 +23,6 @@ from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.core.tools import createDict
 from hachoir.parser.image.common import RGBA
 
-MAX_FILESIZE = 50 * 1024 * 1024
-
 POLYFILL_MODE = {1: "Alternate", 2: "Winding"}
 
 BRUSH_STYLE = {
@@ -634,8 +632,8 @@ class WMF_File(Parser):
     def createContentSize(self):
         if self.isEMF():
             return None
-        start = self["func[0]"].absolute_address
-        end = self.stream.searchBytes(b"\3\0\0\0\0\0", start, MAX_FILESIZE * 8)
-        if end is not None:
-            return end + 6 * 8
+        # The last function is the end of file
+        for func in self.array("func"):
+            if func["function"].value == 0:
+                return func.absolute_address + func.size
         return None
-- 
2.43.0


From 52a5ae4631a21eb46a65c2aa614960eb5e294cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 246/299] fix: polygons and pens with several styles of EMF
 pictures

---
 hachoir/parser/image/wmf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 875859f..8e6d60c 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -251,6 +251,16 @@ def parsePoint16array(parser):
         yield Point16(parser, "point[]")
 
 
+def parsePolyPoint16array(parser):
+    yield RECT32(parser, "bounds")
+    yield UInt32(parser, "nb_polygon")
+    yield UInt32(parser, "count")
+    for index in range(parser["nb_polygon"].value):
+        yield UInt32(parser, "nb_point[]")
+    for index in range(parser["count"].value):
+        yield Point16(parser, "point[]")
+
+
 def parseGDIComment(parser):
     yield UInt32(parser, "data_size")
     size = parser["data_size"].value
@@ -275,7 +285,7 @@ def parseExtCreatePen(parser):
     yield UInt32(parser, "hatch")
     yield UInt32(parser, "nb_style")
     for index in range(parser["nb_style"].value):
-        yield UInt32(parser, "style")
+        yield UInt32(parser, "style[]")
 
 
 EMF_META = {
@@ -368,7 +378,7 @@ EMF_META = {
     88: ("POLYBEZIERTO16", "Draw poly bezier to (16-bit)", parsePoint16array),
     89: ("POLYLINETO16", "Draw polyline to (16-bit)", parsePoint16array),
     90: ("POLYPOLYLINE16", "Draw poly polyline (16-bit)", None),
-    91: ("POLYPOLYGON16", "Draw poly polygon (16-bit)", parsePoint16array),
+    91: ("POLYPOLYGON16", "Draw poly polygon (16-bit)", parsePolyPoint16array),
     92: ("POLYDRAW16", "Draw poly draw (16-bit)", None),
     93: ("CREATEMONOBRUSH", "Create monobrush", None),
     94: ("CREATEDIBPATTERNBRUSHPT", "Create DIB pattern brush PT", None),
-- 
2.43.0


From e72b8c2f58e6f0c2e6690305975b9730d3010b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 247/299] fix: description of EMF pictures with an extended
 header

---
 hachoir/parser/image/wmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 8e6d60c..b5433df 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -515,6 +515,9 @@ class EMF_Header(FieldSet):
         offset = self["desc_ofst"].value
         current = (self.absolute_address + self.current_size) // 8
         size = self["desc_size"].value * 2
+        if size and current < offset and offset + size <= self["size"].value:
+            yield RawBytes(self, "extension", offset - current)
+            current = offset
         if offset == current and size:
             yield String(self, "description", size, charset="UTF-16-LE", strip="\0 ")
 
-- 
2.43.0


From e0244417ffb49411c7765d43d366735e6c77f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 248/299] fix: functions of Windows metafiles which were
 unknown

---
 hachoir/parser/image/wmf.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index b5433df..5edae13 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -136,6 +136,7 @@ META = {
     0x0103: ("SETMAPMODE", "Set mapping mode", None),
     0x0104: ("SETROP2", "Set foreground mix mode", parseROP2),
     0x0106: ("SETPOLYFILLMODE", "Set polygon fill mode", parsePolyFillMode),
+    0x0105: ("SETRELABS", "Set relative or absolute", None),
     0x0107: ("SETSTRETCHBLTMODE", "Set bitmap streching mode", None),
     0x0108: ("SETTEXTCHAREXTRA", "Set text character extra", None),
     0x0127: ("RESTOREDC", "Restore device context", None),
@@ -144,8 +145,11 @@ META = {
     0x012C: ("SELECTCLIPREGION", "Select clipping region", None),
     0x012D: ("SELECTOBJECT", "Select object", parseObjectID),
     0x012E: ("SETTEXTALIGN", "Set text alignment", None),
+    0x0139: ("RESIZEPALETTE", "Resize palette", None),
     0x0142: ("CREATEDIBPATTERNBRUSH", "Create DIB brush with specified pattern", None),
+    0x0149: ("SETLAYOUT", "Set layout", None),
     0x01f0: ("DELETEOBJECT", "Delete object", parseObjectID),
+    0x01f9: ("CREATEPATTERNBRUSH", "Create brush with specified pattern", None),
     0x0201: ("SETBKCOLOR", "Set background color", None),
     0x0209: ("SETTEXTCOLOR", "Set text color", None),
     0x020A: ("SETTEXTJUSTIFICATION", "Set text justification", None),
@@ -175,6 +179,7 @@ META = {
     0x041B: ("RECTANGLE", "Draw a rectangle", None),
     0x041F: ("SETPIXEL", "Set pixel", None),
     0x0429: ("FRAMEREGION", "Fram region", None),
+    0x0436: ("ANIMATEPALETTE", "Animate palette", None),
     0x0521: ("TEXTOUT", "Draw text", None),
     0x0538: ("POLYPOLYGON", "Draw multiple polygons", None),
     0x0548: ("EXTFLOODFILL", "Extend flood fill", None),
@@ -185,9 +190,11 @@ META = {
     0x0817: ("ARC", "Draw an arc", None),
     0x081A: ("PIE", "Draw a pie", None),
     0x0830: ("CHORD", "Draw a chord", None),
+    0x0922: ("BITBLT", "Bit blitting", None),
     0x0940: ("DIBBITBLT", "DIB bit blitting", None),
     0x0a32: ("EXTTEXTOUT", "Draw text (extra)", None),
     0x0b41: ("DIBSTRETCHBLT", "DIB stretch blitting", None),
+    0x0b23: ("STRETCHBLT", "Stretch blitting", None),
     0x0d33: ("SETDIBTODEV", "Set DIB to device", None),
     0x0f43: ("STRETCHDIB", "Stretch DIB", None),
 }
@@ -392,6 +399,22 @@ EMF_META = {
     102: ("GLSRECORD", "GLS record", None),
     103: ("GLSBOUNDEDRECORD", "GLS bound ED record", None),
     104: ("PIXELFORMAT", "Pixel format", None),
+    105: ("DRAWESCAPE", "Draw escape", None),
+    106: ("EXTESCAPE", "EXT escape", None),
+    108: ("SMALLTEXTOUT", "Draw small text", None),
+    109: ("FORCEUFIMAPPING", "Force UFI mapping", None),
+    110: ("NAMEDESCAPE", "Named escape", None),
+    111: ("COLORCORRECTPALETTE", "Color correct palette", None),
+    112: ("SETICMPROFILEA", "Set ICM profile A", None),
+    113: ("SETICMPROFILEW", "Set ICM profile W", None),
+    114: ("ALPHABLEND", "Alpha blending", None),
+    115: ("SETLAYOUT", "Set layout", None),
+    116: ("TRANSPARENTBLT", "Transparent blitting", None),
+    118: ("GRADIENTFILL", "Gradient fill", None),
+    119: ("SETLINKEDUFIS", "Set linked UFIs", None),
+    120: ("SETTEXTJUSTIFICATION", "Set text justification", None),
+    121: ("COLORMATCHTOTARGETW", "Color match to target W", None),
+    122: ("CREATECOLORSPACEW", "Create color space W", None),
 }
 EMF_META_NAME = createDict(EMF_META, 0)
 EMF_META_DESC = createDict(EMF_META, 1)
@@ -433,9 +456,9 @@ class Function(FieldSet):
         return func.value in func.getEnum()
 
     def createDescription(self):
-        if self.root.isEMF():
-            return EMF_META_DESC[self["function"].value]
         try:
+            if self.root.isEMF():
+                return EMF_META_DESC[self["function"].value]
             return META_DESC[self["function"].value]
         except KeyError:
             return "Function %s" % self["function"].display
-- 
2.43.0


From 83c743a1a9b9178b0f8ffb20daca8123540bd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 249/299] fix: name of hatched brushes of Windows metafiles

---
 hachoir/parser/image/wmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 5edae13..590f2e0 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -28,7 +28,7 @@ POLYFILL_MODE = {1: "Alternate", 2: "Winding"}
 BRUSH_STYLE = {
     0: "Solid",
     1: "Null",
-    2: "Hollow",
+    2: "Hatched",
     3: "Pattern",
     4: "Indexed",
     5: "DIB pattern",
-- 
2.43.0


From 823b8b16a7a423be50eb4d70b256afe49a9fb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:25 +0000
Subject: [PATCH 250/299] fix: Windows metafiles of 44 and 45 bytes

---
 hachoir/parser/image/wmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 590f2e0..22aa780 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -638,9 +638,9 @@ class WMF_File(Parser):
         """File is in EMF format?"""
         if 1 <= self.current_length:
             return self[0].name == "emf_header"
-        if self.size < 44 * 8:
-            return False
         magic = EMF_Header.MAGIC
+        if self.size < (40 + len(magic)) * 8:
+            return False
         return self.stream.readBytes(40 * 8, len(magic)) == magic
 
     def isAPM(self):
-- 
2.43.0


From 9449901ba06dab57bc79d53211cdab359c30c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:00 +0000
Subject: [PATCH 251/299] fix: functions of Windows metafiles with optional or
 padding bytes

---
 hachoir/parser/image/wmf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 22aa780..4f80965 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -446,10 +446,10 @@ class Function(FieldSet):
                 parser = None
         if parser:
             yield from parser(self)
-        else:
-            size = (self.size - self.current_size) // 8
-            if size:
-                yield RawBytes(self, "data", size)
+        size = (self.size - self.current_size) // 8
+        if size:
+            name = "padding" if parser else "data"
+            yield RawBytes(self, name, size)
 
     def isValid(self):
         func = self["function"]
-- 
2.43.0


From 81c7624303952de72428b779cabce06cee9bbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:33 +0000
Subject: [PATCH 252/299] fix: offsets of the physical streams of RealMedia
 files

---
 hachoir/parser/container/realmedia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/realmedia.py b/hachoir/parser/container/realmedia.py
index f27b06a..fb3d1f2 100644
--- a/hachoir/parser/container/realmedia.py
+++ b/hachoir/parser/container/realmedia.py
@@ -73,7 +73,7 @@ class LogicalFileInfo(FieldSet):
         for index in range(self["nb_physical_stream"].value):
             yield UInt16(self, "physical_stream[]")
         for index in range(self["nb_physical_stream"].value):
-            yield UInt16(self, "data_offset[]")
+            yield UInt32(self, "data_offset[]")
         yield UInt16(self, "nb_rule")
         for index in range(self["nb_rule"].value):
             yield UInt16(self, "rule[]")
-- 
2.43.0


From 2dc57fbcc935686176a919886c84102ef82e6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 253/299] fix: NTFS attributes of unknown types and several
 attributes of the same type

---
 hachoir/parser/file_system/ntfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 84804e2..97288ac 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -155,6 +155,8 @@ class Attribute(FieldSet):
         if type in self.ATTR_INFO:
             self._name = self.ATTR_INFO[type][0]
             self._parser = self.ATTR_INFO[type][2]
+        else:
+            self._parser = None
 
     def createFields(self):
         yield Enum(textHandler(UInt32(self, "type"), hexadecimal), self.ATTR_NAME)
@@ -326,7 +328,11 @@ class File(FieldSet):
             if self.stream.readBytes(addr, 4) == b"\xFF\xFF\xFF\xFF":
                 yield Bytes(self, "attr_end_marker", 8)
                 break
-            yield Attribute(self, "attr[]")
+            attr = Attribute(self, "attr[]")
+            if attr._name in self._fields:
+                # Other attribute of the same type, eg. named stream
+                attr._name += "[]"
+            yield attr
 
         size = self["bytes_in_use"].value - self.current_size // 8
         if size:
-- 
2.43.0


From 556ac68ce660c00a866e81956b29e7c39452eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 254/299] fix: content of NTFS attributes doesn't include their
 padding

---
 hachoir/parser/file_system/ntfs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 97288ac..7be43ff 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -254,13 +254,12 @@ class Attribute(FieldSet):
             yield String(self, "filename", size, charset="UTF-16-LE")
 
     def parseData(self):
-        size = (self.size - self.current_size) // 8
+        size = self["length_attr"].value
         if size:
             yield Bytes(self, "data", size)
 
     def parseBitmap(self):
-        size = (self.size - self.current_size)
-        for index in range(size):
+        for index in range(self["length_attr"].value * 8):
             yield Bit(self, "bit[]")
 
     # --- Type information ---
-- 
2.43.0


From 621d885fb07c3e7471ff6001feb78ede70d81d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 255/299] fix: NTFS records and attributes of older versions

---
 hachoir/parser/file_system/ntfs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 7be43ff..6ebe9dd 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -232,6 +232,9 @@ class Attribute(FieldSet):
         yield UInt32(self, "max_version", "Maximum Number of Versions")
         yield UInt32(self, "version", "Version Number")
         yield UInt32(self, "class_id")
+        if self["length_attr"].value <= 48:
+            # NTFS version 1.2
+            return
         yield UInt32(self, "owner_id")
         yield UInt32(self, "security_id")
         yield filesizeHandler(UInt64(self, "quota_charged", "Quota Charged"))
@@ -306,16 +309,18 @@ class File(FieldSet):
         yield UInt16(self, "next_attr_instance")
 
         # The below fields are specific to NTFS 3.1+ (Windows XP and above)
-        yield NullBytes(self, "reserved", 2)
-        yield UInt32(self, "mft_record_number", "Number of this mft record")
+        if 48 <= self["usa_offset"].value:
+            yield NullBytes(self, "reserved", 2)
+            yield UInt32(self, "mft_record_number", "Number of this mft record")
 
         if self["usa_offset"].value:
             padding = self.seekByte(self["usa_offset"].value, relative=True)
             if padding:
                 yield padding
 
+            # The count includes the number
             yield UInt16(self, "usa_number")
-            for i in range(self["usa_count"].value):
+            for i in range(self["usa_count"].value - 1):
                 yield UInt16(self, "usa_value[]")
 
         padding = self.seekByte(self["attrs_offset"].value, relative=True)
-- 
2.43.0


From d1d1ac94a85b38ef2f7e15f747b24eae6a3f282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 256/299] fix: sparse runs of NTFS files

---
 hachoir/parser/file_system/ntfs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index 6ebe9dd..ff955cc 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -121,7 +121,8 @@ class RunListEntry(FieldSet):
             if offset & (1 << (offlen - 1)):
                 offset -= 1 << offlen
         else:
-            offset = 0
+            # Sparse run: its clusters are not stored
+            offset = None
 
         return (length, offset)
 
@@ -139,8 +140,12 @@ class RunList(FieldSet):
         curoff = 0
         for entry in self.array('entry'):
             length, offset = entry.value
-            curoff += offset
-            if entry['header'].value != 0:
+            if entry['header'].value == 0:
+                break
+            if offset is None:
+                runs.append((length, None))
+            else:
+                curoff += offset
                 runs.append((length, curoff))
         return runs
 
-- 
2.43.0


From 2130d6580b8d8dba390ddd7d67f636ec9700c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 257/299] fix: end of the master file table of NTFS and records
 which were never used

---
 hachoir/parser/file_system/ntfs.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/ntfs.py b/hachoir/parser/file_system/ntfs.py
index ff955cc..e6dc61c 100644
--- a/hachoir/parser/file_system/ntfs.py
+++ b/hachoir/parser/file_system/ntfs.py
@@ -394,6 +394,18 @@ class NTFS(Parser):
             return err
         return True
 
+    def getRecordCount(self, cluster_size, record_size):
+        """
+        Number of records of the first part of the master file table, which is
+        described by its first record
+        """
+        mft = self["file[0]"]
+        if "data/runlist" not in mft or not mft["data/runlist"].value:
+            return 1000
+        size = mft["data/runlist"].value[0][0] * cluster_size
+        size = min(size, mft["data/size_actual"].value)
+        return size // record_size
+
     def createFields(self):
         yield MasterBootRecord(self, "mbr")
 
@@ -404,8 +416,16 @@ class NTFS(Parser):
         padding = self.seekByte(offset, relative=False)
         if padding:
             yield padding
-        for index in range(1000):
-            yield File(self, "file[]")
+        yield File(self, "file[]")
+        record_size = self["file[0]"].size // 8
+        for index in range(1, self.getRecordCount(cluster_size, record_size)):
+            if self.eof:
+                break
+            addr = self.absolute_address + self.current_size
+            if self.stream.readBytes(addr, 4) == b"FILE":
+                yield File(self, "file[]")
+            else:
+                yield RawBytes(self, "unused[]", record_size, "Unused record")
 
         size = (self.size - self.current_size) // 8
         if size:
-- 
2.43.0


From 42a3ba03d41df7cbc77fec72676028684c56b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 258/299] fix: show the processor in the description of Mach-O
 programs

---
 hachoir/parser/program/macho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 227a688..878be9f 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -454,6 +454,8 @@ class MachoFile(HachoirParser, MachoFileBase):
         "description": "Mach-O program/library"
     }
     endian = BIG_ENDIAN
+    # (not the one of HachoirParser)
+    createDescription = MachoFileBase.createDescription
 
     def __init__(self, stream, **args):
         MachoFileBase.__init__(self, None, "root", stream,
-- 
2.43.0


From 289f3dd0ea63279172b2337ec7b678e8cf9c07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 259/299] fix: accept Mach-O load commands without content

---
 hachoir/parser/program/macho.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 878be9f..5378671 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -409,16 +409,21 @@ class MachoLoadCommand(FieldSet):
             if padding_length:
                 yield PaddingBytes(self, "padding", padding_length)
         else:
-            yield RawBytes(self, "data",
-                           self['cmdsize'].value - self.current_size // 8)
+            size = self['cmdsize'].value - self.current_size // 8
+            if size:
+                yield RawBytes(self, "data", size)
 
     def createValue(self):
         return self['cmd'].value
 
     def createDisplay(self):
+        if 'data' not in self:
+            return self['cmd'].display
         return self['cmd'].display + ': ' + self['data'].display
 
     def createDescription(self):
+        if 'data' not in self:
+            return self['cmd'].display
         return self['data'].description
 
 
-- 
2.43.0


From 5e111b6672dcad8664748dde99bc13fc8f098d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 260/299] fix: read the names of Mach-O libraries at their
 offset

---
 hachoir/parser/program/macho.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/macho.py b/hachoir/parser/program/macho.py
index 5378671..3649d21 100644
--- a/hachoir/parser/program/macho.py
+++ b/hachoir/parser/program/macho.py
@@ -201,10 +201,18 @@ class DysymtabCommand(FieldSet):
         yield UInt32(self, "nlocrel")
 
 
+def loadCommandString(s):
+    # The offset is counted from the start of the load command
+    padding = s['offset'].value - 8 - s.current_size // 8
+    if padding > 0:
+        yield RawBytes(s, "padding", padding)
+    yield CString(s, "name")
+
+
 class DylinkerCommand(FieldSet):
     def createFields(self):
         yield UInt32(self, "offset")
-        yield CString(self, "name")
+        yield from loadCommandString(self)
 
     def createValue(self):
         return self['name'].value
@@ -243,7 +251,7 @@ class DylibCommand(FieldSet):
         yield UInt32(self, "timestamp")
         yield UInt32(self, "current_version")
         yield UInt32(self, "compatibility_version")
-        yield CString(self, "name")
+        yield from loadCommandString(self)
 
     def createValue(self):
         return self['name'].value
-- 
2.43.0


From fa8c7b671e29a6b25f00602f302362831fbd82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:50 +0000
Subject: [PATCH 261/299] fix: read the offsets and sizes of copies in Git
 deltas in little endian

---
 hachoir/parser/misc/git_pack.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index ed1d8fe..73fe8c2 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -67,38 +67,42 @@ class DeltaInstruction(FieldSet):
         yield Enum(Bit(self, "copy_or_add"), self.COPY_OR_ADD)
 
         if self["copy_or_add"].value:
-            yield Bit(self, "size1_set")
-            yield Bit(self, "size2_set")
+            # The first byte of each number is announced by the last of its bits,
+            # and is the least significant one
             yield Bit(self, "size3_set")
-            yield Bit(self, "offset1_set")
-            yield Bit(self, "offset2_set")
-            yield Bit(self, "offset3_set")
+            yield Bit(self, "size2_set")
+            yield Bit(self, "size1_set")
             yield Bit(self, "offset4_set")
+            yield Bit(self, "offset3_set")
+            yield Bit(self, "offset2_set")
+            yield Bit(self, "offset1_set")
 
             offset = 0
             if self["offset1_set"].value:
                 yield UInt8(self, "offset1")
-                offset |= (self["offset1"].value << 24)
+                offset |= self["offset1"].value
             if self["offset2_set"].value:
                 yield UInt8(self, "offset2")
-                offset |= (self["offset2"].value << 16)
+                offset |= (self["offset2"].value << 8)
             if self["offset3_set"].value:
                 yield UInt8(self, "offset3")
-                offset |= (self["offset3"].value << 8)
+                offset |= (self["offset3"].value << 16)
             if self["offset4_set"].value:
                 yield UInt8(self, "offset4")
-                offset |= self["offset4"].value
+                offset |= (self["offset4"].value << 24)
 
             size = 0
             if self["size1_set"].value:
                 yield UInt8(self, "size1")
-                size |= (self["size1"].value << 16)
+                size |= self["size1"].value
             if self["size2_set"].value:
                 yield UInt8(self, "size2")
                 size |= (self["size2"].value << 8)
             if self["size3_set"].value:
                 yield UInt8(self, "size3")
-                size |= self["size3"].value
+                size |= (self["size3"].value << 16)
+            if size == 0:
+                size = 0x10000
 
             self.desc = f"copy {size} B from offset {offset}"
 
-- 
2.43.0


From 7578ede339ed6ddecf16f75a3d67acd42587ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:50 +0000
Subject: [PATCH 262/299] fix: decode the distance of the base of Git deltas

---
 hachoir/parser/misc/git_pack.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 73fe8c2..9f52638 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -138,6 +138,27 @@ class VarLengthInt(FieldSet):
         return f"value={self.decoded_value}"
 
 
+class OffsetInt(FieldSet):
+    "Distance of the base of an OBJ_OFS_DELTA: most significant bits first, and each byte but the last one adds one."
+
+    endian = BIG_ENDIAN
+
+    def createFields(self):
+        self.decoded_value = 0
+        while True:
+            msb_field = Bit(self, "msb[]")
+            yield msb_field
+            value_field = Bits(self, "value[]", 7)
+            yield value_field
+            self.decoded_value = (self.decoded_value << 7) | value_field.value
+            if not msb_field.value:
+                break
+            self.decoded_value += 1
+
+    def createDescription(self):
+        return f"value={self.decoded_value}"
+
+
 class TypeAndSize(FieldSet):
     "Variable-length integer, with preceding type information."
 
@@ -178,7 +199,7 @@ class ObjectEntry(FieldSet):
         yield type_and_size
 
         if type_and_size["typ"].value == 6:
-            yield VarLengthInt(self, "offset")
+            yield OffsetInt(self, "offset")
         # FIXME: for OBJ_REF_DELTA objects the parser needs to add another field; but I haven't been able to create such test files yet.
 
         parser_for_sub_field = None
-- 
2.43.0


From 3cb942387b6c647161bc3491115dfb56e3e0495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:50 +0000
Subject: [PATCH 263/299] fix: read the name of the base of Git deltas
 (OBJ_REF_DELTA)

---
 hachoir/parser/misc/git_pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 9f52638..a3f7d74 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -200,12 +200,13 @@ class ObjectEntry(FieldSet):
 
         if type_and_size["typ"].value == 6:
             yield OffsetInt(self, "offset")
-        # FIXME: for OBJ_REF_DELTA objects the parser needs to add another field; but I haven't been able to create such test files yet.
+        elif type_and_size["typ"].value == 7:
+            yield RawBytes(self, "base_name", 20, "SHA1 name of the base object")
 
         parser_for_sub_field = None
         if type_and_size["typ"].value == 1:
             parser_for_sub_field = ObjCommitParser
-        elif type_and_size["typ"].value == 6:
+        elif type_and_size["typ"].value in (6, 7):
             parser_for_sub_field = ObjOfsDeltaParser
         # FIXME: add parsers for other object types
 
-- 
2.43.0


From 1019f041f81f3583562fa42749ac2c45b50b024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:30 +0000
Subject: [PATCH 264/299] fix: read FIT files up to the end of their data

---
 hachoir/parser/misc/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 8e51f87..7359d3d 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -151,7 +151,9 @@ class FITFile(Parser):
 
     def createFields(self):
         yield Header(self, "header")
-        while self.current_size < self["header"]["datasize"].value * 8:
+        # The size of the data doesn't count the header
+        end = self.current_size + self["header"]["datasize"].value * 8
+        while self.current_size < end:
             b = self.stream.readBits(self.absolute_address + self.current_size, 2, self.endian)
             if b == 1:
                 defMsg = DefinitionMessage(self, "definition[]")
-- 
2.43.0


From adf9625b8b4ae28720441fa064c19179703ca599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:31 +0000
Subject: [PATCH 265/299] fix: read the CRCs of FIT files in little endian

---
 hachoir/parser/misc/fit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 7359d3d..24b51e4 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -120,6 +120,7 @@ class TimeStamp(FieldSet):
 
 
 class CRC(FieldSet):
+    endian = LITTLE_ENDIAN
 
     def createFields(self):
         yield UInt16(self, "crc", "CRC")
-- 
2.43.0


From d94c16368983e2faa7d59f829556058f7e759f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:31 +0000
Subject: [PATCH 266/299] fix: accept FIT files with a header of 12 bytes

---
 hachoir/parser/misc/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 24b51e4..caa522b 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -38,7 +38,8 @@ class Header(FieldSet):
         yield UInt16(self, "profile", "Profile version")
         yield UInt32(self, "datasize", "Data size")
         yield RawBytes(self, "datatype", 4)
-        yield UInt16(self, "crc", "CRC of first 11 bytes or 0x0")
+        if self["size"].value >= 14:
+            yield UInt16(self, "crc", "CRC of first 11 bytes or 0x0")
 
     def createDescription(self):
         return "Header of fit file. Data size is %d" % (self["datasize"].value)
-- 
2.43.0


From a6eb0ad9b322a5b7ece74464001a2b3ad9e287e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:02 +0000
Subject: [PATCH 267/299] fix: read the content of FIT messages with a
 compressed time

---
 hachoir/parser/misc/fit.py | 44 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index caa522b..485621b 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -85,36 +85,46 @@ class DefinitionMessage(FieldSet):
         return "Definition Message. Contains %d fields" % (self["nbFields"].value)
 
 
+def dataFields(self, msgType):
+    msgDef = self.parent.msgDefs[msgType]
+    for n in range(msgDef["nbFields"].value):
+        desc = msgDef["fieldDefinition[%d]" % n]
+        typ = field_types[desc["type"].value]
+        self.endian = BIG_ENDIAN if msgDef["architecture"].value else LITTLE_ENDIAN
+        if typ == String or typ == Bytes:
+            yield typ(self, "field%d" % n, desc["size"].value)
+        else:
+            if typ.static_size // 8 == desc["size"].value:
+                yield typ(self, "field%d" % n, desc["size"].value)
+            else:
+                for p in range(desc["size"].value * 8 // typ.static_size):
+                    yield typ(self, "field%d[]" % n)
+
+
 class DataMessage(FieldSet):
 
     def createFields(self):
         hdr = NormalRecordHeader(self, "RecordHeader")
         yield hdr
-        msgType = self["RecordHeader"]["msgType"].value
-        msgDef = self.parent.msgDefs[msgType]
-        for n in range(msgDef["nbFields"].value):
-            desc = msgDef["fieldDefinition[%d]" % n]
-            typ = field_types[desc["type"].value]
-            self.endian = BIG_ENDIAN if msgDef["architecture"].value else LITTLE_ENDIAN
-            if typ == String or typ == Bytes:
-                yield typ(self, "field%d" % n, desc["size"].value)
-            else:
-                if typ.static_size // 8 == desc["size"].value:
-                    yield typ(self, "field%d" % n, desc["size"].value)
-                else:
-                    for p in range(desc["size"].value * 8 // typ.static_size):
-                        yield typ(self, "field%d[]" % n)
+        yield from dataFields(self, self["RecordHeader"]["msgType"].value)
 
     def createDescription(self):
         return "Data Message"
 
 
-class TimeStamp(FieldSet):
+class TimeStampRecordHeader(FieldSet):
 
     def createFields(self):
         yield Bit(self, "timestamp", "TimeStamp (1)")
-        yield Bits(self, "msgType", 3, description="Message type")
-        yield Bits(self, "time", 4, description="TimeOffset")
+        yield Bits(self, "msgType", 2, description="Message type")
+        yield Bits(self, "time", 5, description="TimeOffset")
+
+
+class TimeStamp(FieldSet):
+
+    def createFields(self):
+        yield TimeStampRecordHeader(self, "RecordHeader")
+        yield from dataFields(self, self["RecordHeader"]["msgType"].value)
 
     def createDescription(self):
         return "TimeStamp"
-- 
2.43.0


From b71759f18e0392ca1c5851da70fedb00abbc5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:02 +0000
Subject: [PATCH 268/299] fix: read the developer fields of FIT messages

---
 hachoir/parser/misc/fit.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 485621b..56e8b5b 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -50,7 +50,7 @@ class NormalRecordHeader(FieldSet):
     def createFields(self):
         yield Bit(self, "normal", "Normal header (0)")
         yield Bit(self, "type", "Message type (0 data, 1 definition")
-        yield Bit(self, "typespecific", "0")
+        yield Bit(self, "typespecific", "Developer fields, in a definition message")
         yield Bit(self, "reserved", "0")
         yield Bits(self, "msgType", 4, description="Message type")
 
@@ -69,6 +69,17 @@ class FieldDefinition(FieldSet):
         return "Field Definition. Number %d, Size %d" % (self["number"].value, self["size"].value)
 
 
+class DeveloperFieldDefinition(FieldSet):
+
+    def createFields(self):
+        yield UInt8(self, "number", "Field number")
+        yield UInt8(self, "size", "Size in bytes")
+        yield UInt8(self, "index", "Index of the developer")
+
+    def createDescription(self):
+        return "Developer Field Definition. Number %d, Size %d" % (self["number"].value, self["size"].value)
+
+
 class DefinitionMessage(FieldSet):
 
     def createFields(self):
@@ -80,6 +91,10 @@ class DefinitionMessage(FieldSet):
         yield UInt8(self, "nbFields", "Number of fields")
         for n in range(self["nbFields"].value):
             yield FieldDefinition(self, "fieldDefinition[]")
+        if self["RecordHeader/typespecific"].value:
+            yield UInt8(self, "nbDevFields", "Number of developer fields")
+            for n in range(self["nbDevFields"].value):
+                yield DeveloperFieldDefinition(self, "devFieldDefinition[]")
 
     def createDescription(self):
         return "Definition Message. Contains %d fields" % (self["nbFields"].value)
@@ -99,6 +114,9 @@ def dataFields(self, msgType):
             else:
                 for p in range(desc["size"].value * 8 // typ.static_size):
                     yield typ(self, "field%d[]" % n)
+    if "nbDevFields" in msgDef:
+        for n in range(msgDef["nbDevFields"].value):
+            yield Bytes(self, "devField%d" % n, msgDef["devFieldDefinition[%d]/size" % n].value)
 
 
 class DataMessage(FieldSet):
-- 
2.43.0


From 7269f45e5daea4eaad80ba814e5c299a417e15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:02 +0000
Subject: [PATCH 269/299] fix: show a text as the description of the fields of
 FIT messages

---
 hachoir/parser/misc/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 56e8b5b..0614dad 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -110,7 +110,7 @@ def dataFields(self, msgType):
             yield typ(self, "field%d" % n, desc["size"].value)
         else:
             if typ.static_size // 8 == desc["size"].value:
-                yield typ(self, "field%d" % n, desc["size"].value)
+                yield typ(self, "field%d" % n)
             else:
                 for p in range(desc["size"].value * 8 // typ.static_size):
                     yield typ(self, "field%d[]" % n)
-- 
2.43.0


From 778a567b5f9ea193bce61eba52d8ca98d08d3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:43 +0000
Subject: [PATCH 270/299] fix: read the records of .DS_Store files: their types
 are bytes

---
 hachoir/parser/misc/dsstore.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 7e0aaa0..cd34042 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -118,19 +118,19 @@ class DSRecord(FieldSet):
         yield Bytes(self, "property", 4)
         yield Bytes(self, "type", 4)
         type = self['type'].value
-        if type == 'long':
+        if type == b'long':
             yield UInt32(self, "value")
-        elif type == 'shor':
+        elif type == b'shor':
             yield NullBytes(self, "padding", 2)
             yield UInt16(self, "value")
-        elif type == 'bool':
+        elif type == b'bool':
             yield UInt8(self, "value")
-        elif type == 'blob':
+        elif type == b'blob':
             yield UInt32(self, "size")
             yield SubFile(self, "value", self['size'].value)
-        elif type == 'type':
+        elif type == b'type':
             yield Bytes(self, "value", 4)
-        elif type == 'ustr':
+        elif type == b'ustr':
             yield PascalString32UTF16(self, "value")
         else:
             raise ParserError("Unknown record type %s" % type)
@@ -139,7 +139,7 @@ class DSRecord(FieldSet):
         return (self['filename'].value, self['property'].value, self['value'].value)
 
     def createDisplay(self):
-        return self['filename'].display + ':' + self['property'].value
+        return self['filename'].display + ':' + self['property'].value.decode('ISO-8859-1')
 
 
 class BTNode(FieldSet):
-- 
2.43.0


From d361df22e3747b43fd3fc6562082eb6d34326b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:54 +0000
Subject: [PATCH 271/299] fix: read the 64-bit numbers and dates of .DS_Store
 files

---
 hachoir/parser/misc/dsstore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index cd34042..2ba890a 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -10,7 +10,7 @@ Created: 2010-09-01
 from hachoir.parser import HachoirParser
 from hachoir.field import (RootSeekableFieldSet, FieldSet,
                            NullBytes, RawBytes, PaddingBytes, Bytes, SubFile, String, PascalString8,
-                           Bits, UInt8, UInt16, UInt32,
+                           Bits, UInt8, UInt16, UInt32, UInt64,
                            Link,
                            ParserError)
 from hachoir.core.endian import BIG_ENDIAN
@@ -128,6 +128,8 @@ class DSRecord(FieldSet):
         elif type == b'blob':
             yield UInt32(self, "size")
             yield SubFile(self, "value", self['size'].value)
+        elif type in (b'comp', b'dutc'):
+            yield UInt64(self, "value")
         elif type == b'type':
             yield Bytes(self, "value", 4)
         elif type == b'ustr':
-- 
2.43.0


From 71df2e9b20a8c3fdbe87861cd7927282feca554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:08 +0000
Subject: [PATCH 272/299] fix: accept empty blobs in .DS_Store files

---
 hachoir/parser/misc/dsstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 2ba890a..5a678e0 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -127,7 +127,8 @@ class DSRecord(FieldSet):
             yield UInt8(self, "value")
         elif type == b'blob':
             yield UInt32(self, "size")
-            yield SubFile(self, "value", self['size'].value)
+            if self['size'].value:
+                yield SubFile(self, "value", self['size'].value)
         elif type in (b'comp', b'dutc'):
             yield UInt64(self, "value")
         elif type == b'type':
@@ -138,7 +139,8 @@ class DSRecord(FieldSet):
             raise ParserError("Unknown record type %s" % type)
 
     def createValue(self):
-        return (self['filename'].value, self['property'].value, self['value'].value)
+        value = self['value'].value if 'value' in self else None
+        return (self['filename'].value, self['property'].value, value)
 
     def createDisplay(self):
         return self['filename'].display + ':' + self['property'].value.decode('ISO-8859-1')
-- 
2.43.0


From 0e6e2f1393e5e602349371571bf3cebc756fb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:27 +0000
Subject: [PATCH 273/299] fix: accept empty texts in .DS_Store files

---
 hachoir/parser/misc/dsstore.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 5a678e0..36ca81e 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -102,12 +102,17 @@ class PascalString32UTF16(FieldSet):
 
     def createFields(self):
         yield UInt32(self, "size")
-        yield String(self, "value", self['size'].value * 2, charset="UTF-16-BE")
+        if self['size'].value:
+            yield String(self, "value", self['size'].value * 2, charset="UTF-16-BE")
 
     def createValue(self):
+        if 'value' not in self:
+            return ""
         return self['value'].value
 
     def createDisplay(self):
+        if 'value' not in self:
+            return '""'
         return str(self['value'].display)
 
 
-- 
2.43.0


From 55d69c9695f10824b393937a7426c0bad190e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 274/299] fix: read long strings of serialized Java objects

---
 hachoir/parser/program/java_serialized.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 8021038..862c64c 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -26,14 +26,24 @@ class LongString(FieldSet):
 
     def createFields(self):
         yield Int64(self, "length")
-        yield String(self, "value", charset="UTF-8")
+        if self["length"].value:
+            yield String(self, "value", self["length"].value, charset="UTF-8")
 
     def createDescription(self):
+        if 'value' not in self:
+            return "Empty string"
         return self['value'].description
 
     def createValue(self):
+        if 'value' not in self:
+            return ""
         return self['value'].value
 
+    def createDisplay(self):
+        if 'value' not in self:
+            return '""'
+        return self['value'].display
+
 
 class UTF16Character(UInt16):
 
@@ -211,7 +221,7 @@ class SerializedObject(FieldSet):
     def createDisplay(self):
         out = []
         for field in self['value'].array('field'):
-            if isinstance(field, SerializedReference) and not isinstance(field.referent, SerializedString):
+            if isinstance(field, SerializedReference) and not isinstance(field.referent, (SerializedString, SerializedLongString)):
                 # Avoid recursive references
                 out.append('%s=#<REF:%s>' % (field.fieldName,
                                              field.referent.classDesc.className))
@@ -260,7 +270,7 @@ class SerializedArray(FieldSet):
     def createDisplay(self):
         out = []
         for field in self.array('value'):
-            if isinstance(field, SerializedReference) and not isinstance(field.referent, SerializedString):
+            if isinstance(field, SerializedReference) and not isinstance(field.referent, (SerializedString, SerializedLongString)):
                 # Avoid recursive references
                 out.append('#<REF:%s>' % (field.referent.classDesc.className,))
             else:
@@ -326,6 +336,9 @@ class SerializedLongString(FieldSet):
     def createValue(self):
         return self['value'].value
 
+    def createDisplay(self):
+        return self['value'].display
+
 
 class SerializedProxyClassDesc(FieldSet):
 
-- 
2.43.0


From 166425442958ef4844dc0c07a04b26e6cf012ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 275/299] fix: resolve the references to the types of fields of
 serialized Java objects

---
 hachoir/parser/program/java_serialized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 862c64c..013b6b2 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -99,7 +99,10 @@ class FieldDesc(FieldSet):
     def typeDescriptor(self):
         typecode = self['typecode'].value
         if typecode in ('[', 'L'):
-            return self['className'].value
+            className = self['className']
+            if isinstance(className, SerializedReference):
+                className = className.referent
+            return className.value
         else:
             return typecode
 
-- 
2.43.0


From 42e7ef71d654f8da7cebdfcd85fc51ec6b30031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 276/299] fix: resolve the references to the names of Java
 enumeration constants

---
 hachoir/parser/program/java_serialized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 013b6b2..bb338d8 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -376,7 +376,10 @@ class SerializedEnum(FieldSet):
         return classDesc
 
     def createValue(self):
-        return self['enumConstantName'].value
+        name = self['enumConstantName']
+        if isinstance(name, SerializedReference):
+            name = name.referent
+        return name.value
 
     def createDisplay(self):
         return '%s.%s' % (self.classDesc.className, self.value)
-- 
2.43.0


From f555aa2fb349baf707c9a9c2152acba9000f20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 277/299] fix: show the references to serialized Java classes

---
 hachoir/parser/program/java_serialized.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index bb338d8..ec12cb6 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -288,6 +288,16 @@ class SerializedClass(FieldSet):
         yield SerializedContent(self, "classDesc")
         self.root.newHandle(self)
 
+    @property
+    def classDesc(self):
+        classDesc = self['classDesc']
+        if isinstance(classDesc, SerializedReference):
+            classDesc = classDesc.referent
+        return classDesc
+
+    def createDisplay(self):
+        return 'class %s' % self.classDesc.className
+
 
 class BlockData(FieldSet):
 
-- 
2.43.0


From ea32835b60a3b7d0dfc384ff01772923f23c7e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 278/299] fix: show serialized Java objects without values

---
 hachoir/parser/program/java_serialized.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index ec12cb6..52fde98 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -219,11 +219,17 @@ class SerializedObject(FieldSet):
         return classDesc
 
     def createValue(self):
-        return tuple(field.value for field in self['value'].array('field'))
+        return tuple(field.value for field in self.valueFields())
+
+    def valueFields(self):
+        # There is no value if the classes have no field
+        if 'value' not in self:
+            return ()
+        return self['value'].array('field')
 
     def createDisplay(self):
         out = []
-        for field in self['value'].array('field'):
+        for field in self.valueFields():
             if isinstance(field, SerializedReference) and not isinstance(field.referent, (SerializedString, SerializedLongString)):
                 # Avoid recursive references
                 out.append('%s=#<REF:%s>' % (field.fieldName,
-- 
2.43.0


From 6ef62a4512b7a4e052517e1677b9c1cf3e57bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:39 +0000
Subject: [PATCH 279/299] fix: don't read the values of the superclasses of
 externalizable Java objects

---
 hachoir/parser/program/java_serialized.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 52fde98..4dc5acc 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -166,16 +166,18 @@ class ObjectValue(FieldSet):
         if isinstance(classDesc, SerializedNull):
             return
 
+        if (not isinstance(classDesc, SerializedProxyClassDesc)
+                and classDesc['classDescFlags_externalizable'].value):
+            # Only the class itself writes something
+            yield WriteObjectContents(self, "external[]", "%s.writeExternal() output" % classDesc['className'].value)
+            return
+
         for field in self.gen_values(classDesc['superClassDesc']):
             yield field
 
         if isinstance(classDesc, SerializedProxyClassDesc):
             return
 
-        if classDesc['classDescFlags_externalizable'].value:
-            yield WriteObjectContents(self, "external[]", "%s.writeExternal() output" % classDesc['className'].value)
-            return
-
         for fieldDesc in classDesc.array('fieldDesc'):
             tc = fieldDesc['typecode'].value
             klass = VALUE_CLASS_MAP[tc]
-- 
2.43.0


From acfea09cfe46f38bdd0e8f713906e9c68ce6b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 280/299] fix: read serialized Java objects without values

---
 hachoir/parser/program/java_serialized.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 4dc5acc..d9618f8 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -160,6 +160,19 @@ class SerializedClassDesc(FieldSet):
 
 class ObjectValue(FieldSet):
 
+    @staticmethod
+    def hasValues(classDesc):
+        if isinstance(classDesc, SerializedReference):
+            classDesc = classDesc.referent
+        if isinstance(classDesc, SerializedNull):
+            return False
+        if not isinstance(classDesc, SerializedProxyClassDesc):
+            if (classDesc['fieldDesc_count'].value
+                    or classDesc['classDescFlags_externalizable'].value
+                    or classDesc['classDescFlags_write_method'].value):
+                return True
+        return ObjectValue.hasValues(classDesc['superClassDesc'])
+
     def gen_values(self, classDesc):
         if isinstance(classDesc, SerializedReference):
             classDesc = classDesc.referent
@@ -211,7 +224,8 @@ class SerializedObject(FieldSet):
         yield SerializedContent(self, "classDesc")
         self.root.newHandle(self)
 
-        yield ObjectValue(self, "value")
+        if ObjectValue.hasValues(self.classDesc):
+            yield ObjectValue(self, "value")
 
     @property
     def classDesc(self):
-- 
2.43.0


From 2aa05076a2d045b866af1a805033d073c37b1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:09 +0000
Subject: [PATCH 281/299] fix: resolve the references of serialized Java
 objects before a reset of the handles

---
 hachoir/parser/program/java_serialized.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index d9618f8..7fab4c2 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -75,10 +75,14 @@ class SerializedReference(FieldSet):
     def createFields(self):
         yield Enum(UInt8(self, "typecode"), TYPECODE_NAMES)
         yield Int32(self, "handle")
+        # The handle may get another meaning later
+        self._referent = self.root.handles.get(self['handle'].value)
 
     @property
     def referent(self):
-        return self.root.handles[self['handle'].value]
+        if self._referent is None:
+            raise ParserError("Unknown handle 0x%x" % self['handle'].value)
+        return self._referent
 
     def createValue(self):
         return self['handle'].value
-- 
2.43.0


From 33152fe0b795ba74629d79940c439837f41b0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:12 +0000
Subject: [PATCH 282/299] fix: read the strings of serialized Java objects
 longer than 64 KB

---
 hachoir/parser/program/java_serialized.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 7fab4c2..889ca07 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -26,8 +26,12 @@ class LongString(FieldSet):
 
     def createFields(self):
         yield Int64(self, "length")
-        if self["length"].value:
-            yield String(self, "value", self["length"].value, charset="UTF-8")
+        length = self["length"].value
+        if 0xffff < length:
+            # Too long for a String field
+            yield RawBytes(self, "value", length)
+        elif length:
+            yield String(self, "value", length, charset="UTF-8")
 
     def createDescription(self):
         if 'value' not in self:
@@ -37,11 +41,14 @@ class LongString(FieldSet):
     def createValue(self):
         if 'value' not in self:
             return ""
-        return self['value'].value
+        value = self['value'].value
+        if isinstance(value, bytes):
+            value = value.decode("UTF-8", "replace")
+        return value
 
     def createDisplay(self):
         if 'value' not in self:
-            return '""'
+            return '(empty)'
         return self['value'].display
 
 
-- 
2.43.0


From 2a34c2ea8f82d7daf4ba0bbe9223090dce2617de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:34 +0000
Subject: [PATCH 283/299] fix: CR2 directories without image data do not hide
 the images of the next ones

---
 hachoir/parser/image/cr2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..bc36527 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -102,7 +102,9 @@ class CR2File(RootSeekableFieldSet, Parser):
                 offsets.append((ifd['next'].value, 'ifd[]', IFD))
 
         for ifd in self.array('ifd'):
-            offs = (off for off, byte in getStrips(ifd))
+            offs = [off for off, byte in getStrips(ifd)]
+            if not offs:
+                continue
             self.seekByte(min(offs), relative=False)
             image = ImageFile(self, "image[]", "Image File", ifd)
             yield image
-- 
2.43.0


From 39d6cf70f7ee952b8bf985ae1effac0a9d6d3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:34 +0000
Subject: [PATCH 284/299] fix: CR2 metadata find the camera, the program and
 the dates by their tags

---
 hachoir/metadata/cr2.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/cr2.py b/hachoir/metadata/cr2.py
index 630794b..8c83328 100644
--- a/hachoir/metadata/cr2.py
+++ b/hachoir/metadata/cr2.py
@@ -18,17 +18,20 @@ class CR2Metadata(RootMetadata):
         "DocumentName": "title",
         "XResolution": "width_dpi",
         "YResolution": "height_dpi",
+        "Make": "camera_manufacturer",
+        "Model": "camera_model",
+        "Software": "producer",
+        "DateTime": "creation_date",
+        "DateTimeOriginal": "date_time_original",
+        "DateTimeDigitized": "date_time_digitized",
     }
 
     def extract(self, tiff):
         if "ifd[0]" in tiff:
             self.useIFD(tiff["ifd[0]"])
-            self.camera_manufacturer = tiff["ifd[0]"]["value[4]"].value
-            self.camera_model = tiff["ifd[0]"]["value[5]"].value
 
         if "exif[0]" in tiff:
-            self.date_time_original = tiff["exif[0]"]["value[7]"].value
-            self.date_time_digitized = tiff["exif[0]"]["value[8]"].value
+            self.useIFD(tiff["exif[0]"])
 
     def useIFD(self, ifd):
         attr = {}
-- 
2.43.0


From 93947fc949ee7f1ba44204a2510989e54718ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:35 +0000
Subject: [PATCH 285/299] fix: CR2 resolutions per centimetre are shown per
 inch

---
 hachoir/metadata/cr2.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hachoir/metadata/cr2.py b/hachoir/metadata/cr2.py
index 8c83328..f887b79 100644
--- a/hachoir/metadata/cr2.py
+++ b/hachoir/metadata/cr2.py
@@ -16,8 +16,6 @@ class CR2Metadata(RootMetadata):
         "ImageLength": "height",
         "ImageDescription": "comment",
         "DocumentName": "title",
-        "XResolution": "width_dpi",
-        "YResolution": "height_dpi",
         "Make": "camera_manufacturer",
         "Model": "camera_model",
         "Software": "producer",
@@ -40,11 +38,18 @@ class CR2Metadata(RootMetadata):
         if 'BitsPerSample' in attr and 'SamplesPerPixel' in attr:
             self.bits_per_pixel = attr[
                 'BitsPerSample'] * attr['SamplesPerPixel']
+        # Resolution per inch or per centimeter
+        factor = 2.54 if attr.get("ResolutionUnit") == 3 else 1
+        if attr.get("XResolution"):
+            self.width_dpi = round(attr["XResolution"] * factor)
+        if attr.get("YResolution"):
+            self.height_dpi = round(attr["YResolution"] * factor)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry, attr):
         tag = entry["tag"].display
-        if tag in {"BitsPerSample", "SamplesPerPixel"}:
+        if tag in {"BitsPerSample", "SamplesPerPixel", "ResolutionUnit",
+                   "XResolution", "YResolution"}:
             value = ifd.getEntryValues(entry)[0].value
             attr[tag] = value
             return
@@ -54,8 +59,6 @@ class CR2Metadata(RootMetadata):
         except KeyError:
             return
         value = ifd.getEntryValues(entry)[0].value
-        if tag in {"XResolution", "YResolution"}:
-            value = round(value)
         setattr(self, attrname, value)
 
 
-- 
2.43.0


From c9ae44d596b8864932e17ec30db1374bb1642f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:35 +0000
Subject: [PATCH 286/299] fix: the descriptions of ReiserFS blocks do not
 depend on the volumes read before

---
 hachoir/parser/file_system/reiser_fs.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/reiser_fs.py b/hachoir/parser/file_system/reiser_fs.py
index da6ffde..d8b4e9a 100644
--- a/hachoir/parser/file_system/reiser_fs.py
+++ b/hachoir/parser/file_system/reiser_fs.py
@@ -34,13 +34,10 @@ class BlockState(Bit):
         False: "free"
     }
 
-    block_nb = 0
-
     def __init__(self, parent, name, nb_block):
         """@param nb_block: Number of the block concerned"""
         Bit.__init__(self, parent, name)
-        self.block_nb = self.__class__.block_nb
-        self.__class__.block_nb += 1
+        self.block_nb = nb_block
 
     def createDescription(self):
         return "State of the block %d" % self.block_nb
@@ -55,11 +52,16 @@ class BitmapBlock(SeekableFieldSet):
         the state of a block to tell if it is used or not.
     """
 
+    def __init__(self, parent, name, first_block, description=None):
+        """@param first_block: Number of the first block of this bitmap"""
+        SeekableFieldSet.__init__(self, parent, name, description)
+        self.first_block = first_block
+
     def createFields(self):
         block_size = self["/superblock/blocksize"].value
 
         for i in range(0, block_size * 8):
-            yield BlockState(self, "block[]", i)
+            yield BlockState(self, "block[]", self.first_block + i)
 
 
 class BitmapBlockGroup(SeekableFieldSet):
@@ -71,11 +73,11 @@ class BitmapBlockGroup(SeekableFieldSet):
         # Position of the first bitmap block
         self.seekByte(REISER_FS.SUPERBLOCK_OFFSET + block_size, relative=False)
 
-        yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+        yield BitmapBlock(self, "BitmapBlock[]", 0, "Bitmap blocks tells for each block if it is used")
         # The other bitmap blocks
         for i in range(1, nb_bitmap_block):
             self.seekByte((block_size**2) * 8 * i, relative=False)
-            yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+            yield BitmapBlock(self, "BitmapBlock[]", block_size * 8 * i, "Bitmap blocks tells for each block if it is used")
 
 
 class Journal_params(FieldSet):
-- 
2.43.0


From 7351ff6167983d39c627f65ed93ee07bd18fc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:03 +0000
Subject: [PATCH 287/299] fix: fields can be converted to another type in
 hachoir-wx

---
 hachoir/wx/field_view/mutator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/wx/field_view/mutator.py b/hachoir/wx/field_view/mutator.py
index 2a5a5d1..1ff24b1 100644
--- a/hachoir/wx/field_view/mutator.py
+++ b/hachoir/wx/field_view/mutator.py
@@ -17,8 +17,8 @@ def convert_field(field, new_type_name):
     new_type = getattr(field_module, new_type_name)
 
     if has_static_size(new_type):
-        new_field = new_type(field_set, field.name, field._getDescription())
+        new_field = new_type(field_set, field.name, field.description)
     else:
-        new_field = new_type(field_set, field.name, convert_size(field, new_type), field._getDescription())
+        new_field = new_type(field_set, field.name, convert_size(field, new_type), field.description)
 
     field_set.replaceField(field.name, [new_field])
-- 
2.43.0


From a6379aa7d697ffe0c63a295f7a00cfafec6e8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:40 +0000
Subject: [PATCH 288/299] fix: empty texts in Gnome keyrings do not stop the
 parser

---
 hachoir/parser/misc/gnome_keyring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/gnome_keyring.py b/hachoir/parser/misc/gnome_keyring.py
index 421014a..ab6c5d9 100644
--- a/hachoir/parser/misc/gnome_keyring.py
+++ b/hachoir/parser/misc/gnome_keyring.py
@@ -59,7 +59,7 @@ class KeyringString(FieldSet):
     def createFields(self):
         yield UInt32(self, "length")
         length = self["length"].value
-        if length == 0xffffffff:
+        if length in (0, 0xffffffff):
             return
         yield String(self, "text", length, charset="UTF-8")
 
-- 
2.43.0


From 0fbab5dc723ab16247ba2479ec4b72ed5534d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:40 +0000
Subject: [PATCH 289/299] fix: flags of Gnome keyrings are the last bits of
 their number

---
 hachoir/parser/misc/gnome_keyring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/gnome_keyring.py b/hachoir/parser/misc/gnome_keyring.py
index ab6c5d9..bf21a1d 100644
--- a/hachoir/parser/misc/gnome_keyring.py
+++ b/hachoir/parser/misc/gnome_keyring.py
@@ -200,8 +200,9 @@ class GnomeKeyring(Parser):
         yield KeyringString(self, "keyring_name")
         yield TimestampUnix64(self, "mtime")
         yield TimestampUnix64(self, "ctime")
+        yield NullBits(self, "reserved[]", 30, "Reserved for future flags")
+        yield Bit(self, "lock_after")
         yield Bit(self, "lock_on_idle")
-        yield NullBits(self, "reserved[]", 31, "Reserved for future flags")
         yield UInt32(self, "lock_timeout")
         yield UInt32(self, "hash_iterations")
         yield RawBytes(self, "salt", 8)
-- 
2.43.0


From a27ff80104d7b4489104bf8617c0eaa6e247a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:40 +0000
Subject: [PATCH 290/299] fix: items of Gnome keyrings with short texts are
 shown

---
 hachoir/parser/misc/gnome_keyring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/gnome_keyring.py b/hachoir/parser/misc/gnome_keyring.py
index bf21a1d..abb78e5 100644
--- a/hachoir/parser/misc/gnome_keyring.py
+++ b/hachoir/parser/misc/gnome_keyring.py
@@ -160,7 +160,8 @@ class EncryptedData(Parser):
         yield RawBytes(self, "md5", 16)
         while True:
             size = (self.size - self.current_size) // 8
-            if size < 77:
+            # Smallest item: no text, no attribute and no access control
+            if size < 52:
                 break
             yield EncryptedItem(self, "item[]")
         size = paddingSize(self.current_size // 8, 16)
-- 
2.43.0


From 9bf406ca64aec904ef01204f62b0ddafb15a59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:20 +0000
Subject: [PATCH 291/299] fix: sections of EFI firmware are aligned

---
 hachoir/parser/misc/pifv.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/hachoir/parser/misc/pifv.py b/hachoir/parser/misc/pifv.py
index 0d9ec8f..2b543bb 100644
--- a/hachoir/parser/misc/pifv.py
+++ b/hachoir/parser/misc/pifv.py
@@ -92,6 +92,18 @@ class BlockMap(FieldSet):
             self["num_blocks"].value, humanFilesize(self["len"].value))
 
 
+def readSections(parent):
+    # Each section is aligned on 4 bytes from the first one
+    start = parent.current_size
+    while not parent.eof:
+        padding = paddingSize((parent.current_size - start) // 8, 4)
+        padding = min(padding, (parent.size - parent.current_size) // 8)
+        if padding:
+            yield PaddingBytes(parent, "padding[]", padding)
+        else:
+            yield FileSection(parent, "section[]")
+
+
 class FileSection(FieldSet):
     COMPRESSION_TYPE = {
         0: 'Not Compressed',
@@ -101,14 +113,6 @@ class FileSection(FieldSet):
     def __init__(self, *args, **kw):
         FieldSet.__init__(self, *args, **kw)
         self._size = self["size"].value * 8
-        section_type = self["type"].value
-        if section_type in (EFI_SECTION_DXE_DEPEX, EFI_SECTION_PEI_DEPEX):
-            # These sections can sometimes be longer than what their size
-            # claims! It's so nice to have so detailled specs and not follow
-            # them ...
-            if self.stream.readBytes(self.absolute_address +
-                                     self._size, 1) == b'\0':
-                self._size = self._size + 16
 
     def createFields(self):
         # Header
@@ -142,8 +146,7 @@ class FileSection(FieldSet):
                 while not self.eof:
                     yield RawBytes(self, "compressed_content", content_size)
             else:
-                while not self.eof:
-                    yield FileSection(self, "section[]")
+                yield from readSections(self)
         elif section_type == EFI_SECTION_FIRMWARE_VOLUME_IMAGE:
             yield FirmwareVolume(self, "firmware_volume")
         else:
@@ -172,8 +175,7 @@ class File(FieldSet):
         yield UInt8(self, "state")
 
         # Content
-        while not self.eof:
-            yield FileSection(self, "section[]")
+        yield from readSections(self)
 
     def createDescription(self):
         return "%s: %s containing %d section(s)" % (
-- 
2.43.0


From 0294795e58993033f645a49ee2e11318d3ae9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:20 +0000
Subject: [PATCH 292/299] fix: raw and pad files of EFI firmware have no
 sections

---
 hachoir/parser/misc/pifv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/pifv.py b/hachoir/parser/misc/pifv.py
index 2b543bb..c98f33c 100644
--- a/hachoir/parser/misc/pifv.py
+++ b/hachoir/parser/misc/pifv.py
@@ -175,7 +175,12 @@ class File(FieldSet):
         yield UInt8(self, "state")
 
         # Content
-        yield from readSections(self)
+        if self["type"].value in (EFI_FV_FILETYPE_RAW, EFI_FV_FILETYPE_FFS_PAD):
+            size = (self.size - self.current_size) // 8
+            if size:
+                yield RawBytes(self, "content", size)
+        else:
+            yield from readSections(self)
 
     def createDescription(self):
         return "%s: %s containing %d section(s)" % (
-- 
2.43.0


From 20675aebe40c239e962f91574259dfc931bc9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:20 +0000
Subject: [PATCH 293/299] fix: EFI firmware with free space or padding behind
 the last file

---
 hachoir/parser/misc/pifv.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/pifv.py b/hachoir/parser/misc/pifv.py
index c98f33c..712688b 100644
--- a/hachoir/parser/misc/pifv.py
+++ b/hachoir/parser/misc/pifv.py
@@ -217,10 +217,17 @@ class FirmwareVolume(FieldSet):
 
         # Content
         while not self.eof:
-            padding = paddingSize(self.current_size // 8, 8)
+            size = (self.size - self.current_size) // 8
+            padding = min(paddingSize(self.current_size // 8, 8), size)
             if padding:
                 yield PaddingBytes(self, "padding[]", padding)
-            yield File(self, "file[]")
+                continue
+            header = self.stream.readBytes(
+                self.absolute_address + self.current_size, min(size, 24))
+            if header == b"\xff" * len(header):
+                yield RawBytes(self, "free_space", size)
+            else:
+                yield File(self, "file[]")
 
     def createDescription(self):
         return "Firmware Volume containing %d file(s)" % len(self.array("file"))
-- 
2.43.0


From c339ac59191a99a6398878cddca32b6776c14d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:20 +0000
Subject: [PATCH 294/299] fix: sizes of the mipmaps of Blizzard pictures are
 whole numbers

---
 hachoir/parser/game/blp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index b948214..ee549f0 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -101,8 +101,8 @@ class BLP1File(Parser):
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if image_type in (3, 4):
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
-            width /= 2
-            height /= 2
+            width = max(width // 2, 1)
+            height = max(height // 2, 1)
 
 
 def interp_avg(data_low, data_high, n):
@@ -285,5 +285,5 @@ class BLP2File(Parser):
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT3, "row", "block", "DXT3-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 7:
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT5, "row", "block", "DXT5-compressed image blocks")
-            width /= 2
-            height /= 2
+            width = max(width // 2, 1)
+            height = max(height // 2, 1)
-- 
2.43.0


From 3fc5424a9c59238f49f080a332e9e6d2c8600ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:20 +0000
Subject: [PATCH 295/299] fix: rows and columns of BLP2 pictures are not
 exchanged

---
 hachoir/parser/game/blp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index ee549f0..44aa409 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -271,7 +271,7 @@ class BLP2File(Parser):
             if compression == 0:
                 yield RawBytes(self, "mipmap[%i]" % i, sizes[i].value, "JPEG data, append to header to recover complete image")
             elif compression == 1 and encoding == 1:
-                yield Generic2DArray(self, "mipmap_indexes[%i]" % i, height, width, PaletteIndex, "row", "index", "Indexes into the palette")
+                yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if alpha_depth == 1:
                     yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, Bit, "row", "is_opaque", "Alpha values")
                 elif alpha_depth == 8:
@@ -280,10 +280,10 @@ class BLP2File(Parser):
                 block_height = alignValue(height, 4) // 4
                 block_width = alignValue(width, 4) // 4
                 if alpha_depth in [0, 1] and alpha_encoding == 0:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT1, "row", "block", "DXT1-compressed image blocks")
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT1, "row", "block", "DXT1-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 1:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT3, "row", "block", "DXT3-compressed image blocks")
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT3, "row", "block", "DXT3-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 7:
-                    yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT5, "row", "block", "DXT5-compressed image blocks")
+                    yield Generic2DArray(self, "mipmap[%i]" % i, block_width, block_height, DXT5, "row", "block", "DXT5-compressed image blocks")
             width = max(width // 2, 1)
             height = max(height // 2, 1)
-- 
2.43.0


From 4cbdc75864ca69220c68cb4148ce55ba6e3fc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:20 +0000
Subject: [PATCH 296/299] fix: alpha values of BLP2 pictures do not stop the
 parser

---
 hachoir/parser/game/blp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index 44aa409..952dc8d 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -273,9 +273,9 @@ class BLP2File(Parser):
             elif compression == 1 and encoding == 1:
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if alpha_depth == 1:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, Bit, "row", "is_opaque", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, Bit, "row", "is_opaque", "Alpha values")
                 elif alpha_depth == 8:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, UInt8, "row", "alpha", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
             elif compression == 1 and encoding == 2:
                 block_height = alignValue(height, 4) // 4
                 block_width = alignValue(width, 4) // 4
-- 
2.43.0


From e9bdabf005219c3007c025d82a120994b9c2a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:20 +0000
Subject: [PATCH 297/299] fix: interpolated colors of DXT blocks are whole
 numbers

---
 hachoir/parser/game/blp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index 952dc8d..96807fc 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -113,7 +113,7 @@ def interp_avg(data_low, data_high, n):
     """
     if isinstance(data_low, int):
         for i in range(1, n):
-            yield (data_low * (n - i) + data_high * i) / n
+            yield (data_low * (n - i) + data_high * i) // n
     else:  # iterable
         pairs = list(zip(data_low, data_high))
         pair_iters = [interp_avg(x, y, n) for x, y in pairs]
-- 
2.43.0


From afbbfb859ba6efb2855ee32da043286251d24b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:43 +0000
Subject: [PATCH 298/299] fix: palettes of Blizzard pictures have the blue
 first

---
 hachoir/parser/game/blp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index 96807fc..263402c 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -15,7 +15,7 @@ Creation date: July 10 2007
 from hachoir.core.endian import LITTLE_ENDIAN
 from hachoir.field import String, UInt32, UInt8, Enum, FieldSet, RawBytes, GenericVector, Bit, Bits
 from hachoir.parser.parser import Parser
-from hachoir.parser.image.common import PaletteRGBA
+from hachoir.parser.image.common import PaletteBGRA
 from hachoir.core.tools import alignValue
 
 
@@ -85,7 +85,7 @@ class BLP1File(Parser):
             yield UInt32(self, "jpeg_header_len")
             yield RawBytes(self, "jpeg_header", self["jpeg_header_len"].value, "Shared JPEG Header")
         else:
-            yield PaletteRGBA(self, "palette", 256)
+            yield PaletteBGRA(self, "palette", 256)
 
         offsets = self.array("mipmap_offset")
         sizes = self.array("mipmap_size")
@@ -247,7 +247,7 @@ class BLP2File(Parser):
             yield UInt32(self, "mipmap_offset[]")
         for i in range(16):
             yield UInt32(self, "mipmap_size[]")
-        yield PaletteRGBA(self, "palette", 256)
+        yield PaletteBGRA(self, "palette", 256)
 
         compression = self["compression"].value
         encoding = self["encoding"].value
-- 
2.43.0


From de97936b004947040266573d633e75cabd9946bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:08 +0000
Subject: [PATCH 299/299] fix: unused bits behind the alpha values of BLP2
 pictures

---
 hachoir/parser/game/blp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index 263402c..e501945 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -274,6 +274,9 @@ class BLP2File(Parser):
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if alpha_depth == 1:
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, Bit, "row", "is_opaque", "Alpha values")
+                    padding = self.seekBit(alignValue(self.current_size, 8))
+                    if padding:
+                        yield padding
                 elif alpha_depth == 8:
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
             elif compression == 1 and encoding == 2:
-- 
2.43.0

