From b9227b3619b19f83cfb5853b7967c31a41efed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 001/117] fix: treat NUL as white space when tokenising

---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..68ae08c 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\x00\s]')
+NONSPC = re.compile(br'[^\x00\s]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\x00\s]')
+END_HEX_STRING = re.compile(br'[^\x00\s0-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\x00\s]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 4d306826c161a610b43440e2fa80f63d461473d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 002/117] fix: literal string escapes (octal overflow, unknown
 escapes, line ends)

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 20 ++++++++++++++++++-
 pdfmajor/parser/PSStackParser/constants.py    |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..28970e8 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -280,6 +280,11 @@ class PSBaseParser(object):
             self.oct = b''
             self._current_parse_func = self._parse_string_1
             return j+1
+        if c == b'\r':
+            # any end-of-line inside a string reads as a line feed
+            self._curtoken += b'\n'
+            self._current_parse_func = self._parse_string_lf
+            return j+1
         if c == b'(':
             self.paren += 1
             self._curtoken += c
@@ -299,14 +304,27 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
+        if c == b'\r':
+            self._current_parse_func = self._parse_string_lf
+            return i+1
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c != b'\n':
+            # the backslash of an unknown escape is ignored, the character is not
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_lf(self, s, i):
+        # the line feed of a CR LF pair
+        self._current_parse_func = self._parse_string
+        if s[i:i+1] == b'\n':
+            return i+1
+        return i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 68ae08c..6871829 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -23,6 +23,6 @@ END_HEX_STRING = re.compile(br'[^\x00\s0-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
 END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\x00\s]')
-END_STRING = re.compile(br'[()\134]')
+END_STRING = re.compile(br'[()\r\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 01b5e2705924867c190d376c076d7b38966b43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 003/117] fix: a token that ends with the data is complete

---
 pdfmajor/parser/PDFContentParser.py           |  3 ++-
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..af393c1 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -28,7 +28,8 @@ class PDFContentParser(PSStackParser):
                 self.istream += 1
             else:
                 raise PSEOF('Unexpected EOF, file truncated?')
-            self.fp = BytesIO(strm.get_data())
+            # tokens do not continue from one stream into the next
+            self.fp = BytesIO(strm.get_data() + b'\n')
         return
 
     def seek(self, pos):
diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 28970e8..4a1fdce 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -355,9 +355,21 @@ class PSBaseParser(object):
         self._current_parse_func = self._parse_main
         return j
 
+    def _finish_token(self):
+        # the end of the data also ends a name, a number or a keyword
+        while self._current_parse_func in (self._parse_literal, self._parse_literal_hex, self._parse_number,
+                                           self._parse_float, self._parse_keyword):
+            self._current_parse_func(b'\n', 0)
+        if not self._tokens:
+            raise PSEOF('Unexpected EOF')
+
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                self._finish_token()
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From dd995ebc3e4237df41c9f48d2b512c3082ade625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 004/117] fix: null in object streams is the null object

---
 pdfmajor/parser/PDFParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..ed8322b 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -163,6 +163,10 @@ class PDFStreamParser(PDFParser):
             except PSSyntaxError:
                 pass
             return
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
+            return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
                 # See PDF Spec 3.4.6: Only the object values are stored in the
-- 
2.43.0


From 883afc1fc516867780179effb914dd52529d47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 005/117] fix: R and stream keywords without their operands

---
 pdfmajor/parser/PDFParser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index ed8322b..d0d338e 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -76,12 +76,15 @@ class PDFParser(PSStackParser):
                 (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
                 obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
                 self.push((pos, obj))
-            except PSSyntaxError:
+            except (PSSyntaxError, TypeError, ValueError, OverflowError):
                 pass
 
         elif token is self.KEYWORD_STREAM:
             # stream object
-            ((_, dic),) = self.pop(1) # pylint: disable=E0632
+            try:
+                ((_, dic),) = self.pop(1) # pylint: disable=E0632
+            except ValueError:
+                raise PDFSyntaxError('Stream without a dictionary')
             dic = dict_value(dic)
             objlen = 0
             if not self.fallback:
@@ -160,7 +163,7 @@ class PDFStreamParser(PDFParser):
                 (objid, genno) = (int(objid), int(genno))
                 obj = PDFObjRef(self.doc, objid, genno)
                 self.push((pos, obj))
-            except PSSyntaxError:
+            except (PSSyntaxError, TypeError, ValueError, OverflowError):
                 pass
             return
         elif token is self.KEYWORD_NULL:
-- 
2.43.0


From a24f3d0bd2a363111364cddcfcb2c83e2aa78db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 006/117] fix: read stream payloads by their Length

---
 pdfmajor/parser/PDFDocument/__init__.py |  2 -
 pdfmajor/parser/PDFParser.py            | 83 +++++++++++++++++--------
 2 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..e376827 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -77,7 +77,6 @@ class PDFDocument(object):
         except PDFNoValidXRef:
             pass # fallback = True
         if fallback:
-            parser.fallback = True
             xref = PDFXRefFallback()
             xref.load(parser)
             self.xrefs.append(xref)
@@ -121,7 +120,6 @@ class PDFDocument(object):
         self.is_printable = handler.is_printable()
         self.is_modifiable = handler.is_modifiable()
         self.is_extractable = handler.is_extractable()
-        self._parser.fallback = False # need to read streams with exact length
         return
 
     def _getobj_objstm(self, stream, index, objid):
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index d0d338e..236d0b3 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -41,7 +41,6 @@ class PDFParser(PSStackParser):
     def __init__(self, fp: TextIOWrapper):
         PSStackParser.__init__(self, fp)
         self.doc = None
-        self.fallback = False
         return
 
     def set_document(self, doc):
@@ -56,6 +55,43 @@ class PDFParser(PSStackParser):
     KEYWORD_XREF = KWD(b'xref')
     KEYWORD_STARTXREF = KWD(b'startxref')
 
+    def _read_payload(self, pos, objlen):
+        """Reads a stream payload of the given length.
+
+        Returns None unless an end marker follows it.
+        """
+        if objlen is None or objlen < 0:
+            return None
+        self.seek(pos+objlen)
+        try:
+            line = b''
+            while not line:
+                (_, line) = self.nextline()
+                line = line.strip(b'\x00\t\n\x0c\r ')
+        except PSEOF:
+            return None
+        if not line.startswith(b'endstream'):
+            return None
+        self.fp.seek(pos)
+        return self.fp.read(objlen)
+
+    def _scan_payload(self, pos):
+        """Reads a stream payload that ends at the first end marker."""
+        data = []
+        self.seek(pos)
+        try:
+            while 1:
+                (_, line) = self.nextline()
+                i = line.find(b'endstream')
+                if i != -1:
+                    data.append(line[:i])
+                    break
+                data.append(line)
+        except PSEOF:
+            if settings.STRICT:
+                raise PDFSyntaxError('Unexpected EOF')
+        return b''.join(data)
+
     def do_keyword(self, pos, token):
         """Handles PDF-related keywords."""
 
@@ -86,13 +122,11 @@ class PDFParser(PSStackParser):
             except ValueError:
                 raise PDFSyntaxError('Stream without a dictionary')
             dic = dict_value(dic)
-            objlen = 0
-            if not self.fallback:
-                try:
-                    objlen = int_value(dic['Length'])
-                except KeyError:
-                    if settings.STRICT:
-                        raise PDFSyntaxError('/Length is undefined: %r' % dic)
+            objlen = None
+            if 'Length' in dic:
+                objlen = int_value(dic['Length'])
+            elif settings.STRICT:
+                raise PDFSyntaxError('/Length is undefined: %r' % dic)
             self.seek(pos)
             try:
                 (_, line) = self.nextline()  # 'stream'
@@ -101,26 +135,23 @@ class PDFParser(PSStackParser):
                     raise PDFSyntaxError('Unexpected EOF')
                 return
             pos += len(line)
-            self.fp.seek(pos)
-            data = bytearray(self.fp.read(objlen))
+            data = self._read_payload(pos, objlen)
+            if data is None:
+                # /Length cannot be right: take everything up to the end marker.
+                data = self._scan_payload(pos)
+            objlen = len(data)
             self.seek(pos+objlen)
-            while 1:
-                try:
+            try:
+                while 1:
                     (_, line) = self.nextline()
-                except PSEOF:
-                    if settings.STRICT:
-                        raise PDFSyntaxError('Unexpected EOF')
-                    break
-                if b'endstream' in line:
-                    i = line.index(b'endstream')
-                    objlen += i
-                    if self.fallback:
-                        data += line[:i]
-                    break
-                objlen += len(line)
-                if self.fallback:
-                    data += line
-            data = bytes(data)
+                    i = line.find(b'endstream')
+                    if i != -1:
+                        objlen += i
+                        break
+                    objlen += len(line)
+            except PSEOF:
+                if settings.STRICT:
+                    raise PDFSyntaxError('Unexpected EOF')
             self.seek(pos+objlen)
             # XXX limit objlen not to exceed object boundary
             log.debug('Stream: pos=%d, objlen=%d, dic=%r, data=%r...', pos, objlen, dic, data[:10])
-- 
2.43.0


From fd7e0480f2cfbef53130eabd1508a70871d8c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 007/117] fix: import the error raised for unusable
 cross-reference sections

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..4b2b3d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
-- 
2.43.0


From 32346c9f676d09a94b206098b8431e9c742a709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 008/117] fix: cross-reference stream entries of any field
 width and in any range

---
 pdfmajor/parser/PDFDocument/PDFXRef.py |  4 +++-
 pdfmajor/utils/generic.py              | 18 +++---------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4b2b3d1..b89ee62 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -201,9 +201,11 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * index
+                index += 1
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..65aa665 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -126,22 +126,10 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
-    l = len(s)
-    if not l:
+    """Unpacks big endian integers of any length."""
+    if not s:
         return default
-    elif l == 1:
-        return ord(s)
-    elif l == 2:
-        return struct.unpack('>H', s)[0]
-    elif l == 3:
-        return struct.unpack('>L', b'\x00'+s)[0]
-    elif l == 4:
-        return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
-    else:
-        raise TypeError('invalid length: %d' % l)
+    return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From aef199a5487bc77e3a3f4010dc438f23f6fa8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 009/117] fix: deleted objects stay deleted, damaged
 cross-references fall back to a full scan

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 55 ++++++++------
 pdfmajor/parser/PDFDocument/__init__.py | 99 +++++++++++++++----------
 pdfmajor/parser/PDFParser.py            | 14 ++++
 3 files changed, 108 insertions(+), 60 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index b89ee62..f0b0fd3 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,13 +2,13 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
+from pdfmajor.execptions import ParserError, PSEOF, PDFSyntaxError, PDFNoValidXRef, PDFObjectNotFound
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
 from ..PDFParser import PDFStreamParser
 from ..PDFStream import PDFStream
-from ..PDFStream import dict_value
+from ..PDFStream import dict_value, int_value
 
 from .constants import LITERAL_OBJSTM, LITERAL_XREF
 
@@ -39,6 +39,7 @@ class PDFXRef(PDFBaseXRef):
 
     def __init__(self):
         self.offsets: Dict[int, Pos] = {}
+        self.free = set()
         self.trailer = {}
         return
 
@@ -75,6 +76,7 @@ class PDFXRef(PDFBaseXRef):
                     raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 (pos, genno, use) = f
                 if use != b'n':
+                    self.free.add(objid)
                     continue
                 self.offsets[objid] = (None, int(pos), int(genno))
         log.info('xref objects: %r', self.offsets)
@@ -84,13 +86,11 @@ class PDFXRef(PDFBaseXRef):
     def load_trailer(self, parser):
         try:
             (_, kwd) = parser.nexttoken()
-            assert kwd is KWD(b'trailer'), str(kwd)
-            (_, dic) = parser.nextobject()
+            if kwd is not KWD(b'trailer'):
+                raise PDFNoValidXRef('Trailer not found: %r' % kwd)
+            (_, dic) = parser.nextvalue()
         except PSEOF:
-            x = parser.pop(1)
-            if not x:
-                raise PDFNoValidXRef('Unexpected EOF - file corrupted')
-            (_, dic) = x[0]
+            raise PDFNoValidXRef('Unexpected EOF - file corrupted')
         self.trailer.update(dict_value(dic))
         log.debug('trailer=%r', self.trailer)
         return
@@ -101,11 +101,15 @@ class PDFXRef(PDFBaseXRef):
     def get_objids(self):
         return iter(self.offsets.keys())
 
+    def unfree(self, objids):
+        self.free.difference_update(objids)
+        return
+
     def get_pos(self, objid):
-        try:
-            return self.offsets[objid]
-        except KeyError:
-            raise 
+        if objid in self.free:
+            # deleted here: older sections do not count any more
+            raise PDFObjectNotFound(objid)
+        return self.offsets[objid]
 
 
 ##  PDFXRefFallback
@@ -115,7 +119,7 @@ class PDFXRefFallback(PDFXRef):
     def __repr__(self):
         return '<PDFXRefFallback: offsets=%r>' % (self.offsets.keys())
 
-    PDFOBJ_CUE = re.compile(r'^(\d+)\s+(\d+)\s+obj\b')
+    PDFOBJ_CUE = re.compile(r'^(\d{1,10})\s+(\d{1,5})\s+obj\b')
 
     def load(self, parser):
         parser.seek(0)
@@ -125,10 +129,14 @@ class PDFXRefFallback(PDFXRef):
             except PSEOF:
                 break
             if line.startswith(b'trailer'):
+                # the last trailer in the file is the newest
                 parser.seek(pos)
-                self.load_trailer(parser)
-                log.info('trailer: %r', self.trailer)
-                break
+                try:
+                    self.load_trailer(parser)
+                    log.info('trailer: %r', self.trailer)
+                except ParserError:
+                    parser.seek(pos+len(line))
+                continue
             line=line.decode('latin-1') #default pdf encoding
             m = self.PDFOBJ_CUE.match(line)
             if not m:
@@ -139,11 +147,15 @@ class PDFXRefFallback(PDFXRef):
             self.offsets[objid] = (None, pos, genno)
             # expand ObjStm.
             parser.seek(pos)
-            (_, obj) = parser.nextobject()
+            try:
+                (_, obj) = parser.nextobject()
+            except ParserError:
+                parser.seek(pos+len(line))
+                continue
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
-                    n = stream['N']
+                    n = int_value(stream['N'])
                 except KeyError:
                     if settings.STRICT:
                         raise PDFSyntaxError('N is not defined: %r' % stream)
@@ -154,12 +166,13 @@ class PDFXRefFallback(PDFXRef):
                     while 1:
                         (_, obj) = parser1.nextobject()
                         objs.append(obj)
-                except PSEOF:
+                except ParserError:
                     pass
                 n = min(n, len(objs)//2)
                 for index in range(n):
                     objid1 = objs[index*2]
-                    self.offsets[objid1] = (objid, index, 0)
+                    if isinstance(objid1, int):
+                        self.offsets[objid1] = (objid, index, 0)
         return
 
 ##  PDFXRefStream
@@ -233,4 +246,4 @@ class PDFXRefStream(PDFBaseXRef):
             return (f2, f3, 0)
         else:
             # this is a free object
-            raise KeyError(objid)
+            raise PDFObjectNotFound(objid)
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e376827..3367017 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -5,7 +5,10 @@ from Crypto.Hash import SHA256
 from logging import getLogger
 
 from pdfmajor.execptions import (
+    PDFMajorException,
     ParserError, 
+    PSException,
+    PDFException,
     PDFNoOutlines, 
     PDFDestinationNotFound, 
     PDFNoValidXRef,
@@ -66,6 +69,8 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._fallback = fallback
+        self._scanned = None
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -75,11 +80,9 @@ class PDFDocument(object):
             pos = self.find_xref(parser)
             self.read_xref_from(parser, pos, self.xrefs)
         except PDFNoValidXRef:
-            pass # fallback = True
-        if fallback:
-            xref = PDFXRefFallback()
-            xref.load(parser)
-            self.xrefs.append(xref)
+            self._scan_file()
+        if not any('Root' in xref.get_trailer() for xref in self.xrefs):
+            self._scan_file()
         for xref in self.xrefs:
             trailer = xref.get_trailer()
             if not trailer:
@@ -105,6 +108,18 @@ class PDFDocument(object):
     
     KEYWORD_OBJ = KWD(b'obj')
 
+    # _scan_file()
+    #   Locate the objects of a damaged file without its cross-references.
+    def _scan_file(self):
+        if self._fallback and self._scanned is None:
+            self._scanned = PDFXRefFallback()
+            self.xrefs.append(self._scanned)
+            self._scanned.load(self._parser)
+            # these may come from positions that are superseded now
+            self._cached_objs.clear()
+            self._parsed_objs.clear()
+        return self._scanned
+
     # _initialize_password(password=b'')
     #   Perform the initialization with a given password.
     def _initialize_password(self, password=''):
@@ -162,19 +177,6 @@ class PDFDocument(object):
         (_, objid1) = self._parser.nexttoken()  # objid
         (_, genno) = self._parser.nexttoken()  # genno
         (_, kwd) = self._parser.nexttoken()
-        # #### hack around malformed pdf files
-        # copied from https://github.com/jaepil/pdfminer3k/blob/master/pdfminer/pdfparser.py#L399
-        #to solve https://github.com/pdfminer/pdfminer.six/issues/56
-        #assert objid1 == objid, str((objid1, objid))
-        if objid1 != objid:
-            x = []
-            while kwd is not self.KEYWORD_OBJ:
-                (_,kwd) = self._parser.nexttoken()
-                x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
-        # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
 
@@ -192,7 +194,9 @@ class PDFDocument(object):
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
         else:
-            for xref in self.xrefs:
+            xrefs = list(self.xrefs)
+            while xrefs:
+                xref = xrefs.pop(0)
                 try:
                     (strmid, index, genno) = xref.get_pos(objid)
                 except KeyError:
@@ -209,8 +213,11 @@ class PDFDocument(object):
                     if isinstance(obj, PDFStream):
                         obj.set_objid(objid, genno)
                     break
-                except (PSEOF, PDFSyntaxError):
-                    continue
+                except (PSException, PDFException, PDFObjectNotFound):
+                    # a damaged entry: trust the objects in the file more
+                    scanned = self._scan_file()
+                    if scanned is not None and scanned is not xref:
+                        xrefs.insert(0, scanned)
             else:
                 raise PDFObjectNotFound(objid)
             log.debug('register: objid=%r: %r', objid, obj)
@@ -294,37 +301,51 @@ class PDFDocument(object):
         else:
             raise PDFNoValidXRef('Unexpected EOF')
         log.info('xref found: pos=%r', prev)
-        return int(prev)
+        try:
+            return int(prev)
+        except (TypeError, ValueError):
+            raise PDFNoValidXRef('Invalid startxref: %r' % prev)
 
     # read xref table
     def read_xref_from(self, parser, start, xrefs):
         """Reads XRefs from the given location."""
+        pending = [(start, None)]
+        visited = set()
+        while pending:
+            (start, table) = pending.pop()
+            if start in visited:
+                continue
+            visited.add(start)
+            try:
+                xref = self._read_xref_at(parser, start)
+                trailer = xref.get_trailer()
+                log.info('trailer: %r', trailer)
+                if 'Prev' in trailer:
+                    # find previous xref
+                    pending.append((int_value(trailer['Prev']), None))
+                if 'XRefStm' in trailer:
+                    pending.append((int_value(trailer['XRefStm']), xref))
+                if table is not None:
+                    # objects hidden in this stream are marked free in its table
+                    table.unfree(xref.get_objids())
+            except (PDFMajorException, TypeError, ValueError, LookupError, OverflowError, OSError) as e:
+                raise PDFNoValidXRef('Unusable section at %r: %r' % (start, e))
+            xrefs.append(xref)
+        return
+
+    def _read_xref_at(self, parser, start):
         parser.seek(start)
         parser.reset()
-        try:
-            (pos, token) = parser.nexttoken()
-        except PSEOF:
-            raise PDFNoValidXRef('Unexpected EOF')
+        (pos, token) = parser.nexttoken()
         log.info('read_xref_from: start=%d, token=%r', start, token)
         if isinstance(token, int):
             # XRefStream: PDF-1.5
             parser.seek(pos)
             parser.reset()
             xref = PDFXRefStream()
-            xref.load(parser)
         else:
             if token is parser.KEYWORD_XREF:
                 parser.nextline()
             xref = PDFXRef()
-            xref.load(parser)
-        xrefs.append(xref)
-        trailer = xref.get_trailer()
-        log.info('trailer: %r', trailer)
-        if 'XRefStm' in trailer:
-            pos = int_value(trailer['XRefStm'])
-            self.read_xref_from(parser, pos, xrefs)
-        if 'Prev' in trailer:
-            # find previous xref
-            pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs)
-        return
+        xref.load(parser)
+        return xref
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 236d0b3..a9efd18 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -41,8 +41,22 @@ class PDFParser(PSStackParser):
     def __init__(self, fp: TextIOWrapper):
         PSStackParser.__init__(self, fp)
         self.doc = None
+        self.single = False
         return
 
+    def flush(self):
+        if self.single:
+            self.add_results(*self.popall())
+        return
+
+    def nextvalue(self):
+        """Reads one object that no keyword has to complete."""
+        self.single = True
+        try:
+            return self.nextobject()
+        finally:
+            self.single = False
+
     def set_document(self, doc):
         """Associates the parser with a PDFDocument object."""
         self.doc = doc
-- 
2.43.0


From 259150066d2ec28ec19cccae461cfc83a5f34019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 010/117] fix: objects that refer to themselves

---
 pdfmajor/parser/PDFDocument/__init__.py | 70 ++++++++++++++-----------
 pdfmajor/parser/PDFStream/util.py       |  9 ++--
 2 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 3367017..daaaa57 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -71,6 +71,7 @@ class PDFDocument(object):
         self._parsed_objs = {}
         self._fallback = fallback
         self._scanned = None
+        self._in_progress = set()
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -187,42 +188,51 @@ class PDFDocument(object):
 
     # can raise PDFObjectNotFound
     def getobj(self, objid):
-        assert objid != 0
+        if objid == 0 or objid in self._in_progress:
+            # no such object, or an object that needs itself to be read
+            raise PDFObjectNotFound(objid)
         if not self.xrefs:
             raise ParserError('PDFDocument is not initialized')
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
-        else:
-            xrefs = list(self.xrefs)
-            while xrefs:
-                xref = xrefs.pop(0)
-                try:
-                    (strmid, index, genno) = xref.get_pos(objid)
-                except KeyError:
-                    continue
-                try:
-                    if strmid is not None:
-                        stream = PDFStream.validated_stream(self.getobj(strmid))
-                        obj = self._getobj_objstm(stream, index, objid)
-                    else:
-                        obj = self._getobj_parse(index, objid)
-                        if self.decipher:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
+            return obj
+        self._in_progress.add(objid)
+        try:
+            return self._load_obj(objid)
+        finally:
+            self._in_progress.discard(objid)
 
-                    if isinstance(obj, PDFStream):
-                        obj.set_objid(objid, genno)
-                    break
-                except (PSException, PDFException, PDFObjectNotFound):
-                    # a damaged entry: trust the objects in the file more
-                    scanned = self._scan_file()
-                    if scanned is not None and scanned is not xref:
-                        xrefs.insert(0, scanned)
-            else:
-                raise PDFObjectNotFound(objid)
-            log.debug('register: objid=%r: %r', objid, obj)
-            if self.caching:
-                self._cached_objs[objid] = (obj, genno)
+    def _load_obj(self, objid):
+        xrefs = list(self.xrefs)
+        while xrefs:
+            xref = xrefs.pop(0)
+            try:
+                (strmid, index, genno) = xref.get_pos(objid)
+            except KeyError:
+                continue
+            try:
+                if strmid is not None:
+                    stream = PDFStream.validated_stream(self.getobj(strmid))
+                    obj = self._getobj_objstm(stream, index, objid)
+                else:
+                    obj = self._getobj_parse(index, objid)
+                    if self.decipher:
+                        obj = decipher_all(self.decipher, objid, genno, obj)
+
+                if isinstance(obj, PDFStream):
+                    obj.set_objid(objid, genno)
+                break
+            except (PSException, PDFException, PDFObjectNotFound):
+                # a damaged entry: trust the objects in the file more
+                scanned = self._scan_file()
+                if scanned is not None and scanned is not xref:
+                    xrefs.insert(0, scanned)
+        else:
+            raise PDFObjectNotFound(objid)
+        log.debug('register: objid=%r: %r', objid, obj)
+        if self.caching:
+            self._cached_objs[objid] = (obj, genno)
         return obj
 
     def get_outlines(self):
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..e773037 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -12,7 +12,11 @@ def resolve1(x, default=None):
     If this is an array or dictionary, it may still contains
     some indirect objects inside.
     """
+    seen = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in seen:
+            return default
+        seen.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -23,12 +27,11 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
-- 
2.43.0


From 0b48b9530969abd5ef9b45e35a485ddce8c3191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 011/117] fix: define the errors streams raise for unsupported
 filters

---
 pdfmajor/execptions.py                | 3 +++
 pdfmajor/parser/PDFStream/__init__.py | 2 ++
 pdfmajor/parser/PDFStream/util.py     | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..0736de3 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -60,6 +60,9 @@ class PDFException(ParserError):
 class PDFTypeError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
 class PDFSyntaxError(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..a86ede8 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,7 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index e773037..b5d88fa 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+from pdfmajor.execptions import PDFTypeError
+
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 97b89e315abc07aba63c6b7e1a48f17e7f54ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 012/117] fix: indirect filter names and decode parameters

---
 pdfmajor/parser/PDFStream/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index a86ede8..087b744 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -60,8 +60,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -69,15 +69,14 @@ class PDFStream(PDFObject):
         if not isinstance(params, list):
             # Make sure the parameters list is the same as filters.
             params = [params] * len(filters)
+        elif len(params) < len(filters):
+            params = params + [None] * (len(filters) - len(params))
         if settings.STRICT and len(params) != len(filters):
             raise PDFException("Parameters len filter mismatch")
         # resolve filter if possible
-        _filters = []
-        for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
-        return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
+        _filters = [resolve1(fltr) for fltr in filters]
+        _params = [dict_value(param) for param in params]
+        return list(zip(_filters, _params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
         assert self.data is None and self.rawdata is not None, str((self.data, self.rawdata))
-- 
2.43.0


From 332208e802b72aeb59206f468131670a7bd7c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 013/117] fix: ASCIIHex data with white space inside a pair or
 data after the end marker

---
 pdfmajor/utils/ascii85.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..3593cee 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -45,8 +45,7 @@ def ascii85decode(data):
     return out
 
 # asciihexdecode(data)
-hex_re = re.compile(b'([a-f\d]{2})', re.IGNORECASE) # pylint: disable=W1401
-trail_re = re.compile(b'^(?:[a-f\d]{2}|\s)*([a-f\d])[\s>]*$', re.IGNORECASE) # pylint: disable=W1401
+nonhex_re = re.compile(br'[^0-9a-fA-F]')
 
 
 def asciihexdecode(data):
@@ -59,15 +58,7 @@ def asciihexdecode(data):
     the EOD marker after reading an odd number of hexadecimal digits, it
     will behave as if a 0 followed the last digit.
     """
-    def decode(x):
-        i=int(x,16)
-        return int2byte(i)
-
-    out=b''
-    for x in hex_re.findall(data):
-        out+=decode(x)
-
-    m = trail_re.search(data)
-    if m:
-        out+=decode(m.group(1)+b'0')
-    return out
+    digits = nonhex_re.sub(b'', data.split(b'>', 1)[0])
+    if len(digits) % 2:
+        digits += b'0'
+    return bytes.fromhex(digits.decode('ascii'))
-- 
2.43.0


From fa4019baabe960f0e8e26d547fdd37d9d816ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 014/117] fix: invalid ASCII85 groups no longer end in internal
 errors

---
 pdfmajor/utils/ascii85.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index 3593cee..3b9b569 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -24,25 +24,26 @@ def ascii85decode(data):
 
     """
     n = b = 0
-    out = b''
+    out = bytearray()
     for i in iter(data):
         c=int2byte(i)
         if b'!' <= c and c <= b'u':
             n += 1
             b = b*85+(ord(c)-33)
             if n == 5:
-                out += struct.pack('>L', b)
+                out += struct.pack('>L', b & 0xffffffff)
                 n = b = 0
         elif c == b'z':
-            assert n == 0, str(n)
-            out += b'\0\0\0\0'
+            # only legal between groups
+            if n == 0:
+                out += b'\0\0\0\0'
         elif c == b'~':
             if n:
                 for _ in range(5-n):
                     b = b*85+84
-                out += struct.pack('>L', b)[:n-1]
+                out += struct.pack('>L', b & 0xffffffff)[:n-1]
             break
-    return out
+    return bytes(out)
 
 # asciihexdecode(data)
 nonhex_re = re.compile(br'[^0-9a-fA-F]')
-- 
2.43.0


From 5c951c9a86a867e797de82fe0d88d8a505b30abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 015/117] fix: truncated RunLength data

---
 pdfmajor/parser/PDFStream/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index b5d88fa..1536ff5 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -124,20 +124,17 @@ def rldecode(data):
         (2 to 128) times during decompression. A length value of 128
         denotes EOD.
     """
-    decoded = b''
+    decoded = bytearray()
     i = 0
     while i < len(data):
         length = data[i]
         if length == 128:
             break
         if length >= 0 and length < 128:
-            for j in range(i+1,(i+1)+(length+1)):
-                decoded+=int2byte(data[j])
-            
+            decoded += data[i+1:(i+1)+(length+1)]
             i = (i+1) + (length+1)
         if length > 128:
-            run = int2byte(data[i+1])*(257-length)
-            decoded+=run
+            decoded += data[i+1:i+2]*(257-length)
             i = (i+1) + 1
-    return decoded
+    return bytes(decoded)
 
-- 
2.43.0


From b2faba58adcf9821f2d914b24cbc6844606601e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 016/117] fix: LZW end of data, EarlyChange and quadratic
 tracing

---
 pdfmajor/parser/PDFStream/__init__.py |  2 +-
 pdfmajor/utils/lzw.py                 | 28 ++++++++++++++-------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 087b744..8aef992 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -99,7 +99,7 @@ class PDFStream(PDFObject):
                         raise PDFException('Invalid zlib bytes: %r, %r' % (e, data))
                     data = b''
             elif f in LITERALS_LZW_DECODE:
-                data = lzwdecode(data)
+                data = lzwdecode(data, int_value(params.get('EarlyChange', 1)))
             elif f in LITERALS_ASCII85_DECODE:
                 data = ascii85decode(data)
             elif f in LITERALS_ASCIIHEX_DECODE:
diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..6f376e3 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -2,8 +2,6 @@
 from io import BytesIO
 from ..utils import int2byte
 
-import logging
-
 class CorruptDataError(Exception):
     pass
 
@@ -12,13 +10,13 @@ class CorruptDataError(Exception):
 ##
 class LZWDecoder(object):
 
-    def __init__(self, fp):
+    def __init__(self, fp, early=1):
         self.fp = fp
+        self.early = early
         self.buff = 0
         self.bpos = 8
         self.nbits = 9
-        self.table = None
-        self.prevbuf = None
+        self.feed(256)
         return
 
     def readbits(self, bits):
@@ -57,6 +55,8 @@ class LZWDecoder(object):
         elif code == 257:
             pass
         elif not self.prevbuf:
+            if len(self.table) <= code:
+                raise CorruptDataError
             x = self.prevbuf = self.table[code]
         else:
             if code < len(self.table):
@@ -67,12 +67,13 @@ class LZWDecoder(object):
                 x = self.table[code]
             else:
                 raise CorruptDataError
-            l = len(self.table)
-            if l == 511:
+            # the code width may grow one code earlier than necessary
+            l = len(self.table) + self.early
+            if l == 512:
                 self.nbits = 10
-            elif l == 1023:
+            elif l == 1024:
                 self.nbits = 11
-            elif l == 2047:
+            elif l == 2048:
                 self.nbits = 12
             self.prevbuf = x
         return x
@@ -83,19 +84,20 @@ class LZWDecoder(object):
                 code = self.readbits(self.nbits)
             except EOFError:
                 break
+            if code == 257:
+                # end of data
+                break
             try:
                 x = self.feed(code)
             except CorruptDataError:
                 # just ignore corrupt data and stop yielding there
                 break
             yield x
-            logging.debug('nbits=%d, code=%d, output=%r, table=%r' %
-                          (self.nbits, code, x, self.table[258:]))
         return
 
 
 # lzwdecode
-def lzwdecode(data):
+def lzwdecode(data, early=1):
     fp = BytesIO(data)
-    s=LZWDecoder(fp).run()
+    s=LZWDecoder(fp, early).run()
     return b''.join(s)
-- 
2.43.0


From 51f97cf2653d4f79db77216500186520379de498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 017/117] fix: PNG predictors for any pixel size and every row
 filter

---
 pdfmajor/utils/generic.py | 68 ++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 65aa665..642e5e6 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -1,6 +1,8 @@
 import struct
 import chardet  
 
+from pdfmajor.execptions import PDFValueError
+
 # from sys import maxint as INF #doesn't work anymore under Python3,
 # but PDF still uses 32 bits ints
 int2byte = struct.Struct(">B").pack
@@ -26,45 +28,53 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 ##  PNG Predictor
 ##
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
-    if bitspercomponent != 8:
-        # unsupported
-        raise ValueError("Unsupported `bitspercomponent': %d" %
-                         bitspercomponent)
-    nbytes = colors * columns * bitspercomponent // 8
-    i = 0
-    buf = b''
-    line0 = b'\x00' * columns
+    if colors < 1 or columns < 1 or bitspercomponent not in (1, 2, 4, 8, 16):
+        raise PDFValueError('Invalid predictor parameters: %d colors, %d columns, %d bits' %
+                            (colors, columns, bitspercomponent))
+    nbytes = (colors * columns * bitspercomponent + 7) // 8
+    # distance to the corresponding byte of the pixel to the left
+    bpp = (colors * bitspercomponent + 7) // 8
+    buf = bytearray()
+    line0 = bytes(nbytes)
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
-        i += 1
-        line1 = data[i:i+nbytes]
-        line2 = b''
+        line = bytearray(data[i+1:i+1+nbytes])
         if ft == 0:
             # PNG none
-            line2 += line1
+            pass
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
-                line2 += int2byte(c)
+            # PNG sub
+            for j in range(bpp, len(line)):
+                line[j] = (line[j] + line[j-bpp]) & 255
         elif ft == 2:
             # PNG up
-            for (a, b) in zip(line0, line1):
-                c = (a+b) & 255
-                line2 += int2byte(c)
+            for j in range(len(line)):
+                line[j] = (line[j] + line0[j]) & 255
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
-                line2 += int2byte(c)
+            # PNG average
+            for j in range(len(line)):
+                left = line[j-bpp] if bpp <= j else 0
+                line[j] = (line[j] + (left + line0[j]) // 2) & 255
+        elif ft == 4:
+            # PNG Paeth
+            for j in range(len(line)):
+                (left, upleft) = (line[j-bpp], line0[j-bpp]) if bpp <= j else (0, 0)
+                up = line0[j]
+                p = left + up - upleft
+                (pa, pb, pc) = (abs(p - left), abs(p - up), abs(p - upleft))
+                if pa <= pb and pa <= pc:
+                    best = left
+                elif pb <= pc:
+                    best = up
+                else:
+                    best = upleft
+                line[j] = (line[j] + best) & 255
         else:
             # unsupported
-            raise ValueError("Unsupported predictor value: %d" % ft)
-        buf += line2
-        line0 = line2
-    return buf
+            raise PDFValueError("Unsupported predictor value: %d" % ft)
+        buf += line
+        line0 = line
+    return bytes(buf)
 
 
 
-- 
2.43.0


From d478d9b4069b84aefd7f361fad259c33fd4b6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 018/117] fix: fax decoding on current Python, with default
 parameters

---
 pdfmajor/parser/PDFStream/ccitt.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..6c74388 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -12,9 +12,11 @@
 
 import sys
 import array
-from pdfmajor.execptions import EOFB, InvalidData, ByteSkip
+from pdfmajor.execptions import EOFB, InvalidData, ByteSkip, PDFNotImplementedError
 from abc import abstractmethod
 
+from .util import int_value, resolve1
+
 def get_bytes(data):
     for byte in data:
         yield byte
@@ -541,19 +543,19 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
 def ccittfaxdecode(data, params):
-    K = params.get('K')
-    cols = params.get('Columns')
-    bytealign = params.get('EncodedByteAlign')
-    reversed = params.get('BlackIs1')
-    if K == -1:
+    K = int_value(params.get('K', 0))
+    cols = int_value(params.get('Columns', 1728))
+    bytealign = resolve1(params.get('EncodedByteAlign'))
+    reversed = resolve1(params.get('BlackIs1'))
+    if K < 0 < cols:
         parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed)
     else:
-        raise ValueError(K)
+        raise PDFNotImplementedError('Unsupported fax parameters: K=%r, Columns=%r' % (K, cols))
     parser.feedbytes(data)
     return parser.close()
 
-- 
2.43.0


From 0963e0465380725ea2644fb8eb54315ea39b0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 019/117] fix: the last line of a file needs no line end

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 4a1fdce..26466d7 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -81,7 +81,13 @@ class PSBaseParser(object):
         linepos = self.bufpos + self.charpos
         eol = False
         while 1:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                if linebuf:
+                    # the last line ends with the data
+                    break
+                raise
             if eol:
                 c = self.buf[self.charpos:self.charpos+1]
                 # handle b'\r\n'
-- 
2.43.0


From e365b340344927ffe2b4567ba91e3340ab5d0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 020/117] fix: positions and entries that are no
 cross-reference section are not taken for one

---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 4 +++-
 pdfmajor/parser/PDFDocument/__init__.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index f0b0fd3..4cf1d6c 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -75,9 +75,11 @@ class PDFXRef(PDFBaseXRef):
                 if len(f) != 3:
                     raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 (pos, genno, use) = f
-                if use != b'n':
+                if use == b'f':
                     self.free.add(objid)
                     continue
+                if use != b'n':
+                    raise PDFNoValidXRef('Invalid XRef format: %r, line=%r' % (parser, line))
                 self.offsets[objid] = (None, int(pos), int(genno))
         log.info('xref objects: %r', self.offsets)
         self.load_trailer(parser)
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index daaaa57..0526f96 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -354,8 +354,9 @@ class PDFDocument(object):
             parser.reset()
             xref = PDFXRefStream()
         else:
-            if token is parser.KEYWORD_XREF:
-                parser.nextline()
+            if token is not parser.KEYWORD_XREF:
+                raise PDFNoValidXRef('No section at %r: %r' % (start, token))
+            parser.nextline()
             xref = PDFXRef()
         xref.load(parser)
         return xref
-- 
2.43.0


From 663c860c4b6eaae94d638ec6f0ed03056d896333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 021/117] fix: impossible object positions are syntax errors

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 0526f96..caa189a 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -174,7 +174,10 @@ class PDFDocument(object):
         return (objs, n)
 
     def _getobj_parse(self, pos, objid):
-        self._parser.seek(pos)
+        try:
+            self._parser.seek(pos)
+        except (ValueError, OverflowError, OSError):
+            raise PDFSyntaxError('Invalid object position: %r' % pos)
         (_, objid1) = self._parser.nexttoken()  # objid
         (_, genno) = self._parser.nexttoken()  # genno
         (_, kwd) = self._parser.nexttoken()
-- 
2.43.0


From e1757676aaa18e5dfa55dd381640c8cd3c5c02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 022/117] fix: define the errors raised for wrong passwords and
 unsupported encryption

---
 pdfmajor/execptions.py                            | 6 ++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/__init__.py           | 3 ++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index 0736de3..861c9a5 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -66,6 +66,12 @@ class PDFNotImplementedError(PDFException):
 class PDFSyntaxError(PDFException):
     pass
 
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index caa189a..98c16f8 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -15,7 +15,8 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
-    PDFSyntaxError
+    PDFSyntaxError,
+    PDFEncryptionError
 )
 
 from ...utils import settings, choplist, decode_text
-- 
2.43.0


From cb4299a4ac1f8564a918cdbcc9e73f923e15f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 023/117] fix: no password is the empty password, unencodable
 ones are incorrect

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..35033d8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -42,7 +42,11 @@ class PDFStandardSecurityHandler(object):
         return
 
     def init_key(self):
-        self.key = self.authenticate(self.password)
+        try:
+            self.key = self.authenticate(self.password or '')
+        except UnicodeEncodeError:
+            # no such password can have been set
+            self.key = None
         if self.key is None:
             raise PDFPasswordIncorrect
         return
-- 
2.43.0


From 8f3375d69d2b0b1ae28db4fd7cb2822811bd5043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 024/117] fix: permissions written as an unsigned number

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 35033d8..9f3ad6e 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -80,7 +80,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From 972042ce10b27c5d46449705bca203f940062ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 025/117] fix: AES padding is not part of the data

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9f3ad6e..eefcfc4 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -192,7 +192,18 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(key, data)
+
+    def decrypt_aes(self, key, data):
+        # a whole number of blocks follows the initialization vector
+        n = len(data) // 16 * 16
+        if n < 32:
+            return b''
+        data = AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:n])
+        # PKCS#5 padding
+        if 1 <= data[-1] <= 16:
+            data = data[:-data[-1]]
+        return data
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -237,4 +248,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(self.key, data)
-- 
2.43.0


From 40beefc14e66bf29a70595f5f918d9d97e17560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 026/117] fix: decrypt the strings in stream dictionaries

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 98c16f8..27d8fa0 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -222,7 +222,10 @@ class PDFDocument(object):
                 else:
                     obj = self._getobj_parse(index, objid)
                     if self.decipher:
-                        obj = decipher_all(self.decipher, objid, genno, obj)
+                        if isinstance(obj, PDFStream):
+                            decipher_all(self.decipher, objid, genno, obj.attrs)
+                        else:
+                            obj = decipher_all(self.decipher, objid, genno, obj)
 
                 if isinstance(obj, PDFStream):
                     obj.set_objid(objid, genno)
-- 
2.43.0


From 490e15a4e7cf41a943a11e4f9ef7a3ddb4a48e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 027/117] fix: encryption dictionaries without ID or crypt
 filter names, indirect crypt filters

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 10 ++++++----
 pdfmajor/parser/PDFDocument/__init__.py           |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index eefcfc4..fda7c97 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -6,9 +6,11 @@ from Crypto.Hash import SHA256
 from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
 
 from ..PDFStream import int_value, str_value, dict_value
-from ..PSStackParser import literal_name
+from ..PSStackParser import literal_name, LIT
 from ...utils import int2byte, struct
 
+LITERAL_IDENTITY = LIT('Identity')
+
 ##  PDFSecurityHandler
 ##
 class PDFStandardSecurityHandler(object):
@@ -152,14 +154,14 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         super(PDFStandardSecurityHandlerV4, self).init_params()
         self.length = 128
         self.cf = dict_value(self.param.get('CF'))
-        self.stmf = literal_name(self.param['StmF'])
-        self.strf = literal_name(self.param['StrF'])
+        self.stmf = literal_name(self.param.get('StmF', LITERAL_IDENTITY))
+        self.strf = literal_name(self.param.get('StrF', LITERAL_IDENTITY))
         self.encrypt_metadata = bool(self.param.get('EncryptMetadata', True))
         if self.stmf != self.strf:
             raise PDFEncryptionError('Unsupported crypt filter: param=%r' % self.param)
         self.cfm = {}
         for k, v in self.cf.items():
-            f = self.get_cfm(literal_name(v['CFM']))
+            f = self.get_cfm(literal_name(dict_value(v).get('CFM')))
             if f is None:
                 raise PDFEncryptionError('Unknown crypt filter method: param=%r' % self.param)
             self.cfm[k] = f
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 27d8fa0..dfdb573 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -92,7 +92,7 @@ class PDFDocument(object):
             # If there's an encryption info, remember it.
             if 'Encrypt' in trailer:
                 #assert not self.encryption, str(self.encryption)
-                self.encryption = (list_value(trailer['ID']),
+                self.encryption = (list_value(trailer.get('ID')) or [b'', b''],
                                    dict_value(trailer['Encrypt']))
                 self._initialize_password(password)
             if 'Info' in trailer:
-- 
2.43.0


From ccb01e42eb7b099389e9b05254c46ea097397132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 028/117] fix: incomplete or mistyped encryption dictionaries
 are encryption errors

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index dfdb573..45fd339 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -132,7 +132,10 @@ class PDFDocument(object):
         factory = self.security_handler_registry.get(v)
         if factory is None:
             raise PDFEncryptionError('Unknown algorithm: param=%r' % param)
-        handler = factory(docid, param, password)
+        try:
+            handler = factory(docid, param, password)
+        except (KeyError, IndexError, TypeError, ValueError) as e:
+            raise PDFEncryptionError('Invalid encryption: %r: param=%r' % (e, param))
         self.decipher = handler.decrypt
         self.is_printable = handler.is_printable()
         self.is_modifiable = handler.is_modifiable()
-- 
2.43.0


From 38ed83d1f49fb54cd3866009ac8a715ef63e3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 029/117] fix: page trees of any depth, page tree nodes reached
 again

---
 pdfmajor/parser/PDFPage.py | 54 ++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..55eda63 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -77,29 +77,37 @@ class PDFPage(object):
     @classmethod
     def create_pages(cls, document: PDFDocument):
         def search(obj, parent):
-            if isinstance(obj, int):
-                objid = obj
-                tree = dict_value(document.getobj(objid)).copy()
-            else:
-                objid = obj.objid
-                tree = dict_value(obj).copy()
-            for (k, v) in parent.items():
-                if k in cls.INHERITABLE_ATTRS and k not in tree:
-                    tree[k] = v
-
-            tree_type = tree.get('Type')
-            if tree_type is None and not settings.STRICT:  # See #64
-                tree_type = tree.get('type')
-
-            if tree_type is LITERAL_PAGES and 'Kids' in tree:
-                log.debug('Pages: Kids=%r', tree['Kids'])
-                for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
-                        yield x
-            elif tree_type is LITERAL_PAGE:
-                log.debug('Page: %r', tree)
-                yield (objid, tree)
-        
+            pending = [(obj, parent)]
+            visited = set()
+            while pending:
+                (obj, parent) = pending.pop()
+                if isinstance(obj, int):
+                    objid = obj
+                    tree = dict_value(document.getobj(objid)).copy()
+                else:
+                    objid = getattr(obj, 'objid', None)
+                    tree = dict_value(obj).copy()
+                for (k, v) in parent.items():
+                    if k in cls.INHERITABLE_ATTRS and k not in tree:
+                        tree[k] = v
+
+                tree_type = tree.get('Type')
+                if tree_type is None and not settings.STRICT:  # See #64
+                    tree_type = tree.get('type')
+
+                if tree_type is LITERAL_PAGES and 'Kids' in tree:
+                    log.debug('Pages: Kids=%r', tree['Kids'])
+                    if objid in visited:
+                        # a node has one place in the tree
+                        continue
+                    if objid is not None:
+                        visited.add(objid)
+                    for c in reversed(list_value(tree['Kids'])):
+                        pending.append((c, tree))
+                elif tree_type is LITERAL_PAGE:
+                    log.debug('Page: %r', tree)
+                    yield (objid, tree)
+
         pages = False
         if 'Pages' in document.catalog:
             for (objid, tree) in search(document.catalog['Pages'], document.catalog):
-- 
2.43.0


From b080515e62ffc33b33a9376fedc20432839a07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 030/117] fix: outlines of any length and depth, outline
 entries reached again

---
 pdfmajor/parser/PDFDocument/__init__.py | 36 +++++++++++++++----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 45fd339..7e044a6 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -250,20 +250,28 @@ class PDFDocument(object):
             raise PDFNoOutlines
 
         def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+            pending = [(entry, level)]
+            visited = set()
+            while pending:
+                (entry, level) = pending.pop()
+                objid = getattr(entry, 'objid', None)
+                if objid is not None:
+                    if objid in visited:
+                        # an entry has one place in the outline
+                        continue
+                    visited.add(objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'Next' in entry:
+                    pending.append((entry['Next'], level))
+                if 'First' in entry and 'Last' in entry:
+                    pending.append((entry['First'], level+1))
             return
         return search(self.catalog['Outlines'], 0)
 
-- 
2.43.0


From 20334eaaf9ff4371f96811812ca2ac29bee9231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 031/117] fix: name tree lookups in trees of any depth, without
 limits or with a name as key

---
 pdfmajor/parser/PDFDocument/__init__.py | 34 +++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 7e044a6..dabee23 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -22,7 +22,7 @@ from pdfmajor.execptions import (
 from ...utils import settings, choplist, decode_text
 from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
-from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
+from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all, resolve1
 from ..PDFParser import PDFStreamParser, PDFStream
 
 from .PDFSecurityHandler import PDFStandardSecurityHandler
@@ -283,22 +283,28 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
-        def lookup(d):
+        pending = [d0]
+        visited = set()
+        while pending:
+            d = pending.pop()
+            objid = getattr(d, 'objid', None)
+            if objid is not None:
+                if objid in visited:
+                    continue
+                visited.add(objid)
+            d = dict_value(d)
             if 'Limits' in d:
-                (k1, k2) = list_value(d['Limits'])
-                if key < k1 or k2 < key:
-                    return None
+                limits = [resolve1(x) for x in list_value(d['Limits'])]
+                if len(limits) == 2 and all(isinstance(x, type(key)) for x in limits):
+                    if key < limits[0] or limits[1] < key:
+                        continue
             if 'Names' in d:
-                objs = list_value(d['Names'])
-                names = dict(choplist(2, objs))
-                return names[key]
-            if 'Kids' in d:
-                for c in list_value(d['Kids']):
-                    v = lookup(dict_value(c))
-                    if v:
+                for (k, v) in choplist(2, list_value(d['Names'])):
+                    if resolve1(k) == key:
                         return v
-            raise KeyError((cat, key))
-        return lookup(d0)
+            elif 'Kids' in d:
+                pending.extend(reversed(list_value(d['Kids'])))
+        raise KeyError((cat, key))
 
     def get_dest(self, name):
         try:
-- 
2.43.0


From 65703ad207c142bc613880dd63cd4e517b724a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 032/117] fix: page boxes with indirect numbers

---
 pdfmajor/parser/PDFPage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 55eda63..97f82be 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -4,7 +4,7 @@ import logging
 from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
 from ..utils import settings
 from .constants import LIT
-from .PDFStream import resolve1, int_value, list_value, dict_value
+from .PDFStream import resolve1, resolve_all, int_value, list_value, dict_value
 from .PDFParser import PDFParser
 from .PDFDocument import PDFDocument
 
@@ -52,9 +52,9 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = resolve1(self.attrs['MediaBox'])
+        self.mediabox = resolve_all(self.attrs['MediaBox'])
         if 'CropBox' in self.attrs:
-            self.cropbox = resolve1(self.attrs['CropBox'])
+            self.cropbox = resolve_all(self.attrs['CropBox'])
         else:
             self.cropbox = self.mediabox
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
-- 
2.43.0


From 491c8a3cb33032b0ac78d403c61f24a03a4a2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 033/117] fix: width and height of pages rotated by a quarter
 turn

---
 pdfmajor/interpreter/PageInterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..2af86bf 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -23,6 +23,8 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
+        if page.rotate in (90, 270):
+            (self.width, self.height) = (self.height, self.width)
 
         # Init State
         self.state: PDFStateStack = prep_state(
-- 
2.43.0


From 26621ad21e3f6b72c6075fd2aa85a7d1d0296ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 034/117] fix: pages without any content stream are blank

---
 pdfmajor/interpreter/commands/__init__.py |   8 ++++++--
 samples/output/images/jpg_p0i1.jpg        | Bin 13908 -> 13907 bytes
 samples/output/images/jpg_p0i2.jpg        | Bin 590108 -> 590107 bytes
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..2f5e221 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -1,6 +1,6 @@
 from typing import List
 
-from pdfmajor.execptions import CommandProcessorError
+from pdfmajor.execptions import CommandProcessorError, PSEOF
 from pdfmajor.parser.PDFContentParser import PDFContentParser, PDFStream
 from pdfmajor.parser.PSStackParser import PSKeyword, keyword_name
 from pdfmajor.utils import get_logger
@@ -21,7 +21,11 @@ log = get_logger('process_command_stream')
 def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
     if font_cache is None:
         font_cache = {}
-    parser = PDFContentParser(streams)
+    try:
+        parser = PDFContentParser(streams)
+    except PSEOF:
+        # no content at all
+        return
     for obj in parser:
         if isinstance(obj, PSKeyword):
             name = keyword_name(obj)
diff --git a/samples/output/images/jpg_p0i1.jpg b/samples/output/images/jpg_p0i1.jpg
index a7ffdbc946b7d9d53454425f1fdff4bc926393c3..e34dcdf00831eda59e0548b314679d4f6ae53a2b 100644
GIT binary patch
delta 7
OcmcbTb2(>2uo(am76Z8e

delta 9
Qcmcbdb0ud(uo)v402q=3!~g&Q

diff --git a/samples/output/images/jpg_p0i2.jpg b/samples/output/images/jpg_p0i2.jpg
index 3e3d27fb0eaf228f37b9139ffe4f93f0c100c7fb..a447dfb7f059d2fa27680257160cb0ddeab16c26 100644
GIT binary patch
delta 27
icmbQ!q%ylnrJ;qfg{g(Pg{6hHg{_6Xg<}h+G$R0mGYBC7

delta 29
kcmbQ;q%x;TrJ;qfg{g(Pg{6hHg{_6Xg<}h+G$SJy0F!<QEC2ui

-- 
2.43.0


From 90e7cc47e4f20b2fc857052e853eda8406345a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 035/117] fix: k sets the non-stroking colour

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From 91d84c2b11edc547de1e158730049fcdea78ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 036/117] fix: g, rg, k and their stroking forms also choose
 the colour space

---
 pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
index 4a24fbe..47802b0 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
@@ -19,11 +19,13 @@ class PDFGraphicState(object):
     def set_stroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.scolspace
+        self.scolspace = colspace
         self.scolor = PDFColor(colspace, *values)
 
     def set_nostroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.ncolspace
+        self.ncolspace = colspace
         self.ncolor = PDFColor(colspace, *values)
 
     def copy(self):
-- 
2.43.0


From 31b3f6bb7d7216e64893000f28aaae78cce3f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 037/117] fix: box of curves in page coordinates, closed
 quadrilaterals are not lost

---
 .../commands/state/layout/__init__.py         | 39 +++++++------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..6061792 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,32 +82,19 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
-        for path in paths:
-            if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-                x0 = min(x0, path.points[0].x)
-                y0 = min(y0, path.points[0].y)
-                x1 = max(x1, path.points[0].x)
-                y1 = max(y1, path.points[0].y)
-            elif path.method in [CurvePath.METHOD.CURVE_BOTH_TO]:
-                x0 = min(x0, path.points[2].x)
-                y0 = min(y0, path.points[2].y)
-                x1 = max(x1, path.points[2].x)
-                y1 = max(y1, path.points[2].y)
-            elif path.method in [CurvePath.METHOD.CURVE_NEXT_TO, CurvePath.METHOD.CURVE_FIRST_TO]:
-                x0 = min(x0, path.points[1].x)
-                y0 = min(y0, path.points[1].y)
-                x1 = max(x1, path.points[1].x)
-                y1 = max(y1, path.points[1].y)
-        return LTCurve(
-            linewidth=gstate.linewidth, 
-            paths=paths,
-            bbox=Bbox(x0,y0,x1,y1), 
-            evenodd=evenodd,
-            stroke=gstate.scolor, 
-            fill=gstate.ncolor
-        )
+    # the last point of each segment
+    points = [
+        apply_matrix_pt(ctm, (path.points[-1].x, path.points[-1].y))
+        for path in paths if path.points
+    ]
+    return LTCurve(
+        linewidth=gstate.linewidth, 
+        paths=paths,
+        bbox=Bbox.from_points(points), 
+        evenodd=evenodd,
+        stroke=gstate.scolor, 
+        fill=gstate.ncolor
+    )
 
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
-- 
2.43.0


From 8e0b1321a73aa7f672328c4049cdae5970ac8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 038/117] fix: painting an empty path reports nothing

---
 pdfmajor/interpreter/commands/commands.py | 48 ++++++++---------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..ade787c 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -186,29 +186,27 @@ def curve_rect(stack: PDFStateStack, x, y, w, h) -> PDFStateStack:
     ])
     return stack
 
+def add_curve(stack: PDFStateStack, evenodd: bool) -> PDFStateStack:
+    # an empty path paints nothing
+    if any(path.points for path in stack.curvestacks):
+        stack.complete_layout_items.append(make_curve(
+            stack.t_matrix,
+            stack.graphics.copy(),
+            evenodd,
+            stack.curvestacks
+        ))
+    stack.curvestacks = []
+    return stack
+
 # stroke, fill
 @PDFCommands.add('S', 'f', 'F', 'B')
 def curve_complete_path(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
-        stack.graphics.copy(),
-        False,
-        stack.curvestacks
-    ))
-    stack.curvestacks = []
-    return stack
+    return add_curve(stack, False)
 
 # sroke, fill-even-odd
 @PDFCommands.add('f_a', 'B_a')
 def curve_complete_path_evenodd(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
-        stack.graphics.copy(),
-        True,
-        stack.curvestacks
-    ))
-    stack.curvestacks = []
-    return stack
+    return add_curve(stack, True)
 
 # close-and-stroke (do_h, do_S)
 @PDFCommands.add('s', 'b')
@@ -216,14 +214,7 @@ def curve_close_complete(stack: PDFStateStack) -> PDFStateStack:
     stack.curvestacks.append(CurvePath(
         CurvePath.METHOD.CLOSE_PATH
     ))
-    stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
-        stack.graphics.copy(),
-        False,
-        stack.curvestacks
-    ))
-    stack.curvestacks = []
-    return stack
+    return add_curve(stack, False)
 
 # close-fill-and-stroke-even-odd
 @PDFCommands.add('b_a')
@@ -231,14 +222,7 @@ def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
     stack.curvestacks.append(CurvePath(
         CurvePath.METHOD.CLOSE_PATH
     ))
-    stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
-        stack.graphics.copy(),
-        True,
-        stack.curvestacks
-    ))
-    stack.curvestacks = []
-    return stack
+    return add_curve(stack, True)
 
 # close-only (empty path)
 @PDFCommands.add('n')
-- 
2.43.0


From 9dd2b5c0359ec4fa82a42e913981cc8148faad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 039/117] fix: closing a closed path again has no effect

---
 pdfmajor/interpreter/commands/commands.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index ade787c..0ea1586 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -171,7 +171,9 @@ def curve_rveto(stack: PDFStateStack,
 # closepath
 @PDFCommands.add('h')
 def curve_close(stack: PDFStateStack) -> PDFStateStack:
-    stack.curvestacks.append(CurvePath(CurvePath.METHOD.CLOSE_PATH))
+    # closing a closed path does nothing
+    if stack.curvestacks and stack.curvestacks[-1].method is not CurvePath.METHOD.CLOSE_PATH:
+        stack.curvestacks.append(CurvePath(CurvePath.METHOD.CLOSE_PATH))
     return stack
 
 # rectangle
@@ -211,17 +213,13 @@ def curve_complete_path_evenodd(stack: PDFStateStack) -> PDFStateStack:
 # close-and-stroke (do_h, do_S)
 @PDFCommands.add('s', 'b')
 def curve_close_complete(stack: PDFStateStack) -> PDFStateStack:
-    stack.curvestacks.append(CurvePath(
-        CurvePath.METHOD.CLOSE_PATH
-    ))
+    curve_close(stack)
     return add_curve(stack, False)
 
 # close-fill-and-stroke-even-odd
 @PDFCommands.add('b_a')
 def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
-    stack.curvestacks.append(CurvePath(
-        CurvePath.METHOD.CLOSE_PATH
-    ))
+    curve_close(stack)
     return add_curve(stack, True)
 
 # close-only (empty path)
-- 
2.43.0


From ef126ff7b06bab85908d23d169696112251b5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 040/117] fix: the " operator moves to the next line

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 0ea1586..1fa3f9f 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -453,7 +453,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From 58faffa2b732a57318e8fb95ca387edb78baa354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 041/117] fix: showing an empty string or only an adjustment

---
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..4ae7555 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # nothing shown, only the position may have moved
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From 9d9bdbaebf3b8195d9888e8fcb6d55b58b1d9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 042/117] fix: character spacing follows every character

---
 .../commands/state/layout/utils/textdecoder.py            | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..727a75c 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,30 +22,24 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
                 
     return (char_meta_datas, textstate, color)
 
-- 
2.43.0


From d6cce588d610dbf0b9f93aeb6c5f505115e2f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 043/117] fix: boxes of slanted characters hold all four
 corners

---
 .../commands/state/layout/utils/textdecoder.py       | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 727a75c..e807bb1 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -74,11 +74,9 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         ty = descent + rise
         bll = (0, ty)
         bur = (adv, ty+height)
-    (x0, y0) = apply_matrix_pt(matrix, bll)
-    (x1, y1) = apply_matrix_pt(matrix, bur)
-    if x1 < x0:
-        (x0, x1) = (x1, x0)
-    if y1 < y0:
-        (y0, y1) = (y1, y0)
+    box = Bbox.from_points(
+        apply_matrix_pt(matrix, (x, y))
+        for x in (bll[0], bur[0]) for y in (bll[1], bur[1])
+    )
     
-    return (adv, ((x0, y0), (x1, y1)))
\ No newline at end of file
+    return (adv, ((box.x0, box.y0), (box.x1, box.y1)))
\ No newline at end of file
-- 
2.43.0


From 4c135dbf3b3fcc5de1729da877717e4473aac818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 044/117] fix: form content and box are placed by the form
 matrix

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 6061792..fbd0f77 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -108,12 +108,13 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    (x0, y0, x1, y1) = bbox
+    ctm = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
-            apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            apply_matrix_pt(ctm, (p, q))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-- 
2.43.0


From e6f8d893e8c6648fab9e41da57a14e0dd56e80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 045/117] fix: forms inherit the text state

---
 pdfmajor/interpreter/commands/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 2f5e221..6a4a6f3 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -63,6 +63,7 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     font_cache=font_cache
                 )
                 xobj_state.graphics = state.graphics.copy()
+                xobj_state.text = state.text.copy()
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-- 
2.43.0


From e084c3873dc4d0656b58130d0bf19d282c84a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 046/117] fix: forms that invoke themselves

---
 pdfmajor/interpreter/commands/__init__.py       | 6 ++++++
 pdfmajor/interpreter/commands/state/__init__.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 6a4a6f3..1166e57 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -56,6 +56,11 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
         
         for complete_item in state.complete_layout_items:
             if isinstance(complete_item, LTXObject):
+                form = complete_item.stream
+                form_id = id(form) if form.objid is None else form.objid
+                if form_id in state.active_forms:
+                    log.warning('form %r invokes itself', form_id)
+                    continue
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -64,6 +69,7 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 )
                 xobj_state.graphics = state.graphics.copy()
                 xobj_state.text = state.text.copy()
+                xobj_state.active_forms = state.active_forms | {form_id}
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
diff --git a/pdfmajor/interpreter/commands/state/__init__.py b/pdfmajor/interpreter/commands/state/__init__.py
index 7f4ec25..ef794a7 100644
--- a/pdfmajor/interpreter/commands/state/__init__.py
+++ b/pdfmajor/interpreter/commands/state/__init__.py
@@ -31,6 +31,7 @@ class PDFStateStack:
         self.xobjmap = {}
         self.resources = {}
         self.current_textblock: LTTextBlock = None
+        self.active_forms: frozenset = frozenset()
 
     def pop(self, n: int) -> bytearray:
         if n == 0:
-- 
2.43.0


From 336d047be29719f5e42b3ad64d299dc40b1ba913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 047/117] fix: ICCBased colour spaces with an indirect N

---
 pdfmajor/interpreter/commands/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/utils.py b/pdfmajor/interpreter/commands/utils.py
index 1d7fce2..9109dce 100644
--- a/pdfmajor/interpreter/commands/utils.py
+++ b/pdfmajor/interpreter/commands/utils.py
@@ -9,11 +9,11 @@ from .state import PDFStateStack, get_font
 
 def get_colorspace(spec):
     if isinstance(spec, list):
-        name = literal_name(spec[0])
+        name = literal_name(resolve1(spec[0]))
     else:
         name = literal_name(spec)
     if name == 'ICCBased' and isinstance(spec, list) and 2 <= len(spec):
-        return PDFColorSpace(name, PDFStream.validated_stream(spec[1])['N'])
+        return PDFColorSpace(name, resolve1(PDFStream.validated_stream(spec[1])['N']))
     elif name == 'DeviceN' and isinstance(spec, list) and 2 <= len(spec):
         return PDFColorSpace(name, len(list_value(spec[1])))
     else:
-- 
2.43.0


From cccacdfc160f7cf805032b75115f0da33cbb3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 048/117] fix: horizontal scaling does not apply to vertical
 advances

---
 .../commands/state/layout/utils/textdecoder.py    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index e807bb1..7ff5a9d 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -4,12 +4,14 @@ from ....state import PDFTextState, PDFColor
 def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
     textstate.matrix = mult_matrix(textstate.matrix, ctm)
     textstate.scaling = textstate.scaling * .01
-    textstate.charspace = textstate.charspace * textstate.scaling
-    textstate.wordspace = textstate.wordspace * textstate.scaling
+    # the scaling is horizontal: it does not apply to advances in vertical writing
+    scaling = 1 if textstate.font.is_vertical() else textstate.scaling
+    textstate.charspace = textstate.charspace * scaling
+    textstate.wordspace = textstate.wordspace * scaling
     
     if textstate.font.is_multibyte():
         textstate.wordspace = 0
-    dxscale = .001 * textstate.fontsize * textstate.scaling
+    dxscale = .001 * textstate.fontsize * scaling
 
     if textstate.font.is_vertical():
         return __render_string_along(1,
@@ -51,17 +53,17 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
 
     textwidth = font.char_width(char_id)
     textdisp = font.char_disp(char_id)
-    adv = textwidth * fontsize * scaling
 
     # compute the boundary rectangle.
     if font.is_vertical():
         # vertical
-        width = font.get_width() * fontsize
+        adv = textwidth * fontsize
+        width = font.get_width() * fontsize * scaling
         (vx, vy) = textdisp
         if vx is None:
             vx = width * 0.5
         else:
-            vx = vx * fontsize * .001
+            vx = vx * fontsize * scaling * .001
         vy = (1000 - vy) * fontsize * .001
         tx = -vx
         ty = vy + rise
@@ -69,6 +71,7 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         bur = (tx+width, ty)
     else:
         # horizontal
+        adv = textwidth * fontsize * scaling
         height = font.get_height() * fontsize
         descent = font.get_descent() * fontsize
         ty = descent + rise
-- 
2.43.0


From 3c714e8f1114e9ff3b3c7ae940b7f0e0c7005919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 049/117] fix: form boxes and matrices with indirect numbers

---
 pdfmajor/interpreter/commands/commands.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1fa3f9f..68f252a 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
+from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value, num_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -474,8 +474,8 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     # log.info('Processing xobj: %r', xobj)
     subtype = xobj.get('Subtype')
     if subtype is LITERAL_FORM and 'BBox' in xobj:
-        bbox = list_value(xobj['BBox'])
-        matrix = list_value(xobj.get('Matrix', MATRIX_IDENTITY))
+        bbox = [num_value(x) for x in list_value(xobj['BBox'])]
+        matrix = [num_value(x) for x in list_value(xobj.get('Matrix', MATRIX_IDENTITY))]
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
-- 
2.43.0


From 4684397feee0e7d451fa45ba8f1c8dbe35b5700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 050/117] fix: one line end before EI is not image data

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index af393c1..19b6135 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -77,7 +77,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 8723da7d5aa986f23be6639115e5602c851d3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 051/117] fix: inline images with unabbreviated Width and
 Height

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 68f252a..c2acab2 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -457,7 +457,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if ('W' in obj or 'Width' in obj) and ('H' in obj or 'Height' in obj):
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From 3777bd6577458c967c6a2262fbfda28e439cda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 052/117] fix: image attributes given as indirect objects

---
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..a8f0c8c 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ import PIL as pillow
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE, resolve1
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From f146d0c3356833bef1be0d3a9259824a0c4b8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 053/117] fix: images exported as bitmaps

---
 pdfmajor/BMPWriter/__init__.py                | 13 +++++++++----
 .../commands/state/layout/LTImage.py          | 19 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..4e7d1a9 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -12,12 +12,17 @@ def align32(x):
 class BMPWriter(object):
 
     @classmethod
-    def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+    def write_all(cls, fp, stream: PDFStream, bits: int, width: int, height: int, step: int):
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
-            bmp.write_line(y, data[i:i+step])
+            line = data[i:i+step]
+            if bits == 24:
+                # bitmaps hold blue, green, red
+                line = bytearray(line[:len(line)//3*3])
+                line[0::3], line[2::3] = line[2::3], line[0::3]
+            bmp.write_line(y, line)
             i += step
 
     def __init__(self, fp, bits, width, height):
@@ -56,5 +61,5 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        self.fp.write(data.ljust(self.linesize, b'\0'))
         return
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index a8f0c8c..3d9cbe5 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -13,6 +13,9 @@ from ._base import LTComponent
 LITERAL_DEVICE_GRAY = LIT('DeviceGray')
 LITERAL_DEVICE_RGB = LIT('DeviceRGB')
 LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+LITERALS_GRAY = (LITERAL_DEVICE_GRAY, LIT('G'))
+LITERALS_RGB = (LITERAL_DEVICE_RGB, LIT('RGB'))
+LITERALS_CMYK = (LITERAL_DEVICE_CMYK, LIT('CMYK'))
 
 ##  LTImage
 ##
@@ -39,14 +42,14 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
+        (width, height) = self.srcsize
         bits = self.bits
+        colorspace = resolve1(self.colorspace[0]) if self.colorspace else None
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
-        elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+        elif (bits == 1 and colorspace not in LITERALS_RGB + LITERALS_CMYK or
+                bits == 8 and colorspace in LITERALS_RGB + LITERALS_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -68,12 +71,12 @@ class LTImage(LTComponent):
                     i.save(fp, 'JPEG')
                 else:
                     fp.write(raw_data)
+            elif not ext.endswith('.bmp'):
+                fp.write(stream.get_data())
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif colorspace in LITERALS_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
-                BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
-                fp.write(stream.get_data())
+                BMPWriter.write_all(fp, stream, 8, width, height, width)
         return path
\ No newline at end of file
-- 
2.43.0


From 899b19d3c9d2978e70db12954912b6cde375f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 054/117] fix: exported JPEG images

---
 .../interpreter/commands/state/layout/LTImage.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 3d9cbe5..af4a34e 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,8 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+import PIL.Image
+import PIL.ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -46,7 +47,7 @@ class LTImage(LTComponent):
         bits = self.bits
         colorspace = resolve1(self.colorspace[0]) if self.colorspace else None
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 and colorspace not in LITERALS_RGB + LITERALS_CMYK or
                 bits == 8 and colorspace in LITERALS_RGB + LITERALS_GRAY):
@@ -62,11 +63,12 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
-                if LITERAL_DEVICE_CMYK in self.colorspace:
+                # DCT data is kept as it is, what it is wrapped in is removed
+                raw_data = stream.get_data()
+                if colorspace in LITERALS_CMYK:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = PIL.Image.open(ifp)
+                    i = PIL.ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From cbf76295eb4076547494e093b91afc61dc18d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 055/117] fix: images exported under the name of an earlier one

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index fbd0f77..ad0b0b8 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -1,3 +1,4 @@
+from itertools import count
 from typing import List
 from pdfmajor.utils import apply_matrix_pt, INF, Bbox, Point, MATRIX_IDENTITY, mult_matrix
 
@@ -96,10 +97,17 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         fill=gstate.ncolor
     )
 
+_inline_images = count()
+
+def image_name(obj):
+    # the identity alone is used again once an image is dropped
+    key = next(_inline_images) if obj.objid is None else 'obj%s' % obj.objid
+    return '%s_%s' % (id(obj), key)
+
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
     return LTImage(
-        name=str(id(obj)),
+        name=image_name(obj),
         stream=obj,
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
-- 
2.43.0


From 3b4cbeecde0b59da56f092f6cb228d4532d411a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 056/117] fix: an abandoned or concurrent pass over a document
 no longer changes the next one

---
 pdfmajor/interpreter/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..8584ef1 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -54,9 +54,12 @@ class PDFInterpreter:
                 caching=self.caching, 
                 check_extractable=self.check_extractable
             )
+            loaded = []
             for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
+                loaded.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+                yield loaded[-1]
+            # only a complete pass may be reused by the next one
+            self.__pages = loaded
             log.info(f"Done Reading {len(self.__pages)} pages.")
         set_log_level(logging.WARNING)
         
-- 
2.43.0


From 775fb3d4f1cdc92b9d8f15b0a56bf476d312f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 057/117] fix: keep pages readable after their document has
 been loaded

---
 pdfmajor/interpreter/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index 8584ef1..00e64f0 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -44,6 +45,8 @@ class PDFInterpreter:
         set_log_level(self.debug_level)
         log.info("Opening file...")
         with open(self.input_file_path, 'rb') as input_file:
+            # pages read from it lazily, possibly after the file is closed
+            input_file = BytesIO(input_file.read())
             font_cache = {}
             log.info("Parsing file...")
             pages = PDFPage.get_pages(
-- 
2.43.0


From 957a633ceddc8c58fe6fa1b79f4b8d2d24e770fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 058/117] fix: start every pass over a page from the initial
 graphics state

---
 pdfmajor/interpreter/PageInterpreter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 2af86bf..bcf7006 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -26,21 +26,22 @@ class PageInterpreter:
         if page.rotate in (90, 270):
             (self.width, self.height) = (self.height, self.width)
 
-        # Init State
-        self.state: PDFStateStack = prep_state(
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+    
+    def __iter__(self):
+        # every pass over the page starts from the initial state
+        state: PDFStateStack = prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
-    
-    def __iter__(self):
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-            state=self.state
+            state=state
         ):
             yield item
 
-- 
2.43.0


From ef931e2d567c4bb00cc3d707cd67a299a49cd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 059/117] fix: map glyph names of the uniXXXX and uXXXXX forms
 to their characters

---
 pdfmajor/utils/encoding/__init__.py | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..cd8748e 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,15 +3,42 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+UNI_NAME = re.compile(r'uni((?:[0-9A-Fa-f]{4})+)')
+U_NAME = re.compile(r'u([0-9A-F]{4,6})')
+
+def _chr(code, name):
+    if code > 0x10FFFF or 0xD800 <= code <= 0xDFFF:
+        # not a character
+        raise KeyError(name)
+    return chr(code)
+
+def _component2unicode(name):
+    if name in glyphname2unicode:
+        return glyphname2unicode[name]
+    m = UNI_NAME.fullmatch(name)
+    if m:
+        digits = m.group(1)
+        return ''.join(_chr(int(digits[i:i+4], 16), name) for i in range(0, len(digits), 4))
+    m = U_NAME.fullmatch(name)
+    if m:
+        return _chr(int(m.group(1), 16), name)
+    raise KeyError(name)
 
 ##  name2unicode
 ##
 def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
+    if not isinstance(name, str):
+        raise KeyError(name)
     if name in glyphname2unicode:
         return glyphname2unicode[name]
+    try:
+        # the rules of the Adobe Glyph List specification
+        return ''.join(map(_component2unicode, name.split('.')[0].split('_')))
+    except KeyError:
+        pass
     m = STRIP_NAME.search(name)
-    if not m:
+    if not m or len(m.group(0)) > 7 or UNI_NAME.match(name):
         raise KeyError(name)
-    return chr(int(m.group(0)))
+    return _chr(int(m.group(0)), name)
 
-- 
2.43.0


From 650200929a25b6365e772d4883725414c9449583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 060/117] fix: resolve references inside font widths, boxes and
 matrices

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py     |  2 +-
 .../commands/state/PDFTextState/PDFFont/fonts.py       | 10 +++++-----
 .../commands/state/PDFTextState/PDFFont/util.py        |  9 +++++----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..38c8c0e 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = [num_value(v) for v in list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))]
         self.hscale = self.vscale = .001
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..6713105 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -34,7 +34,7 @@ class PDFType1Font(PDFSimpleFont):
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', [0]*256))
-            widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+            widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
@@ -63,14 +63,14 @@ class PDFType3Font(PDFSimpleFont):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
         widths = list_value(spec.get('Widths', [0]*256))
-        widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+        widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
         else:
             descriptor = {'Ascent': 0, 'Descent': 0,
                           'FontBBox': spec['FontBBox']}
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        self.matrix = tuple(list_value(spec.get('FontMatrix')))
+        self.matrix = tuple(num_value(v) for v in list_value(spec.get('FontMatrix')))
         (_, self.descent, _, self.ascent) = self.bbox
         (self.hscale, self.vscale) = apply_matrix_norm(self.matrix, (1, 1))
         return
@@ -137,7 +137,7 @@ class PDFCIDFont(PDFFont):
             # writing mode: vertical
             widths = get_widths2(list_value(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = map(num_value, list_value(spec.get('DW2', [880, -1000])))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -146,7 +146,7 @@ class PDFCIDFont(PDFFont):
             self.disps = {}
             self.default_disp = 0
             widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..5052e00 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,15 +1,16 @@
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
+from pdfmajor.parser.PDFStream import num_value, resolve1
 
 
 def get_widths(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
                 for (i, w) in enumerate(v):
-                    widths[char1+i] = w
+                    widths[char1+i] = num_value(w)
                 r = []
         elif isnumber(v):
             r.append(v)
@@ -26,11 +27,11 @@ assert get_widths([1,[2,3],6,[7,8]]) == {1:2,2:3, 6:7,7:8}
 def get_widths2(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, (w, vx, vy)) in enumerate(choplist(3, v)):
+                for (i, (w, vx, vy)) in enumerate(choplist(3, map(num_value, v))):
                     widths[char1+i] = (w, (vx, vy))
                 r = []
         elif isnumber(v):
-- 
2.43.0


From 489e2533f8e1ad5a0f8d85833e01d1aa20234cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 061/117] fix: honour a default width of zero

---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 38c8c0e..44b5c58 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -34,7 +34,7 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = [num_value(v) for v in list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))]
         self.hscale = self.vscale = .001
-- 
2.43.0


From 97a05944f5f52346a4fc55907814e2302826d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 062/117] fix: an odd last byte of two-byte text no longer
 fails

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..55d7b00 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,7 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            return struct.unpack('>%dH' % n, code[:2*n])
         else:
             return ()
 
-- 
2.43.0


From 6f452f913078bf55b2d948addcaa448de9d8a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 063/117] fix: tolerate short arrays and unknown names in
 ToUnicode ranges

---
 pdfmajor/parser/cmapdb/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 55d7b00..5dff0f0 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -175,7 +175,10 @@ class FileUnicodeMap(UnicodeMap):
         assert isinstance(cid, int), str(type(cid))
         if isinstance(code, PSLiteral):
             # Interpret as an Adobe glyph name.
-            self.cid2unichr[cid] = name2unicode(code.name)
+            try:
+                self.cid2unichr[cid] = name2unicode(code.name)
+            except KeyError:
+                pass
         elif isinstance(code, bytes):
             # Interpret as UTF-16BE.
             self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')
@@ -380,9 +383,10 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
-                else:
+                    for (i, c) in zip(range(e1-s1+1), code):
+                        if isinstance(c, (bytes, PSLiteral)):
+                            self.cmap.add_cid2unichr(s1+i, c)
+                elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
-- 
2.43.0


From 6ea01121cc85a4fbbe092e50994568a5cb987196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 064/117] fix: decode text by a character map embedded in the
 file

---
 .../state/PDFTextState/PDFFont/fonts.py       | 32 +++++++++++--------
 pdfmajor/parser/cmapdb/__init__.py            | 29 +++++++----------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 6713105..e1f1fc2 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -9,7 +9,7 @@ from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.PDFStream import resolve1
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
-from pdfmajor.parser.cmapdb import FileUnicodeMap
+from pdfmajor.parser.cmapdb import FileCMap, FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
 
 from .PDFFont import PDFFont, PDFSimpleFont
@@ -92,18 +92,24 @@ class PDFCIDFont(PDFFont):
         self.cidsysteminfo = dict_value(spec.get('CIDSystemInfo', {}))
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
-        try:
-            name = literal_name(spec['Encoding'])
-        except KeyError:
-            if strict:
-                raise FontError('Encoding is unspecified')
-            name = 'unknown'
-        try:
-            self.cmap = CMapDB.get_cmap(name)
-        except CMapNotFound as e:
-            if strict:
-                raise FontError(e)
-            self.cmap = CMap()
+        encoding = resolve1(spec.get('Encoding'))
+        if isinstance(encoding, PDFStream):
+            # a character map of the font's own
+            self.cmap = FileCMap(WMode=int_value(encoding.get('WMode', 0)))
+            CMapParser(self.cmap, BytesIO(encoding.get_data())).run()
+        else:
+            try:
+                name = literal_name(spec['Encoding'])
+            except KeyError:
+                if strict:
+                    raise FontError('Encoding is unspecified')
+                name = 'unknown'
+            try:
+                self.cmap = CMapDB.get_cmap(name)
+            except CMapNotFound as e:
+                if strict:
+                    raise FontError(e)
+                self.cmap = CMap()
         try:
             descriptor = dict_value(spec['FontDescriptor'])
         except KeyError:
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 5dff0f0..85322f7 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -77,7 +77,7 @@ class CMap(CMapBase):
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
@@ -104,7 +104,7 @@ class CMap(CMapBase):
         if code2cid is None:
             code2cid = self.code2cid
             code = ()
-        for (k, v) in sorted(code2cid.iteritems()):
+        for (k, v) in sorted(code2cid.items()):
             c = code+(k,)
             if isinstance(v, int):
                 out.write('code %r = cid %d\n' % (c, v))
@@ -152,18 +152,13 @@ class UnicodeMap(CMapBase):
 class FileCMap(CMap):
 
     def add_code2cid(self, code, cid):
-        assert isinstance(code, str) and isinstance(cid, int), str((type(code), type(cid)))
+        assert isinstance(code, bytes) and isinstance(cid, int), str((type(code), type(cid)))
         d = self.code2cid
         for c in code[:-1]:
-            c = ord(c)
-            if c in d:
-                d = d[c]
-            else:
-                t = {}
-                d[c] = t
-                d = t
-        c = ord(code[-1])
-        d[c] = cid
+            if not isinstance(d.get(c), dict):
+                d[c] = {}
+            d = d[c]
+        d[code[-1]] = cid
         return
 
 
@@ -342,8 +337,8 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDRANGE:
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
-                if (not isinstance(s, str) or not isinstance(e, str) or
-                   not isinstance(cid, int) or len(s) != len(e)):
+                if (not isinstance(s, bytes) or not isinstance(e, bytes) or
+                   not isinstance(cid, int) or len(s) != len(e) or not s):
                     continue
                 sprefix = s[:-4]
                 eprefix = e[:-4]
@@ -365,9 +360,9 @@ class CMapParser(PSStackParser):
             return
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
-            for (cid, code) in choplist(2, objs):
-                if isinstance(code, str) and isinstance(cid, str):
-                    self.cmap.add_code2cid(code, nunpack(cid))
+            for (code, cid) in choplist(2, objs):
+                if isinstance(code, bytes) and isinstance(cid, int) and code:
+                    self.cmap.add_code2cid(code, cid)
             return
 
         if token is self.KEYWORD_BEGINBFRANGE:
-- 
2.43.0


From ca4158e16fed991227087c6c13fcb7f855ed94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 065/117] fix: bound the ranges of character maps and width
 arrays

---
 .../commands/state/PDFTextState/PDFFont/util.py   |  7 +++++--
 pdfmajor/parser/cmapdb/__init__.py                | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index 5052e00..58e578c 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -2,6 +2,9 @@ from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 from pdfmajor.parser.PDFStream import num_value, resolve1
 
 
+# the largest character identifier
+MAX_CID = 0xffff
+
 def get_widths(seq):
     widths = {}
     r = []
@@ -16,7 +19,7 @@ def get_widths(seq):
             r.append(v)
             if len(r) == 3:
                 (char1, char2, w) = r
-                for i in range(char1, char2+1):
+                for i in range(max(int(char1), 0), min(int(char2), MAX_CID)+1):
                     widths[i] = w
                 r = []
     return widths
@@ -38,7 +41,7 @@ def get_widths2(seq):
             r.append(v)
             if len(r) == 5:
                 (char1, char2, w, vx, vy) = r # pylint: disable=E0632
-                for i in range(char1, char2+1):
+                for i in range(max(int(char1), 0), min(int(char2), MAX_CID)+1):
                     widths[i] = (w, (vx, vy))
                 r = []
     return widths
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 85322f7..bde3a75 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -32,6 +32,9 @@ from ..PSStackParser import literal_name
 
 log = logging.getLogger(__name__)
 
+# codes have two bytes in practice: no range holds more of them
+MAX_RANGE = 0x10000
+
 
 
 ##  CMapBase
@@ -74,7 +77,9 @@ class CMap(CMapBase):
         return '<CMap: %s>' % self.attrs.get('CMapName')
 
     def use_cmap(self, cmap):
-        assert isinstance(cmap, CMap), str(type(cmap))
+        if not isinstance(cmap, CMap):
+            # the identity maps have no table
+            return
 
         def copy(dst, src):
             for (k, v) in src.items():
@@ -350,7 +355,7 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(evar)
                 vlen = len(svar)
                 #assert s1 <= e1, str((s1, e1))
-                for i in range(e1-s1+1):
+                for i in range(min(e1-s1+1, MAX_RANGE)):
                     x = sprefix+struct.pack('>L', s1+i)[-vlen:]
                     self.cmap.add_code2cid(x, cid+i)
             return
@@ -378,7 +383,7 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for (i, c) in zip(range(e1-s1+1), code):
+                    for (i, c) in enumerate(code[:max(0, e1-s1+1)]):
                         if isinstance(c, (bytes, PSLiteral)):
                             self.cmap.add_cid2unichr(s1+i, c)
                 elif isinstance(code, bytes):
@@ -386,8 +391,8 @@ class CMapParser(PSStackParser):
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
-                    for i in range(e1-s1+1):
-                        x = prefix+struct.pack('>L', base+i)[-vlen:]
+                    for i in range(min(e1-s1+1, MAX_RANGE)):
+                        x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
 
-- 
2.43.0


From 87aa8373ed1af40726e5dc3b6e59c615ef7ddae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 066/117] fix: read the character table of embedded TrueType
 fonts

---
 .../PDFTextState/PDFFont/TrueTypeFont.py      | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 55548a9..d8f7495 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -23,15 +23,25 @@ class TrueTypeFont(object):
         return
 
     def create_unicode_map(self):
-        if 'cmap' not in self.tables:
+        if b'cmap' not in self.tables:
             raise CMapNotFound
-        (base_offset, _) = self.tables['cmap']
+        try:
+            return self._read_cmap()
+        except struct.error:
+            # the table is cut short
+            raise CMapNotFound
+
+    def _read_cmap(self):
+        (base_offset, _) = self.tables[b'cmap']
         fp = self.fp
         fp.seek(base_offset)
         (_, nsubtables) = struct.unpack('>HH', fp.read(4))
         subtables = []
         for i in range(nsubtables):
             subtables.append(struct.unpack('>HHL', fp.read(8)))
+        # The characters of other platforms are not Unicode characters.
+        subtables = [(p, e, o) for (p, e, o) in subtables
+                     if p == 0 or (p, e) in ((3, 1), (3, 10))] or subtables
         char2gid = {}
         # Only supports subtable type 0, 2 and 4.
         for (_1, _2, st_offset) in subtables:
@@ -55,9 +65,9 @@ class TrueTypeFont(object):
                     first = firstcode + (firstbytes[i] << 8)
                     fp.seek(pos)
                     for c in range(entcount):
-                        gid = struct.unpack('>H', fp.read(2))
+                        (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
-                            gid += delta
+                            gid = (gid + delta) & 0xffff
                         char2gid[first+c] = gid
             elif fmttype == 4:
                 (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
@@ -68,19 +78,27 @@ class TrueTypeFont(object):
                 idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
                 pos = fp.tell()
                 idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                for (ec, sc, idd, idr) in zip(ecs, scs, idds, idrs):
+                last = -1
+                for (i, (ec, sc, idd, idr)) in enumerate(zip(ecs, scs, idds, idrs)):
+                    if sc == 0xffff or sc <= last:
+                        # the segment that ends the list, or one out of order
+                        continue
+                    last = ec
                     if idr:
-                        fp.seek(pos+idr)
+                        # offsets count from the place they are stored at
+                        fp.seek(pos+2*i+idr)
                         for c in range(sc, ec+1):
-                            char2gid[c] = (struct.unpack('>H', fp.read(2))[0] + idd) & 0xffff
+                            (gid,) = struct.unpack('>H', fp.read(2))
+                            char2gid[c] = (gid + idd) & 0xffff if gid else 0
                     else:
                         for c in range(sc, ec+1):
                             char2gid[c] = (c + idd) & 0xffff
-            else:
-                assert False, str(('Unhandled', fmttype))
         # create unicode map
         unicode_map = FileUnicodeMap()
         for (char, gid) in char2gid.items():
+            if not gid:
+                # the glyph of characters the font does not have
+                continue
             unicode_map.add_cid2unichr(gid, char)
         return unicode_map
 
-- 
2.43.0


From 41739e1cb33d0af07fe6a8527dcb84d28fee83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 067/117] fix: look ToUnicode maps of composite fonts up by
 code

---
 .../state/PDFTextState/PDFFont/fonts.py         |  4 ++++
 pdfmajor/parser/cmapdb/__init__.py              | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index e1f1fc2..6cd4d9f 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -122,6 +122,8 @@ class PDFCIDFont(PDFFont):
             ttf = TrueTypeFont(self.basefont,
                                BytesIO(self.fontfile.get_data()))
         self.unicode_map = None
+        # a ToUnicode map is about codes, the others are about character ids
+        self.map_codes = 'ToUnicode' in spec
         if 'ToUnicode' in spec:
             strm = PDFStream.validated_stream(spec['ToUnicode'])
             self.unicode_map = FileUnicodeMap()
@@ -176,6 +178,8 @@ class PDFCIDFont(PDFFont):
         try:
             if not self.unicode_map:
                 raise KeyError(cid)
+            if self.map_codes:
+                return self.unicode_map.get_unichr(getattr(cid, 'code', cid))
             return self.unicode_map.get_unichr(cid)
         except KeyError:
             raise UnicodeNotDefined(self.cidcoding, cid)
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index bde3a75..52d2e64 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -64,6 +64,17 @@ class CMapBase(object):
         return
 
 
+##  CodedCID
+##
+class CodedCID(int):
+    """ A character id that remembers the code it stands for. """
+
+    def __new__(cls, cid, code):
+        self = int.__new__(cls, cid)
+        self.code = code
+        return self
+
+
 ##  CMap
 ##
 class CMap(CMapBase):
@@ -95,14 +106,18 @@ class CMap(CMapBase):
     def decode(self, code):
         log.debug('decode: %r, %r', self, code)
         d = self.code2cid
+        value = 0
         for i in iter(code):
             if i in d:
                 d = d[i]
+                value = (value << 8) | i
                 if isinstance(d, int):
-                    yield d
+                    yield CodedCID(d, value)
                     d = self.code2cid
+                    value = 0
             else:
                 d = self.code2cid
+                value = 0
         return
 
     def dump(self, out=sys.stdout, code2cid=None, code=None):
-- 
2.43.0


From ca9501baac267d0eac5c1d33bf7163d10909f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 068/117] fix: Type 1 font files with the standard encoding or
 without Length1

---
 .../state/PDFTextState/PDFFont/Type1FontHeaderParser.py  | 6 +++++-
 .../commands/state/PDFTextState/PDFFont/fonts.py         | 9 ++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
index bb4122e..7068a46 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py
@@ -38,7 +38,11 @@ class Type1FontHeaderParser(PSStackParser):
 
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_PUT:
-            ((_, key), (_, value)) = self.pop(2) # pylint: disable=E0632
+            try:
+                ((_, key), (_, value)) = self.pop(2) # pylint: disable=E0632
+            except ValueError:
+                # not enough operands
+                return
             if (isinstance(key, int) and
                 isinstance(value, PSLiteral)):
                 self.add_results((key, literal_name(value)))
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 6cd4d9f..c990e89 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -39,10 +39,13 @@ class PDFType1Font(PDFSimpleFont):
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
             self.fontfile = PDFStream.validated_stream(descriptor.get('FontFile'))
-            length1 = int_value(self.fontfile['Length1'])
-            data = self.fontfile.get_data()[:length1]
+            length1 = int_value(self.fontfile.get('Length1', 0))
+            data = self.fontfile.get_data()
+            if length1:
+                data = data[:length1]
             parser = Type1FontHeaderParser(BytesIO(data))
-            self.cid2unicode = parser.get_encoding()
+            # a font without an array of its own has the standard encoding
+            self.cid2unicode = parser.get_encoding() or self.cid2unicode
         return
 
     def __repr__(self):
-- 
2.43.0


From 8a9969b1c8066c68ac3dd41760e3eee109c99b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 069/117] fix: character maps with missing operands or empty
 destinations

---
 pdfmajor/parser/cmapdb/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 52d2e64..f7f9dd5 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -330,7 +330,7 @@ class CMapParser(PSStackParser):
             try:
                 ((_, k), (_, v)) = self.pop(2)
                 self.cmap.set_attr(literal_name(k), v)
-            except PSSyntaxError:
+            except (PSSyntaxError, ValueError):
                 pass
             return
 
@@ -338,7 +338,7 @@ class CMapParser(PSStackParser):
             try:
                 ((_, cmapname),) = self.pop(1)
                 self.cmap.use_cmap(CMapDB.get_cmap(literal_name(cmapname)))
-            except PSSyntaxError:
+            except (PSSyntaxError, ValueError):
                 pass
             except CMapNotFound:
                 pass
@@ -406,6 +406,11 @@ class CMapParser(PSStackParser):
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
+                    if not vlen:
+                        # the characters have no text
+                        for i in range(min(e1-s1+1, MAX_RANGE)):
+                            self.cmap.add_cid2unichr(s1+i, code)
+                        continue
                     for i in range(min(e1-s1+1, MAX_RANGE)):
                         x = prefix+struct.pack('>L', (base+i) & 0xffffffff)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
-- 
2.43.0


From 60c0c35f851cef5281ef36c320ca6de577bfe6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 070/117] fix: resolve references to font names and inside
 encodings

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py          | 4 ++--
 .../commands/state/PDFTextState/PDFFont/__init__.py         | 2 +-
 .../commands/state/PDFTextState/PDFFont/fonts.py            | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 44b5c58..00f61e5 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -114,8 +114,8 @@ class PDFSimpleFont(PDFFont):
         else:
             encoding = LITERAL_STANDARD_ENCODING
         if isinstance(encoding, dict):
-            name = literal_name(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING))
-            diff = list_value(encoding.get('Differences', []))
+            name = literal_name(resolve1(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING)))
+            diff = [resolve1(x) for x in list_value(encoding.get('Differences', []))]
             self.cid2unicode = EncodingDB.get_encoding(name, diff)
         else:
             self.cid2unicode = EncodingDB.get_encoding(literal_name(encoding))
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 4ef00d7..65cc6b2 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -20,7 +20,7 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
                 raise FontError('Type is not /Font')
         # Create a Font object.
         if 'Subtype' in spec:
-            subtype = literal_name(spec['Subtype'])
+            subtype = literal_name(resolve1(spec['Subtype']))
         else:
             if settings.STRICT:
                 raise FontError('Font Subtype is not specified.')
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index c990e89..9850874 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -22,7 +22,7 @@ class PDFType1Font(PDFSimpleFont):
 
     def __init__(self, spec):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if settings.STRICT:
                 raise FontError('BaseFont is missing')
@@ -87,7 +87,7 @@ class PDFCIDFont(PDFFont):
 
     def __init__(self, spec, strict=settings.STRICT):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if strict:
                 raise FontError('BaseFont is missing')
@@ -102,7 +102,7 @@ class PDFCIDFont(PDFFont):
             CMapParser(self.cmap, BytesIO(encoding.get_data())).run()
         else:
             try:
-                name = literal_name(spec['Encoding'])
+                name = literal_name(resolve1(spec['Encoding']))
             except KeyError:
                 if strict:
                     raise FontError('Encoding is unspecified')
-- 
2.43.0


From c013a298d67b8431a860df29cea8f119e645e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 071/117] fix: code 173 of WinAnsiEncoding is a hyphen

---
 pdfmajor/utils/encoding/latin_enc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..a5126b3 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -214,7 +214,7 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
+  ('hyphen', None, None, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From ed91c48ebdfdf5a327c6f290771f738dfed8a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 072/117] fix: never load character maps from paths named by a
 document

---
 pdfmajor/parser/cmapdb/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index f7f9dd5..3375028 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -198,7 +198,8 @@ class FileUnicodeMap(UnicodeMap):
             # Interpret as UTF-16BE.
             self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')
         elif isinstance(code, int):
-            self.cid2unichr[cid] = chr(code)
+            if not 0xD800 <= code <= 0xDFFF:
+                self.cid2unichr[cid] = chr(code)
         else:
             raise TypeError(code)
         return
@@ -240,6 +241,9 @@ class CMapDB(object):
     @classmethod
     def _load_data(klass, name):
         name = name.replace("\0", "")
+        if name != os.path.basename(name):
+            # names come from documents: they name a map, not a path
+            raise CMapNotFound(name)
         filename = '%s.pickle.gz' % name
         log.info('loading: %r', name)
         cmap_paths = (os.environ.get('CMAP_PATH', '/usr/share/pdfminer/'),
-- 
2.43.0


From b717b482ae9c30599a605037995315cd1379da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 073/117] fix: write valid JSON whatever the text and names
 contain

---
 pdfmajor/converters/json.py         | 28 ++++++++++++++++------------
 pdfmajor/converters/writers/json.py | 26 +++++++++++++-------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..389d5c4 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -1,3 +1,4 @@
+from math import isfinite
 from typing import List, Optional
 
 from .writers.json import JSONMaker, JSONMakerObject, JSONMakerArray
@@ -7,15 +8,18 @@ from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
+
+def json_float(val: float):
+    # there are no infinite numbers in JSON
+    return val if isfinite(val) else None
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -25,7 +29,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: Optional[str] = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
@@ -73,7 +77,7 @@ def render(json: JSONMakerObject, item: LTItem):
             # if json.imagewriter is not None:
             #     name = json.imagewriter.export_image(item)
             json.string("type", 'img')
-            json.string("src", enc(item.name, None))
+            json.string("src", item.name)
             json.number("x0", item.x0)
             json.number("x1", item.x1)
             json.number("y0", item.y0)
@@ -100,18 +104,18 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            json.string(key, value)
     json.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        if key != "Type" and "FontFile" not in str(key):
+            json.string(key, value)
 
 def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("x0", item.x0)
@@ -120,12 +124,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": str(item.fill.color_space.name),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": str(item.stroke.color_space.name),
             "value": normalize_color_values(item.stroke.values)
         })
                     
@@ -140,7 +144,7 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
                 paths_arr.place_object({
                     "type": path.method.name,
                     "points": [
-                        {"x": point.x, "y": point.y}
+                        {"x": json_float(point.x), "y": json_float(point.y)}
                         for point in path.points
                     ]
                 })
\ No newline at end of file
diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..8ea4d2b 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -1,12 +1,18 @@
 from typing import Set
 from json import dumps as json_dump
+from math import isfinite
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+def json_number(val):
+    if val is None or not isfinite(val):
+        return 'null'
+    return val
+
 @contextmanager
 def JSONMaker(file_path: str, codec: str = 'utf-8'):
-    with open(file_path, 'wb') as outf:
+    with open(file_path, 'w', encoding=codec, newline='') as outf:
         with JSONMakerObject(outf, codec=codec) as obj:
             yield obj
 
@@ -28,8 +34,6 @@ class JSONMakerObject:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -42,16 +46,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
-        self.write_prop(key, val)
+        self.write_prop(key, json_number(val))
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_dump(str(val)))
     
     @contextmanager
     def object(self, key: str):
@@ -88,8 +91,6 @@ class JSONMakerArray:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -106,11 +107,10 @@ class JSONMakerArray:
             self.write(f'{val}', prefix='\n')
 
     def number(self, val: float or int):
-        self.write_prop(val)
+        self.write_prop(json_number(val))
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_dump(str(val)))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From db3221cde2e6904367de3151b133777f1d5604ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 074/117] fix: write well-formed XML whatever the text and
 names contain

---
 pdfmajor/converters/writers/xml.py | 24 ++++++++++++++++++------
 pdfmajor/converters/xml.py         | 18 ++++++++----------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..04a201d 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,18 +1,31 @@
+import re
 from io import TextIOWrapper
 from contextlib import contextmanager
+from xml.sax import saxutils
 from pdfmajor.execptions import FileAccessException
 
+# characters that no XML document may hold
+ILLEGAL = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+ATTR_NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_.-]*')
+
+def escape(text, quotes: bool = False) -> str:
+    text = saxutils.escape(ILLEGAL.sub('', str(text)), {'\r': '&#13;'})
+    if quotes:
+        text = text.replace('"', '&quot;').replace('\t', '&#9;').replace('\n', '&#10;')
+    return text
+
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
         self.codec = codec
         self.outfile: TextIOWrapper = None
     def __enter__(self):
-        self.outfile = open(self.file_path, 'wb')
+        # what the encoding has no code for is written as a character reference
+        self.outfile = open(self.file_path, 'w', encoding=self.codec, errors='xmlcharrefreplace', newline='')
         if self.codec:
-            self.write_raw(f'<?xml version="1.0.0" encoding="{self.codec}" ?>')
+            self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
-            self.write_raw(f'<?xml version="1.0.0" ?>')
+            self.write_raw(f'<?xml version="1.0" ?>')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -21,8 +34,6 @@ class XMLMaker:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -41,8 +52,9 @@ class XMLMaker:
         if attrs is None:
             attrs = {}
         attrs = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape(value, quotes=True)}"'
             for name, value in attrs.items()
+            if ATTR_NAME.fullmatch(name)
         ])
         if not singleton:
             self.write(f"<{tag_name} {attrs}>", lineend=lineend)
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..387e84e 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -1,15 +1,13 @@
 import re
 from typing import List
-from xml.sax import saxutils
 
-from .writers.xml import XMLMaker
+from .writers.xml import XMLMaker, escape
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
@@ -23,15 +21,15 @@ def normalize_color_values(values: list):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": col.color_space.name,
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -82,7 +80,7 @@ def render_page(xml: XMLMaker, ltpage: PageInterpreter):
             # if xml.imagewriter is not None:
             #     name = xml.imagewriter.export_image(item)
             xml.singleton('img', attrs={
-                'src': enc(name, None),
+                'src': name,
                 "x0": item.x0,
                 "x1": item.x1,
                 "y0": item.y0,
@@ -105,7 +103,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(escape(char.get_text()), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
@@ -117,8 +115,8 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         **get_color(char_block.color, codec=xml.codec),
     }
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+        if key != "Type" and "FontFile" not in str(key):
+            attr.setdefault(convert_capcase_to_snakecase(str(key)), value)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
-- 
2.43.0


From 56e324ab07f2a64bc326d2a48e21664cc631fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 075/117] fix: escape text and names in HTML

---
 pdfmajor/converters/html.py                               | 7 ++++---
 pdfmajor/converters/writers/html.py                       | 8 ++++----
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..50d2390 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -1,3 +1,4 @@
+from html import escape
 from typing import List, Optional
 from .writers.html import HTMLMaker
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(escape(item.get_text()))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
@@ -121,7 +122,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
 def get_color(col: PDFColor, default: str = ""):
     if col.color_space is not None:
         if col.color_space.ncomponents == 1:
-            if type(col.values[0]) in [float, int]:
+            if len(col.values) and type(col.values[0]) in [float, int]:
                 return f"rgba(0,0,0,{1 - float(col.values[0])})"
         elif col.color_space.ncomponents == 3:
             return f"rgb({','.join(map(str, col.values))})"
@@ -173,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..25ea6f3 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -1,3 +1,4 @@
+import html
 from typing import Optional
 from io import TextIOWrapper
 from contextlib import contextmanager
@@ -11,7 +12,8 @@ class HTMLMaker:
         self.outfile: Optional[TextIOWrapper] = None
     
     def __enter__(self):
-        self.outfile = open(self.file_path, 'wb')
+        # what the encoding has no code for is written as a character reference
+        self.outfile = open(self.file_path, 'w', encoding=self.codec, errors='xmlcharrefreplace', newline='')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -20,8 +22,6 @@ class HTMLMaker:
     
     def write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -45,7 +45,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{html.escape(str(value))}"'
             for name, value in attrs.items()
         ])
         if not singleton:
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 00f61e5..d327812 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -93,7 +93,7 @@ class PDFFont(object):
     def font_weight(self):
         if 'FontWeight' in self.descriptor.keys():
             return self.descriptor['FontWeight']
-        elif 'bold' in self.fontname.lower():
+        elif 'bold' in str(self.fontname).lower():
             return 'bold'
         else:
             return None
-- 
2.43.0


From df428bc90e1a828da0e056b546aea75e8462f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 076/117] fix: write valid YAML whatever the text and names
 contain

---
 pdfmajor/converters/writers/yaml.py |  56 +++++++++++++--
 pdfmajor/converters/yaml.py         | 106 ++++++++++++++--------------
 2 files changed, 102 insertions(+), 60 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..0c05a0a 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -1,11 +1,48 @@
+import re
 from json import dumps as json_dump
+from math import isfinite, isnan
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+PLAIN_KEY = re.compile(r'[A-Za-z][A-Za-z0-9_-]*')
+RESERVED = ('null', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n')
+
+def yaml_string(val) -> str:
+    """ A quoted scalar: all that is not printable ASCII is escaped. """
+    def escape(char: str) -> str:
+        code = ord(char)
+        if char in '"\\':
+            return '\\' + char
+        elif 32 <= code < 127:
+            return char
+        elif code < 0x100:
+            return '\\x%02x' % code
+        elif code < 0x10000:
+            return '\\u%04x' % code
+        return '\\U%08x' % code
+    return '"' + ''.join(map(escape, str(val))) + '"'
+
+def yaml_number(val) -> str:
+    if val is None:
+        return 'null'
+    elif not isfinite(val):
+        return '.nan' if isnan(val) else '.inf' if val > 0 else '-.inf'
+    text = str(val)
+    if 'e' in text and '.' not in text:
+        # a number needs its point to be one
+        text = text.replace('e', '.0e')
+    return text
+
+def yaml_key(key) -> str:
+    key = str(key)
+    if PLAIN_KEY.fullmatch(key) and key.lower() not in RESERVED:
+        return key
+    return yaml_string(key)
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
-    with open(file_path, 'wb') as outf:
+    with open(file_path, 'w', encoding=codec, newline='') as outf:
         with YAMLMakerObject(outf, codec=codec) as obj:
             yield obj
 
@@ -26,8 +63,6 @@ class YAMLMakerWriter:
     
     def __write_raw(self, text):
         if self.outfile is not None:
-            if self.codec:
-                text = text.encode(self.codec)
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -48,12 +83,21 @@ class YAMLMakerObject(YAMLMakerWriter):
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self._write(f'{key}: {value}', prefix='\n')
+                self._write(f'{yaml_key(key)}: {value}', prefix='\n')
             else:
-                self._write(f'{key}: {value}', prefix='', 
+                self._write(f'{yaml_key(key)}: {value}', prefix='', 
                     append_deep=not self.parent_is_array
                 )
-    
+
+    def string(self, key: str, value: str):
+        self.write(key, yaml_string(value))
+
+    def number(self, key: str, value: float or int):
+        self.write(key, yaml_number(value))
+
+    def strings(self, key: str, values: list):
+        self.write(key, '[' + ', '.join(map(yaml_string, values)) + ']')
+
     @contextmanager
     def object(self, key: str):
         if key not in self.keys:
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..05fa89b 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -1,21 +1,20 @@
 from typing import List
 
-from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray
+from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray, yaml_number
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
 from ..parser.PSStackParser import PSLiteral
-from ..utils import enc
 
 def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -48,9 +47,9 @@ def convert_to_yaml(
                     render_page(page_obj, page)
 
 def render_page(yaml: YAMLMakerObject, ltpage: PageInterpreter):  
-    yaml.write("id", ltpage.page_num)
-    yaml.write("width", ltpage.width)
-    yaml.write("height", ltpage.height)
+    yaml.number("id", ltpage.page_num)
+    yaml.number("width", ltpage.width)
+    yaml.number("height", ltpage.height)
     with yaml.array("children") as chil_arr:
         for child in ltpage:
             with chil_arr.object() as chil_obj:
@@ -60,11 +59,11 @@ def render(yaml: YAMLMakerObject, item: LTItem):
     if isinstance(item, LTCurve):
         place_curve(yaml, item)
     elif isinstance(item, LTXObject):
-        yaml.write("type", 'xobject')
-        yaml.write("x0", item.x0)
-        yaml.write("x1", item.x1)
-        yaml.write("y0", item.y0)
-        yaml.write("y1", item.y1)
+        yaml.string("type", 'xobject')
+        yaml.number("x0", item.x0)
+        yaml.number("x1", item.x1)
+        yaml.number("y0", item.y0)
+        yaml.number("y1", item.y1)
         with yaml.array("children") as chil_arr:
             for child in item:
                 with chil_arr.object() as chil_obj:
@@ -72,75 +71,74 @@ def render(yaml: YAMLMakerObject, item: LTItem):
     elif isinstance(item, LTImage):
         # if yaml.imagewriter is not None:
         #     name = yaml.imagewriter.export_image(item)
-        yaml.write("type", 'img')
-        yaml.write("src", enc(item.name, None))
-        yaml.write("x0", item.x0)
-        yaml.write("x1", item.x1)
-        yaml.write("y0", item.y0)
-        yaml.write("y1", item.y1)
+        yaml.string("type", 'img')
+        yaml.string("src", item.name)
+        yaml.number("x0", item.x0)
+        yaml.number("x1", item.x1)
+        yaml.number("y0", item.y0)
+        yaml.number("y1", item.y1)
     elif isinstance(item, LTTextBlock):
         place_text_block(yaml, item)
 
 def place_text_block(yaml: YAMLMakerObject, text_block: LTTextBlock):
-    yaml.write("type", 'text-block')
-    yaml.write("x0", text_block.x0)
-    yaml.write("x1", text_block.x1)
-    yaml.write("y0", text_block.y0)
-    yaml.write("y1", text_block.y1)
+    yaml.string("type", 'text-block')
+    yaml.number("x0", text_block.x0)
+    yaml.number("x1", text_block.x1)
+    yaml.number("y0", text_block.y0)
+    yaml.number("y1", text_block.y1)
     with yaml.array("char_blocks") as cb_arr:
         for cb in text_block:
             with cb_arr.object() as cb_obj:
                 place_char_block(cb_obj, cb)
 
 def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
-    yaml.write("size", char_block.size)
-    yaml.write("x0", char_block.x0)
-    yaml.write("x1", char_block.x1)
-    yaml.write("y0", char_block.y0)
-    yaml.write("y1", char_block.y1)
+    yaml.number("size", char_block.size)
+    yaml.number("x0", char_block.x0)
+    yaml.number("x1", char_block.x1)
+    yaml.number("y0", char_block.y0)
+    yaml.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
-        yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
-            "value": normalize_color_values(char_block.color.values)
-        })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
-    yaml.write("text", 
+        place_color(yaml, "color", char_block.color)
+    yaml.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        if key != "Type" and "FontFile" not in str(key):
+            if isinstance(value, (int, float)) and not isinstance(value, bool):
+                yaml.number(key, value)
+            else:
+                yaml.string(key, value)
+
+def place_color(yaml: YAMLMakerObject, key: str, color: PDFColor):
+    with yaml.object(key) as col_obj:
+        col_obj.string("type", color.color_space.name)
+        col_obj.strings("value", normalize_color_values(color.values))
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
-        yaml.write("type", 'rect')
+        yaml.string("type", 'rect')
     elif isinstance(item, LTLine):
-        yaml.write("type", 'line')
+        yaml.string("type", 'line')
     else:
-        yaml.write("type", 'curve')
+        yaml.string("type", 'curve')
         with yaml.array('paths') as paths_arr:
             for path in item.paths:
                 paths_arr.place_object({
                     "type": path.method.name,
-                    "points": [
-                        {"x": point.x, "y": point.y}
+                    "points": '[' + ', '.join([
+                        '{"x": %s, "y": %s}' % (yaml_number(point.x), yaml_number(point.y))
                         for point in path.points
-                    ]
+                    ]) + ']'
                 })
 
-    yaml.write("x0", item.x0)
-    yaml.write("x1", item.x1)
-    yaml.write("y0", item.y0)
-    yaml.write("y1", item.y1)
+    yaml.number("x0", item.x0)
+    yaml.number("x1", item.x1)
+    yaml.number("y0", item.y0)
+    yaml.number("y1", item.y1)
     if item.fill.color_space is not None:
-        yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
-            "value": normalize_color_values(item.fill.values)
-        })
+        place_color(yaml, "fill", item.fill)
     if item.stroke.color_space is not None:
-        yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
-            "value": normalize_color_values(item.stroke.values)
-        })
\ No newline at end of file
+        place_color(yaml, "stroke", item.stroke)
\ No newline at end of file
-- 
2.43.0


From a00056517ae9c123d8d3db5a9912422a96b4ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 077/117] fix: a conversion never overwrites its input

---
 pdfmajor/converters/__init__.py | 11 +++++------
 pdfmajor/converters/text.py     |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index f5ac0ef..680feca 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -27,15 +27,14 @@ def convert_file(
         debug_level: int = logging.WARNING,
         out_type: str = 'html',
     ):
+    input_file = os.fspath(input_file)
     if output_file is None:
-        output_file = os.path.join(
-            os.path.dirname(input_file),
-            os.path.basename(
-                re.sub(r"\.\w+$", "."+out_type, input_file)
-            )
-        )
+        output_file = os.path.splitext(input_file)[0] + "." + out_type
+    output_file = os.fspath(output_file)
     if re.search(re.escape(out_type) + r'$', output_file ) is None:
         raise ConverterException("Please make sure that the file name and output type match!")
+    if os.path.exists(output_file) and os.path.exists(input_file) and os.path.samefile(input_file, output_file):
+        raise ConverterException("The output would overwrite the input!")
     if out_type == 'html':
         return convert_to_html(
             input_file_path=input_file, 
diff --git a/pdfmajor/converters/text.py b/pdfmajor/converters/text.py
index 0da8a3c..8f5bfbc 100644
--- a/pdfmajor/converters/text.py
+++ b/pdfmajor/converters/text.py
@@ -27,16 +27,16 @@ def convert_to_text(
         pagenos=pagenos,
         debug_level=debug_level
     )
-    with open(output_file_path, 'wb') as outfp:
+    with open(output_file_path, 'w', encoding=codec, newline='') as outfp:
         def process_container(container: LTXObject):
             for item in container:
                 if isinstance(item, LTTextBlock):
                     for text in item:
                         for char in text:
-                            outfp.write(char.get_text().encode(codec))
+                            outfp.write(char.get_text())
                 elif isinstance(item, LTXObject):
                     process_container(item)
         for page in intepreter:
-            outfp.write(f"========== [ page {page.page_num} ] ==========\n".encode(codec))
+            outfp.write(f"========== [ page {page.page_num} ] ==========\n")
             process_container(page)
-            outfp.write('\n'.encode(codec))
+            outfp.write('\n')
-- 
2.43.0


From eb4c7235ca2bc44824ab1ae36414df9760d8200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 078/117] fix: the command line converter

---
 tools/pdfconvert.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/tools/pdfconvert.py b/tools/pdfconvert.py
index bf8706f..87326aa 100755
--- a/tools/pdfconvert.py
+++ b/tools/pdfconvert.py
@@ -1,11 +1,14 @@
 #!/usr/bin/env python
 
 """
-Converts PDF text content (though not images containing text) to plain text, html, xml or "tags".
+Converts PDF text content (though not images containing text) to plain text, html, xml, json or yaml.
 """
 import argparse
 import logging
+import os
+import shutil
 import sys
+import tempfile
 from pdfmajor.converters import convert_file
 
 def make_argparser():
@@ -16,7 +19,7 @@ def make_argparser():
     parser.add_argument("-m", "--maxpages", type=int, default=0, help="Maximum pages to parse")
     parser.add_argument("-P", "--password", type=str, default=None, help="Decryption password for PDF")
     parser.add_argument("-c", "--codec", type=str, default="utf-8", help="Text encoding")
-    parser.add_argument("-t", "--output-type", type=str, default="text", help="Output type: text|html|xml|tag (default is text)")
+    parser.add_argument("-t", "--output-type", type=str, default="text", choices=("text", "html", "xml", "json", "yaml"), help="Output type (default is text)")
     parser.add_argument("-o", "--output-file", type=str, default="-", help="Output file (default \"-\" is stdout)")
     parser.add_argument("-O", "--output-dir", default=None, help="Output directory for images")
     parser.add_argument("-C", "--disable-caching", default=False, action="store_true", help="Disable caching")
@@ -36,8 +39,13 @@ def main(args=None):
         'password': parsed_args.password, 
         'codec': parsed_args.codec, 
         'caching': not parsed_args.disable_caching,
+        'image_folder_path': parsed_args.output_dir,
+        'out_type': parsed_args.output_type,
     }
 
+    if parsed_args.debug:
+        func_args['debug_level'] = logging.DEBUG
+
     if parsed_args.pagenos:
         func_args['pagenos'] = set([int(x)-1 for x in parsed_args.pagenos.split(",")])
 
@@ -45,17 +53,32 @@ def main(args=None):
         for override, alttype in (  (".htm",  "html"),
                                     (".html", "html"),
                                     (".xml",  "xml" ),
-                                    (".tag",  "tag" ) ):
+                                    (".json", "json"),
+                                    (".yml",  "yaml"),
+                                    (".yaml", "yaml") ):
             if parsed_args.output_file.endswith(override):
                 func_args['out_type'] = alttype
 
     if len(parsed_args.files) == 1:
-        if parsed_args.output_file != "-":
-            func_args['output_file'] = open(parsed_args.output_file, "wb")
-        convert_file(
-            parsed_args.files[0],
-            **func_args
-        )
+        input_file = parsed_args.files[0]
+        output_file = parsed_args.output_file
+        if output_file != "-" and os.path.exists(output_file) and os.path.samefile(input_file, output_file):
+            print("The output would overwrite the input.", file=sys.stderr)
+            return 1
+        # the output is there once it is complete, whatever its name
+        with tempfile.TemporaryDirectory() as folder:
+            converted = os.path.join(folder, "output." + func_args['out_type'])
+            convert_file(
+                input_file,
+                output_file=converted,
+                **func_args
+            )
+            with open(converted, "rb") as source:
+                if output_file == "-":
+                    shutil.copyfileobj(source, sys.stdout.buffer)
+                else:
+                    with open(output_file, "wb") as target:
+                        shutil.copyfileobj(source, target)
     else:
         print("Multiple files not supported yet.")
         return 1
-- 
2.43.0


From 0556c34f78c111701dcfafab9bfbe70abe7bf99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 079/117] fix: write integers of any size in JSON and YAML

---
 pdfmajor/converters/json.py         | 2 +-
 pdfmajor/converters/writers/json.py | 2 +-
 pdfmajor/converters/writers/yaml.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 389d5c4..a334529 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -11,7 +11,7 @@ from ..parser.PSStackParser import PSLiteral
 
 def json_float(val: float):
     # there are no infinite numbers in JSON
-    return val if isfinite(val) else None
+    return None if isinstance(val, float) and not isfinite(val) else val
 
 def normalize_color_values(values: list):
     ret = []
diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 8ea4d2b..e00ea20 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -6,7 +6,7 @@ from contextlib import contextmanager
 from pdfmajor.execptions import FileAccessException
 
 def json_number(val):
-    if val is None or not isfinite(val):
+    if val is None or (isinstance(val, float) and not isfinite(val)):
         return 'null'
     return val
 
diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 0c05a0a..9fe4aa3 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -26,7 +26,7 @@ def yaml_string(val) -> str:
 def yaml_number(val) -> str:
     if val is None:
         return 'null'
-    elif not isfinite(val):
+    elif isinstance(val, float) and not isfinite(val):
         return '.nan' if isnan(val) else '.inf' if val > 0 else '-.inf'
     text = str(val)
     if 'e' in text and '.' not in text:
-- 
2.43.0


From feec1f67d6c55a61ed014e0da4a4861bfa5eb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 080/117] fix: font descriptor entries never become XML
 namespaces

---
 pdfmajor/converters/writers/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 04a201d..5e24709 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -54,7 +54,7 @@ class XMLMaker:
         attrs = " ".join([
             f'{name}="{escape(value, quotes=True)}"'
             for name, value in attrs.items()
-            if ATTR_NAME.fullmatch(name)
+            if ATTR_NAME.fullmatch(name) and not name.lower().startswith('xml')
         ])
         if not singleton:
             self.write(f"<{tag_name} {attrs}>", lineend=lineend)
-- 
2.43.0


From 83d6ce643ce23b5a8139c7a9bd265464d00fae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 081/117] fix: integers out of range are read as real numbers

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 26466d7..0233daa 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -237,7 +237,11 @@ class PSBaseParser(object):
             self._current_parse_func = self._parse_float
             return j+1
         try:
-            self._add_token(int(self._curtoken))
+            token = float(self._curtoken)
+            # an integer out of range is taken as a real number
+            if abs(token) < 2 ** 63:
+                token = int(self._curtoken)
+            self._add_token(token)
         except ValueError:
             pass
         self._current_parse_func = self._parse_main
-- 
2.43.0


From 68513e8721917e6bd5e754d23f93f7a7a32f619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 082/117] fix: saving a JPEG image reads it as a JPEG only

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index af4a34e..fd766c8 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -67,7 +67,7 @@ class LTImage(LTComponent):
                 raw_data = stream.get_data()
                 if colorspace in LITERALS_CMYK:
                     ifp = BytesIO(raw_data)
-                    i = PIL.Image.open(ifp)
+                    i = PIL.Image.open(ifp, formats=('JPEG',))
                     i = PIL.ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
-- 
2.43.0


From d02758bbd04b81251a8d823e39c6d5868a476cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 083/117] fix: malformed document structure is reported with
 the documented errors

---
 pdfmajor/execptions.py                    | 21 ++++++++++++-
 pdfmajor/parser/PDFContentParser.py       |  7 +++--
 pdfmajor/parser/PDFDocument/PDFXRef.py    | 11 +++++--
 pdfmajor/parser/PDFDocument/__init__.py   | 38 ++++++++++++++---------
 pdfmajor/parser/PSStackParser/__init__.py |  5 ++-
 5 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index 861c9a5..635048c 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -1,3 +1,5 @@
+from contextlib import contextmanager
+from struct import error as StructError
 
 
 class PDFMajorException(Exception):
@@ -111,4 +113,21 @@ class ConverterException(PDFMajorException):
     pass 
 
 class FileAccessException(ConverterException):
-    pass
\ No newline at end of file
+    pass
+
+
+# malformed values
+
+# what python itself raises when a value of the document is not of the expected kind
+MALFORMED_VALUE_ERRORS = (
+    TypeError, ValueError, LookupError, AttributeError, ArithmeticError,
+    AssertionError, RecursionError, StructError,
+)
+
+@contextmanager
+def report_malformed(error, what):
+    """Reports malformed values of the document as one of the errors above."""
+    try:
+        yield
+    except MALFORMED_VALUE_ERRORS as e:
+        raise error('Malformed %s: %r' % (what, e)) from e
diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 19b6135..3d7680e 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -4,7 +4,7 @@ import operator
 from typing import List
 from io import BytesIO
 
-from pdfmajor.execptions import PSEOF, PSTypeError
+from pdfmajor.execptions import PSEOF, PSSyntaxError, PSTypeError
 from ..utils import int2byte, choplist, settings
 
 from .PSStackParser import literal_name
@@ -97,7 +97,10 @@ class PDFContentParser(PSStackParser):
                 (_, objs) = self.end_type('inline')
                 if len(objs) % 2 != 0:
                     raise PSTypeError('Invalid dictionary construct: %r' % objs)
-                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))
+                try:
+                    d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))
+                except TypeError:
+                    raise PSSyntaxError('Invalid dictionary key: %r' % objs)
                 (pos, data) = self.get_inline_data(pos+len(b'ID '))
                 obj = PDFStream(d, data)
                 self.push((pos, obj))
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4cf1d6c..b5f6035 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -162,9 +162,9 @@ class PDFXRefFallback(PDFXRef):
                     if settings.STRICT:
                         raise PDFSyntaxError('N is not defined: %r' % stream)
                     n = 0
-                parser1 = PDFStreamParser(stream.get_data())
                 objs = []
                 try:
+                    parser1 = PDFStreamParser(stream.get_data())
                     while 1:
                         (_, obj) = parser1.nextobject()
                         objs.append(obj)
@@ -200,12 +200,14 @@ class PDFXRefStream(PDFBaseXRef):
             raise PDFNoValidXRef('Invalid PDF stream spec.')
         size = stream['Size']
         index_array = stream.get('Index', (0, size))
-        if len(index_array) % 2 != 0:
+        if len(index_array) % 2 != 0 or not all(isinstance(i, int) for i in index_array):
             raise PDFSyntaxError('Invalid index number')
         self.ranges.extend(choplist(2, index_array))
         (self.fl1, self.fl2, self.fl3) = stream['W']
         self.data = stream.get_data()
         self.entlen = self.fl1+self.fl2+self.fl3
+        if not all(isinstance(w, int) and w >= 0 for w in stream['W']) or not self.entlen:
+            raise PDFSyntaxError('Invalid field widths')
         self.trailer = stream.attrs
         log.info('xref stream: objid=%s, fields=%d,%d,%d',
                  ', '.join(map(repr, self.ranges)),
@@ -222,6 +224,9 @@ class PDFXRefStream(PDFBaseXRef):
                 offset = self.entlen * index
                 index += 1
                 ent = self.data[offset:offset+self.entlen]
+                if len(ent) < self.entlen:
+                    # there are no more entries
+                    return
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
@@ -239,6 +244,8 @@ class PDFXRefStream(PDFBaseXRef):
             raise KeyError(objid)
         offset = self.entlen * index
         ent = self.data[offset:offset+self.entlen]
+        if len(ent) < self.entlen:
+            raise KeyError(objid)
         f1 = nunpack(ent[:self.fl1], 1)
         f2 = nunpack(ent[self.fl1:self.fl1+self.fl2])
         f3 = nunpack(ent[self.fl1+self.fl2:])
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index dabee23..b162b19 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -16,7 +16,8 @@ from pdfmajor.execptions import (
     PDFObjectNotFound, 
     PDFTypeError,
     PDFSyntaxError,
-    PDFEncryptionError
+    PDFEncryptionError,
+    report_malformed
 )
 
 from ...utils import settings, choplist, decode_text
@@ -59,6 +60,7 @@ class PDFDocument(object):
         if SHA256 is not None:
             security_handler_registry[5] = PDFStandardSecurityHandlerV5
 
+    @report_malformed(PDFSyntaxError, 'document')
     def __init__(self, parser, password='', caching=True, fallback=True):
         "Set the document to use a given PDFParser object."
         self.caching = caching
@@ -210,6 +212,21 @@ class PDFDocument(object):
         finally:
             self._in_progress.discard(objid)
 
+    def _read_obj(self, strmid, index, objid, genno):
+        if strmid is not None:
+            stream = PDFStream.validated_stream(self.getobj(strmid))
+            obj = self._getobj_objstm(stream, index, objid)
+        else:
+            obj = self._getobj_parse(index, objid)
+            if self.decipher:
+                if isinstance(obj, PDFStream):
+                    decipher_all(self.decipher, objid, genno, obj.attrs)
+                else:
+                    obj = decipher_all(self.decipher, objid, genno, obj)
+        if isinstance(obj, PDFStream):
+            obj.set_objid(objid, genno)
+        return obj
+
     def _load_obj(self, objid):
         xrefs = list(self.xrefs)
         while xrefs:
@@ -219,19 +236,8 @@ class PDFDocument(object):
             except KeyError:
                 continue
             try:
-                if strmid is not None:
-                    stream = PDFStream.validated_stream(self.getobj(strmid))
-                    obj = self._getobj_objstm(stream, index, objid)
-                else:
-                    obj = self._getobj_parse(index, objid)
-                    if self.decipher:
-                        if isinstance(obj, PDFStream):
-                            decipher_all(self.decipher, objid, genno, obj.attrs)
-                        else:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
-
-                if isinstance(obj, PDFStream):
-                    obj.set_objid(objid, genno)
+                with report_malformed(PDFSyntaxError, 'object %r' % objid):
+                    obj = self._read_obj(strmid, index, objid, genno)
                 break
             except (PSException, PDFException, PDFObjectNotFound):
                 # a damaged entry: trust the objects in the file more
@@ -263,7 +269,8 @@ class PDFDocument(object):
                 entry = dict_value(entry)
                 if 'Title' in entry:
                     if 'A' in entry or 'Dest' in entry:
-                        title = decode_text(str_value(entry['Title']))
+                        # a title that is not a string is empty
+                        title = decode_text(str_value(entry['Title']) or b'')
                         dest = entry.get('Dest')
                         action = entry.get('A')
                         se = entry.get('SE')
@@ -306,6 +313,7 @@ class PDFDocument(object):
                 pending.extend(reversed(list_value(d['Kids'])))
         raise KeyError((cat, key))
 
+    @report_malformed(PDFSyntaxError, 'destinations')
     def get_dest(self, name):
         try:
             # PDF-1.2 or later
diff --git a/pdfmajor/parser/PSStackParser/__init__.py b/pdfmajor/parser/PSStackParser/__init__.py
index 7b790f1..3e056c4 100644
--- a/pdfmajor/parser/PSStackParser/__init__.py
+++ b/pdfmajor/parser/PSStackParser/__init__.py
@@ -135,7 +135,10 @@ class PSStackParser(PSBaseParser):
                     if len(objs) % 2 != 0:
                         raise PSSyntaxError('Invalid dictionary construct: %r' % objs)
                     # construct a Python dictionary.
-                    d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
+                    try:
+                        d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
+                    except TypeError:
+                        raise PSSyntaxError('Invalid dictionary key: %r' % objs)
                     self.push((pos, d))
                 except PSTypeError as e:
                     if settings.STRICT:
-- 
2.43.0


From a790d3245b2b0a4330e4ae39bed5dd218c3c6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 084/117] fix: malformed stream data is reported with the
 documented errors

---
 pdfmajor/parser/PDFStream/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 8aef992..cc33e4a 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,6 +1,6 @@
 import zlib
 
-from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError, report_malformed
 
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
@@ -78,6 +78,7 @@ class PDFStream(PDFObject):
         _params = [dict_value(param) for param in params]
         return list(zip(_filters, _params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
+    @report_malformed(PDFException, 'stream')
     def decode(self):
         assert self.data is None and self.rawdata is not None, str((self.data, self.rawdata))
         data = self.rawdata
-- 
2.43.0


From f796be4bc44af4f8f544e91900973fd990bca2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 085/117] fix: malformed pages are reported with the documented
 errors

---
 pdfmajor/parser/PDFPage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 97f82be..18cb3aa 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -1,7 +1,7 @@
 
 import logging
 
-from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
+from pdfmajor.execptions import PDFSyntaxError, PDFTextExtractionNotAllowed, PDFObjectNotFound, report_malformed
 from ..utils import settings
 from .constants import LIT
 from .PDFStream import resolve1, resolve_all, int_value, list_value, dict_value
@@ -40,6 +40,7 @@ class PDFPage(object):
       beads: a chain that represents natural reading order.
     """
 
+    @report_malformed(PDFSyntaxError, 'page')
     def __init__(self, doc: PDFDocument, pageid, attrs):
         """Initialize a page object.
 
-- 
2.43.0


From a1ba217f2503cbdaddbd58c522157ae143324386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 086/117] fix: malformed resources and instructions are
 reported with the documented errors

---
 pdfmajor/interpreter/PageInterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index bcf7006..5e5a6c8 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -1,3 +1,4 @@
+from pdfmajor.execptions import InterpreterError, InvalidOperation, report_malformed
 from pdfmajor.parser.PDFPage import PDFPage
 from pdfmajor.parser.PDFStream import list_value
 
@@ -6,6 +7,7 @@ from .commands import process_command_stream, prep_state
 
 class PageInterpreter:
 
+    @report_malformed(InterpreterError, 'page')
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
         (x0, y0, x1, y1) = page.mediabox
         if page.rotate == 90:
@@ -30,6 +32,10 @@ class PageInterpreter:
         self.ignore_bad_chars = ignore_bad_chars
     
     def __iter__(self):
+        with report_malformed(InvalidOperation, 'content'):
+            yield from self.__read_items()
+
+    def __read_items(self):
         # every pass over the page starts from the initial state
         state: PDFStateStack = prep_state(
             PDFStateStack(), 
-- 
2.43.0


From c115065eea961eb481efb19536ca74d2e89daa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 087/117] fix: ending no text object delivers no item

---
 pdfmajor/interpreter/commands/commands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index c2acab2..3013152 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -341,6 +341,9 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
+    if stack.current_textblock is None:
+        # nothing to end
+        return stack
     stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
-- 
2.43.0


From 4bd24f8755a0676246a914da6e420d5abb4346c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 088/117] fix: operands of paths have to be numbers

---
 pdfmajor/interpreter/commands/commands.py     | 4 +++-
 pdfmajor/interpreter/commands/state/Curves.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 3013152..134f539 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,5 +1,5 @@
 from pdfmajor.execptions import InvalidOperation
-from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
+from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger, isnumber
 from pdfmajor.parser.PSStackParser import literal_name
 from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value, num_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
@@ -73,6 +73,8 @@ def concat_transition_matrix(stack: PDFStateStack, a1, b1, c1, d1, e1, f1) -> PD
 # setlinewidth
 @PDFCommands.add('w')
 def set_line_width(stack: PDFStateStack, linewidth) -> PDFStateStack:
+    if not isnumber(linewidth):
+        raise InvalidOperation('Invalid line width: %r' % linewidth)
     stack.graphics.linewidth = linewidth
     return stack
 
diff --git a/pdfmajor/interpreter/commands/state/Curves.py b/pdfmajor/interpreter/commands/state/Curves.py
index 0ad4cd7..4be7ffd 100644
--- a/pdfmajor/interpreter/commands/state/Curves.py
+++ b/pdfmajor/interpreter/commands/state/Curves.py
@@ -1,6 +1,7 @@
 from enum import Enum
 from typing import List
-from pdfmajor.utils import apply_matrix_pt
+from pdfmajor.execptions import InvalidOperation
+from pdfmajor.utils import apply_matrix_pt, isnumber
 
 class CurvePoint:
     def __init__(self, ctm: tuple, x: float, y: float):
@@ -9,6 +10,8 @@ class CurvePoint:
         # if old != (x,y):
         # print("CurvePoint", ctm, old)
         # print(" >", x, y)
+        if not (isnumber(x) and isnumber(y)):
+            raise InvalidOperation('Invalid point: %r' % ((x, y),))
         self.x = x
         self.y = y
     
-- 
2.43.0


From bdc0326c5148bd0394d5164cc5b74cc0f76ed6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 089/117] fix: the scan of a damaged file continues behind what
 it has read

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index b5f6035..d7ad4e9 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -136,8 +136,11 @@ class PDFXRefFallback(PDFXRef):
                 try:
                     self.load_trailer(parser)
                     log.info('trailer: %r', self.trailer)
+                    end = parser.tell()
                 except ParserError:
-                    parser.seek(pos+len(line))
+                    end = pos+len(line)
+                # what the trailer needs may have been read from anywhere in the file
+                parser.seek(end if pos < end else pos+len(line))
                 continue
             line=line.decode('latin-1') #default pdf encoding
             m = self.PDFOBJ_CUE.match(line)
@@ -154,6 +157,7 @@ class PDFXRefFallback(PDFXRef):
             except ParserError:
                 parser.seek(pos+len(line))
                 continue
+            end = parser.tell()
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
@@ -175,6 +179,8 @@ class PDFXRefFallback(PDFXRef):
                     objid1 = objs[index*2]
                     if isinstance(objid1, int):
                         self.offsets[objid1] = (objid, index, 0)
+            # what the stream needs may have been read from anywhere in the file
+            parser.seek(end)
         return
 
 ##  PDFXRefStream
-- 
2.43.0


From 31518acac3c42460447fb346fd40aace26dd878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 090/117] fix: PNG prediction needs no more memory than the
 data

---
 pdfmajor/utils/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 642e5e6..cfb9f79 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -35,7 +35,8 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
     # distance to the corresponding byte of the pixel to the left
     bpp = (colors * bitspercomponent + 7) // 8
     buf = bytearray()
-    line0 = bytes(nbytes)
+    # no line is longer than the data
+    line0 = bytes(min(nbytes, len(data)))
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         line = bytearray(data[i+1:i+1+nbytes])
-- 
2.43.0


From 43898faf7fa183f0124d50709d3da4eefed55d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 091/117] fix: the LZW table stays within the reach of its
 codes

---
 pdfmajor/utils/lzw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 6f376e3..799106e 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -61,7 +61,9 @@ class LZWDecoder(object):
         else:
             if code < len(self.table):
                 x = self.table[code]
-                self.table.append(self.prevbuf+x[:1])
+                if len(self.table) < 4096:
+                    # no code reaches further
+                    self.table.append(self.prevbuf+x[:1])
             elif code == len(self.table):
                 self.table.append(self.prevbuf+self.prevbuf[:1])
                 x = self.table[code]
-- 
2.43.0


From 934e10d00e45eaa125502dbb018415ab841eb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 092/117] fix: fax images of impossible width are refused

---
 pdfmajor/parser/PDFStream/ccitt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 6c74388..aaf0b60 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -547,12 +547,15 @@ class CCITTFaxDecoder(CCITTG4Parser):
         return
 
 
+# a line is kept in memory whole, far beyond what images have
+MAX_COLUMNS = 1 << 20
+
 def ccittfaxdecode(data, params):
     K = int_value(params.get('K', 0))
     cols = int_value(params.get('Columns', 1728))
     bytealign = resolve1(params.get('EncodedByteAlign'))
     reversed = resolve1(params.get('BlackIs1'))
-    if K < 0 < cols:
+    if K < 0 < cols <= MAX_COLUMNS:
         parser = CCITTFaxDecoder(cols, bytealign=bytealign, reversed=reversed)
     else:
         raise PDFNotImplementedError('Unsupported fax parameters: K=%r, Columns=%r' % (K, cols))
-- 
2.43.0


From 150fc0627a03e16d6cc8e7520def9ca3946082db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 093/117] fix: objects that share parts are resolved once

---
 pdfmajor/parser/PDFStream/util.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 1536ff5..730f4d2 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -29,13 +29,21 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    x = resolve1(x, default=default)
-    if isinstance(x, list):
-        x = [resolve_all(v, default=default) for v in x]
-    elif isinstance(x, dict):
-        for (k, v) in x.items():
-            x[k] = resolve_all(v, default=default)
-    return x
+    # each object is resolved once, and is the default inside itself
+    done = {}
+
+    def resolve(x):
+        if isinstance(x, PDFObjRef):
+            if x.objid not in done:
+                done[x.objid] = default
+                done[x.objid] = resolve(resolve1(x, default=default))
+            return done[x.objid]
+        if isinstance(x, list):
+            return [resolve(v) for v in x]
+        if isinstance(x, dict):
+            return {k: resolve(v) for (k, v) in x.items()}
+        return x
+    return resolve(x)
 
 
 def decipher_all(decipher, objid, genno, x):
-- 
2.43.0


From 16b2d1bf25c1031e590fad008ff029e577f932bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 094/117] fix: character tables of fonts are read once

---
 .../commands/state/PDFTextState/PDFFont/TrueTypeFont.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index d8f7495..39f7a30 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -44,7 +44,9 @@ class TrueTypeFont(object):
                      if p == 0 or (p, e) in ((3, 1), (3, 10))] or subtables
         char2gid = {}
         # Only supports subtable type 0, 2 and 4.
-        for (_1, _2, st_offset) in subtables:
+        # Subtables may be shared: the last place of each is the one that counts.
+        offsets = dict.fromkeys(o for (_1, _2, o) in reversed(subtables))
+        for st_offset in reversed(list(offsets)):
             fp.seek(base_offset+st_offset)
             (fmttype, _, _) = struct.unpack('>HHH', fp.read(6))
             if fmttype == 0:
@@ -64,7 +66,8 @@ class TrueTypeFont(object):
                         continue
                     first = firstcode + (firstbytes[i] << 8)
                     fp.seek(pos)
-                    for c in range(entcount):
+                    # the second byte of a code
+                    for c in range(min(entcount, 256-firstcode)):
                         (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
                             gid = (gid + delta) & 0xffff
@@ -83,7 +86,7 @@ class TrueTypeFont(object):
                     if sc == 0xffff or sc <= last:
                         # the segment that ends the list, or one out of order
                         continue
-                    last = ec
+                    last = max(last, ec)
                     if idr:
                         # offsets count from the place they are stored at
                         fp.seek(pos+2*i+idr)
-- 
2.43.0


From 7ff75925b131c302af02afe1ce54c3fd864ef9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 095/117] fix: ranges of codes do not multiply long strings

---
 pdfmajor/parser/cmapdb/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 3375028..5fe28d9 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -34,6 +34,9 @@ log = logging.getLogger(__name__)
 
 # codes have two bytes in practice: no range holds more of them
 MAX_RANGE = 0x10000
+MAX_CODE = 4
+# bytes of text a code can stand for
+MAX_TEXT = 512
 
 
 
@@ -362,7 +365,8 @@ class CMapParser(PSStackParser):
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
                 if (not isinstance(s, bytes) or not isinstance(e, bytes) or
-                   not isinstance(cid, int) or len(s) != len(e) or not s):
+                   not isinstance(cid, int) or len(s) != len(e) or
+                   not 0 < len(s) <= MAX_CODE):
                     continue
                 sprefix = s[:-4]
                 eprefix = e[:-4]
@@ -385,7 +389,7 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
             for (code, cid) in choplist(2, objs):
-                if isinstance(code, bytes) and isinstance(cid, int) and code:
+                if isinstance(code, bytes) and isinstance(cid, int) and 0 < len(code) <= MAX_CODE:
                     self.cmap.add_code2cid(code, cid)
             return
 
@@ -405,7 +409,7 @@ class CMapParser(PSStackParser):
                     for (i, c) in enumerate(code[:max(0, e1-s1+1)]):
                         if isinstance(c, (bytes, PSLiteral)):
                             self.cmap.add_cid2unichr(s1+i, c)
-                elif isinstance(code, bytes):
+                elif isinstance(code, bytes) and len(code) <= MAX_TEXT:
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
-- 
2.43.0


From 4878acca2ee7f83181e3c9a04fa96cbf90d420dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 096/117] fix: a stream section may name another one

---
 pdfmajor/parser/PDFDocument/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index b162b19..7240620 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -366,7 +366,9 @@ class PDFDocument(object):
                     # find previous xref
                     pending.append((int_value(trailer['Prev']), None))
                 if 'XRefStm' in trailer:
-                    pending.append((int_value(trailer['XRefStm']), xref))
+                    # only tables have objects they cannot list
+                    hidden = xref if isinstance(xref, PDFXRef) else None
+                    pending.append((int_value(trailer['XRefStm']), hidden))
                 if table is not None:
                     # objects hidden in this stream are marked free in its table
                     table.unfree(xref.get_objids())
-- 
2.43.0


From f634f2a508a7f92e5c0f85a79d4769aea0e7368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 097/117] fix: one malformed object does not take its object
 stream with it

---
 pdfmajor/parser/PDFDocument/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 7240620..609f1a9 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -177,6 +177,9 @@ class PDFDocument(object):
                 objs.append(obj)
         except PSEOF:
             pass
+        except (PSException, PDFException) as e:
+            # the objects before a malformed one are still there
+            log.warning('malformed object in %r: %r', stream, e)
         return (objs, n)
 
     def _getobj_parse(self, pos, objid):
-- 
2.43.0


From 0062ac378a1464a93b5025255190f023b167506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 098/117] fix: what an object needs is read once

---
 pdfmajor/parser/PDFDocument/__init__.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 609f1a9..4aa453f 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -75,6 +75,9 @@ class PDFDocument(object):
         self._fallback = fallback
         self._scanned = None
         self._in_progress = set()
+        # what has been read, or not found, on behalf of the object in progress
+        self._needed = {}
+        self._not_found = set()
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -122,6 +125,8 @@ class PDFDocument(object):
             # these may come from positions that are superseded now
             self._cached_objs.clear()
             self._parsed_objs.clear()
+            self._needed.clear()
+            self._not_found.clear()
         return self._scanned
 
     # _initialize_password(password=b'')
@@ -149,8 +154,7 @@ class PDFDocument(object):
             (objs, n) = self._parsed_objs[stream.objid]
         else:
             (objs, n) = self._get_objects(stream)
-            if self.caching:
-                self._parsed_objs[stream.objid] = (objs, n)
+            self._parsed_objs[stream.objid] = (objs, n)
         i = n*2+index
         try:
             obj = objs[i]
@@ -163,7 +167,7 @@ class PDFDocument(object):
             if settings.STRICT:
                 raise PDFSyntaxError('Not a stream object: %r' % stream)
         try:
-            n = stream['N']
+            n = int_value(stream['N'])
         except KeyError:
             if settings.STRICT:
                 raise PDFSyntaxError('N is not defined: %r' % stream)
@@ -209,11 +213,24 @@ class PDFDocument(object):
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
             return obj
+        if objid in self._needed:
+            return self._needed[objid]
+        if objid in self._not_found:
+            raise PDFObjectNotFound(objid)
         self._in_progress.add(objid)
         try:
-            return self._load_obj(objid)
+            obj = self._needed[objid] = self._load_obj(objid)
+            return obj
+        except PDFObjectNotFound:
+            self._not_found.add(objid)
+            raise
         finally:
             self._in_progress.discard(objid)
+            if not self._in_progress:
+                self._needed.clear()
+                self._not_found.clear()
+                if not self.caching:
+                    self._parsed_objs.clear()
 
     def _read_obj(self, strmid, index, objid, genno):
         if strmid is not None:
-- 
2.43.0


From 9b2df2ff20d6fd394219129a22e92554f06011ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 099/117] fix: the kind of a page or XObject may be given by
 reference

---
 pdfmajor/interpreter/commands/commands.py | 4 ++--
 pdfmajor/parser/PDFPage.py                | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 134f539..d1f949e 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger, isnumber
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value, num_value
+from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value, num_value, resolve1
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -477,7 +477,7 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     except KeyError:
         raise InvalidOperation('Undefined xobject id: %r' % xobjid)
     # log.info('Processing xobj: %r', xobj)
-    subtype = xobj.get('Subtype')
+    subtype = resolve1(xobj.get('Subtype'))
     if subtype is LITERAL_FORM and 'BBox' in xobj:
         bbox = [num_value(x) for x in list_value(xobj['BBox'])]
         matrix = [num_value(x) for x in list_value(xobj.get('Matrix', MATRIX_IDENTITY))]
diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 18cb3aa..4040cac 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -92,9 +92,9 @@ class PDFPage(object):
                     if k in cls.INHERITABLE_ATTRS and k not in tree:
                         tree[k] = v
 
-                tree_type = tree.get('Type')
+                tree_type = resolve1(tree.get('Type'))
                 if tree_type is None and not settings.STRICT:  # See #64
-                    tree_type = tree.get('type')
+                    tree_type = resolve1(tree.get('type'))
 
                 if tree_type is LITERAL_PAGES and 'Kids' in tree:
                     log.debug('Pages: Kids=%r', tree['Kids'])
@@ -120,7 +120,7 @@ class PDFPage(object):
                 for objid in xref.get_objids():
                     try:
                         obj = document.getobj(objid)
-                        if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
+                        if isinstance(obj, dict) and resolve1(obj.get('Type')) is LITERAL_PAGE:
                             yield cls(document, objid, obj)
                     except PDFObjectNotFound:
                         pass
-- 
2.43.0


From ac7983de4c50affbc35f8dbf556aa535c5fa0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 100/117] fix: entries of font descriptors may be given by
 reference

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index d327812..47c29aa 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -25,7 +25,8 @@ LITERAL_TYPE1C = LIT('Type1C')
 class PDFFont(object):
 
     def __init__(self, descriptor, widths, default_width=None):
-        self.descriptor = descriptor
+        values = ((k, self._in_place(v)) for (k, v) in descriptor.items())
+        self.descriptor = {k: v for (k, v) in values if v is not None}
         self.widths = widths
         self.fontname = resolve1(descriptor.get('FontName', 'unknown'))
         if isinstance(self.fontname, PSLiteral):
@@ -43,6 +44,17 @@ class PDFFont(object):
     def __repr__(self):
         return '<PDFFont>'
 
+    @staticmethod
+    def _in_place(x):
+        # a value given by reference, but streams are left where they are
+        v = resolve1(x)
+        if isinstance(v, PDFStream):
+            return x
+        if isinstance(v, list):
+            parts = [resolve1(e) for e in v]
+            return [e if isinstance(p, (PDFStream, list, dict)) else p for (e, p) in zip(v, parts)]
+        return v
+
     def is_vertical(self):
         return False
 
-- 
2.43.0


From 8fe5c01ef2766ca4b17bcd3ed0e53fba62eaf28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 101/117] fix: HTML shows the curves that share a control point

---
 pdfmajor/converters/html.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 50d2390..083722d 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -203,6 +203,7 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    start = current = None
     for p in item.paths:
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
@@ -212,6 +213,20 @@ def create_svg_path(item: LTCurve):
             path += 'Z'
         elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
             path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        elif p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            # the first control point is the current point
+            points = (current or p.points[0], *p.points)
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            # the second control point is the end point
+            points = (*p.points, p.points[-1])
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
+        if p.points:
+            current = p.points[-1]
+        elif p.method == CurvePath.METHOD.CLOSE_PATH:
+            current = start
+        if p.method == CurvePath.METHOD.MOVE_TO:
+            start = current
     
     return path, svg_attr
 
-- 
2.43.0


From 5189b4b61c93a33d0a24b63ce27f77a92614ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 102/117] fix: differences without a base encoding are from the
 encoding of the font file

---
 .../commands/state/PDFTextState/PDFFont/fonts.py         | 9 +++++++--
 pdfmajor/parser/EncodingDB.py                            | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 9850874..d97d142 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -1,6 +1,7 @@
 from io import BytesIO
 
 from pdfmajor.execptions import FontError, UnicodeNotDefined, CMapNotFound
+from pdfmajor.parser.EncodingDB import EncodingDB
 from pdfmajor.parser.PSStackParser import literal_name
 from pdfmajor.parser.PDFStream import int_value
 from pdfmajor.parser.PDFStream import num_value
@@ -36,7 +37,8 @@ class PDFType1Font(PDFSimpleFont):
             widths = list_value(spec.get('Widths', [0]*256))
             widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        if 'Encoding' not in spec and 'FontFile' in descriptor:
+        encoding = resolve1(spec.get('Encoding', {}))
+        if isinstance(encoding, dict) and 'BaseEncoding' not in encoding and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
             self.fontfile = PDFStream.validated_stream(descriptor.get('FontFile'))
             length1 = int_value(self.fontfile.get('Length1', 0))
@@ -45,7 +47,10 @@ class PDFType1Font(PDFSimpleFont):
                 data = data[:length1]
             parser = Type1FontHeaderParser(BytesIO(data))
             # a font without an array of its own has the standard encoding
-            self.cid2unicode = parser.get_encoding() or self.cid2unicode
+            builtin = parser.get_encoding()
+            if builtin:
+                diff = [resolve1(x) for x in list_value(encoding.get('Differences', []))]
+                self.cid2unicode = EncodingDB.get_encoding(None, diff, base=builtin)
         return
 
     def __repr__(self):
diff --git a/pdfmajor/parser/EncodingDB.py b/pdfmajor/parser/EncodingDB.py
index db42f9d..346c136 100644
--- a/pdfmajor/parser/EncodingDB.py
+++ b/pdfmajor/parser/EncodingDB.py
@@ -26,8 +26,8 @@ class EncodingDB(object):
     }
 
     @classmethod
-    def get_encoding(klass, name, diff=None):
-        cid2unicode = klass.encodings.get(name, klass.std2unicode)
+    def get_encoding(klass, name, diff=None, base=None):
+        cid2unicode = klass.encodings.get(name, klass.std2unicode) if base is None else base
         if diff:
             cid2unicode = cid2unicode.copy()
             cid = 0
-- 
2.43.0


From 7fbfad8e96906e39812e5c6361e763c995b66949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 103/117] fix: cross-reference streams and the encryption
 dictionary are not deciphered

---
 pdfmajor/parser/PDFDocument/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 4aa453f..879cc49 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -31,7 +31,7 @@ from .PDFSecurityHandler import PDFStandardSecurityHandlerV4
 from .PDFSecurityHandler import PDFStandardSecurityHandlerV5
 from .PDFXRef import PDFXRefFallback, PDFXRef, PDFXRefStream
 
-from .constants import LITERAL_CATALOG, LITERAL_OBJSTM
+from .constants import LITERAL_CATALOG, LITERAL_OBJSTM, LITERAL_XREF
 
 log = getLogger(__name__)
 
@@ -75,6 +75,7 @@ class PDFDocument(object):
         self._fallback = fallback
         self._scanned = None
         self._in_progress = set()
+        self._encrypt_objid = None
         # what has been read, or not found, on behalf of the object in progress
         self._needed = {}
         self._not_found = set()
@@ -97,6 +98,7 @@ class PDFDocument(object):
             # If there's an encryption info, remember it.
             if 'Encrypt' in trailer:
                 #assert not self.encryption, str(self.encryption)
+                self._encrypt_objid = getattr(trailer['Encrypt'], 'objid', None)
                 self.encryption = (list_value(trailer.get('ID')) or [b'', b''],
                                    dict_value(trailer['Encrypt']))
                 self._initialize_password(password)
@@ -238,8 +240,11 @@ class PDFDocument(object):
             obj = self._getobj_objstm(stream, index, objid)
         else:
             obj = self._getobj_parse(index, objid)
-            if self.decipher:
-                if isinstance(obj, PDFStream):
+            if self.decipher and objid != self._encrypt_objid:
+                if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
+                    # never encrypted
+                    obj.decipher = None
+                elif isinstance(obj, PDFStream):
                     decipher_all(self.decipher, objid, genno, obj.attrs)
                 else:
                     obj = decipher_all(self.decipher, objid, genno, obj)
-- 
2.43.0


From 562741cc03c044b400bbad5b51fd3bd5163dffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 104/117] fix: character maps that are read strictly may hold
 anything

---
 pdfmajor/parser/cmapdb/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 5fe28d9..3433277 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -23,6 +23,7 @@ from pdfmajor.execptions import (
     CMapNotFound, 
     PSEOF, 
     PSSyntaxError,
+    PSTypeError,
 )
 from ...utils import choplist, nunpack, name2unicode
 from ..PSStackParser import PSStackParser
@@ -337,7 +338,7 @@ class CMapParser(PSStackParser):
             try:
                 ((_, k), (_, v)) = self.pop(2)
                 self.cmap.set_attr(literal_name(k), v)
-            except (PSSyntaxError, ValueError):
+            except (PSSyntaxError, PSTypeError, ValueError):
                 pass
             return
 
@@ -345,7 +346,7 @@ class CMapParser(PSStackParser):
             try:
                 ((_, cmapname),) = self.pop(1)
                 self.cmap.use_cmap(CMapDB.get_cmap(literal_name(cmapname)))
-            except (PSSyntaxError, ValueError):
+            except (PSSyntaxError, PSTypeError, ValueError):
                 pass
             except CMapNotFound:
                 pass
-- 
2.43.0


From 8ad1c18935671ea0b16e7d453948f58630704847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 105/117] fix: text blocks without characters can be printed
 and measured

---
 pdfmajor/utils/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/types.py b/pdfmajor/utils/types.py
index f649e53..9d6c21f 100644
--- a/pdfmajor/utils/types.py
+++ b/pdfmajor/utils/types.py
@@ -22,14 +22,19 @@ class Bbox:
     
     @property
     def height(self) -> float:
+        if None in (self.y0, self.y1):
+            return 0
         return self.y1 - self.y0
     
     @property
     def width(self) -> float:
+        if None in (self.x0, self.x1):
+            return 0
         return self.x1 - self.x0
 
     def __str__(self):
-        return '%.3f,%.3f,%.3f,%.3f' % (self.x0, self.y0, self.x1, self.y1)
+        # a box of nothing has no position
+        return ','.join('None' if v is None else '%.3f' % v for v in (self.x0, self.y0, self.x1, self.y1))
     
     def __repr__(self):
         return f"<Bbox {str(self)}/>"
-- 
2.43.0


From b9dbd7beab26733234c384f90cd38e7f4fde9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 106/117] fix: is_bold of a font without a weight

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 47c29aa..0eab9f4 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 from io import BytesIO
 
 from pdfmajor.execptions import UnicodeNotDefined
+from pdfmajor.utils import isnumber
 from pdfmajor.parser.EncodingDB import EncodingDB
 from pdfmajor.parser.PSStackParser import LIT
 from pdfmajor.parser.PSStackParser import PSLiteral
@@ -112,7 +113,8 @@ class PDFFont(object):
     
     @property
     def is_bold(self):
-        return self.font_weight == 'bold' or self.font_weight > 549
+        weight = self.font_weight
+        return weight == 'bold' or (isnumber(weight) and weight > 549)
 
 # PDFSimpleFont
 class PDFSimpleFont(PDFFont):
-- 
2.43.0


From f63acd1fa7f1434a70ce164796dfe606cde33601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 107/117] fix: is_upright of a text state

---
 pdfmajor/interpreter/commands/state/PDFTextState/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
index bdc3811..821af1e 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/__init__.py
@@ -60,4 +60,5 @@ class PDFTextState(object):
 
     @property
     def is_upright(self):
-        return (0 < self.matrix[:,0].prod()*self.scaling and self.matrix[0,1:].prod() <= 0)
\ No newline at end of file
+        (a, b, c, d, _, _) = self.matrix
+        return (0 < a*d*self.scaling and b*c <= 0)
\ No newline at end of file
-- 
2.43.0


From 81d5594343f00d82318829282a5c2a0d4f116388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 108/117] fix: the standard bold fonts are bold

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 0eab9f4..7226419 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -114,7 +114,10 @@ class PDFFont(object):
     @property
     def is_bold(self):
         weight = self.font_weight
-        return weight == 'bold' or (isnumber(weight) and weight > 549)
+        if isnumber(weight):
+            return weight > 549
+        # the metrics of the standard fonts have names
+        return str(weight).lower() == 'bold'
 
 # PDFSimpleFont
 class PDFSimpleFont(PDFFont):
-- 
2.43.0


From 359f16a2b8b64b9e46143a0197472041b8ea1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 109/117] fix: boxes of points beyond 2**31

---
 pdfmajor/utils/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/types.py b/pdfmajor/utils/types.py
index 9d6c21f..dbecead 100644
--- a/pdfmajor/utils/types.py
+++ b/pdfmajor/utils/types.py
@@ -42,7 +42,8 @@ class Bbox:
     @classmethod
     def from_points(cls, pts: List[Point]):
         """Converts a list of points to a Boundary box."""
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+        inf = float('inf')
+        (x0, y0, x1, y1) = (inf, inf, -inf, -inf)
         for (x, y) in pts:
             x0 = min(x0, x)
             y0 = min(y0, y)
-- 
2.43.0


From 81bc2b754901aa7f2cca38f26930e847c3e7ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 110/117] fix: end of inline image data after a byte of the
 same kind

---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 3d7680e..10bb002 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -66,7 +66,8 @@ class PDFContentParser(PSStackParser):
                 elif i < len(target) and c == (int2byte(target[i])):
                     i += 1
                 else:
-                    i = 0
+                    # the mismatch may be the start of the target itself
+                    i = int(c == int2byte(target[0]))
             else:
                 try:
                     j = self.buf.index(target[0], self.charpos)
-- 
2.43.0


From 11ec6020687affcaf3468d020d5844d139d0d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 111/117] fix: empty resources of a form given by reference

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index d1f949e..d9f4dd8 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -484,7 +484,7 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
-        xobjres = xobj.get('Resources')
+        xobjres = resolve1(xobj.get('Resources'))
         resources = dict_value(xobjres) if xobjres else stack.resources.copy()
         stack.complete_layout_items.append(make_xobject(
             obj=xobj, 
-- 
2.43.0


From eaeded6b213fe73c0e92f8a7892bd2a2871769ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 112/117] fix: a font's own metrics come before the standard
 ones

---
 .../commands/state/PDFTextState/PDFFont/fonts.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index d97d142..52db826 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -31,7 +31,11 @@ class PDFType1Font(PDFSimpleFont):
         try:
             (descriptor, widths) = FontMetricsDB.get_metrics(self.basefont)
         except KeyError:
-            descriptor = dict_value(spec.get('FontDescriptor', {}))
+            (descriptor, widths) = ({}, None)
+        # what the font says about itself comes before the standard metrics
+        if 'FontDescriptor' in spec:
+            descriptor = dict_value(spec['FontDescriptor'])
+        if 'Widths' in spec or widths is None:
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', [0]*256))
-- 
2.43.0


From 90c0fd29d958f9d86e4be42eb1a5120e944088bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:09 +0000
Subject: [PATCH 113/117] fix: trailer of a damaged file with cross-reference
 streams only

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index d7ad4e9..228df74 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -158,6 +158,9 @@ class PDFXRefFallback(PDFXRef):
                 parser.seek(pos+len(line))
                 continue
             end = parser.tell()
+            if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
+                # its dictionary is the trailer of that part of the file
+                self.trailer.update(obj.attrs)
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
-- 
2.43.0


From 35ba68d42d952552ef729247cfc2eddfbba3dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 114/117] fix: startxref that points at numbers before a
 cross-reference stream

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 228df74..8c99dc1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -204,6 +204,8 @@ class PDFXRefStream(PDFBaseXRef):
         (_, objid) = parser.nexttoken()  # ignored
         (_, genno) = parser.nexttoken()  # ignored
         (_, kwd) = parser.nexttoken()
+        if kwd is not KWD(b'obj'):
+            raise PDFNoValidXRef('Invalid PDF stream spec.')
         (_, stream) = parser.nextobject()
         if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
-- 
2.43.0


From 81476d4cda8e392525df6df00d1aab7ae4932381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 115/117] fix: media box given by other corners

---
 pdfmajor/interpreter/PageInterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 5e5a6c8..17882e5 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -10,6 +10,9 @@ class PageInterpreter:
     @report_malformed(InterpreterError, 'page')
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
         (x0, y0, x1, y1) = page.mediabox
+        # any two opposite corners may be given
+        (x0, x1) = (min(x0, x1), max(x0, x1))
+        (y0, y1) = (min(y0, y1), max(y0, y1))
         if page.rotate == 90:
             ctm = [0, -1, 1, 0, -y0, x1]
         elif page.rotate == 180:
-- 
2.43.0


From b1343594bfef487efecf0aaa7c7fbc06f159e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:56 +0000
Subject: [PATCH 116/117] fix: strict reading of a filter chain with null
 parameters

---
 pdfmajor/parser/PDFStream/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index cc33e4a..07dcf9b 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -75,7 +75,9 @@ class PDFStream(PDFObject):
             raise PDFException("Parameters len filter mismatch")
         # resolve filter if possible
         _filters = [resolve1(fltr) for fltr in filters]
-        _params = [dict_value(param) for param in params]
+        # no parameters are the same as empty ones
+        _params = [resolve1(param) for param in params]
+        _params = [{} if param is None else dict_value(param) for param in _params]
         return list(zip(_filters, _params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     @report_malformed(PDFException, 'stream')
-- 
2.43.0


From 1e3da34065ac36fb9b7da5aaaa214d1ddde03805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:56 +0000
Subject: [PATCH 117/117] fix: strict reading of a catalog or font whose Type
 is a reference

---
 .../interpreter/commands/state/PDFTextState/PDFFont/__init__.py | 2 +-
 pdfmajor/parser/PDFDocument/__init__.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 65cc6b2..57b97a0 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -16,7 +16,7 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
     else:
         log.debug('get_font: create: objid=%r, spec=%r', objid, spec)
         if settings.STRICT:
-            if spec['Type'] is not LITERAL_FONT:
+            if resolve1(spec.get('Type')) is not LITERAL_FONT:
                 raise FontError('Type is not /Font')
         # Create a Font object.
         if 'Subtype' in spec:
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 879cc49..9a60fd7 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -110,7 +110,7 @@ class PDFDocument(object):
                 break
         else:
             raise PDFSyntaxError('No /Root object! - Is this really a PDF?')
-        if self.catalog.get('Type') is not LITERAL_CATALOG:
+        if resolve1(self.catalog.get('Type')) is not LITERAL_CATALOG:
             if settings.STRICT:
                 raise PDFSyntaxError('Catalog not found!')
         return
-- 
2.43.0

