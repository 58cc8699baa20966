From a3965ab9cf3c172799a164a31407697472180b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 01/56] fix: malformed digest value is a digest mismatch, not
 an exception

---
 warcio/digestverifyingreader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..f0db913 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,7 +124,11 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
+    try:
+        warc_b32 = _to_b32(len(our_value), warc_value)
+    except ValueError:
+        # not a valid digest value, can not match
+        return False
 
     if our_value == warc_b32:
         return True
-- 
2.43.0


From ba7c32210e4455e178ce4cb710b17c83983559cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 02/56] fix: verify md5 digests encoded as base16 (same length
 as padded base32)

---
 warcio/digestverifyingreader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index f0db913..ac4bc58 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -133,6 +133,13 @@ def _compare_digest_rfc_3548(digester, digest):
     if our_value == warc_b32:
         return True
 
+    # base32 and base16 may have the same length (md5), try as base16 also
+    if len(warc_value) == len(our_value):
+        try:
+            return our_value == _to_b32(0, warc_value)
+        except ValueError:
+            return False
+
     return False
 
 
-- 
2.43.0


From d39acf0707ba35dc251ae199183c0d6235bdf616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 03/56] fix: verify block digest of an empty block

---
 warcio/digestverifyingreader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index ac4bc58..2809582 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -77,6 +77,9 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
+        # empty block, never updated
+        if self._orig_limit == 0:
+            self._check_block_digest()
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
@@ -85,6 +88,13 @@ class DigestVerifyingReader(LimitReader):
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
 
+    def _check_block_digest(self):
+        check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
     def _update(self, buff):
         super(DigestVerifyingReader, self)._update(buff)
 
@@ -94,11 +104,7 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+            self._check_block_digest()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
-- 
2.43.0


From 2784555de5267bbbce2d39ca2dca9535446907b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 04/56] fix: verify digests of a truncated record at end of
 input

---
 warcio/digestverifyingreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 2809582..d4805f6 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -90,6 +90,7 @@ class DigestVerifyingReader(LimitReader):
 
     def _check_block_digest(self):
         check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        self.block_digester = None  # prevent double-fire
         if check is False:
             self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
         elif check is True and self.digest_checker.passed is not False:
@@ -103,9 +104,11 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
-        if self.limit == 0:
+        # end of record, or end of input if record is truncated
+        if self.limit == 0 or not buff:
             self._check_block_digest()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
+            self.payload_digester = None  # prevent double-fire
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
             elif check is True and self.digest_checker.passed is not False:
-- 
2.43.0


From 64f2b4c828280456ca865fb1d4262a1a7fe37f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 05/56] fix: variable-length hash in a digest header is an
 unknown algorithm, not an exception

---
 warcio/digestverifyingreader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index d4805f6..78d1aea 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -64,14 +64,16 @@ class DigestVerifyingReader(LimitReader):
             try:
                 algo, _ = _parse_digest(block_digest)
                 self.block_digester = Digester(algo)
-            except ValueError:
+                str(self.block_digester)  # variable-length digests not supported
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in block digest')
                 self.block_digester = None
         if payload_digest:
             try:
                 algo, _ = _parse_digest(self.payload_digest)
                 self.payload_digester_obj = Digester(algo)
-            except ValueError:
+                str(self.payload_digester_obj)  # variable-length digests not supported
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
-- 
2.43.0


From 4e09ce759f2d7bd3123eae2f288d7d2fff30112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 06/56] fix: negative read()/readline() length means no limit,
 as in other file objects

---
 warcio/bufferedreaders.py | 6 ++++++
 warcio/limitreader.py     | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..0e15788 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -157,6 +157,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -182,6 +185,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From 4364c566458470890fb87ac1eb391e40686e0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 07/56] fix: readline(length) across several buffers should not
 return early

---
 warcio/bufferedreaders.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 0e15788..fb4b881 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -197,9 +197,10 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
+            rem = None
             if length:
-                length -= len(linebuff)
-                if length <= 0:
+                rem = length - len(linebuff)
+                if rem <= 0:
                     break
 
             self._fillbuff()
@@ -207,7 +208,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(rem)
 
         return linebuff
 
-- 
2.43.0


From fee19e95f8188e34053108e9d0070ab4811a3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 08/56] fix: tell() after lowering the limit of an existing
 LimitReader

---
 warcio/limitreader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..40c730a 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,9 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
-                    stream.limit = min(stream.limit, content_length)
+                    limit = min(stream.limit, content_length)
+                    stream._orig_limit -= stream.limit - limit
+                    stream.limit = limit
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From 5fba8b66924aa268ad39b16c4409e4e2e57d552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 09/56] fix: read_all_members should continue after empty gzip
 members and member boundaries

---
 warcio/bufferedreaders.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fb4b881..2c1f62c 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -119,6 +119,13 @@ class BufferedReader(object):
             data = self.stream.read(block_size)
             self._process_read(data)
 
+        # if reading all members, an empty read at the end of a member
+        # is not the end, continue with the next member
+        while self.read_all_members and data and self.empty():
+            data = self.starting_data or self.stream.read(block_size)
+            self.starting_data = None
+            self._process_read(data)
+
     def _process_read(self, data):
         # don't process if no raw data read
         if not data:
-- 
2.43.0


From 8953ff06d0fb88dd70ad8acd2568d4500ab67985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 10/56] fix: detect non-chunked gzip also after an empty gzip
 member

---
 warcio/archiveiterator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..e22845c 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -111,6 +111,7 @@ class ArchiveIterator(six.Iterator):
                 if raise_invalid_gzip:
                     self._raise_invalid_gzip_err()
 
+                empty_record = False
                 yield self.record
 
             except EOFError:
-- 
2.43.0


From b71a1faa7b89447e95ed7717163a67ee77ad02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 11/56] fix: detect uncompressed (or raw deflate) data also if
 first read is very short

---
 warcio/bufferedreaders.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 2c1f62c..d682400 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data read before anything has been decompressed
+        self.undecided = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -140,11 +142,18 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            raw_data = data
             try:
                 data = self.decompressor.decompress(data)
+                if data or self.num_block_read:
+                    self.undecided = b''
+                elif len(self.undecided) < BUFF_SIZE:
+                    self.undecided += raw_data
             except Exception as e:
                 # if first read attempt, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    # include any initial data that was too short to detect this
+                    data = self.undecided + raw_data
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From ac989315156665c6a3ed9731bc44570b18e11def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 12/56] fix: record of an http type but without WARC-Target-URI
 has no http headers

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From 190f5edd5b9b16513204d10e48525449ba9f6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 13/56] fix: count ARC version block length in bytes, not
 characters

---
 warcio/recordloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..9f18405 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -299,8 +299,8 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 4eb5251d5e77f238e2a473ec8b449462e87303ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 14/56] fix: Transfer-Encoding value is case-insensitive

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 9f18405..7a8a01b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 8640440cddaa135534f4eaf09cf4a92c71784bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 15/56] fix: skip trailer fields at end of chunked data

---
 warcio/bufferedreaders.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index d682400..177eb3d 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -357,11 +357,15 @@ class ChunkedDataReader(BufferedReader):
 
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
+            final_data = self.stream.readline(BUFF_SIZE)
+            # skip trailer fields, if any
+            while final_data.endswith(b'\r\n') and b':' in final_data:
+                final_data = self.stream.readline(BUFF_SIZE)
             try:
                 assert(final_data == b'\r\n')
             except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+                raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
+                                           final_data)
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From 9f46b8a57cdfcae5d622274496305f9902cca445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 16/56] fix: chunked data cut off between the parts of a chunk
 is just cut off

---
 warcio/bufferedreaders.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 177eb3d..ea87516 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -310,6 +310,7 @@ class ChunkedDataReader(BufferedReader):
         super(ChunkedDataReader, self).__init__(stream, **kwargs)
         self.all_chunks_read = False
         self.not_chunked = False
+        self.any_chunk_read = False
 
         # if False, we'll use best-guess fallback for parse errors
         self.raise_chunked_data_exceptions = raise_exceptions
@@ -342,7 +343,24 @@ class ChunkedDataReader(BufferedReader):
                 # parse as block as non-chunked
                 return super(ChunkedDataReader, self)._fillbuff(block_size)
 
+    def _is_cut_off(self, data, rest):
+        """ Is the data, read instead of the expected rest of a chunk,
+        only the start of it, because the stream ended there?
+        (Not if raising exceptions, that is an error then)
+        """
+        return (not self.raise_chunked_data_exceptions and
+                data != rest and rest.startswith(data))
+
     def _try_decode(self, length_header):
+        # if not the first chunk, and cut off in the length header, also stop
+        if self.any_chunk_read and b'\n' not in length_header and len(length_header) < 64:
+            size = length_header.split(b'\r')[0]
+            if (self._is_cut_off(length_header, size + b'\r\n') and
+                not size.split(b';')[0].strip(b'0123456789abcdefABCDEF')):
+                self.all_chunks_read = True
+                self._process_read(b'')
+                return
+
         # decode length header
         try:
             # ensure line ends with \r\n
@@ -362,7 +380,8 @@ class ChunkedDataReader(BufferedReader):
             while final_data.endswith(b'\r\n') and b':' in final_data:
                 final_data = self.stream.readline(BUFF_SIZE)
             try:
-                assert(final_data == b'\r\n')
+                assert(final_data == b'\r\n' or
+                       self._is_cut_off(final_data, b'\r\n'))
             except AssertionError:
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
                                            final_data)
@@ -395,10 +414,14 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
-            if clrf != b'\r\n':
+            if self._is_cut_off(clrf, b'\r\n'):
+                self.all_chunks_read = True
+            elif clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
                                            data)
 
+            self.any_chunk_read = True
+
         # hand to base class for further processing
         self._process_read(data)
 
-- 
2.43.0


From f05343aa0e89cead5980665f01ebf85b34db742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 17/56] fix: no_record_parse with check_digests should not fail
 the payload digest of http records

---
 warcio/recordloader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 7a8a01b..a1c8a76 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -148,7 +148,9 @@ class ArcWarcRecordLoader(object):
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
 
-        if is_verifying:
+        # if http headers were not parsed, start of payload is not known
+        if is_verifying and not (no_record_parse and
+                                 self._may_have_http_headers(rec_type, uri, length)):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
@@ -170,18 +172,24 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
-    def load_http_headers(self, rec_type, uri, stream, length):
+    def _may_have_http_headers(self, rec_type, uri, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
-            return None
+            return False
 
         # only certain record types can have http headers
         if rec_type not in self.HTTP_RECORDS:
-            return None
+            return False
 
         # only http:/https: uris can have http headers
         if not uri or not uri.startswith(self.HTTP_SCHEMES):
+            return False
+
+        return True
+
+    def load_http_headers(self, rec_type, uri, stream, length):
+        if not self._may_have_http_headers(rec_type, uri, length):
             return None
 
         # request record: parse request
-- 
2.43.0


From a301378f3fe29da6e8077ca4087e38fa6c2047ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 18/56] fix: length of record payload if payload stream does
 not start at offset 0

---
 warcio/recordbuilder.py    |  2 +-
 warcio/recordloader.py     | 25 ++++++++++++++++++++++---
 warcio/statusandheaders.py |  2 ++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..25e1e8b 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -93,7 +93,7 @@ class RecordBuilder(object):
             loader = ArcWarcRecordLoader()
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers and length is not None:
-                length -= payload.tell()
+                length -= len(http_headers.parsed_buff)
 
         if not payload:
             payload = BytesIO()
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index a1c8a76..f46fb9d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -44,6 +44,20 @@ class ArcWarcRecord(object):
             return self.raw_stream
 
 
+#=================================================================
+class HeaderLinesReader(object):
+    """ Keeps the lines read from the stream by the headers parser
+    """
+    def __init__(self, stream):
+        self.stream = stream
+        self.lines = []
+
+    def readline(self):
+        line = self.stream.readline()
+        self.lines.append(line)
+        return line
+
+
 #=================================================================
 class ArcWarcRecordLoader(object):
     WARC_TYPES = ['WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18']
@@ -192,20 +206,25 @@ class ArcWarcRecordLoader(object):
         if not self._may_have_http_headers(rec_type, uri, length):
             return None
 
+        stream = HeaderLinesReader(stream)
+
         # request record: parse request
         if rec_type == 'request':
-            return self.http_req_parser.parse(stream)
+            http_headers = self.http_req_parser.parse(stream)
 
         elif rec_type == 'revisit':
             try:
-                return self.http_parser.parse(stream)
+                http_headers = self.http_parser.parse(stream)
             except EOFError:
                 # empty revisit with no http headers, is ok!
                 return None
 
         # response record or non-empty revisit: parse HTTP status and headers!
         else:
-            return self.http_parser.parse(stream)
+            http_headers = self.http_parser.parse(stream)
+
+        http_headers.parsed_buff = b''.join(stream.lines)
+        return http_headers
 
     def default_http_headers(self, length, content_type=None):
         headers = []
diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..d9278b3 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -30,6 +30,8 @@ class StatusAndHeaders(object):
         self.protocol = protocol
         self.total_len = total_len
         self.headers_buff = None
+        # the original bytes, if parsed from a record
+        self.parsed_buff = None
 
     def get_header(self, name, default_value=None):
         """
-- 
2.43.0


From ad9573a71a18c61392eaaf339e394a6d9e19a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 19/56] fix: recompute block digest if http headers are written
 differently than they were read

---
 warcio/recordbuilder.py | 2 +-
 warcio/warcwriter.py    | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 25e1e8b..04cbce8 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -210,7 +210,7 @@ class RecordBuilder(object):
             record.rec_headers.add_header('WARC-Payload-Digest', str(payload_digester))
 
         if block_digester:
-            record.rec_headers.add_header('WARC-Block-Digest', str(block_digester))
+            record.rec_headers.replace_header('WARC-Block-Digest', str(block_digester))
 
     @staticmethod
     def _iter_stream(stream):
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..a92f282 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -45,6 +45,11 @@ class BaseWARCWriter(RecordBuilder):
         if record.http_headers:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
+            # block digest is of different http headers than those written
+            if record.http_headers.parsed_buff not in (None, record.http_headers.headers_buff):
+                if record.rec_headers.get_header('WARC-Block-Digest'):
+                    record.rec_headers.replace_header('WARC-Block-Digest', '')
+
         # Content-Length is None/unknown
         # Fix record by: buffering and recomputing all digests and length
         # (since no length, can't trust existing digests)
-- 
2.43.0


From c7994d22cdd1b76b51767bc4d12884c611c9a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 20/56] fix: http record whose block starts with a blank line
 should be written completely

---
 warcio/recordbuilder.py | 4 ++--
 warcio/recordloader.py  | 2 +-
 warcio/warcwriter.py    | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 04cbce8..f56346d 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -92,7 +92,7 @@ class RecordBuilder(object):
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
-            if http_headers and length is not None:
+            if http_headers is not None and length is not None:
                 length -= len(http_headers.parsed_buff)
 
         if not payload:
@@ -183,7 +183,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and record.http_headers is not None:
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index f46fb9d..4599184 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -155,7 +155,7 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index a92f282..cc55c64 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,7 +42,7 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        if record.http_headers is not None:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
             # block digest is of different http headers than those written
@@ -78,10 +78,10 @@ class BaseWARCWriter(RecordBuilder):
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
+        if record.http_headers is not None and record.payload_length >= 0:
             actual_len = 0
 
-            if record.http_headers:
+            if record.http_headers is not None:
                 actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
@@ -96,7 +96,7 @@ class BaseWARCWriter(RecordBuilder):
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
         # write headers buffer, if any
-        if record.http_headers:
+        if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From 257d14cccc378c35593a4219f6aa816bbd785251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 21/56] fix: write block of a revisit record that has no http
 headers

---
 warcio/warcwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index cc55c64..8b50516 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -72,7 +72,7 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        if record.rec_type == 'revisit' and record.http_headers is not None:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From 3225c51e50ca8619309a7cafb43f0bc0ed40a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 22/56] fix: block digest of a revisit record should not
 include a payload that is not written

---
 warcio/recordbuilder.py | 5 ++++-
 warcio/warcwriter.py    | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index f56346d..ed9d818 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -188,8 +188,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # only http headers of a revisit record are written
+        headers_only = record.rec_type == 'revisit' and record.http_headers is not None
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 8b50516..d5e8ed5 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -46,7 +46,9 @@ class BaseWARCWriter(RecordBuilder):
             record.http_headers.compute_headers_buffer(self.header_filter)
 
             # block digest is of different http headers than those written
-            if record.http_headers.parsed_buff not in (None, record.http_headers.headers_buff):
+            # (or of a revisit payload, which is not written)
+            if (record.http_headers.parsed_buff not in (None, record.http_headers.headers_buff) or
+                (record.rec_type == 'revisit' and record.payload_length and record.payload_length > 0)):
                 if record.rec_headers.get_header('WARC-Block-Digest'):
                     record.rec_headers.replace_header('WARC-Block-Digest', '')
 
-- 
2.43.0


From 1168a2401ba2035887f51202905adb04eff64171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 23/56] fix: %-encode non-ascii status line, header names and
 unquoted parts of header values

---
 warcio/statusandheaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index d9278b3..352c107 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -13,6 +13,7 @@ import re
 
 #=================================================================
 class StatusAndHeaders(object):
+    NON_ASCII_RX = re.compile(r'[^\x00-\x7f]+')
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
     """
     Representation of parsed http-style status line and headers
@@ -178,6 +179,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             self.percent_encode_non_ascii_headers()
             string = self.to_str(filter_func)
+            # %-encode any non-ascii remaining, eg. in status line or header names
+            string = self.NON_ASCII_RX.sub(lambda m: quote(m.group(0)), string)
             string = string.encode('ascii')
 
         return string + b'\r\n'
-- 
2.43.0


From ec001f6e25b421340922cd5efcdbb4cfb5c54aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 24/56] fix: header with an empty value is in headers

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 352c107..98141c5 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -220,7 +220,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
     __setitem__ = replace_header
     __delitem__ = remove_header
     def __contains__(self, key):
-        return bool(self[key])
+        return self[key] is not None
 
 #=================================================================
 def _strip_count(string, total_read):
-- 
2.43.0


From 6cd38c306026132c19d97f4f2bee0c1c11054438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 25/56] fix: replace_header() of a repeated header should
 replace the value returned by get_header()

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 98141c5..bf2e222 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -55,7 +55,7 @@ class StatusAndHeaders(object):
         return old header value, if any
         """
         name_lower = name.lower()
-        for index in range(len(self.headers) - 1, -1, -1):
+        for index in range(len(self.headers)):
             curr_name, curr_value = self.headers[index]
             if curr_name.lower() == name_lower:
                 self.headers[index] = (curr_name, value)
-- 
2.43.0


From 9eb0a4cff0804a4c9cfd2b95843bce10675db986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 26/56] fix: datetime_to_iso_date() of a timezone-aware
 datetime should be UTC

---
 warcio/timeutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 8847dd9..6d85a4f 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -121,6 +121,9 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
 
     """
 
+    if the_datetime.tzinfo:
+        the_datetime = the_datetime.astimezone(timezone.utc).replace(tzinfo=None)
+
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
-- 
2.43.0


From 9f4cc527f309a9933c3d758b336313ffdb42fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 27/56] fix: datetime_to_timestamp() of a timezone-aware
 datetime should be UTC

---
 warcio/timeutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 6d85a4f..13c4f26 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -136,6 +136,9 @@ def datetime_to_timestamp(the_datetime):
     '20131226101112'
     """
 
+    if the_datetime.tzinfo:
+        the_datetime = the_datetime.astimezone(timezone.utc).replace(tzinfo=None)
+
     return the_datetime.strftime(TIMESTAMP_14)
 
 
-- 
2.43.0


From 4c65abbde0d07f7116a5b9042f6053537630ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 28/56] fix: capture only the bytes actually read by readinto()

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..956fa36 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,7 +53,8 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        if res:
+            self.recorder.write_response(memoryview(buff).cast('B')[:res])
         return res
 
     def readline(self, maxlen=-1):
-- 
2.43.0


From 99b9b1621293a0b40a35258097e237f7664ae375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 29/56] fix: support read1(), peek() and fileno() of captured
 responses

---
 warcio/capture_http.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 956fa36..0c6169c 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -57,6 +57,17 @@ class RecordingStream(object):
             self.recorder.write_response(memoryview(buff).cast('B')[:res])
         return res
 
+    def read1(self, amt=-1):
+        buff = self.fp.read1(amt)
+        self.recorder.write_response(buff)
+        return buff
+
+    def peek(self, amt=0):
+        return self.fp.peek(amt)
+
+    def fileno(self):
+        return self.fp.fileno()
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
-- 
2.43.0


From c6aa3eb18da0cd7e66bf9879cb589a685afbd73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 30/56] fix: create records of http requests with any method,
 and keep the method as is

---
 warcio/recordbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index ed9d818..989bc89 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -90,7 +90,7 @@ class RecordBuilder(object):
             warc_headers_dict = dict()
 
         if payload and not http_headers:
-            loader = ArcWarcRecordLoader()
+            loader = ArcWarcRecordLoader(verify_http=False)
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers is not None and length is not None:
                 length -= len(http_headers.parsed_buff)
-- 
2.43.0


From 21be630ed0a45c94c0d6314be7ecfcadc7529b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 31/56] fix: url of a captured request to an ipv6 address

---
 warcio/capture_http.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 0c6169c..5f56da6 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -212,6 +212,14 @@ class RequestRecorder(object):
             self.request_out.close()
             self.response_out.close()
 
+    @staticmethod
+    def _url_host(host):
+        # ipv6 address must be in brackets
+        if ':' in host and not host.startswith('['):
+            host = '[' + host + ']'
+
+        return host
+
     def extract_url(self, data, host, port, default_port):
         if self.first_line_read:
             return
@@ -225,10 +233,11 @@ class RequestRecorder(object):
         path = parts[1]
 
         if verb == "CONNECT":
-            parts = path.split(":", 1)
+            # host may be an ipv6 address, in brackets
+            parts = path.rsplit(":", 1) if not path.endswith(']') else [path]
             self.connect_host = parts[0]
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(self._url_host(host), port)
             return
 
         if self.connect_host:
@@ -238,12 +247,12 @@ class RequestRecorder(object):
             port = self.connect_port
 
         if path.startswith(('http:', 'https:')):
-            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(self._url_host(host), port)
             self.url = path
             return
 
         scheme = 'https' if default_port == 443 else 'http'
-        self.url = scheme + '://' + host
+        self.url = scheme + '://' + self._url_host(host)
         if port != default_port:
             self.url += ':' + str(port)
 
-- 
2.43.0


From ea80ef86d9d850d4ba9bff03c5abeac820f87075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 32/56] fix: continue outer capture_http() after a nested one

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 5f56da6..b8f7e0a 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -277,13 +277,15 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         out = open(warc_writer, 'ab' if append else 'xb')
         warc_writer = WARCWriter(out, **kwargs)
 
+    prev_recorder = getattr(RecordingHTTPConnection.local, 'recorder', None)
+
     try:
         recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = prev_recorder
         if out:
             out.close()
 
-- 
2.43.0


From ef229dc7cdfb6d42413ac43137bb426e1e3b9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 33/56] fix: do not mix up requests captured from several
 connections

---
 warcio/capture_http.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index b8f7e0a..d14c3e4 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -1,3 +1,4 @@
+import copy
 import threading
 
 from io import BytesIO
@@ -95,10 +96,8 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
     def __init__(self, *args, **kwargs):
         orig_connection.__init__(self, *args, **kwargs)
-        if hasattr(self.local, 'recorder'):
-            self.recorder = self.local.recorder
-        else:
-            self.recorder = None
+        recorder = getattr(self.local, 'recorder', None)
+        self.recorder = recorder.for_connection() if recorder else None
 
         def make_recording_response(*args, **kwargs):
             return RecordingHTTPResponse(self.recorder, *args, **kwargs)
@@ -156,6 +155,14 @@ class RequestRecorder(object):
         self.warc_headers = {}
         self.record_ip = record_ip
 
+    def for_connection(self):
+        """ Each connection keeps its own state, only one request
+        is in progress at a time on a connection
+        """
+        recorder = copy.copy(self)
+        recorder.warc_headers = {}
+        return recorder
+
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
         self.started_req = False
-- 
2.43.0


From 3f40795ef0d5157c1f053350142ea7c1f7a5a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 34/56] fix: do not write captured requests to a file after it
 was closed by capture_http()

---
 warcio/capture_http.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d14c3e4..ea6dcb8 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -154,6 +154,7 @@ class RequestRecorder(object):
         self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
+        self.closed = threading.Event()
 
     def for_connection(self):
         """ Each connection keeps its own state, only one request
@@ -168,7 +169,16 @@ class RequestRecorder(object):
         self.started_req = False
         self.first_line_read = False
 
+    def close(self):
+        """ output is closed, stop for all connections which may still be open
+        """
+        self.closed.set()
+
     def start(self):
+        if self.closed.is_set():
+            self.started_req = False
+            return
+
         self.request_out = self._create_buffer()
         self.response_out = self._create_buffer()
         self.url = None
@@ -205,6 +215,9 @@ class RequestRecorder(object):
             return
 
         try:
+            if self.closed.is_set():
+                return
+
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
 
@@ -286,14 +299,16 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
 
     prev_recorder = getattr(RecordingHTTPConnection.local, 'recorder', None)
 
+    recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
+
     try:
-        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
         RecordingHTTPConnection.local.recorder = prev_recorder
         if out:
+            recorder.close()
             out.close()
 
 
-- 
2.43.0


From f9e1c862533f3dd67bc0ac0ed595209851f4be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 35/56] fix: capture requests sent as an iterable of buffers

---
 warcio/capture_http.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index ea6dcb8..f2200aa 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -125,6 +125,11 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                     break
 
                 send_request(buff)
+
+        # also supports iterables of buffers
+        elif not isinstance(data, (str, bytes, bytearray, memoryview, array)) and hasattr(data, '__iter__'):
+            for buff in data:
+                send_request(buff)
         else:
             send_request(data)
 
-- 
2.43.0


From 558fbc50ee2517e02edb73a2aabea2fa4aa7069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 36/56] fix: detect non-chunked gzip also if followed by an
 empty gzip member

---
 warcio/archiveiterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index e22845c..bd055ed 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -122,6 +122,9 @@ class ArchiveIterator(six.Iterator):
             if self.reader.decompressor:
                 # if another gzip member, continue
                 if self.reader.read_next_member():
+                    # unless previous member continues with another record
+                    if self.next_line:
+                        raise_invalid_gzip = True
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From c02e18fbd02de54d46bab37ead1fe7db1a6d8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 37/56] fix: dechunk body cut off inside the trailer section

---
 warcio/bufferedreaders.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index ea87516..892a984 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -351,6 +351,15 @@ class ChunkedDataReader(BufferedReader):
         return (not self.raise_chunked_data_exceptions and
                 data != rest and rest.startswith(data))
 
+    def _is_cut_off_trailer(self, data):
+        """ Is the data, read after the last chunk, only the start of
+        a trailer field, because the stream ended there?
+        """
+        return (not self.raise_chunked_data_exceptions and
+                self.any_chunk_read and
+                b'\n' not in data and
+                len(data) < BUFF_SIZE)
+
     def _try_decode(self, length_header):
         # if not the first chunk, and cut off in the length header, also stop
         if self.any_chunk_read and b'\n' not in length_header and len(length_header) < 64:
@@ -381,7 +390,8 @@ class ChunkedDataReader(BufferedReader):
                 final_data = self.stream.readline(BUFF_SIZE)
             try:
                 assert(final_data == b'\r\n' or
-                       self._is_cut_off(final_data, b'\r\n'))
+                       self._is_cut_off(final_data, b'\r\n') or
+                       self._is_cut_off_trailer(final_data))
             except AssertionError:
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
                                            final_data)
-- 
2.43.0


From fff419646b320c0f94fa62c9dddcf19e1b013003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 38/56] fix: dechunk from a stream which returns less than
 requested

---
 warcio/bufferedreaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 892a984..7c88a34 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -424,6 +424,10 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
+            # source may return less than requested
+            if len(clrf) == 1:
+                clrf += self.stream.read(1)
+
             if self._is_cut_off(clrf, b'\r\n'):
                 self.all_chunks_read = True
             elif clrf != b'\r\n':
-- 
2.43.0


From 7cc14d78ae1015e7d55789440dddb01f5dbd26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 39/56] fix: read a long line in time proportional to its
 length

---
 warcio/bufferedreaders.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 7c88a34..8c23db4 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -210,12 +210,14 @@ class BufferedReader(object):
             return b''
 
         linebuff = self.buff.readline(length)
+        all_buffs = [linebuff]
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
             rem = None
             if length:
-                rem = length - len(linebuff)
+                length -= len(linebuff)
+                rem = length
                 if rem <= 0:
                     break
 
@@ -224,9 +226,10 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(rem)
+            linebuff = self.buff.readline(rem)
+            all_buffs.append(linebuff)
 
-        return linebuff
+        return b''.join(all_buffs)
 
     def tell(self):
         return self.num_read
-- 
2.43.0


From 7e642f17d396a5863f9dc4a309f9cfbc783bbe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 40/56] fix: no payload digest of a block whose http headers
 were not parsed

---
 warcio/recordbuilder.py |  7 +++++++
 warcio/recordloader.py  | 11 ++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 989bc89..cc68e2a 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -165,6 +165,13 @@ class RecordBuilder(object):
                 (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES)):
                 payload = False
 
+            # http headers not parsed, start of payload is not known
+            elif (record.http_headers is None and
+                  ArcWarcRecordLoader.may_have_http_headers(record.rec_type,
+                                                            record.rec_headers.get_header('WARC-Target-URI'),
+                                                            record.length)):
+                payload = False
+
         block_digester = self._create_digester() if block else None
         payload_digester = self._create_digester() if payload else None
 
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 4599184..56cd358 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -164,7 +164,7 @@ class ArcWarcRecordLoader(object):
 
         # if http headers were not parsed, start of payload is not known
         if is_verifying and not (no_record_parse and
-                                 self._may_have_http_headers(rec_type, uri, length)):
+                                 self.may_have_http_headers(rec_type, uri, length)):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
@@ -186,24 +186,25 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
-    def _may_have_http_headers(self, rec_type, uri, length):
+    @classmethod
+    def may_have_http_headers(cls, rec_type, uri, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
             return False
 
         # only certain record types can have http headers
-        if rec_type not in self.HTTP_RECORDS:
+        if rec_type not in cls.HTTP_RECORDS:
             return False
 
         # only http:/https: uris can have http headers
-        if not uri or not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(cls.HTTP_SCHEMES):
             return False
 
         return True
 
     def load_http_headers(self, rec_type, uri, stream, length):
-        if not self._may_have_http_headers(rec_type, uri, length):
+        if not self.may_have_http_headers(rec_type, uri, length):
             return None
 
         stream = HeaderLinesReader(stream)
-- 
2.43.0


From 2559b1f83e8b7ec436d6b1eb7c11f2f1b3964f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 41/56] fix: timestamp with only the first digit of the month
 should be completed as other fields are

---
 warcio/timeutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 13c4f26..4cdc4df 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -272,6 +272,9 @@ def timestamp_to_datetime(string, tz_aware=False):
     >>> timestamp_to_datetime('20141')
     datetime.datetime(2014, 12, 31, 23, 59, 59)
 
+    >>> timestamp_to_datetime('20140')
+    datetime.datetime(2014, 12, 31, 23, 59, 59)
+
     # 4-digit padding
     >>> timestamp_to_datetime('2014')
     datetime.datetime(2014, 12, 31, 23, 59, 59)
@@ -322,8 +325,8 @@ def timestamp_to_datetime(string, tz_aware=False):
 
     """
 
-    # pad to 6 digits
-    string = pad_timestamp(string, PAD_6_UP)
+    # pad year to 4 digits (any other field not given in full is the last one)
+    string = pad_timestamp(string, PAD_6_UP[:4])
 
     def clamp(val, min_, max_):
         try:
-- 
2.43.0


From 77573fa4bbcf626abc78269b87d26f5ab2166880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 42/56] fix: capture a request for which a tunnel is opened
 when it is sent

---
 warcio/capture_http.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index f2200aa..da5c476 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -111,9 +111,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             return
 
         def send_request(buff):
-            self.recorder.extract_url(buff, self.host, self.port, self.default_port)
-
+            # may connect (and open a tunnel) first
             orig_connection.send(self, buff)
+
+            self.recorder.extract_url(buff, self.host, self.port, self.default_port)
             self.recorder.write_request(buff)
 
         # if sending request body as stream
@@ -134,10 +135,12 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             send_request(data)
 
     def _tunnel(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start_tunnel()
+        if not self.recorder:
+            return orig_connection._tunnel(self, *args, **kwargs)
 
-        return orig_connection._tunnel(self, *args, **kwargs)
+        started_req = self.recorder.start_tunnel()
+        orig_connection._tunnel(self, *args, **kwargs)
+        self.recorder.end_tunnel(started_req)
 
     def putrequest(self, *args, **kwargs):
         if self.recorder:
@@ -170,9 +173,17 @@ class RequestRecorder(object):
         return recorder
 
     def start_tunnel(self):
+        started_req = self.started_req
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
+        return started_req
+
+    def end_tunnel(self, started_req):
+        """ tunnel may have been opened while sending a request, continue with it
+        """
+        self.started_req = started_req
+        self.first_line_read = False
 
     def close(self):
         """ output is closed, stop for all connections which may still be open
-- 
2.43.0


From b59cbe936e5de1ac142930b28538ce1111e89fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 43/56] fix: captures into the same writer in several threads
 should not mix up their records

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index da5c476..729aa94 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -150,6 +150,9 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
 # ============================================================================
 class RequestRecorder(object):
+    # for all recorders, as several (in different threads) may use the same writer
+    lock = threading.RLock()
+
     def __init__(self, writer, filter_func=None, record_ip=True):
         self.writer = writer
         self.filter_func = filter_func
@@ -159,7 +162,6 @@ class RequestRecorder(object):
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
-        self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
         self.closed = threading.Event()
-- 
2.43.0


From 21d051e004d76f59fbe0402418a81b19cbdd258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 44/56] fix: WARC-Proxy-Host of a previous request should not
 be kept for a request not via proxy

---
 warcio/capture_http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 729aa94..08ccab1 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -289,6 +289,10 @@ class RequestRecorder(object):
             self.url = path
             return
 
+        # not via proxy, though a previous request may have been
+        if not self.connect_host:
+            self.warc_headers.pop('WARC-Proxy-Host', None)
+
         scheme = 'https' if default_port == 443 else 'http'
         self.url = scheme + '://' + self._url_host(host)
         if port != default_port:
-- 
2.43.0


From 3e42bde0e952b415f5da8f27328de5207042582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 45/56] fix: request refused by the client should not spoil the
 capture of the one in progress

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 08ccab1..6dccd18 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -143,9 +143,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         self.recorder.end_tunnel(started_req)
 
     def putrequest(self, *args, **kwargs):
+        # may be refused, if previous request is still in progress
+        orig_connection.putrequest(self, *args, **kwargs)
         if self.recorder:
             self.recorder.start()
-        return orig_connection.putrequest(self, *args, **kwargs)
 
 
 # ============================================================================
-- 
2.43.0


From 65c2a9c67183b9a8d7cbb2b6f92e6ae10df070c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 46/56] fix: send a text file as request body when recording,
 as when not

---
 warcio/capture_http.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 6dccd18..41f3801 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -1,6 +1,8 @@
 import copy
 import threading
 
+import six
+
 from io import BytesIO
 
 from six.moves import http_client as httplib
@@ -125,6 +127,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                # text file, encode as is done when not recording
+                if isinstance(buff, six.text_type):
+                    buff = buff.encode('iso-8859-1')
+
                 send_request(buff)
 
         # also supports iterables of buffers
-- 
2.43.0


From e253985986f6c851ec86afd2885fd99f0093cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 47/56] fix: close all temporary files used for a record of
 unknown length when written

---
 warcio/recordbuilder.py | 6 +++++-
 warcio/warcwriter.py    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index cc68e2a..8eb2424 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -211,7 +211,11 @@ class RecordBuilder(object):
         if temp_file:
             record.payload_length = temp_file.tell()
             temp_file.seek(0)
-            record._orig_stream = record.raw_stream
+            # may have been buffered already, when record was created
+            if hasattr(record, '_orig_stream'):
+                record.raw_stream.close()
+            else:
+                record._orig_stream = record.raw_stream
             record.raw_stream = temp_file
         else:
             record.raw_stream.seek(pos)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index d5e8ed5..2ec965a 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -109,6 +109,7 @@ class BaseWARCWriter(RecordBuilder):
                 if hasattr(record, '_orig_stream'):
                     record.raw_stream.close()
                     record.raw_stream = record._orig_stream
+                    del record._orig_stream
 
         # add two lines
         out.write(b'\r\n\r\n')
-- 
2.43.0


From 06f20a08e28b787261e9f4f1ba4df3724d3ce811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 48/56] fix: chunk header line with a long chunk extension
 should be decoded

---
 warcio/bufferedreaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 8c23db4..0cdc87e 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -330,7 +330,7 @@ class ChunkedDataReader(BufferedReader):
                not self.not_chunked):
 
             try:
-                length_header = self.stream.readline(64)
+                length_header = self.stream.readline(BUFF_SIZE)
                 self._try_decode(length_header)
             except ChunkedDataException as e:
                 if self.raise_chunked_data_exceptions:
@@ -365,7 +365,7 @@ class ChunkedDataReader(BufferedReader):
 
     def _try_decode(self, length_header):
         # if not the first chunk, and cut off in the length header, also stop
-        if self.any_chunk_read and b'\n' not in length_header and len(length_header) < 64:
+        if self.any_chunk_read and b'\n' not in length_header and len(length_header) < BUFF_SIZE:
             size = length_header.split(b'\r')[0]
             if (self._is_cut_off(length_header, size + b'\r\n') and
                 not size.split(b';')[0].strip(b'0123456789abcdefABCDEF')):
-- 
2.43.0


From 69f90f83c9f2f11c0ac7e1d9dc043394d8934c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 49/56] fix: trailer fields before garbage at the end of a
 chunked body should not be lost

---
 warcio/bufferedreaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 0cdc87e..fec670f 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -388,8 +388,10 @@ class ChunkedDataReader(BufferedReader):
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
             final_data = self.stream.readline(BUFF_SIZE)
+            trailers = []
             # skip trailer fields, if any
             while final_data.endswith(b'\r\n') and b':' in final_data:
+                trailers.append(final_data)
                 final_data = self.stream.readline(BUFF_SIZE)
             try:
                 assert(final_data == b'\r\n' or
@@ -397,7 +399,7 @@ class ChunkedDataReader(BufferedReader):
                        self._is_cut_off_trailer(final_data))
             except AssertionError:
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
-                                           final_data)
+                                           b''.join(trailers) + final_data)
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From fd5ae823e760f90095b1343ee413378e21afd903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 50/56] fix: chunk size with a sign, prefix or underscore is
 not a chunk size

---
 warcio/bufferedreaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fec670f..86d3b63 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -377,7 +377,9 @@ class ChunkedDataReader(BufferedReader):
         try:
             # ensure line ends with \r\n
             assert(length_header[-2:] == b'\r\n')
-            chunk_size = length_header[:-2].split(b';')[0]
+            chunk_size = length_header[:-2].split(b';')[0].strip()
+            # only hex digits, int() also accepts a sign, '0x' and '_'
+            assert(not chunk_size.strip(b'0123456789abcdefABCDEF'))
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
             assert(chunk_size <= 2**31)
-- 
2.43.0


From 244586e789ec30c7373cd71b3d746e7078a95474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 51/56] fix: archive with data that can not be decompressed
 should not end silently

If a gzip archive is damaged after a part of a member was decompressed,
iteration ended as if at the end of the archive, and recompress wrote the
records before it and reported no error.
---
 warcio/archiveiterator.py | 4 ++++
 warcio/bufferedreaders.py | 4 ++++
 warcio/recompressor.py    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index bd055ed..05ba6fc 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -141,6 +141,10 @@ class ArchiveIterator(six.Iterator):
             elif empty_record:
                 break
 
+        # not the end of the archive, the rest could not be decompressed
+        if self.reader.decomp_error:
+            raise ArchiveLoadFailed('Archive could not be decompressed: ' + self.reader.decomp_error)
+
         self.close()
 
     def _raise_invalid_gzip_err(self):
diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 86d3b63..0325555 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -69,6 +69,9 @@ class BufferedReader(object):
         self.stream = stream
         self.block_size = block_size
 
+        # error which ended decompression early, if any
+        self.decomp_error = None
+
         self._init_decomp(decomp_type)
 
         self.buff = None
@@ -162,6 +165,7 @@ class BufferedReader(object):
                 # otherwise (partly decompressed), something is wrong
                 else:
                     sys.stderr.write(str(e) + '\n')
+                    self.decomp_error = str(e)
                     return b''
         return data
 
diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c164827..0720be7 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -76,6 +76,10 @@ class Recompressor(object):
             stream.seek(0)
             shutil.copyfileobj(decomp, tout)
 
+            # not all of it
+            if decomp.decomp_error:
+                raise ArchiveLoadFailed(decomp.decomp_error)
+
             # attempt to compress and write temp
             tout.seek(0)
             return self.load_and_write(tout, output)
-- 
2.43.0


From 1a54ad609c7db912f27d1ba1a1047b9487097311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 52/56] fix: gzip data that could not be decompressed should
 not be read as an ARC record

---
 warcio/recordloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 56cd358..24dcbfa 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -12,6 +12,7 @@ from warcio.timeutils import timestamp_to_iso_date
 
 from six.moves import zip
 
+import re
 import logging
 logger = logging.getLogger(__name__)
 
@@ -302,6 +303,9 @@ class ARCHeadersParser(object):
     ARC_HEADERS = ["uri", "ip-address", "archive-date",
                        "content-type", "length"]
 
+    # never in a header line
+    BINARY_RX = re.compile('[\x00-\x08\x0e-\x1f]')
+
     def __init__(self):
         self.headernames = self.get_header_names()
 
@@ -339,6 +343,10 @@ class ARCHeadersParser(object):
             msg = msg.format(headernames, parts)
             raise StatusAndHeadersParserException(msg, parts)
 
+        # eg. gzip data that could not be decompressed
+        if self.BINARY_RX.search(headerline):
+            msg = 'Control characters in arc headers {0}'
+            raise StatusAndHeadersParserException(msg.format(parts), parts)
 
         protocol, headers = self._get_protocol_and_headers(headerline, parts)
 
-- 
2.43.0


From 1648be7c7fd6b546b7e56789ec70d7ad6ba9ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 53/56] fix: blank lines before a record should not be read as
 a record without headers

A file starting with a blank line was read as a single record without a type,
whatever it contains, so that check found no errors in it.
---
 warcio/recordloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 24dcbfa..9fa84bb 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -251,6 +251,10 @@ class ArcWarcRecordLoader(object):
             # try as warc first
             try:
                 rec_headers = self.warc_parser.parse(stream, statusline)
+                # blank lines are not a record
+                while not rec_headers.protocol:
+                    rec_headers = self.warc_parser.parse(stream)
+
                 return 'warc', rec_headers
             except StatusAndHeadersParserException as se:
                 if known_format == 'warc':
-- 
2.43.0


From 86d6f9061a819e310e36984d1b3a254be040b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 54/56] fix: recompress should not drop a damaged gzip member
 left as is when decompressing

---
 warcio/recompressor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index 0720be7..340f0d1 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -80,6 +80,10 @@ class Recompressor(object):
             if decomp.decomp_error:
                 raise ArchiveLoadFailed(decomp.decomp_error)
 
+            # not a gzip file, or a member which is not valid was left as is
+            if not decomp.decompressor:
+                raise ArchiveLoadFailed('Not a valid gzip file')
+
             # attempt to compress and write temp
             tout.seek(0)
             return self.load_and_write(tout, output)
-- 
2.43.0


From fbe264d709c98a454bd5ee14e403bc7bfcf5ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 55/56] fix: record cut off before its http headers should not
 be dropped without notice

---
 warcio/recordloader.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 9fa84bb..b64098a 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -210,20 +210,19 @@ class ArcWarcRecordLoader(object):
 
         stream = HeaderLinesReader(stream)
 
+        # empty revisit with no http headers, is ok!
+        # (otherwise, record is cut off before its http headers)
+        statusline = stream.readline()
+        if not statusline:
+            return None
+
         # request record: parse request
         if rec_type == 'request':
-            http_headers = self.http_req_parser.parse(stream)
-
-        elif rec_type == 'revisit':
-            try:
-                http_headers = self.http_parser.parse(stream)
-            except EOFError:
-                # empty revisit with no http headers, is ok!
-                return None
+            http_headers = self.http_req_parser.parse(stream, statusline)
 
         # response record or non-empty revisit: parse HTTP status and headers!
         else:
-            http_headers = self.http_parser.parse(stream)
+            http_headers = self.http_parser.parse(stream, statusline)
 
         http_headers.parsed_buff = b''.join(stream.lines)
         return http_headers
-- 
2.43.0


From f575d10f988291d030efff94f618d109d33e517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:52 +0000
Subject: [PATCH 56/56] fix: do not use a decompressor again after it failed

---
 warcio/bufferedreaders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 0325555..48769f8 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -82,6 +82,7 @@ class BufferedReader(object):
         self.read_all_members = read_all_members
 
     def set_decomp(self, decomp_type):
+        self.decomp_error = None
         self._init_decomp(decomp_type)
 
     def _init_decomp(self, decomp_type):
@@ -145,6 +146,10 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            # failed before, may not be used again
+            if self.decomp_error:
+                return b''
+
             raw_data = data
             try:
                 data = self.decompressor.decompress(data)
-- 
2.43.0

