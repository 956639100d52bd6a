From 084644ef30085b9c7479b71b25d5b7fe52009bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 01/31] fix: LimitReader treats a negative read size as "up to
 the limit"

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From 67c47bf10c6239581a6158e957051ec1d986548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 02/31] fix: BufferedReader treats a negative read size as
 unlimited

---
 warcio/bufferedreaders.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..0e15788 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -157,6 +157,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -182,6 +185,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
-- 
2.43.0


From 03e71414dc1e0d3e6eabea4259e0bff561a9f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 03/31] fix: keep the bytes read after a malformed last chunk
 header

---
 warcio/bufferedreaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 0e15788..fc1033e 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -344,7 +344,8 @@ class ChunkedDataReader(BufferedReader):
             try:
                 assert(final_data == b'\r\n')
             except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+                raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
+                                           final_data)
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From fcddae19c6c3a09644b1b3496989cdbe25a8d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 04/31] fix: reject negative chunk sizes

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fc1033e..12cb58f 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -333,7 +333,7 @@ class ChunkedDataReader(BufferedReader):
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(chunk_size <= 2**31)
+            assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
-- 
2.43.0


From ba4c0462bbe2a80a715b07010d05518e153ac4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 05/31] fix: records without a target URI have no http headers

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From 44468c41273f4fa3da9b79457e65cb9564ec2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 06/31] fix: transfer-coding names are case-insensitive

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..fdeef2f 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 572eaa0f687a81a9bbf605879d73a33d6b9de2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 07/31] fix: record only the bytes actually read into the
 buffer

---
 warcio/capture_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..0587c58 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,7 +53,7 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        self.recorder.write_response(buff[:res] if res else b'')
         return res
 
     def readline(self, maxlen=-1):
-- 
2.43.0


From 8e9a34b2cbf0702160b3c84a13dd427849826e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 08/31] fix: keep data already passed to a decompressor that
 rejects it after a short read

---
 warcio/bufferedreaders.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 12cb58f..a390a0d 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data passed to the decompressor before it produced any output
+        self.undecoded_data = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -133,11 +135,17 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            raw_data = data
             try:
-                data = self.decompressor.decompress(data)
+                data = self.decompressor.decompress(raw_data)
+                # no output yet: may still turn out not to be compressed
+                if not data and self.num_block_read == 0:
+                    self.undecoded_data += raw_data
             except Exception as e:
                 # if first read attempt, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    data = self.undecoded_data + raw_data
+                    self.undecoded_data = b''
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From 5c7614c6f8539d0f0c8003a535b58c018bcfb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 09/31] fix: a digest problem sets the verdict also when it is
 raised

---
 warcio/digestverifyingreader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..8161a69 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -27,11 +27,11 @@ class DigestChecker(object):
 
     def problem(self, value, passed=False):
         self._problem.append(value)
+        self._passed = passed
         if self.kind == 'raise':
             raise ArchiveLoadFailed(value)
         if self.kind == 'log':
             sys.stderr.write(value + '\n')
-        self._passed = passed
 
 
 # ============================================================================
-- 
2.43.0


From 330b7fe8612d8328911f7403d0a3a691154e5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 10/31] fix: a malformed digest value fails the check instead
 of the read

---
 warcio/digestverifyingreader.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 8161a69..e01d8d4 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -78,7 +78,7 @@ class DigestVerifyingReader(LimitReader):
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
+            check = _check_digest(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed: {}'.format(self.payload_digest))
                 self.payload_digester = None  # prevent double-fire
@@ -94,12 +94,12 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+            check = _check_digest(self.block_digester, self.block_digest)
             if check is False:
                 self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
-            check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
+            check = _check_digest(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
             elif check is True and self.digest_checker.passed is not False:
@@ -108,6 +108,16 @@ class DigestVerifyingReader(LimitReader):
         return buff
 
 
+def _check_digest(digester, digest):
+    '''
+    Compare, a value that can not be decoded does not match
+    '''
+    try:
+        return _compare_digest_rfc_3548(digester, digest)
+    except (ValueError, TypeError):
+        return False
+
+
 def _compare_digest_rfc_3548(digester, digest):
     '''
     The WARC standard does not recommend a digest algorithm and appears to
-- 
2.43.0


From a806bcdc4c0719ae0c76106a71f6377f55164844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 11/31] fix: verify the block digest of an empty block

---
 warcio/digestverifyingreader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index e01d8d4..1d432dc 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -77,6 +77,9 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
+        # empty block: nothing will be read, so check now
+        if self._orig_limit == 0:
+            self._check_block()
         if self.limit == 0:
             check = _check_digest(self.payload_digester, self.payload_digest)
             if check is False:
@@ -85,6 +88,13 @@ class DigestVerifyingReader(LimitReader):
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
 
+    def _check_block(self):
+        check = _check_digest(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
     def _update(self, buff):
         super(DigestVerifyingReader, self)._update(buff)
 
@@ -94,11 +104,7 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _check_digest(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+            self._check_block()
             check = _check_digest(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
-- 
2.43.0


From fdfa57152ee149841d99807bf1561c6e1cc96e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 12/31] fix: the payload of a created record may start at any
 stream position

---
 warcio/recordbuilder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..4881ca0 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -91,9 +91,12 @@ class RecordBuilder(object):
 
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
+            # only a record with http headers is read here
+            is_http = length is not None and record_type in loader.HTTP_RECORDS
+            start = payload.tell() if is_http else 0
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers and length is not None:
-                length -= payload.tell()
+                length -= payload.tell() - start
 
         if not payload:
             payload = BytesIO()
-- 
2.43.0


From ed290e986199cf7e84fc0e832957b31cf4e61623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 13/31] fix: replace_header replaces the header that get_header
 returns

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..5f35259 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -52,7 +52,7 @@ class StatusAndHeaders(object):
         return old header value, if any
         """
         name_lower = name.lower()
-        for index in range(len(self.headers) - 1, -1, -1):
+        for index in range(len(self.headers)):
             curr_name, curr_value = self.headers[index]
             if curr_name.lower() == name_lower:
                 self.headers[index] = (curr_name, value)
-- 
2.43.0


From 96952bacaca21b4204dfe8191fb0a7f3723cc2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 14/31] fix: remove_header removes every header of that name

---
 warcio/statusandheaders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5f35259..8e6e1cc 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -67,12 +67,13 @@ class StatusAndHeaders(object):
         return True if header removed, False otherwise
         """
         name_lower = name.lower()
+        removed = False
         for index in range(len(self.headers) - 1, -1, -1):
             if self.headers[index][0].lower() == name_lower:
                 del self.headers[index]
-                return True
+                removed = True
 
-        return False
+        return removed
 
     def get_statuscode(self):
         """
-- 
2.43.0


From 4aab77fd8068599f232b953044ac3e5b9ecddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 15/31] fix: a header with an empty value is present

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 8e6e1cc..5ee2e39 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -216,7 +216,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
     __setitem__ = replace_header
     __delitem__ = remove_header
     def __contains__(self, key):
-        return bool(self[key])
+        return self[key] is not None
 
 #=================================================================
 def _strip_count(string, total_read):
-- 
2.43.0


From 9dcf905579f0d2ec365a6e5bd8247ec2373ffb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 16/31] fix: Content-Length of a record whose http headers are
 an empty line

---
 warcio/recordloader.py | 2 +-
 warcio/warcwriter.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index fdeef2f..b42f925 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -141,7 +141,7 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..8eb08fd 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -73,7 +73,7 @@ class BaseWARCWriter(RecordBuilder):
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
+        if record.http_headers is not None and record.payload_length >= 0:
             actual_len = 0
 
             if record.http_headers:
-- 
2.43.0


From 0b3483dc3c27350e67694adb019b7fec9fac1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 17/31] fix: Content-Length of a record with generated http
 headers

---
 warcio/recordloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index b42f925..7c6c648 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -147,6 +147,8 @@ class ArcWarcRecordLoader(object):
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
+            if length is not None and payload_length < 0:
+                payload_length = length
 
         if is_verifying:
             stream.begin_payload()
-- 
2.43.0


From e33cdb98af039d4e550abb6935098233c680eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 18/31] fix: write the block of a revisit record whose http
 headers were not parsed

---
 warcio/warcwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 8eb08fd..2ac9fad 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,7 +67,7 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        if record.rec_type == 'revisit' and record.http_headers:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From 64792bd380795847fe2c162c53ddcd7cdb49d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 19/31] fix: the block digest of a revisit record covers what
 is written

---
 warcio/recordbuilder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 4881ca0..498cebe 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -191,8 +191,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # only the http headers of a revisit record are written
+        headers_only = record.rec_type == 'revisit' and record.http_headers
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
-- 
2.43.0


From 2f7a46c4f9eab8ec08a3e698fd2152889d467804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 20/31] fix: close the recorded stream also when writing its
 record fails

---
 warcio/capture_http.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 0587c58..a9615b9 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -62,9 +62,11 @@ class RecordingStream(object):
         return line
 
     def close(self):
-        self.recorder.done()
-        if self.fp:
-            return self.fp.close()
+        try:
+            self.recorder.done()
+        finally:
+            if self.fp:
+                self.fp.close()
 
     def flush(self):
         return self.fp.flush()
-- 
2.43.0


From 3f75cee407e4d32fbe934233b11c9f599c93456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 21/31] fix: leaving a nested capture resumes the enclosing one

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index a9615b9..c70e373 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -258,13 +258,15 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         out = open(warc_writer, 'ab' if append else 'xb')
         warc_writer = WARCWriter(out, **kwargs)
 
+    prev_recorder = getattr(RecordingHTTPConnection.local, 'recorder', None)
+
     try:
         recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = prev_recorder
         if out:
             out.close()
 
-- 
2.43.0


From 25ef36e8ef96f96bb066052d3f4ea11c58fd4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 22/31] fix: BufferedReader.readline counts each piece of a
 line once

---
 warcio/bufferedreaders.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index a390a0d..88525c3 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -201,12 +201,12 @@ class BufferedReader(object):
         if self.empty():
             return b''
 
-        linebuff = self.buff.readline(length)
+        linebuff = piece = self.buff.readline(length)
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
             if length:
-                length -= len(linebuff)
+                length -= len(piece)
                 if length <= 0:
                     break
 
@@ -215,7 +215,8 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            piece = self.buff.readline(length)
+            linebuff += piece
 
         return linebuff
 
-- 
2.43.0


From 6a4612f8181c0369d8d9a321479a263a656b526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 23/31] fix: give each recorded connection its own request and
 proxy state

---
 warcio/capture_http.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index c70e373..f34bf0f 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -90,6 +90,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         else:
             self.recorder = None
 
+        # request, response and proxy state belong to one connection
+        if self.recorder:
+            self.recorder = self.recorder.for_connection()
+
         def make_recording_response(*args, **kwargs):
             return RecordingHTTPResponse(self.recorder, *args, **kwargs)
 
@@ -146,6 +150,12 @@ class RequestRecorder(object):
         self.warc_headers = {}
         self.record_ip = record_ip
 
+    def for_connection(self):
+        recorder = RequestRecorder(self.writer, self.filter_func,
+                                   record_ip=self.record_ip)
+        recorder.lock = self.lock
+        return recorder
+
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
         self.started_req = False
-- 
2.43.0


From 8b1b9ee4e9fdaae36053fbaed6c5c1f2b4a3504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 24/31] fix: IPv6 addresses in the URL and CONNECT target of
 recorded requests

---
 warcio/capture_http.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index f34bf0f..72c7bc1 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -212,6 +212,13 @@ class RequestRecorder(object):
             self.request_out.close()
             self.response_out.close()
 
+    def _url_host(self, host):
+        # IPv6 address
+        if ':' in host and not host.startswith('['):
+            host = '[' + host + ']'
+
+        return host
+
     def extract_url(self, data, host, port, default_port):
         if self.first_line_read:
             return
@@ -224,9 +231,11 @@ class RequestRecorder(object):
         verb = parts[0]
         path = parts[1]
 
+        host = self._url_host(host)
+
         if verb == "CONNECT":
-            parts = path.split(":", 1)
-            self.connect_host = parts[0]
+            parts = path.rsplit(":", 1)
+            self.connect_host = self._url_host(parts[0])
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
             self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
             return
-- 
2.43.0


From b3ba1819ef3b3db8f70ccfb584d4912adb6cb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 25/31] fix: warcio check fails a truncated record instead of
 leaving its digest unchecked

---
 warcio/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/checker.py b/warcio/checker.py
index be0c6af..51e3cec 100644
--- a/warcio/checker.py
+++ b/warcio/checker.py
@@ -49,6 +49,11 @@ class Checker(object):
                 if record.digest_checker.passed is False:
                     self.exit_value = 1
                     output = list(record.digest_checker.problems) 
+                elif record.digest_checker.passed is None and digest_present and \
+                     rec_type != 'revisit' and getattr(record.raw_stream, 'limit', 0) > 0:
+                    # file ends before the record does
+                    self.exit_value = 1
+                    output = ['record truncated, digest could not be checked']
                 elif record.digest_checker.passed is True and self.verbose:
                     d_msg = 'digest pass'
                 elif record.digest_checker.passed is None and self.verbose:
-- 
2.43.0


From 561d0ddfa2e4ed0467dd92ea88e486bef88c92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 26/31] fix: lengths of the ARC file header lines are counted
 in bytes, not characters

---
 warcio/recordloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 7c6c648..8b3b6d9 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -301,8 +301,8 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 4922c8cdaf34b89ac41dacce0149777297ec79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 27/31] fix: http headers whose status line or names are not
 ascii can be written

---
 warcio/statusandheaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5ee2e39..1ef6521 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -14,6 +14,7 @@ import re
 #=================================================================
 class StatusAndHeaders(object):
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
+    NON_ASCII_RX = re.compile(r'[^\x00-\x7f]+')
     """
     Representation of parsed http-style status line and headers
     Status Line if first line of request/response
@@ -177,6 +178,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             self.percent_encode_non_ascii_headers()
             string = self.to_str(filter_func)
+            # whatever else is not ascii, eg. the status line or a header name
+            string = self.NON_ASCII_RX.sub(lambda m: quote(to_native_str(m.group())), string)
             string = string.encode('ascii')
 
         return string + b'\r\n'
-- 
2.43.0


From 4e2be95ef3c962bd4c75e7dd194a5de429ab699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 28/31] fix: reading a record with a length larger than any
 buffer

---
 warcio/bufferedreaders.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 88525c3..003c186 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -165,8 +165,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
-        if length is not None and length < 0:
-            length = None
+        if length is not None:
+            # a declared length may be larger than any read can take
+            length = min(length, sys.maxsize) if length >= 0 else None
 
         all_buffs = []
         while length is None or length > 0:
@@ -193,8 +194,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
-        if length is not None and length < 0:
-            length = None
+        if length is not None:
+            # a declared length may be larger than any read can take
+            length = min(length, sys.maxsize) if length >= 0 else None
 
         self._fillbuff()
 
-- 
2.43.0


From c36d8c561575390c018956e976cef27d3540cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 29/31] fix: a digest whose algorithm name holds a NUL fails
 the check instead of the read

---
 warcio/digestverifyingreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 1d432dc..2cdff1a 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -64,14 +64,14 @@ class DigestVerifyingReader(LimitReader):
             try:
                 algo, _ = _parse_digest(block_digest)
                 self.block_digester = Digester(algo)
-            except ValueError:
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in block digest')
                 self.block_digester = None
         if payload_digest:
             try:
                 algo, _ = _parse_digest(self.payload_digest)
                 self.payload_digester_obj = Digester(algo)
-            except ValueError:
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
-- 
2.43.0


From 262137a2acdf69573a5a3da6186e581370d4f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 30/31] fix: giving a LimitReader a smaller limit moved its
 position

---
 warcio/limitreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..b78985f 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
-                    stream.limit = min(stream.limit, content_length)
+                    limit = min(stream.limit, content_length)
+                    # keep the position: number of bytes already read
+                    stream._orig_limit -= stream.limit - limit
+                    stream.limit = limit
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From 5903fef60b1aa441d77588e5f4069419c8ef8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:08 +0000
Subject: [PATCH 31/31] fix: an empty gzip member before a record no longer
 ends the iteration after it

---
 warcio/archiveiterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..474ec87 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,9 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
-- 
2.43.0

