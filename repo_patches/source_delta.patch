From 256e9427fdf13951220d8fc707b6e967f566216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:20 +0000
Subject: [PATCH 01/23] fix: http2 encoder looped forever re-encoding an
 evicted referenced :path

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From e1e67aeb66f84a88ef1e2ca1656d71f14bf1931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 02/23] fix: keep a request's own Host header, and derive :host
 from the URL's authority otherwise

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..900b84b 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From 529c7608af9a3899bfe93bda34e5f3b80c7b565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 03/23] fix: a URL without a path requests /

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 900b84b..8875ccd 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From 37651fda66780e4e866e9149458823dfcc4b45d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 04/23] fix: reporting an unparsable HAR file raised TypeError

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 8875ccd..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From aae4fa46c258aefed398f407729042728f4ab6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 05/23] fix: locale.format is gone from Python 3.12; printing a
 summary crashed

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 275fb88068f2693c2b7cecf4fdea4160d10c6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 06/23] fix: totalling streams appended the other streams'
 messages to the first one's

---
 lib/stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/stream.py b/lib/stream.py
index 5493838..c8c3aea 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,8 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
-    new.messages.extend(other.messages) # NB: not great for memory
+    new = Stream('', self.messages + other.messages, self.msg_type, self.procs)
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
     new.times = merge_dols(self.times, other.times)
-- 
2.43.0


From b090cfdc33e024dd314f9a09f3e559c3b8054ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 07/23] fix: a lone session was renamed TOTAL in the TSV output

---
 compare_compressors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..d8048f7 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -13,6 +13,7 @@ Tests various HTTP header compression algorithms, to compare them.
 # pylint: disable=W0311
 
 from collections import defaultdict
+from copy import copy
 from importlib import import_module
 import locale
 import optparse
@@ -59,7 +60,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = copy(reduce(operator.add, [s for s in sessions if s.msg_type == msg_type]))
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
-- 
2.43.0


From 1115ac0608488204cd4a5bd0aea57bd3e694928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 08/23] fix: the zlib-based codecs gave zlib text instead of
 bytes and could not run

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 compressor/spdy3/__init__.py         | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..5bc5029 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..4e48603 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..5dc149f 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-- 
2.43.0


From 92babeb3422d1afd25c12019a30352d685771393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 09/23] fix: the fork codec could not be imported, and wrote
 text to a binary pipe

---
 compressor/fork/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..730f630 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,18 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From 10132a970332cde9d28619a4cb045addf21cf3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 10/23] fix: connection options are case-insensitive and may
 come in several header fields

---
 lib/processors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..ec60907 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,8 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      ignore_hdrs.extend([x.strip(' ').lower() for x in
+                          hdrs['connection'].replace('\0', ',').split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 2b6856e1635f77b2479cdbbaded58b2a28e02d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 11/23] fix: headerdiff with deflate fed the frame header to
 the inflater and could not decode

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..b7ad5d4 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 1c633b4dda6ead3a43b9efc446c75ed039303c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 12/23] fix: headerdiff took headers whose name and value
 concatenate alike for the same header

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index b7ad5d4..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From 5129852f108522baa7ed1c7ad09fbf99dbe48d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 13/23] fix: delta filled its static entries from leaked loop
 variables; a header of that name crashed the decoder

---
 compressor/delta/spdy4_codec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..0b1d755 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -662,10 +662,11 @@ class Storage(object):
     self.key_idx_to_ke = {}
 
     for (k, v) in g_default_kvs:
-      ke = self.FindKeyEntry(key)
+      ke = self.FindKeyEntry(k)
       if ke is None:
-        self.key_map[key] = ke = self.NewKE(key)
-      ke.val_map[val] = ve = self.NewVE(key, val, ke)
+        self.key_map[k] = ke = self.NewKE(k)
+        self.key_idx_to_ke[ke.key_idx] = ke
+      ke.val_map[v] = ve = self.NewVE(k, v, ke)
       ve.lru_idx = lru_idx = self.GetNextUnusedLruId()
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru_ids.minimum_id = lru_idx
-- 
2.43.0


From fc6bc573a59ae10bf9f8c5da11e6224ff9d70d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 14/23] fix: delta wrote more than 256 operations of a kind
 under one count

---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 0b1d755..c5b5937 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -407,7 +407,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - orig_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
-- 
2.43.0


From cd251f2e1f917b415ac67d866ed66cb321d1e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 15/23] fix: delta's store ignored its limits: eviction by size
 crashed, sizes were miscounted, keys never left

---
 compressor/delta/spdy4_codec_impl.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index c5b5937..843ef33 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -683,14 +683,16 @@ class Storage(object):
   def MakeSpace(self, space_required, adding_val):  ####
     """
     Makes enough space for 'space_required' new bytes and 'adding_val' new val
-    entries by popping elements from the LRU (using PopOne)
+    entries by popping elements from the LRU (using PopOne). Returns whether
+    there is enough space.
     """
     while self.num_vals + adding_val > self.max_vals:
       if not self.PopOne():
-        return
+        return False
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
-        return
+      if not self.PopOne():
+        return False
+    return True
 
   def FindKeyEntry(self, key): ####
     if key in self.key_map:
@@ -717,7 +719,8 @@ class Storage(object):
     ke = self.FindKeyEntry(key)
     if ke is not None:
       return ke
-    self.MakeSpace(len(key), 0)
+    if not self.MakeSpace(len(key), 0):
+      return None
     self.key_map[key] = ke = self.NewKE(key)
     key_idx = ke.key_idx
     if key_idx in self.key_idx_to_ke:
@@ -728,13 +731,17 @@ class Storage(object):
 
   def InsertVal(self, key, val): ####
     ke = self.FindOrAddKey(key)
-    if ke.val_map.get(val, None) is not None:
+    if ke is None or ke.val_map.get(val, None) is not None:
       return None
     self.IncrementRefCnt(ke)
-    self.MakeSpace(len(val), 1)
+    has_space = self.MakeSpace(len(val), 1)
+    self.DecrementRefCnt(ke)
+    if not has_space:
+      self.MaybeRemoveFromKeyMap(ke)
+      return None
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
-    self.DecrementRefCnt(ke)
     return ve
 
   def GetNextUnusedLruId(self):
@@ -791,6 +798,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From 2dceb59d00f24cc5afc6ef463dfe889176491bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 16/23] fix: simple: keep header values that are not canonical
 dates (date parameter)

---
 compressor/simple/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..d0ebb66 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -130,12 +130,17 @@ class Processor(BaseProcessor):
       elif name in self.ignore_hdrs:
         continue
       # re-encoding
+      hdr_name = self.hdr_name(name)
       if self.compress_dates and name in self.date_hdrs:
         try:
-          value = "%x" % parse_date(value)
+          date = parse_date(value)
+          if format_date(date) != value:
+            raise ValueError
+          value = "%x" % date
         except ValueError:
-          pass
-      headers[self.hdr_name(name)] = value
+          # send it literally, so that it is not taken for a number.
+          hdr_name = "!%s" % name
+      headers[hdr_name] = value
     self.last_c = in_headers
     if refs:
       headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
-- 
2.43.0


From e9f72a1228c23713457b25a79bacfa48bdc266bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 17/23] fix: simple: tell a header named h from the host

---
 compressor/simple/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index d0ebb66..e0fc2f8 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -119,7 +119,7 @@ class Processor(BaseProcessor):
       and name[0] != ":" \
       and self.last_c.get(name, None) == value \
       and len(refs) < self.max_entries:
-        refs.append(name)
+        refs.append(self.hdr_name(name))
         continue
       elif self.last_c \
       and name == ':host' \
@@ -143,7 +143,7 @@ class Processor(BaseProcessor):
       headers[hdr_name] = value
     self.last_c = in_headers
     if refs:
-      headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
+      headers["ref"] = ",".join(refs)
     if headers.has_key('h'):
       headers[':host'] = headers['h']
       del headers['h']
@@ -162,7 +162,7 @@ class Processor(BaseProcessor):
       if name == "ref":
         continue
       elif name == ":host":
-        out_headers['h'] = headers[name]
+        out_headers[':host'] = headers[name]
       elif name[0] == ":":
         out_headers[name] = headers[name]
       elif name[0] == '!':
@@ -190,9 +190,6 @@ class Processor(BaseProcessor):
           sys.stdout.write("\n\n%s\n\n" % repr(self.last_d))
           raise
     self.last_d = copy(out_headers)
-    if out_headers.has_key('h'):
-      out_headers[':host'] = out_headers['h']
-      del out_headers['h']
     return out_headers
 
   def hdr_name(self, name):
-- 
2.43.0


From 76bb20c342f0e9b3b732f0adb22f8d51591fe88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:20 +0000
Subject: [PATCH 18/23] fix: bohe: StoreBits22 stores the low 22 bits

---
 compressor/bohe/bit_bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..72e95f1 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,7 +63,7 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)
     self.StoreBits ( (StrToList(tmp_val), 22))
 
   def StoreBits32(self, val):
-- 
2.43.0


From 2503dba28d6599a9b9d6d1c9e77d987f13d251e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:20 +0000
Subject: [PATCH 19/23] fix: bohe: set the flag of several values

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..648eb6c 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -43,7 +43,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
           dohuff = False
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +59,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From f6f1023802c2474f3fa0bca3620471f021fa3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 20/23] fix: bohe: field names of no-cache and private

---
 compressor/bohe/bohe.py        | 2 +-
 compressor/delta2_bohe/bohe.py | 2 +-
 compressor/delta_bohe/bohe.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 2d0bbd9..e24f0f4 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 2ab1698..3127ba7 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -170,7 +170,7 @@ class CacheControlEncoder(BaseEncoder):
     else:
       encoded += self.enc_uvarint(self.valOrZero(parts,'s-maxage'))
       for prt in ['no-cache','private']:
-        if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+        if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
           encoded += self.enc_uvarint(1)
           encoded += self.enc_uvarint(len(parts[prt]))
           encoded += parts[prt]
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 76a24d1..1b5141b 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
-- 
2.43.0


From 3f9f505161fa295026546e8a39d8228e94f9c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 21/23] fix: bohe: methods in capitals

---
 compressor/bohe/bohe.py        | 2 +-
 compressor/delta2_bohe/bohe.py | 2 +-
 compressor/delta_bohe/bohe.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index e24f0f4..e48054f 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -144,7 +144,7 @@ def enc_method(val, type='req'):
     'options': struct.pack('!B',6),
     'connect': struct.pack('!B',7),
   }
-  if val in methods:
+  if val.lower() in methods:
     return methods[val.lower()]
   else: 
     return val
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 3127ba7..727ec65 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -193,7 +193,7 @@ class MethodEncoder(BaseEncoder):
       'options': struct.pack('!B',6),
       'connect': struct.pack('!B',7),
     }
-    if val in methods:
+    if val.lower() in methods:
       return methods[val.lower()]
     else: 
       return val
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 1b5141b..9e56c68 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -144,7 +144,7 @@ def enc_method(val, type='req'):
     'options': struct.pack('!B',6),
     'connect': struct.pack('!B',7),
   }
-  if val in methods:
+  if val.lower() in methods:
     return methods[val.lower()]
   else: 
     return val
-- 
2.43.0


From 4df9e0395c836724c9f0a39790c43724fccd9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:08 +0000
Subject: [PATCH 22/23] fix: bohe: StoreBits22 takes three octets

---
 compressor/bohe/bit_bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 72e95f1..90eee9a 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -64,7 +64,7 @@ class BitBucket:
     Stores the 22 least-significant bits from val in network order (big endian)
     """
     tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)
-    self.StoreBits ( (StrToList(tmp_val), 22))
+    self.StoreBits( (StrToList(tmp_val)[:3], 22))
 
   def StoreBits32(self, val):
     """
-- 
2.43.0


From 98ce2fc341f3e617994069a37bf10c7992edc8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 23/23] fix: bit buckets: BitsRemaining was one short

---
 compressor/bohe/bit_bucket.py        | 2 +-
 compressor/delta/bit_bucket.py       | 2 +-
 compressor/delta2/bit_bucket.py      | 2 +-
 compressor/delta2_bohe/bit_bucket.py | 2 +-
 compressor/delta_bohe/bit_bucket.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 90eee9a..c779815 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -146,7 +146,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta/bit_bucket.py b/compressor/delta/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta/bit_bucket.py
+++ b/compressor/delta/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2/bit_bucket.py b/compressor/delta2/bit_bucket.py
index b6f522d..2ab870f 100644
--- a/compressor/delta2/bit_bucket.py
+++ b/compressor/delta2/bit_bucket.py
@@ -155,7 +155,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2_bohe/bit_bucket.py b/compressor/delta2_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta2_bohe/bit_bucket.py
+++ b/compressor/delta2_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta_bohe/bit_bucket.py b/compressor/delta_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta_bohe/bit_bucket.py
+++ b/compressor/delta_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
-- 
2.43.0

