From 4017d73677fca875318ec658ebad47f88e0b1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 01/31] fix: check the digest of the last chunk before
 appending to it

---
 bloscpack/append.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..c3e7186 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -117,7 +118,10 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    # never rewrite a damaged chunk with a fresh digest
+    if checksum_impl.size > 0 and digest != checksum_impl(compressed):
+        raise ChecksumMismatch(
+                "Checksum mismatch detected in last chunk, can not append")
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From 7013e935971b24bcc4c095511db697c533f1e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 02/31] fix: a chunk whose digest was cut off is not intact

---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From 223f2bb056f3a02ad850901ad52458b16a94cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 03/31] fix: appending an empty file by name divided by zero

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index c3e7186..595fbc4 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -223,8 +223,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From 29e0e35eb1e7f7d84a31137407daf8b0a802cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 04/31] fix: exceptions have no 'message' attribute in Python 3

---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From 72340c65ce9f65513bfa47cfaa29ec8268333127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 05/31] fix: set_level never set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..6a83d8e 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -24,6 +24,8 @@ def set_level(level):
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    global LEVEL
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 2344c74f880e983b5a9e8facfc8c27f297cc67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 06/31] fix: writing metadata deactivated the codec in the
 caller's arguments

---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..0cade27 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -82,6 +82,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    # the codec may be deactivated below, leave the caller's object alone
+    metadata_args = metadata_args.copy()
     metadata_total = 0
     metadata_total += METADATA_HEADER_LENGTH
     serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
-- 
2.43.0


From 07b4a2a3471d2d7968298131da92055524fc7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 07/31] fix: append filled in the caller's blosc arguments

---
 bloscpack/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 595fbc4..06d9fb9 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -93,6 +93,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        # the defaults are filled in below, leave the caller's object alone
+        blosc_args = blosc_args.copy()
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
-- 
2.43.0


From 5f2838e120a2cfc6eef4b6d5ad752324dccb942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 08/31] fix: packing an array changed the typesize in the
 caller's arguments

---
 bloscpack/numpy_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..e89bb50 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -180,6 +180,7 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From 71fb396caf05c2857a9dd510d9c85940c3d95d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 09/31] fix: append left the tail of a larger last chunk at the
 end of the file

---
 bloscpack/append.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 06d9fb9..6554f3d 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -139,6 +139,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
         digest = checksum_impl(compressed)
         _write_compressed_chunk(original_fp, compressed, digest)
+        # the new chunk may be smaller than the old one
+        original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
         bloscpack_header.last_chunk += new_size
@@ -182,6 +184,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
 
         compressed = _compress_chunk_str(chunk, blosc_args)
         sink.put(i, compressed)
+    # the new chunks may be smaller than the old last one
+    original_fp.truncate()
 
     # build the new header
     bloscpack_header.last_chunk = last_chunk_size
-- 
2.43.0


From fa420cdb724ec9f3997317f083a7c589e214f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 10/31] fix: the level recorded for uncompressed metadata must
 be zero

---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0cade27..0681970 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -123,7 +123,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From a055c480ffe50768cf4daf0860866636129a56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 11/31] fix: only the trailing padding of magic and user codec
 is padding

---
 bloscpack/headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..83f270d 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -128,9 +128,9 @@ def decode_bitfield(byte):
 
 def decode_magic_string(str_):
     if PY3:
-        return str_.strip(b'\x00')
+        return str_.rstrip(b'\x00')
     else:
-        return str_.strip('\x00')
+        return str_.rstrip('\x00')
 
 
 def encode_uint8(byte):
-- 
2.43.0


From 99b6f3579ce39b98a585a639bd84dd1bdfd4c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 12/31] fix: metadata that does not describe an array is not a
 numpy array

---
 bloscpack/numpy_io.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index e89bb50..a442840 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -121,7 +121,9 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if (not isinstance(metadata, dict) or
+                metadata.get('container') != 'numpy' or
+                not all(k in metadata for k in ('dtype', 'shape', 'order'))):
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
@@ -133,12 +135,18 @@ class PlainNumpySink(PlainSink):
         # them. In this case, it will raise a TypeError and the _conv function
         # above is used to convert the dtype accordingly.
         try:
-            dtype_ = ast.literal_eval(metadata['dtype'])
-        except (ValueError, SyntaxError):
-            dtype_ = _conv(metadata['dtype'])
-        self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
-                                   order=metadata['order'])
+            try:
+                dtype_ = ast.literal_eval(metadata['dtype'])
+            except (ValueError, SyntaxError):
+                dtype_ = _conv(metadata['dtype'])
+            dtype_ = numpy.dtype(dtype_)
+            if dtype_.hasobject:
+                raise NotANumpyArray
+            self.ndarray = numpy.empty(metadata['shape'],
+                                       dtype=dtype_,
+                                       order=metadata['order'])
+        except (TypeError, ValueError, SyntaxError, LookupError) as e:
+            raise NotANumpyArray("invalid array description: %s" % e)
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
     def put(self, compressed):
-- 
2.43.0


From d30ba07e8d6fee4a6c1c4c369c950c1c58f2c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 13/31] fix: structured arrays with padding could not be
 unpacked

---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index a442840..7816605 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -139,7 +139,8 @@ class PlainNumpySink(PlainSink):
                 dtype_ = ast.literal_eval(metadata['dtype'])
             except (ValueError, SyntaxError):
                 dtype_ = _conv(metadata['dtype'])
-            dtype_ = numpy.dtype(dtype_)
+            # unlike numpy.dtype, this restores padding too
+            dtype_ = numpy.lib.format.descr_to_dtype(dtype_)
             if dtype_.hasobject:
                 raise NotANumpyArray
             self.ndarray = numpy.empty(metadata['shape'],
-- 
2.43.0


From 0fd8f23ef1e174ffdfd1a81bb0553bae145bc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 14/31] fix: never unpack more or less data than the array
 holds

---
 bloscpack/numpy_io.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 7816605..2d36ab1 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -31,6 +31,8 @@ from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
                          )
+from .headers import (decode_blosc_header,
+                      )
 from .pretty import (double_pretty_size,
                      )
 from . import log
@@ -149,10 +151,15 @@ class PlainNumpySink(PlainSink):
         except (TypeError, ValueError, SyntaxError, LookupError) as e:
             raise NotANumpyArray("invalid array description: %s" % e)
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        self.remaining = self.ndarray.nbytes
 
     def put(self, compressed):
+        # do not write past the end of the array
+        if decode_blosc_header(compressed)['nbytes'] > self.remaining:
+            raise ValueError("there is more data than fits into the array")
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -314,6 +321,8 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError("there is not enough data to fill the array")
     return sink.ndarray
 
 
-- 
2.43.0


From 158ec635eb2c63587886f6093d9ca34a9c70e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 15/31] fix: append with metadata that can not be stored still
 appended the data

---
 bloscpack/cli.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..498b6f4 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -22,6 +22,8 @@ from .append import (append,
                      )
 from .checksums import (CHECKSUMS_AVAIL,
                         )
+from .compat_util import (StringIO,
+                          )
 from .constants import (SUFFIXES,
                         CNAME_AVAIL,
                         EXTENSION,
@@ -45,6 +47,7 @@ from .file_io import (pack_file_to_file,
                       unpack_file_from_file,
                       _read_beginning,
                       _read_compressed_chunk_fp,
+                      _read_metadata,
                       )
 from .headers import (decode_blosc_flags,
                       )
@@ -492,6 +495,16 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
+        if metadata is not None:
+            # find out if the metadata can be stored before appending the data
+            with open(original_file, 'rb') as fp:
+                _seek_to_metadata(fp)
+                _read_metadata(fp)
+                beginning_size = fp.tell()
+                fp.seek(0)
+                beginning = StringIO(fp.read(beginning_size))
+            _seek_to_metadata(beginning)
+            _rewrite_metadata_fp(beginning, metadata)
         append(original_file, new_file, blosc_args=blosc_args)
         if metadata is not None:
             with open(original_file, 'r+b') as fp:
-- 
2.43.0


From 517b0ec7e207397d0b8338d112c6a95941207a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 16/31] fix: packing, unpacking or appending a file to itself
 destroyed it

---
 bloscpack/append.py  | 2 ++
 bloscpack/file_io.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 6554f3d..e411f43 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -41,6 +41,7 @@ from .exceptions import (NoMetadataFound,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
+                      _check_not_same_file,
                       _read_beginning,
                       _read_compressed_chunk_fp,
                       _write_offsets,
@@ -224,6 +225,7 @@ def append(orig_file, new_file, blosc_args=None):
     log.verbose('orig file size before append: %s' %
             double_pretty_size(orig_size_before))
     log.verbose('new file size: %s' % double_pretty_size(new_size))
+    _check_not_same_file(new_file, orig_file)
 
     with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
         append_fp(orig_fp, new_fp, new_size, blosc_args)
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0681970..68f6277 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -57,6 +57,13 @@ from .abstract_io import (PlainSource,
 from . import log
 
 
+def _check_not_same_file(in_file, out_file):
+    """ Refuse to write to the file that is being read. """
+    if path.exists(out_file) and path.samefile(in_file, out_file):
+        raise ValueError("'%s' and '%s' are the same file" %
+                         (in_file, out_file))
+
+
 def _write_metadata(output_fp, metadata, metadata_args):
     """ Write the metadata to a file pointer.
 
@@ -456,6 +463,7 @@ def pack_file_to_file(in_file, out_file,
     """
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % double_pretty_size(in_file_size))
+    _check_not_same_file(in_file, out_file)
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(in_file_size, chunk_size)
@@ -503,6 +511,7 @@ def unpack_file_from_file(in_file, out_file):
     """
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % pretty_size(in_file_size))
+    _check_not_same_file(in_file, out_file)
     with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
         source = CompressedFPSource(input_fp)
         sink = PlainFPSink(output_fp, source.nchunks)
-- 
2.43.0


From d658c430d0bc49cfe9e0e01b864c693f2163e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 17/31] fix: a premature end of the input was packed or
 appended as if complete

---
 bloscpack/append.py  |  5 +++--
 bloscpack/file_io.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e411f43..d7975c3 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -48,6 +48,7 @@ from .file_io import (PlainFPSource,
                       _write_compressed_chunk,
                       _read_bloscpack_header,
                       _read_metadata,
+                      _read_plain,
                       _write_metadata,
                       )
 from .headers import check_range
@@ -144,7 +145,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += new_size
+        bloscpack_header.last_chunk += len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
@@ -154,7 +155,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # figure out what is left over
     new_new_size = new_size - bytes_to_read
     # read those bytes
-    fill_up = new_content_fp.read(bytes_to_read)
+    fill_up = _read_plain(new_content_fp, bytes_to_read)
     # figure out how many chunks we will need
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(new_new_size,
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 68f6277..0faee96 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -350,6 +350,15 @@ def _write_compressed_chunk(output_fp, compressed, digest):
         output_fp.write(digest)
 
 
+def _read_plain(input_fp, num_bytes):
+    """ Read exactly 'num_bytes' of plain data. """
+    data = input_fp.read(num_bytes)
+    if len(data) != num_bytes:
+        raise EOFError("premature end of input, expected %d bytes, got %d" %
+                       (num_bytes, len(data)))
+    return data
+
+
 class PlainFPSource(PlainSource):
 
     def __init__(self, input_fp):
@@ -360,7 +369,7 @@ class PlainFPSource(PlainSource):
         for num_bytes in ([self.chunk_size] *
                           (self.nchunks - 1) +
                           [self.last_chunk]):
-            yield self.input_fp.read(num_bytes)
+            yield _read_plain(self.input_fp, num_bytes)
 
 
 class CompressedFPSource(CompressedSource):
-- 
2.43.0


From 6e20367aeb72c6adca3611f430dd12503a4f4f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 18/31] fix: a metadata level out of range must be refused even
 when it is not used

---
 bloscpack/file_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0faee96..db61953 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -26,6 +26,7 @@ from .constants import (METADATA_HEADER_LENGTH,
                         BLOSCPACK_HEADER_LENGTH,
                         BLOSC_HEADER_LENGTH,
                         FORMAT_VERSION,
+                        MAX_CLEVEL,
                         )
 from .compat_util import (StringIO,
                           )
@@ -41,6 +42,7 @@ from .exceptions import (MetadataSectionTooSmall,
 from .headers import (decode_blosc_header,
                       BloscpackHeader,
                       MetadataHeader,
+                      check_range,
                       decode_int64,
                       encode_int64,
                       )
@@ -89,6 +91,7 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    check_range('meta_level', metadata_args.meta_level, 0, MAX_CLEVEL)
     # the codec may be deactivated below, leave the caller's object alone
     metadata_args = metadata_args.copy()
     metadata_total = 0
-- 
2.43.0


From 0326417a4b7d4b6f0d3fd3d7c82b17dbb996a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 19/31] fix: decompress did not print metadata that is empty or
 zero

---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 498b6f4..4d62248 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -473,7 +473,7 @@ def main():
             log.error(str(fnf))
         try:
             metadata = unpack_file_from_file(in_file, out_file)
-            if metadata:
+            if metadata is not None:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
             log.error(str(fvm))
-- 
2.43.0


From bc1e753a7ccb791fb0064d63fbf9d295a25ff901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 20/31] fix: an offsets section that is cut off was accepted by
 file objects in memory

---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index db61953..f08ba69 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -270,6 +270,8 @@ def _read_offsets(input_fp, bloscpack_header):
         total_entries = bloscpack_header.total_prospective_chunks
         offsets_raw = input_fp.read(8 * total_entries)
         log.debug('Read raw offsets: %s' % repr(offsets_raw))
+        if len(offsets_raw) != 8 * total_entries:
+            raise ValueError("the offsets section is cut off")
         offsets = [decode_int64(offsets_raw[j - 8:j]) for j in
                    xrange(8, bloscpack_header.nchunks * 8 + 1, 8)]
         log.debug('Offsets: %s' % offsets)
-- 
2.43.0


From 96193a0b67835fcbadd08380112e4da21077743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 21/31] fix: refuse chunks whose header states a size smaller
 than that header

A chunk and CRC-32 digest overwritten with zeros were read as an empty
chunk with a correct digest, since the CRC-32 of no bytes is zero: the
damage went unnoticed by every reader and by append.
---
 bloscpack/file_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index f08ba69..5ecc0ef 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -338,6 +338,11 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     if log.LEVEL == log.DEBUG:
         log.debug('blosc_header: %s' % repr(blosc_header))
     ctbytes = blosc_header['ctbytes']
+    # the CRC-32 of no bytes at all is zero, so that a chunk and digest
+    # overwritten with zeros would pass for a chunk without content
+    if ctbytes < BLOSC_HEADER_LENGTH:
+        raise ValueError("the size in the chunk header is too small: %d" %
+                         ctbytes)
     # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
     # position. Blosc needs the header too and presumably this is
     # better than to read the whole buffer and then concatenate it...
-- 
2.43.0


From 8293405cabdf7528d7b79dbe84b54cc692d1dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 22/31] fix: append to a container whose metadata is null

The metadata section is there even if what it contains is null: the
offsets were written over it.
---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index d7975c3..9d3a5ee 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -117,7 +117,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if bloscpack_header.metadata else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From 20a912ac6fac3f11257e5bf120c287d0cb118388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 23/31] fix: state the true last chunk after appending where it
 was unknown

A header may leave the size of the last chunk unknown (-1).
---
 bloscpack/append.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 9d3a5ee..98d1f0f 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -145,7 +145,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += len(fill_up)
+        # the header may not have stated the size of the last chunk
+        bloscpack_header.last_chunk = ultimo_length + len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
-- 
2.43.0


From fda948bb9916ba5ed324b5cb9ee3e39e96242293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 24/31] fix: pack_bytes_to_bytes reported an output size that
 left the chunks out

---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 5ecc0ef..ecf29e7 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -688,7 +688,8 @@ def pack_bytes_to_bytes(bytes_,
          blosc_args=blosc_args,
          bloscpack_args=bloscpack_args,
          metadata_args=metadata_args)
-    out_bytes_size = sio.tell()
+    # the file pointer is at the end of the offsets now
+    out_bytes_size = len(sio.getvalue())
     log.verbose('output bytes size: %s' % double_pretty_size(out_bytes_size))
     log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))
     return sio.getvalue()
-- 
2.43.0


From 75f60f2947b608c080f457f5b7926a380665eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 25/31] fix: append reported the inverse of the compression
 ratio of what was added

---
 bloscpack/append.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 98d1f0f..33dc5e0 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -234,9 +234,11 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    if new_size > 0:
+    grown = orig_size_after - orig_size_before
+    # the last chunk was compressed anew, and may have become smaller
+    if new_size > 0 and grown > 0:
         log.verbose('Approximate compression ratio of appended data: %f' %
-                ((orig_size_after-orig_size_before)/new_size))
+                (new_size/grown))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From f4dc7778d0a954ab749192a1132b17ca9cb96e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 26/31] fix: packing an array reported the size of each chunk
 as two bytes

---
 bloscpack/abstract_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index d55eb4b..178ac8f 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -160,8 +160,10 @@ def pack(source, sink,
         compressed = compress_func(chunk, blosc_args)
         sink.put(i, compressed)
         if log.LEVEL == log.DEBUG:
+            # a chunk may be something else than bytes
             log.debug("chunk handled, in: %s out: %s" %
-                    (double_pretty_size(len(chunk)),
+                    (double_pretty_size(last_chunk if i == nchunks - 1
+                                        else chunk_size),
                     double_pretty_size(len(compressed))))
     sink.finalize()
 
-- 
2.43.0


From daa99e7d4d32fb95149ca1f76e1779fea51b4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:48 +0000
Subject: [PATCH 27/31] fix: an end of the input between the header and the
 body of a chunk was taken for an empty chunk

---
 bloscpack/file_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index ecf29e7..c71cd10 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -349,6 +349,11 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     input_fp.seek(-BLOSC_HEADER_LENGTH, 1)
     # read chunk
     compressed = input_fp.read(ctbytes)
+    # without a checksum nobody else notices, blosc takes no bytes at all for a
+    # chunk without content
+    if len(compressed) != ctbytes:
+        raise EOFError("premature end of input, expected %d bytes, got %d" %
+                       (ctbytes, len(compressed)))
     digest = input_fp.read(checksum_impl.size) \
         if checksum_impl.size > 0 else None
     return compressed, blosc_header, digest
-- 
2.43.0


From 08c6356aa0ca39f6839a53dee57b3ba942526865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:46 +0000
Subject: [PATCH 28/31] fix: a container with an unknown number of chunks was
 read as if it had none

(cherry picked from commit 0a2afcff672f46a28b576f6c9753737bef63fd03)
---
 bloscpack/file_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index c71cd10..e95c506 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -398,6 +398,11 @@ class CompressedFPSource(CompressedSource):
         self.nchunks = self.bloscpack_header.nchunks
 
     def __iter__(self):
+        # the number of chunks may be unknown, they go on to the end then
+        while self.nchunks == -1 and self.input_fp.read(1):
+            self.input_fp.seek(-1, 1)
+            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
+            yield compressed, digest
         for i in xrange(self.nchunks):
             compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
             yield compressed, digest
-- 
2.43.0


From 16a3d26cfdabca072e4ed079a26c3aa720fd6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:56 +0000
Subject: [PATCH 29/31] fix: a metadata section that is cut off was read, and
 filled up to its size when it was replaced

(cherry picked from commit 1fe2befe6ca3cb13e0bebb1348c334ea47293ee6)
---
 bloscpack/file_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index e95c506..ded56da 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -218,7 +218,12 @@ def _read_metadata(input_fp):
     log.debug(metadata_header.pformat())
     metadata = input_fp.read(metadata_header.meta_comp_size)
     prealloc = metadata_header.max_meta_size - metadata_header.meta_comp_size
-    input_fp.seek(prealloc, 1)
+    # all of the section must be there, as all of it is written to later on
+    if prealloc > 0:
+        input_fp.seek(prealloc - 1, 1)
+    if (prealloc < 0 or len(metadata) != metadata_header.meta_comp_size or
+            prealloc > 0 and len(input_fp.read(1)) != 1):
+        raise ValueError("the metadata section is cut off")
     if metadata_header.meta_checksum != 'None':
         metadata_checksum_impl = CHECKSUMS_LOOKUP[metadata_header.meta_checksum]
         metadata_expected_digest = input_fp.read(metadata_checksum_impl.size)
-- 
2.43.0


From b0dc5de1371dd9274f174d9878a2aab7087958c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 30/31] fix: metadata that differ only in 1, 1.0 or true were
 not replaced, as if nothing had changed

---
 bloscpack/append.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 33dc5e0..a0a5515 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 import os.path as path
 import itertools
+import json
 
 
 import blosc
@@ -287,7 +288,10 @@ def _rewrite_metadata_fp(target_fp, new_metadata,
     current_pos = target_fp.tell()
     # read the metadata section
     old_metadata, old_metadata_header = _read_metadata(target_fp)
-    if old_metadata == new_metadata:
+    # 1, 1.0 and True are equal, but they are different metadata
+    if (old_metadata == new_metadata and
+            json.dumps(old_metadata, sort_keys=True) ==
+            json.dumps(new_metadata, sort_keys=True)):
         raise NoChangeInMetadata(
                 'you requested to update metadata, but this has not changed')
     new_metadata_args = _recreate_metadata(old_metadata_header, new_metadata,
-- 
2.43.0


From 800985617fe411e7c97df05cd6954e7e98146bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:09 +0000
Subject: [PATCH 31/31] fix: unpack_ndarray_from_file left the closing of the
 file to the garbage collector

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 2d36ab1..a443ee3 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -344,8 +344,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0

