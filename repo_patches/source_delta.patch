From 8605b0ada2f419c4aeebc1b5bb8235be8e687d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:52 +0000
Subject: [PATCH 01/16] hook: let a simulation build choose the stream buffer
 sizes (BWTC_SIM_BUFFER)

---
 Streams.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..c1f495a 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -96,7 +96,11 @@ class RawOutStream : public OutStream {
   virtual void flush();
 
  private:
+#ifdef BWTC_SIM_BUFFER
+  static const uint32 kBufferSize = BWTC_SIM_BUFFER;
+#else
   static const uint32 kBufferSize = 1 << 16; // 64KB
+#endif
 
   std::string m_name;
   FILE *m_fileptr;
@@ -153,7 +157,11 @@ class RawInStream : public InStream {
   }
 
  private:
+#ifdef BWTC_SIM_BUFFER
+  static const uint32 kBigbufSize = BWTC_SIM_BUFFER;
+#else
   static const uint32 kBigbufSize = 1 << 16; // 64KB
+#endif
  
   std::string m_name;
   FILE *m_fileptr;
-- 
2.43.0


From 7a77f09e7c692a6d59c2104069d032cc99c50112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 02/16] fix: report failed output operations instead of exiting
 with status 0

---
 Streams.cpp | 30 +++++++++++++++++++-----------
 Streams.hpp |  3 +++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..62eaf83 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cassert>
+#include <cstdlib>
 
 #include <fstream>
 #include <iostream>
@@ -62,29 +63,36 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
+  flush();
   if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+    if (fclose(m_fileptr) != 0) fail();
   }
   delete[] m_buffer;
 }
 
+void RawOutStream::fail() const {
+  perror(m_name != "" ? m_name.c_str() : "standard output");
+  exit(1);
+}
+
+void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (fwrite(data, 1, size, m_fileptr) != size) fail();
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
 }
 
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) fail();
 }
 
 long int RawOutStream::getPos() {
@@ -99,7 +107,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    writeToFile(begin, size);
   }
 }
 
@@ -108,12 +116,12 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   flush();
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) fail();
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    if (fputc(b, m_fileptr) == EOF) fail();
   }
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) fail();
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index c1f495a..d7f1866 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -107,6 +107,9 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /** Called when the output couldn't be stored: ends the program. */
+  void fail() const;
+  void writeToFile(const byte *data, size_t size);
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 9d65bc7f413fcce6c5663a71db33bc351ea16177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 03/16] fix: do not take a read error for the end of the input

---
 Streams.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index 62eaf83..1377d27 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -176,6 +176,10 @@ int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(m_name != "" ? m_name.c_str() : "standard input");
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
@@ -186,6 +190,10 @@ int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(m_name != "" ? m_name.c_str() : "standard input");
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
-- 
2.43.0


From c5ce87ec53e22542eee6e1bdc9a2c2003e5e25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 04/16] fix: stop at the end of incomplete data instead of
 decoding endless 0xff bytes

---
 Streams.cpp | 12 +++++++++++-
 Streams.hpp |  6 ++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 1377d27..37ceb58 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -128,7 +128,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= requireByte();
   }
   return result;
 }
@@ -186,6 +186,16 @@ int32 RawInStream::fetchByte() {
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+byte RawInStream::requireByte() {
+  int32 c = fetchByte();
+  if (c == EOF) {
+    fprintf(stderr, "%s: unexpected end of data\n",
+            m_name != "" ? m_name.c_str() : "standard input");
+    exit(1);
+  }
+  return static_cast<byte>(c);
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
diff --git a/Streams.hpp b/Streams.hpp
index d7f1866..09923ef 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -126,7 +126,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = requireByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -134,7 +134,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = requireByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -176,6 +176,8 @@ class RawInStream : public InStream {
 
   int fetchByte();
   int peekByte();
+  /** Returns the next byte. Ends the program if there isn't one. */
+  byte requireByte();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
 };
-- 
2.43.0


From 8a973f6c42f9b53527beec45e388612334882cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 05/16] fix: write correct block headers when the output cannot
 be rewound

---
 Streams.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 Streams.hpp |  9 +++++++++
 2 files changed, 47 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index 37ceb58..be7ac4e 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -34,6 +34,8 @@
 #include <string>
 #include <algorithm>
 
+#include <fcntl.h>
+
 #include "globaldefs.hpp"
 #include "Streams.hpp"
 
@@ -59,11 +61,17 @@ RawOutStream::RawOutStream(const std::string& file_name)
   }
   m_filled = 0;
   assert(m_fileptr);
+  int flags = fcntl(fileno(m_fileptr), F_GETFL);
+  m_rewindable = fseek(m_fileptr, 0, SEEK_CUR) == 0 &&
+      !(flags != -1 && (flags & O_APPEND));
+  m_holding = false;
+  m_written = 0;
 }
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
   flush();
+  releaseHeld();
   if (m_fileptr != stdout) {
     if (fclose(m_fileptr) != 0) fail();
   }
@@ -76,7 +84,20 @@ void RawOutStream::fail() const {
 }
 
 void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (m_holding) {
+    m_held.insert(m_held.end(), data, data + size);
+    return;
+  }
   if (fwrite(data, 1, size, m_fileptr) != size) fail();
+  m_written += size;
+}
+
+void RawOutStream::releaseHeld() {
+  if (!m_holding) return;
+  m_holding = false;
+  if (!m_held.empty()) writeToFile(&m_held[0], m_held.size());
+  m_held.clear();
+  flush();
 }
 
 void RawOutStream::writeByte(byte b) {
@@ -97,6 +118,11 @@ void RawOutStream::flush() {
 
 long int RawOutStream::getPos() {
   flush();
+  if (!m_rewindable) {
+    releaseHeld();
+    m_holding = true;
+    return m_written;
+  }
   return ftell(m_fileptr);
 }
 
@@ -114,6 +140,18 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
 void RawOutStream::write48bits(uint64 to_written, long int position) {
   assert((to_written & (((uint64)0xFFFF) << 48)) == 0);
   flush();
+  if (!m_rewindable) {
+    if (!m_holding || position < m_written ||
+        position + 6 > m_written + static_cast<long int>(m_held.size())) {
+      fprintf(stderr, "Can't rewind the output!\n");
+      exit(1);
+    }
+    for(int i = 5; i >= 0; --i) {
+      m_held[position - m_written + 5 - i] = 0xFF & (to_written >> i*8);
+    }
+    releaseHeld();
+    return;
+  }
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
   if (fseek(m_fileptr, position, SEEK_SET) != 0) fail();
diff --git a/Streams.hpp b/Streams.hpp
index 09923ef..62bae69 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -107,6 +107,15 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /* write48bits needs to go back in the output. If the target doesn't allow
+   * that (pipe, terminal or file opened for appending), everything written
+   * after the position returned by getPos is held in memory until then. */
+  bool m_rewindable;
+  bool m_holding;
+  std::vector<byte> m_held;
+  long int m_written;
+
+  void releaseHeld();
   /** Called when the output couldn't be stored: ends the program. */
   void fail() const;
   void writeToFile(const byte *data, size_t size);
-- 
2.43.0


From ca3ae590c4a72aec07b9f762646cb97ecea1b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:29 +0000
Subject: [PATCH 06/16] fix: do not ignore allocation failures in the suffix
 sorters

---
 bwtransforms/Divsufsorter.hpp | 8 ++++++--
 bwtransforms/sais.hxx         | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bwtransforms/Divsufsorter.hpp b/bwtransforms/Divsufsorter.hpp
index 140b1b2..add1229 100644
--- a/bwtransforms/Divsufsorter.hpp
+++ b/bwtransforms/Divsufsorter.hpp
@@ -30,6 +30,7 @@
 #include <cassert>
 
 #include <algorithm>
+#include <new>
 #include <vector>
 
 #include "BWTransform.hpp"
@@ -54,14 +55,17 @@ class Divsufsorter : public BWTransform {
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size());
+    if(divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size()) < 0)
+      throw std::bad_alloc();
   }
 
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers,
               uint32 *freqs) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs);
+    if(divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(),
+               freqs) < 0)
+      throw std::bad_alloc();
   }
 
   /* The following values aren't correct */
diff --git a/bwtransforms/sais.hxx b/bwtransforms/sais.hxx
index e9dd4f7..03d1bb7 100644
--- a/bwtransforms/sais.hxx
+++ b/bwtransforms/sais.hxx
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <new>
 
 #ifdef __INTEL_COMPILER
 #pragma warning(disable : 383 981 1418)
@@ -792,6 +793,7 @@ index_type i, pidx;
   } else {
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
+  if(pidx < 0) { throw std::bad_alloc(); }
 
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
@@ -818,6 +820,7 @@ index_type i, pidx;
   } else {
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
+  if(pidx < 0) { throw std::bad_alloc(); }
 
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
-- 
2.43.0


From 0da4c4f5ec8b8638980bbb089468c3f7587dbb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 07/16] fix: do not use memory whose allocation failed

---
 PrecompressorBlock.cpp | 20 +++++++++++++++-----
 PrecompressorBlock.hpp |  2 ++
 Utils.hpp              |  6 +++++-
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..1689366 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -31,20 +31,24 @@
 
 #include <cassert>
 #include <cstdlib>
+#include <new>
 
 namespace bwtc {
 
 PrecompressorBlock::PrecompressorBlock(size_t size)
     : m_data((byte*)malloc(sizeof(byte)*(size+1))), m_used(0),
-      m_originalSize(size), m_reserved(size+1) {}
+      m_originalSize(size), m_reserved(size+1)
+{
+  if(!m_data) throw std::bad_alloc();
+}
 
 PrecompressorBlock::PrecompressorBlock(size_t maxSize, InStream* in)
     : m_data((byte*)malloc(sizeof(byte)*(maxSize+1))), m_used(0),
       m_originalSize(0), m_reserved(maxSize+1)
 {
+  if(!m_data) throw std::bad_alloc();
   uint64 read = in->readBlock(m_data, maxSize);
-  m_data = (byte*)realloc(m_data, sizeof(byte)*(read+1));
-  m_reserved = read + 1;
+  reallocate(read + 1);
   m_originalSize = m_used = read;
 }
 
@@ -56,11 +60,17 @@ void PrecompressorBlock::setSize(size_t size) {
   assert(size > 0);
   if(m_used != size) {
     m_used = size;
-    m_reserved = size+1;
-    m_data = (byte*)realloc(m_data, sizeof(byte)*(m_reserved));
+    reallocate(size + 1);
   }
 }
 
+void PrecompressorBlock::reallocate(size_t bytes) {
+  byte *data = (byte*)realloc(m_data, sizeof(byte)*bytes);
+  if(!data) throw std::bad_alloc();
+  m_data = data;
+  m_reserved = bytes;
+}
+
 size_t PrecompressorBlock::
 writeBlockHeader(OutStream* out, MetaData metadata) const {
   size_t bytes = 0;
diff --git a/PrecompressorBlock.hpp b/PrecompressorBlock.hpp
index a0f92e5..7208ce3 100644
--- a/PrecompressorBlock.hpp
+++ b/PrecompressorBlock.hpp
@@ -85,6 +85,8 @@ class PrecompressorBlock {
   size_t m_originalSize;
   /**Memory reserved for block.*/
   size_t m_reserved;
+
+  void reallocate(size_t bytes);
 };
 
 } //namespace bwtc
diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..7616f0a 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -32,6 +32,7 @@
 #include <cassert>
 #include <iostream>
 #include <map>
+#include <new>
 #include <stack>
 #include <utility>
 #include <vector>
@@ -49,7 +50,10 @@ class CircularBuffer {
  public:
   explicit CircularBuffer(size_t len)
       : m_length(len), m_data((T*)malloc(sizeof(T)*len)), m_head(0),
-        m_start(0), m_inBuffer(0) {}
+        m_start(0), m_inBuffer(0)
+  {
+    if(!m_data) throw std::bad_alloc();
+  }
 
   ~CircularBuffer() { free(m_data); }
 
-- 
2.43.0


From d8c9f1abcb712e568b0000c5d839a3a0281cb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 08/16] fix: do not search pairs from blocks of one or two
 bytes

---
 preprocessors/Precompressor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..56480bb 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -74,6 +74,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
     bool useTempArray = false;
 
     for(size_t i = 0; i < m_preprocessingOptions.size(); ++i) {
+      // There is nothing to replace in so short sequence.
+      if(length <= 2) break;
       char c = m_preprocessingOptions[i];
       double ratio = (double)length/block.originalSize();
       if(ratio < 0.666 && !useTempArray) {
-- 
2.43.0


From b227b1865a50a5fe663ce0cda1004f29e1793807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 09/16] fix: keep the last byte of the shortest blocks in pair
 replacement

---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..59066ef 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length);
   return filled;
 }
 
-- 
2.43.0


From f59c7d6c0be2083d85f70628288214c03e7d39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 10/16] fix: do not skip announced blocks when the archive ends
 early

---
 HuffmanCoders.cpp | 1 -
 WaveletCoders.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..fea4e32 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,7 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..1f89f2c 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,7 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
-- 
2.43.0


From 3d16e724b03c102aaf0057c26d73c02c09cdb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 11/16] fix: reject incomplete blocks in postprocess also
 without assertions

---
 PrecompressorBlock.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index 1689366..35324d1 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -31,6 +31,7 @@
 
 #include <cassert>
 #include <cstdlib>
+#include <iostream>
 #include <new>
 
 namespace bwtc {
@@ -123,7 +124,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        std::cerr << "Unexpected end of data!" << std::endl;
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
-- 
2.43.0


From 82a95710f9702a11d049ae1b2975385c1ead0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 12/16] fix: reserve history for every value of the previous
 bits in SimpleMarkov

---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From 57af57c94f34ad43154187024433b5490dfc12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:42 +0000
Subject: [PATCH 13/16] fix: count only the replaceable pairs in runs of a
 single byte

Pairs of runs with odd length were counted once too often depending on the
parity of the position of the run. The chosen replacements could then make
the block grow, and it was written past the end of its buffer.
---
 preprocessors/PairReplacer.cpp | 18 +++++++-----------
 preprocessors/PairReplacer.hpp | 19 +++++++------------
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 59066ef..ff4c253 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -37,15 +37,15 @@
 namespace bwtc {
 
 PairReplacer::PairReplacer(Grammar& grammar)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
-      m_analysationStarted(false), m_verbose(false)
+    : m_grammar(grammar), m_prev(0), m_overlapping(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0), m_numOfNewSpecials(0),
+      m_commonByte(0), m_analysationStarted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
-      m_analysationStarted(false), m_verbose(verbose)
+    : m_grammar(grammar), m_prev(0), m_overlapping(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0), m_numOfNewSpecials(0),
+      m_commonByte(0), m_analysationStarted(false), m_verbose(verbose)
 {}
 
 PairReplacer::~PairReplacer() {}
@@ -55,11 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..307b2dd 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -48,22 +48,13 @@ class PairReplacer {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
     ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    // Only every other pair in the run of a single byte can be replaced.
+    m_overlapping = (prev == m_prev) && !m_overlapping;
+    if(!m_overlapping) ++m_pairFrequencies[m_prev];
   }
 
   void beginAnalysing(bool reset);
@@ -124,6 +115,10 @@ class PairReplacer {
   /**Used in the analysation phase. */
   uint16 m_prev;
 
+  /**Tells if the latest pair of the analysation overlaps with the equal pair
+   * before it, which is counted already. */
+  bool m_overlapping;
+
   /** Stores the total number of replacements stored and to be executed. */
   uint16 m_numOfReplacements;
 
-- 
2.43.0


From e8a2fd42a1b1c8674722b9b42eee9673a175373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:47 +0000
Subject: [PATCH 14/16] fix: preprocess reports the size of an empty input as 0

With no block at all (blocks-1)*block_size wrapped around and -v 1 printed
a total size of many terabytes.
---
 preprocess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocess.cpp b/preprocess.cpp
index 8514858..510b870 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -92,7 +92,8 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   
   if (verbosity > 0) {
     std::clog << "Read " << blocks << " block" << ((blocks < 2)?"":"s") << "\n";
-    std::clog << "Total size: " << (blocks-1)*block_size + last_s << "B\n";
+    std::clog << "Total size: "
+              << ((blocks > 0) ? (blocks-1)*block_size + last_s : 0) << "B\n";
   }
 }
 
-- 
2.43.0


From a518a212305a5a93e9f2687fef0153e278e1f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:07 +0000
Subject: [PATCH 15/16] fix: free the wavelet tree's first root when a shape is
 read

The decoder replaced the root made by the constructor without deleting it,
so uncompress lost one node per section and its memory grew with the input.
---
 WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..c96c7df 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -422,6 +422,7 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
     codeLengths.push_back(std::make_pair(len, alphabet[i]));
   }
 
+  destroy(m_root); // the empty tree made by the constructor
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0


From caf4c0d038f6ec3d1b53e8e9407e755e2a27bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 16/16] fix: destroy a wavelet tree whose reading failed safely

When readShape threw (a source that gives up, no memory), the destructor
followed the null pointer of the missing integer code tree, or, since the
empty root is freed first, freed the root twice.
---
 WaveletTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index c96c7df..38355e2 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -394,6 +394,7 @@ WaveletTree<BitVector>::~WaveletTree() {
 
 template <typename BitVector>
 void WaveletTree<BitVector>::destroy(TreeNode<BitVector>* node) {
+  if(!node) return; // reading the tree failed before this part was made
   if(node->m_left) destroy(node->m_left);
   if(node->m_right) destroy(node->m_right);
   delete node;
@@ -423,6 +424,7 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
   }
 
   destroy(m_root); // the empty tree made by the constructor
+  m_root = 0; // making the new one may fail
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0

