From acbdfd864652232eb3a4ea129016f2e20f112511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 01/53] fix: count electrons without a dark reference

The classic electronCount dereferenced the (null) dark reference when none
was supplied, with and without a gain.
---
 stempy/electron.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..71cb9bf 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From 5b6278ba28f922552791266e92a6936ee873c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 02/53] fix: row dark correction of non-square frames

applyRowDark took the frame width for the height and vice versa, so rows of
non-square frames were split at the wrong pixels.
---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 71cb9bf..10756f3 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From 78565686a745ed7abd3f259740cf3a954b218a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 03/53] fix: lock the position when counting sample blocks

---
 stempy/electron.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 10756f3..ea99821 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -759,7 +759,8 @@ ElectronCountedData electronCount(Reader* reader,
   // lambda to process sample and incomplete blocks
   auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
                           darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
+                          optimizedMean, applyRowDarkUseMean,
+                          &positionMutexes] (Block& b) {
     auto data = b.data.get();
     auto frameDimensions = b.header.frameDimensions;
     for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
@@ -773,6 +774,8 @@ ElectronCountedData electronCount(Reader* reader,
         xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
         applyRowDarkUseMean);
       auto position = b.header.imageNumbers[j];
+      // The workers may be appending to the same position
+      std::unique_lock<std::mutex> positionLock(positionMutexes[position]);
       events[position].push_back(std::move(frameEvents));
     }
   };
-- 
2.43.0


From 1efab66dcb213bd079826cdf3c82e46912ded560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 04/53] fix: keep the image maximum inside the last histogram
 bin

---
 stempy/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..e264142 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -294,9 +294,11 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 
   std::vector<double> container;
   // push all the intermediate values
-  for (int i = 0; i <= numBins; i++) {
+  for (int i = 0; i < numBins; i++) {
     container.push_back(min + i * length);
   }
+  // min + numBins * length can be rounded to less than max
+  container.push_back(max);
 
   return container;
 }
-- 
2.43.0


From 234774739b1f82287e700c9683de779fe436b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 05/53] fix: reject version 1 headers with more image numbers
 than fit into the header

readHeaderVersion1() copied imagesInBlock values out of the 1024 word
header, reading past the end of the buffer on the stack.
---
 stempy/reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..4ad9fdb 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -137,6 +137,13 @@ Header StreamReader::readHeaderVersion1() {
   // Skip over 6 - 10 - reserved
   index += 5;
 
+  // The image numbers have to fit into the header
+  if (header.imagesInBlock > 1024u - index) {
+    ostringstream msg;
+    msg << "Invalid number of images in block: " << header.imagesInBlock;
+    throw invalid_argument(msg.str());
+  }
+
   // Now get the image numbers
   header.imageNumbers.resize(header.imagesInBlock);
   copy(headerData + index,
-- 
2.43.0


From 0d3581a4a228c18315ab8ae97a14a49a39ef84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 06/53] fix: reject headers whose number of pixels overflows

A version 1 header with large frame dimensions gave a block whose data is
smaller than its header says.
---
 stempy/reader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 4ad9fdb..6aa63cc 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -11,6 +11,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <regex>
 #include <sstream>
@@ -260,6 +261,15 @@ Block StreamReader::read()
         throw invalid_argument(ss.str());
     }
 
+    // The number of pixels has to be representable
+    uint64_t framePixels = static_cast<uint64_t>(header.frameDimensions.first) *
+                           header.frameDimensions.second;
+    if (header.imagesInBlock != 0 &&
+        framePixels >
+          std::numeric_limits<uint32_t>::max() / header.imagesInBlock) {
+      throw invalid_argument("Invalid frame dimensions in header.");
+    }
+
     Block b(header);
 
     auto dataSize = b.header.frameDimensions.first *
-- 
2.43.0


From f949cc3271be990b9fa0a595b9e65845b5f0e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 07/53] fix: report truncated stream files

When a file ended within a header or the data of a block the value was
read again from the start of the next file, so that the next file was
decoded at the wrong place.
---
 stempy/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 6aa63cc..871042c 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -115,6 +115,10 @@ istream & StreamReader::read(T* value, streamsize size){
   // If we are at the end of the file, open up the next file
   // and try again.
   if (m_stream.eof()) {
+    // The file ends within the value, it can't be continued in the next file
+    if (m_stream.gcount() > 0)
+      throw EofException();
+
     openNextFile();
     return read(value, size);
   }
-- 
2.43.0


From cafed2a7ca6206225069c3e243048df91701fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 08/53] fix: drop partial frames when a sector reader is reset

Otherwise the sectors read before the reset were counted again and
frames were delivered before all their sectors had been read.
---
 stempy/reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 871042c..d80abe2 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -583,6 +583,8 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  // Drop any partial frames from the previous pass
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From f4c76e110a0a51297d5e70d885e37c6d9428e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 09/53] fix: reject sector files whose module number is not 0
 to 3

The sector, which is -1 if the file name doesn't contain a module, was used
unchecked to place the data into the frame and to index the frame map.
---
 stempy/reader.cpp | 12 ++++++++++++
 stempy/reader.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index d80abe2..e431266 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -509,9 +509,20 @@ Block SectorStreamReader::read()
   return Block();
 }
 
+void SectorStreamReader::checkSector(int sector)
+{
+  if (sector < 0 || sector > 3) {
+    ostringstream msg;
+    msg << "Invalid sector: " << sector;
+    throw invalid_argument(msg.str());
+  }
+}
+
 void SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
                                         int sector)
 {
+  checkSector(sector);
+
   if (version() == 4) {
     readSectorDataVersion4(stream, block, sector);
   } else {
@@ -888,6 +899,7 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
     auto& sectorStream = m_streams[sectorStreamIndex];
     auto& stream = sectorStream.stream;
     auto sector = sectorStream.sector;
+    checkSector(sector);
 
     while (stream->peek() != EOF) {
       // First read the header
diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..c9029ae 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -246,6 +246,8 @@ protected:
 
   Header readHeader(std::ifstream& stream);
   void readSectorData(std::ifstream& stream, Block& block, int sector);
+  // Throws if there is no such sector in a frame
+  static void checkSector(int sector);
 
 private:
   std::vector<std::string> m_files;
-- 
2.43.0


From 0dd3057fcbbf1e65294d81ae887e734bbaea4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 10/53] fix: reject sectors outside of the scan in the
 multi-pass reader

The position in the header was used unchecked to index the scan map.
---
 stempy/reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index e431266..29fe3a7 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -908,6 +908,11 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
                       header.frameDimensions.second * header.imagesInBlock;
 
       auto imageNumber = header.imageNumbers[0];
+      if (imageNumber >= m_scanMap.size()) {
+        ostringstream msg;
+        msg << "Image number " << imageNumber << " is outside of the scan.";
+        throw invalid_argument(msg.str());
+      }
       auto& frameMaps = m_scanMap[imageNumber];
 
       // Protect initialization of the map with the correct mutex
-- 
2.43.0


From 42be0e31cc5d35afeb2ae2a86b24113f63e714df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 11/53] fix: report truncated sector headers

Otherwise uninitialized values were used as the header.
---
 stempy/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 29fe3a7..fb2eeb1 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -375,6 +375,10 @@ Header SectorStreamReader::readHeader(std::ifstream& stream)
   index = 0;
   read(stream, headerPositions, 4 * sizeof(uint16_t));
 
+  if (!stream) {
+    throw invalid_argument("Unexpected EOF while reading sector header.");
+  }
+
   header.scanDimensions.first = headerPositions[index++];
   header.scanDimensions.second = headerPositions[index++];
 
-- 
2.43.0


From f078ec9c107d669a6123d48afbadc0f0a20940d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 12/53] fix: keep reading a sector stream after a truncated
 sector

In the multi-pass reader a truncated sector left its stream failed, so that
all sectors read from it afterwards were silently zero.
---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index c9029ae..901c27a 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -637,6 +637,8 @@ void SectorStreamMultiPassThreadedReader::processFrame(
     if (sectorLocation.sectorStream != nullptr) {
       auto sectorStream = sectorLocation.sectorStream;
       std::unique_lock<std::mutex> lock(*sectorStream->mutex.get());
+      // A truncated sector may have put the stream into a failed state
+      sectorStream->stream->clear();
       sectorStream->stream->seekg(sectorLocation.offset);
       readSectorData(*sectorStream->stream, b, j);
       sectors++;
-- 
2.43.0


From c1ace0c24d440cce07aa6a87d6dde36a49714a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 13/53] fix: data race on the list of streams in the threaded
 reader

The workers checked if there are any streams left without holding the
mutex under which finished streams are removed.
---
 stempy/reader.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index 901c27a..b4768fc 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -375,6 +375,13 @@ private:
 
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
+
+  // Whether there are any streams left to read from
+  bool haveStreams()
+  {
+    std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+    return !m_streams.empty();
+  }
 };
 
 template <typename Functor>
@@ -394,7 +401,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this, &func]() {
 
-      while (!m_streams.empty()) {
+      while (haveStreams()) {
         // Get the next stream to read from
         StreamQueueEntry streamQueueEntry;
 
-- 
2.43.0


From 7c70469c08afc9711f198d0e14a289af244c08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 14/53] fix: mark the frames of the threaded reader as complete

electronCount() reads header.complete[0] of every sample, which was an
access into an empty vector for frames of this reader.
---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index b4768fc..e8727fb 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -435,6 +435,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
               frame.block.header.imageNumbers.push_back(pos);
               frame.block.header.frameNumber = frameNumber;
               frame.block.header.frameDimensions = FRAME_DIMENSIONS;
+              // Only complete frames are passed on
+              frame.block.header.complete.assign(1, true);
               std::shared_ptr<uint16_t> data;
 
               data.reset(
-- 
2.43.0


From 851bb922c5d6abe4ffbae9c7eccbd94d094c8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 15/53] fix: end all workers of a threaded reader when reading
 fails

After an exception in one worker the others kept waiting for its stream,
while the exception was passed on at once, so that they used the functor
and the reader after they had been destroyed.
---
 stempy/reader.cpp | 27 ++++++++++++++++-----------
 stempy/reader.h   | 27 +++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index fb2eeb1..a67e50c 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -850,17 +850,7 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
   // If we have reached the end close the stream and remove if from
   // the list.
   if (c == EOF) {
-    stream->close();
-    std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
-    auto iter = m_streams.begin();
-    while (iter != m_streams.end()) {
-      if ((*iter).stream.get() == stream) {
-        break;
-      }
-      iter++;
-    }
-
-    m_streams.erase(iter);
+    removeStream(stream);
 
     return false;
   }
@@ -868,6 +858,21 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
   return true;
 }
 
+void SectorStreamThreadedReader::removeStream(std::ifstream* stream)
+{
+  stream->close();
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+  auto iter = m_streams.begin();
+  while (iter != m_streams.end()) {
+    if ((*iter).stream.get() == stream) {
+      break;
+    }
+    iter++;
+  }
+
+  m_streams.erase(iter);
+}
+
 SectorStreamMultiPassThreadedReader::SectorStreamMultiPassThreadedReader(
   const std::string& path, int threads)
   : SectorStreamThreadedReader(path, 5, threads)
diff --git a/stempy/reader.h b/stempy/reader.h
index e8727fb..b25d79b 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -376,6 +376,9 @@ private:
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
 
+  // Close the stream and remove it from the list of streams
+  void removeStream(std::ifstream* stream);
+
   // Whether there are any streams left to read from
   bool haveStreams()
   {
@@ -411,6 +414,19 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
         auto& stream = streamQueueEntry.stream;
         auto sector = streamQueueEntry.sector;
 
+        // If reading fails the stream has to be removed, the other workers
+        // would wait for it forever.
+        struct StreamGuard
+        {
+          SectorStreamThreadedReader* reader;
+          std::ifstream* stream;
+          ~StreamGuard()
+          {
+            if (stream != nullptr)
+              reader->removeStream(stream);
+          }
+        } guard{ this, stream };
+
         // First read the header
         auto header = readHeader(*stream);
 
@@ -467,6 +483,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
         // It is important that we do this before doing the processing to prevent
         // starvation of one of the streams, we need to make sure they are all
         // read evenly.
+        guard.stream = nullptr;
         {
           std::unique_lock<std::mutex> queueLock(m_queueMutex);
           streamQueueEntry.readCount++;
@@ -483,6 +500,11 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // Wait for all the workers, they use the functor and this reader, before
+    // any of their exceptions is passed on.
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
@@ -838,6 +860,11 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // Wait for all the workers, they use the functor and this reader, before
+    // any of their exceptions is passed on.
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
-- 
2.43.0


From f3d238e37c351c582602fb95d5b9e91b15a4d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 16/53] fix: pass on exceptions of the reader in threaded
 electron counting

Waiting for the future without getting its result dropped the exceptions
of the reader, a partial result was returned as if it were complete.
---
 stempy/electron.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index ea99821..edfb26d 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -792,8 +792,9 @@ ElectronCountedData electronCount(Reader* reader,
     countExtraBlock(b);
   }
 
-  // Make sure all threads are finished before returning the result
-  done.wait();
+  // Make sure all threads are finished before returning the result, and pass on
+  // any exception they have thrown.
+  done.get();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
-- 
2.43.0


From 230f06a00556123f360f5fb11c2056beee310771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 17/53] fix: allow floating point types for the min of a
 SparseArray

---
 python/stempy/io/sparse_array.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..3b47e3d 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -452,7 +452,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -463,7 +463,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -1068,6 +1068,13 @@ def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
 
+def _max_value(dtype):
+    """Get the maximum value of a dtype (infinity for floating point)"""
+    if np.issubdtype(dtype, np.floating):
+        return np.inf
+    return np.iinfo(dtype).max
+
+
 def _warning(msg):
     print(f'Warning: {msg}', file=sys.stderr)
 
-- 
2.43.0


From 9a4b29441aab8fd12df94162eb233bfbdb76032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 18/53] fix: expand an ellipsis in the index of a SparseArray

---
 python/stempy/io/sparse_array.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 3b47e3d..269f1d9 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -823,6 +823,18 @@ class SparseArray:
             # It's an empty tuple
             return tuple(), tuple()
 
+        ellipses = [i for i, x in enumerate(slices) if x is Ellipsis]
+        if len(ellipses) > 1:
+            raise IndexError("an index can only have a single ellipsis ('...')")
+        if ellipses:
+            # Replace the ellipsis with the full slices it stands for. A
+            # boolean array indexes as many axes as it has dimensions.
+            used = sum(np.ndim(x) if np.ndim(x) > 1 else 1
+                       for x in slices if x is not Ellipsis)
+            i = ellipses[0]
+            slices = (slices[:i] + (NONE_SLICE,) * (self.ndim - used) +
+                      slices[i + 1:])
+
         # Figure out which slices belong to which parts.
         # The first slice should definitely be part of the scan.
         first_slice = slices[0]
-- 
2.43.0


From 294a71ffacc1d1ccf77965825356b4d755af8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 19/53] fix: allow an empty list as an index of a SparseArray

---
 python/stempy/io/sparse_array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 269f1d9..3068bf1 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -799,6 +799,9 @@ class SparseArray:
                 # If it's a sequence, it is advanced indexing.
                 # Convert to ndarray.
                 obj = np.asarray(obj)
+                if obj.size == 0:
+                    # The default dtype is float, which cannot index
+                    obj = obj.astype(int)
 
             if isinstance(obj, np.ndarray):
                 # If it is a numpy array, it is advanced indexing.
-- 
2.43.0


From 45a77a6828e8c0879ac6a7d3f3f8b8320b47ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 20/53] fix: keep each row of repeated electrons when binning
 frames

---
 python/stempy/io/sparse_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 3068bf1..0afac18 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -661,7 +661,9 @@ class SparseArray:
             new_size = rows.shape[0] + len(extra_rows)
             new_data = np.empty(new_size, dtype=object)
             new_data[:rows.shape[0]] = rows
-            new_data[rows.shape[0]:] = extra_rows
+            # Assign one by one, since rows of equal length would broadcast
+            for i, row in enumerate(extra_rows, start=rows.shape[0]):
+                new_data[i] = row
             new_scan_positions = np.append(new_scan_positions,
                                            extra_scan_positions)
 
-- 
2.43.0


From 2b1325216e604202b93c812eef6ca4f33d0de8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 21/53] fix: use the frame width for the bins of non-square
 frames

---
 python/stempy/io/sparse_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 0afac18..4831cf1 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -630,10 +630,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From dd0b4fcd4ca507a68b989bc2ebecfa31fb1089e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 22/53] fix: bin one-dimensional scans

---
 python/stempy/io/sparse_array.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 4831cf1..e755c23 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -580,15 +580,21 @@ class SparseArray:
         # positions.
         new_scan_shape = tuple(x // bin_factor for x in self.scan_shape)
         all_positions = self.scan_positions
+        # A 1D scan is binned as a single row
+        num_rows, row_bin_factor = 1, 1
+        if len(new_scan_shape) > 1:
+            num_rows, row_bin_factor = new_scan_shape[0], bin_factor
+        num_cols = new_scan_shape[-1]
         all_positions_reshaped = all_positions.reshape(
-            new_scan_shape[0], bin_factor, new_scan_shape[1], bin_factor)
+            num_rows, row_bin_factor, num_cols, bin_factor)
 
         new_data_shape = (np.prod(new_scan_shape),
-                          bin_factor**2 * self.num_frames_per_scan)
+                          row_bin_factor * bin_factor *
+                          self.num_frames_per_scan)
         new_data = np.empty(new_data_shape, dtype=object)
-        for i in range(new_scan_shape[0]):
-            for j in range(new_scan_shape[1]):
-                idx = i * new_scan_shape[1] + j
+        for i in range(num_rows):
+            for j in range(num_cols):
+                idx = i * num_cols + j
                 scan_position = all_positions[idx]
                 to_change = all_positions_reshaped[i, :, j, :].ravel()
                 new_data[scan_position] = np.concatenate(self.data[to_change])
-- 
2.43.0


From 0a7021e5122b7972955f2e6a3b4b6162b08df233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 23/53] fix: return zero as the max of a position without
 electrons

---
 python/stempy/io/sparse_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index e755c23..01c9624 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,8 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                # A position without any electrons has a max of zero
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 5b861f94352a5d5536e24c0c40756040d15f934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 24/53] fix: write frames of equal length correctly to HDF5

---
 python/stempy/io/sparse_array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 01c9624..41e1fa8 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -270,14 +270,14 @@ class SparseArray:
             # in h5py currently. So flatten the data, and we will reshape it
             # when we read it back in. See h5py/h5py#876
             coordinates_type = h5py.special_dtype(vlen=np.uint32)
-            frames = group.create_dataset('frames', (np.prod(data.shape),),
+            # Write the data on creation. When assigning it to the data set,
+            # h5py would merge frames that all have the same length.
+            frames = group.create_dataset('frames', data=data.ravel(),
                                           dtype=coordinates_type)
             # Add the frame dimensions as attributes
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
-
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
 
-- 
2.43.0


From 38bc6804b08c1acbc7472955b14fb6d9e91c1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 25/53] fix: remove the flyback column of older formats by scan
 position

---
 python/stempy/io/sparse_array.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 41e1fa8..1ca3373 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -195,7 +195,11 @@ class SparseArray:
             scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            # Older formats do not store the frames in the order of the scan
+            # positions, so they are cropped after the conversion.
+            crop_on_load = not keep_flyback and version >= 3
+
+            if not crop_on_load:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -239,6 +243,12 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+        if not keep_flyback and not crop_on_load:
+            # Remove the flyback column
+            data = data.reshape((*scan_shape, -1))[:, :-1]
+            scan_shape = data.shape[:2]
+            data = data.reshape((np.prod(scan_shape), -1))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From c6cdf8d2ff7b9db94d64920da24cce8a3acb7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 26/53] fix: keep each row of repeated electrons in the format
 conversion

---
 python/stempy/io/compatibility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 32ccc85..068aa34 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -53,7 +53,9 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         new_size = ret.shape[0] + len(extra_rows)
         new_data = np.empty(new_size, dtype=object)
         new_data[:ret.shape[0]] = ret
-        new_data[ret.shape[0]:] = extra_rows
+        # Assign one by one, since rows of equal length would broadcast
+        for i, row in enumerate(extra_rows, start=ret.shape[0]):
+            new_data[i] = row
         new_scan_positions = np.append(scan_positions,
                                        extra_scan_positions)
 
-- 
2.43.0


From b0ccf6cc788bd44c69dc90cfcff15ed78063d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 27/53] fix: keep the scan positions of version 1 data

---
 python/stempy/io/compatibility.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 068aa34..1583f56 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -31,7 +31,6 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         return data, scan_positions
 
     # Remove any duplicates and place them in their own rows.
-    scan_positions = np.arange(len(data))
     ret = np.empty(len(scan_positions), dtype=object)
 
     # Place duplicates in separate frames
-- 
2.43.0


From 4c1cb4ecc9972d88015d0b361c7f0b803cb86395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 28/53] fix: pass the frame dimensions of a sparse array as
 (width, height)

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..4fcbe32 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
-- 
2.43.0


From 854511e1b9c01f1f862bb4ecaf1e7dda2f73b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 29/53] fix: frame_shape of counted data is (rows, columns)

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 4fcbe32..c60d266 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -341,7 +341,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From b2bdee3e0b12bf65ccdc780d64f91bcba8bb775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 30/53] fix: use the flattened frames for old counted data

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index c60d266..24c1ced 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -87,7 +87,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From 3b3676ed9aff7141102bf7e6e8b6d4d5ac4d99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 31/53] fix: do not use the counted data of an array changed in
 place

---
 python/stempy/image/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 24c1ced..79483dc 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -72,7 +72,8 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         imgs = _image.create_stem_images(input.begin(), input.end(),
                                          inner_radii, outer_radii,
                                          scan_dimensions, center)
-    elif hasattr(input, '_electron_counted_data'):
+    elif (hasattr(input, '_electron_counted_data') and
+          _matches_electron_counted_data(input)):
         # Handle electron counted data with C++ object
         # This could also be a SparseArray created via electron_count()
         imgs = _image.create_stem_images(input._electron_counted_data,
@@ -123,6 +124,16 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     images = [safe_array(img, copy=False) for img in imgs]
     return safe_array(images, copy=False)
 
+def _matches_electron_counted_data(input):
+    # A SparseArray that was binned or reshaped in place no longer
+    # corresponds to the C++ object it was created from.
+    if not isinstance(input, SparseArray):
+        return True
+    data = input._electron_counted_data
+    return (tuple(input.scan_shape) == tuple(data.scan_dimensions[::-1]) and
+            tuple(input.frame_shape) == tuple(data.frame_dimensions[::-1]))
+
+
 def create_stem_histogram(numBins, reader, inner_radii,
                           outer_radii, scan_dimensions=(0, 0),
                           center=(-1, -1)):
-- 
2.43.0


From 3ec7659215071c767c7447123e394b262c6207ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 32/53] fix: do not replace a dark reference array by the image
 behind it

---
 python/stempy/image/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 79483dc..4add803 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -287,9 +287,6 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
         for i in range(threshold_num_blocks):
             blocks.append(next(reader))
 
-        if darkreference is not None and hasattr(darkreference, '_image'):
-            darkreference = darkreference._image
-
         args = [[b._block for b in blocks]]
         if darkreference is not None:
             args.append(darkreference)
-- 
2.43.0


From b694bd5cc587712a9006d7eb86185964f12ab569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 33/53] fix: pass C-contiguous dark and gain references to the
 C++ code

---
 python/stempy/image/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 4add803..ba350b1 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -729,7 +729,8 @@ def _safe_cast(array, dtype, name=None):
     if name is None:
         name = 'array'
 
-    new_array = array.astype(dtype)
+    # The C++ code requires a contiguous array
+    new_array = array.astype(dtype, order='C')
     if np.any(new_array.astype(array.dtype) != array):
         msg = f'Cannot cast {name} to {dtype} without loss of precision'
         raise ValueError(msg)
-- 
2.43.0


From 3e4c40e717d1a3d6a4042825b6e7cddec7befda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 34/53] fix: use the frame width for rows and columns in
 com_sparse

---
 python/stempy/image/__init__.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index ba350b1..052ff14 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -417,7 +417,7 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = scan_shape[0] * scan_shape[1]
-    frame_x, frame_y = frame_shape
+    num_cols = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
@@ -425,17 +425,14 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if num_cols & (num_cols - 1) == 0:  # power of 2
+        shift = int(np.log2(num_cols))
+        mask = num_cols - 1
         x = (all_events_concat >> shift).astype(np.float32)
-    else:
-        x = (all_events_concat // frame_x).astype(np.float32)
-
-    if frame_y & (frame_y - 1) == 0:
-        mask = frame_y - 1
         y = (all_events_concat & mask).astype(np.float32)
     else:
-        y = (all_events_concat % frame_y).astype(np.float32)
+        x = (all_events_concat // num_cols).astype(np.float32)
+        y = (all_events_concat % num_cols).astype(np.float32)
 
     # Cropping
     if crop_to is not None:
-- 
2.43.0


From 1d3cbcba975273e2c25de562bd7f184ef57d1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 35/53] fix: use the frame shape for rows and columns in
 com_sparse version 0

---
 python/stempy/image/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 052ff14..0eb5301 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -534,8 +534,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
-            y = ev % array.frame_shape[1]
+            x, y = np.unravel_index(ev, array.frame_shape)
             mm0 = len(ev)
             
             if init_center is None:
-- 
2.43.0


From fa2ca26dd759e7ab5a03b3050a0e59378da05914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 36/53] fix: radial_sum_sparse for scans of any dimension

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 0eb5301..5e09013 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -714,7 +714,7 @@ def radial_sum_sparse(sa, center):
             r = np.sqrt((x - center[0]) ** 2 + (y - center[1]) ** 2)
             hh, hhx = np.histogram(r, bins=range(0, num_bins + 1))
             r_sum[ii, :] += hh
-    r_sum = r_sum.reshape((sa.scan_shape[0], sa.scan_shape[1], num_bins))
+    r_sum = r_sum.reshape((*sa.scan_shape, num_bins))
 
     return r_sum
 
-- 
2.43.0


From f739f79981115fc0d6b2d75ecbee205472df8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 37/53] fix: virtual_darkfield for scans of any dimension

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 5e09013..a58ed32 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -841,7 +841,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     if isinstance(radii, (int, float)):
          radii = (radii,)
 
-    rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
+    rs_image = np.zeros((array.num_scans,), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
             ev_rows = ev // array.frame_shape[0]
-- 
2.43.0


From e95288cbcbd566f075bf5cd9d2e67cd02a30450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 38/53] fix: use the frame width for rows and columns in
 virtual_darkfield

---
 python/stempy/image/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index a58ed32..ca863ed 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -844,8 +844,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.num_scans,), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
-            ev_cols = ev % array.frame_shape[1]
+            ev_rows, ev_cols = np.unravel_index(ev, array.frame_shape)
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
                 rs_image[ii] += len(np.where(dist < rr)[0])
-- 
2.43.0


From d6beb90f53910a7759ea5e2122358a93bbb8f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 39/53] fix: match the whole scan id in get_scan_path

---
 python/stempy/contrib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..ab4bce6 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -63,7 +63,7 @@ def get_scan_path_version_0(
 
     file_pattern = ""
     if scan_id is not None:
-        file_pattern = f"*_id{scan_id}*{file_suffix.value}.{filetype}"
+        file_pattern = f"*_id{scan_id}_*electrons{file_suffix.value}.{filetype}"
     elif scan_num is not None:
         file_pattern = (
             f"data_scan{scan_num}_th{th}_electrons{file_suffix.value}.{filetype}"
-- 
2.43.0


From b67608889f212581666886432cd4a9d37ca874dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 40/53] fix: match the whole scan number in get_scan_path

---
 python/stempy/contrib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index ab4bce6..2d99f10 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -68,7 +68,7 @@ def get_scan_path_version_0(
         file_pattern = (
             f"data_scan{scan_num}_th{th}_electrons{file_suffix.value}.{filetype}"
             if th is not None
-            else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
+            else f"data_scan{scan_num}_*electrons{file_suffix.value}.{filetype}"
         )
 
     file_path = list(directory.glob(file_pattern))
-- 
2.43.0


From 00598a026b31b0975af3b080ecf32115c3be4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 41/53] fix: keep the fraction of gain-multiplied threshold
 samples

---
 stempy/electronthresholds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..3ca45c2 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -100,7 +100,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      auto value = blockData[randomFrameIndex * numberOfPixels + j];
+      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
-- 
2.43.0


From 861e496b1564eda53ceae1d7651bfb48803eee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 42/53] fix: round bin indices down when binning threshold
 samples

---
 stempy/electronthresholds.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 3ca45c2..9e6fc7e 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -130,8 +130,9 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
   auto maxBin = std::min(static_cast<int>(maxSample),
                          static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin = std::max(static_cast<int>(minSample),
-                         static_cast<int>(mean - xrayThreshold * stdDev));
+  auto minBin =
+    std::max(static_cast<int>(std::floor(minSample)),
+             static_cast<int>(std::floor(mean - xrayThreshold * stdDev)));
 
   auto numberOfBins = maxBin - minBin;
   std::vector<double> histogram(numberOfBins, 0.0);
@@ -144,9 +145,9 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
 
   // Bin the values
   for (int i = 0; i < numberSamplePixels; i++) {
-    auto binIndex = static_cast<int>(samples[i] - minBin);
+    auto binIndex = static_cast<int>(std::floor(samples[i])) - minBin;
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
-- 
2.43.0


From c0883e045b3f0d84ef18d6ac76a745e9fe7b277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 43/53] fix: raise an error when the sampled frames do not vary

---
 stempy/electronthresholds.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 9e6fc7e..46f026b 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -135,6 +135,10 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
              static_cast<int>(std::floor(mean - xrayThreshold * stdDev)));
 
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins <= 0) {
+    throw std::runtime_error("The sampled frames do not vary enough to "
+                             "calculate thresholds.");
+  }
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
-- 
2.43.0


From bfa426fc8dbae4d05299289902e2399aad0b25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 44/53] fix: row stride of non-square blocks in numpy

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From 80fae110e982dfdb9570607949e2c027b1a98b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 45/53] fix: read non-contiguous data sets in their order in
 PyReader

---
 python/pyreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..5e60830 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -38,7 +38,9 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  // The data is read through data(), so it must be contiguous
+  py::array_t<uint16_t, py::array::c_style | py::array::forcecast> pyarray =
+    getItems(sliceIndex);
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
-- 
2.43.0


From 913ee264f059e9d36d95887e1ef90031683c0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 46/53] fix: read strided sparse frames in their order in
 create_stem_images

---
 python/image.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..40b9e43 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -18,6 +18,10 @@ using namespace stempy;
 // we may want to rethink in this is in the future.
 namespace stempy {
 
+// The frames are read through data(), so they must be contiguous
+using FrameArray =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 template <typename T>
 py::array_t<T> vectorToPyArray(std::vector<T>&& v)
 {
@@ -47,7 +51,7 @@ struct ElectronCountedDataPyArray
     frameDimensions = other.frameDimensions;
   }
 
-  std::vector<std::vector<py::array_t<uint32_t>>> data;
+  std::vector<std::vector<FrameArray>> data;
   ElectronCountedMetadata metadata;
 
   Dimensions2D scanDimensions = { 0, 0 };
@@ -216,7 +220,7 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
 
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<FrameArray>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -404,7 +408,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<FrameArray>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
-- 
2.43.0


From 61af228b944dcc327ed17daff6f159fb473d88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 47/53] fix: do not overflow the expected number of sectors in
 dataCaptured

---
 stempy/reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index a67e50c..c2dfa5e 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -663,8 +663,8 @@ float SectorStreamReader::dataCaptured()
 
   readAll(func);
 
-  auto expectedNumberOfSectors =
-    scanDimensions.first * scanDimensions.second * 4;
+  auto expectedNumberOfSectors = static_cast<uint64_t>(scanDimensions.first) *
+                                 scanDimensions.second * 4;
 
   return static_cast<float>(numberOfSectors) / expectedNumberOfSectors;
 }
-- 
2.43.0


From 86cc29b47d13982c0cd3a7a25d3672463d3bfccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 48/53] fix: keep the share of a rank without scan positions

---
 stempy/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index b25d79b..0604795 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -725,7 +725,7 @@ inline void SectorStreamMultiPassThreadedReader::initializePool()
 
 inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
 {
-  if (m_scanMapSize != 0) {
+  if (m_scanDimensions.first != 0 || m_scanDimensions.second != 0) {
     // We must have already read the first header. Don't do it again.
     return;
   }
-- 
2.43.0


From 994261cbb571a371bc3ba211b88b4562d97a9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 49/53] fix: count electrons on MPI ranks without sample blocks

---
 stempy/electron.cpp     | 14 ++++++++++++--
 stempy/electron.h       |  2 ++
 stempy/electron_mpi.cpp | 16 ++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index edfb26d..a5a9019 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -739,11 +739,21 @@ ElectronCountedData electronCount(Reader* reader,
 #endif
 
   // Now setup  electron count output
-  auto frameSize = sampleBlocks[0].header.frameDimensions;
+  Dimensions2D frameSize = { 0, 0 };
+  Dimensions2D headerScanDimensions = { 0, 0 };
+  if (!sampleBlocks.empty()) {
+    frameSize = sampleBlocks[0].header.frameDimensions;
+    headerScanDimensions = sampleBlocks[0].header.scanDimensions;
+  }
+
+#ifdef USE_MPI
+  // A rank may not have any sample blocks, rank 0 has those of all ranks.
+  broadcastDimensions(frameSize, headerScanDimensions);
+#endif
 
   // If we haven't been provided with width and height, try the header.
   if (scanDimensions.first == 0 || scanDimensions.second == 0) {
-    scanDimensions = sampleBlocks[0].header.scanDimensions;
+    scanDimensions = headerScanDimensions;
   }
 
   auto numberOfScanPositions = scanDimensions.first * scanDimensions.second;
diff --git a/stempy/electron.h b/stempy/electron.h
index 4b9fd5f..cba879a 100644
--- a/stempy/electron.h
+++ b/stempy/electron.h
@@ -81,6 +81,8 @@ void gatherBlocks(int worldSize, int rank, std::vector<Block>& blocks);
 void gatherEvents(int worldSize, int rank, Events& events);
 void broadcastThresholds(double& background, double& xRay,
                          double& optimizedMean);
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions);
 
 #endif
 }
diff --git a/stempy/electron_mpi.cpp b/stempy/electron_mpi.cpp
index bf9463c..c3cc1fb 100644
--- a/stempy/electron_mpi.cpp
+++ b/stempy/electron_mpi.cpp
@@ -197,6 +197,22 @@ void broadcastThresholds(double& background, double& xRay,
   optimizedMean = thresholds[2];
 }
 
+void broadcastDimensions(Dimensions2D& frameDimensions,
+                         Dimensions2D& scanDimensions)
+{
+  std::vector<uint32_t> dimensions = { frameDimensions.first,
+                                       frameDimensions.second,
+                                       scanDimensions.first,
+                                       scanDimensions.second };
+
+  // Broadcast the dimensions
+  MPI_Bcast(dimensions.data(), dimensions.size(), MPI_UINT32_T, 0,
+            MPI_COMM_WORLD);
+
+  frameDimensions = { dimensions[0], dimensions[1] };
+  scanDimensions = { dimensions[2], dimensions[3] };
+}
+
 int getSampleBlocksPerRank(int worldSize, int rank, int thresholdNumberOfBlocks)
 {
   auto sampleBlocksPerRank = thresholdNumberOfBlocks / worldSize;
-- 
2.43.0


From aee4e246868e1cb7638429193d9694cfd9459989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 50/53] fix: correct bad sectors at the border of the scan in
 filter_bad_sectors

---
 python/stempy/image/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index ca863ed..aa3bb9a 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -641,8 +641,11 @@ def filter_bad_sectors(com, cut_off):
     x, y = np.where(_)
 
     for ii, jj in zip(x, y):
-        com[0, ii, jj] = np.nanmedian(com[0, ii - 1:ii + 2, jj - 1:jj + 2])
-        com[1, ii, jj] = np.nanmedian(com[1, ii - 1:ii + 2, jj - 1:jj + 2])
+        # The neighborhood is cut off at the border of the scan
+        rows = slice(max(ii - 1, 0), ii + 2)
+        cols = slice(max(jj - 1, 0), jj + 2)
+        com[0, ii, jj] = np.nanmedian(com[0, rows, cols])
+        com[1, ii, jj] = np.nanmedian(com[1, rows, cols])
     return com
 
 def com_dense(frames):
-- 
2.43.0


From e1571c7e944bb6c82daf98eecac575dcc83ddc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 51/53] fix: let the maximum diffraction pattern take the
 average as dark reference

---
 python/image.cpp |  9 +++++++--
 stempy/image.cpp | 12 ++++++------
 stempy/image.h   |  2 +-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 40b9e43..3ed5c7b 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -594,7 +594,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(StreamReader::iterator, StreamReader::iterator,
-                          const Image<float>&)) &
+                          const Image<double>&)) &
           maximumDiffractionPattern<StreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -603,7 +603,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(SectorStreamReader::iterator,
-                          SectorStreamReader::iterator, const Image<float>&)) &
+                          SectorStreamReader::iterator, const Image<double>&)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -611,6 +611,11 @@ PYBIND11_MODULE(_image, m)
                           SectorStreamReader::iterator)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        (Image<double>(*)(PyReader::iterator, PyReader::iterator,
+                          const Image<double>&)) &
+          maximumDiffractionPattern<PyReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
diff --git a/stempy/image.cpp b/stempy/image.cpp
index e264142..bdf901a 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -584,7 +584,7 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
 
 template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                        const Image<float>& darkreference)
+                                        const Image<double>& darkreference)
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
@@ -622,7 +622,7 @@ template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last)
 {
   // Create empty dark reference
-  Image<float> dark;
+  Image<double> dark;
 
   return maximumDiffractionPattern(first, last, dark);
 }
@@ -676,16 +676,16 @@ template RadialSum<uint64_t> radialSum(PyReader::iterator first,
 
 template Image<double> maximumDiffractionPattern(
   StreamReader::iterator first, StreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   vector<Block>::iterator first, vector<Block>::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   SectorStreamReader::iterator first, SectorStreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   PyReader::iterator first, PyReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(StreamReader::iterator first,
                                                  StreamReader::iterator last);
 template Image<double> maximumDiffractionPattern(vector<Block>::iterator first,
diff --git a/stempy/image.h b/stempy/image.h
index bf95608..6df0159 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -136,7 +136,7 @@ namespace stempy {
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                          const Image<float>& darkreference);
+                                          const Image<double>& darkreference);
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last);
-- 
2.43.0


From 3f78e5f7224bbf1b4c1b65e91e1c0c7425d7a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:21 +0000
Subject: [PATCH 52/53] fix: keep dark-corrected threshold samples of integer
 frames signed

---
 stempy/electronthresholds.cpp | 10 ++++++----
 stempy/electronthresholds.h   | 10 ++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 46f026b..f0b2545 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -77,6 +77,8 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const float gain[])
 {
+  using SampleType = typename CalculateThresholdsResults<FrameType>::SampleType;
+
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
@@ -86,7 +88,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
 
   int numberSamplePixels =
     frameDimensions.first * frameDimensions.second * numberOfSamples;
-  std::vector<FrameType> samples(numberSamplePixels, 0);
+  std::vector<SampleType> samples(numberSamplePixels, 0);
   for (int i = 0; i < numberOfSamples; i++) {
     std::uniform_int_distribution<int> randomBlockDist(0, blocks.size() - 1);
     auto randomBlockIndex = randomBlockDist(randomEngine);
@@ -100,12 +102,12 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
+      SampleType value = blockData[randomFrameIndex * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
         static_if<dark>(
-          [&]() { value -= static_cast<int16_t>(darkReference[j]); })();
+          [&]() { value -= static_cast<int32_t>(darkReference[j]); })();
       }
       // if not integral type then we know we have gain and need to multiple
       else {
@@ -127,7 +129,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   // Now generate a histograms
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
-  auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
+  auto maxSample = static_cast<SampleType>(std::ceil(*minMax.second));
   auto maxBin = std::min(static_cast<int>(maxSample),
                          static_cast<int>(mean + xrayThreshold * stdDev));
   auto minBin =
diff --git a/stempy/electronthresholds.h b/stempy/electronthresholds.h
index cdd3bc2..982ba4a 100644
--- a/stempy/electronthresholds.h
+++ b/stempy/electronthresholds.h
@@ -14,11 +14,17 @@ namespace stempy {
 template <typename FrameType>
 struct CalculateThresholdsResults
 {
+  // The samples of integer frames may become negative when the dark reference
+  // is subtracted
+  using SampleType =
+    typename std::conditional<std::is_integral<FrameType>::value, int32_t,
+                              FrameType>::type;
+
   double backgroundThreshold = 0.0;
   double xRayThreshold = 0.0;
   int numberOfSamples = 0;
-  FrameType minSample = 0;
-  FrameType maxSample = 0;
+  SampleType minSample = 0;
+  SampleType maxSample = 0;
   double mean = 0.0;
   double variance = 0.0;
   double stdDev = 0.0;
-- 
2.43.0


From ac93f37adfe290f692bd5370491858b9766071b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:21 +0000
Subject: [PATCH 53/53] fix: keep the bin range of widely spread samples within
 int

---
 stempy/electronthresholds.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index f0b2545..7de9585 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -130,11 +130,12 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
   auto maxSample = static_cast<SampleType>(std::ceil(*minMax.second));
-  auto maxBin = std::min(static_cast<int>(maxSample),
-                         static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin =
-    std::max(static_cast<int>(std::floor(minSample)),
-             static_cast<int>(std::floor(mean - xrayThreshold * stdDev)));
+  // The limits may be beyond the range of an int
+  auto maxBin = static_cast<int>(std::min(static_cast<double>(maxSample),
+                                          mean + xrayThreshold * stdDev));
+  auto minBin = static_cast<int>(
+    std::floor(std::max(static_cast<double>(minSample),
+                        mean - xrayThreshold * stdDev)));
 
   auto numberOfBins = maxBin - minBin;
   if (numberOfBins <= 0) {
-- 
2.43.0

