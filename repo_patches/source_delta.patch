From 9ddb1c4eded82ef0f351e68e05fef134c6edf7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 01/46] fix: report failed writes and flushes of chunk,
 attribute and metadata files

---
 include/z5/filesystem/attributes.hxx | 12 ++++++++++--
 include/z5/filesystem/metadata.hxx   |  3 +++
 include/z5/filesystem/store.hxx      |  9 +++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..ad6da38 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -45,17 +45,25 @@ namespace attrs_detail {
         inline void write(const std::string & name, const nlohmann::json & j) const {
             std::ofstream file(base_ / name);
             file << j;
-            file.close();
+            finishWrite(file, name);
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
             std::ofstream file(base_ / name);
             file << std::setw(4) << j << std::endl;
-            file.close();
+            finishWrite(file, name);
         }
 
     private:
+        // close the stream and report a failed open / write / flush
+        inline void finishWrite(std::ofstream & file, const std::string & name) const {
+            file.close();
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to write " + (base_ / name).string());
+            }
+        }
+
         fs::path base_;
     };
 
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..8d3bc5b 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -13,6 +13,9 @@ namespace metadata_detail {
         std::ofstream file(path);
         file << std::setw(4) << j << std::endl;
         file.close();
+        if(!file.good()) {
+            throw std::runtime_error("z5: failed to write metadata file: " + path.string());
+        }
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..be93179 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -22,7 +22,11 @@ namespace store_detail {
         }
 
         file.seekg(0, std::ios::end);
-        const std::size_t file_size = file.tellg();
+        const std::streamoff end = file.tellg();
+        if(end < 0) {
+            throw std::runtime_error(std::string("z5: failed to read ") + what + " file: " + path.string());
+        }
+        const std::size_t file_size = end;
         file.seekg(0, std::ios::beg);
 
         // resize the data vector
@@ -42,10 +46,11 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
         }
         file.write(buffer.data(), buffer.size());
+        // the data may only reach the file when the stream is closed, so check after that
+        file.close();
         if(!file.good()) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
-        file.close();
     }
 
 }  // namespace store_detail
-- 
2.43.0


From fe519ebb82a69255f03c12f1e9555c509937b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 02/46] fix: reject requests whose offset + shape wraps around

---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..41d27f4 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // (written such that offset + shape can not wrap around)
+                if(offset[d] > shape_[d] || shape[d] > shape_[d] - offset[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From 7e96391a7ca41f411868ea0078918a7135114efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 03/46] fix: chunk overlap of regions beyond 2^31 elements per
 axis

---
 include/z5/util/blocking.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..dd72f18 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,7 +155,8 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
+            // (signed, but wide enough for coordinates beyond 2^31)
+            std::ptrdiff_t offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
-- 
2.43.0


From 8afd4a9482a75b8d9c38071ea92088498f1a824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 04/46] fix: check the stored n5 chunk before reading it for a
 partial overwrite

---
 include/z5/multiarray/array_access.hxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..d0115e2 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -277,10 +277,22 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // the buffer only fits an ordinary chunk of 'chunkShape',
+                                           // so check what is stored before reading it
+                                           std::size_t storedSize;
+                                           if(ds.checkVarlenChunk(chunkId, storedSize)) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
+                                           if(!isZarr) {
+                                               types::ShapeType storedShape;
+                                               ds.getChunkShape(chunkId, storedShape, true);
+                                               if(storedShape != chunkShape) {
+                                                   throw std::runtime_error(
+                                                       "Can't write to chunk with unexpected shape");
+                                               }
+                                           }
+                                           ds.readChunk(chunkId, &buf[0]);
                                            return true;
                                        });
             ds.writeChunk(chunkId, &buffer[0]);
-- 
2.43.0


From 9480e6915175ce19ac82bdeb6d3e78eb3ce1498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 05/46] fix: validate n5 chunk headers against the chunk shape

---
 include/z5/filesystem/store.hxx | 27 ++++++++++++++++++++++-----
 include/z5/util/format_data.hxx |  4 ++++
 src/python/lib/dataset.cxx      |  8 +++++++-
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index be93179..00f6667 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -104,24 +104,28 @@ namespace store_detail {
             std::ifstream file(chunk.path(), std::ios::binary);
 
             // read the mode
-            uint16_t mode;
+            uint16_t mode = 0;
             file.read((char *) &mode, 2);
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace(mode);
 
-            if(mode == 0) {
+            // (same criterion as in util::read_n5_header)
+            if(mode != 1) {
                 return false;
             }
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace(ndim);
 
             // advance the file by ndim * 4 to skip the shape
             file.seekg((ndim + 1) * 4);
 
-            uint32_t varlength;
+            uint32_t varlength = 0;
             file.read((char*) &varlength, 4);
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -138,15 +142,20 @@ namespace store_detail {
             file.seekg(2);
 
             // read the number of dimensions
-            uint16_t ndim;
+            uint16_t ndim = 0;
             file.read((char *) &ndim, 2);
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace(ndim);
+            if(ndim != chunk.defaultShape().size()) {
+                throw std::runtime_error("z5: invalid n5 chunk: wrong number of dimensions in " + chunk.path().string());
+            }
 
             // read temporary shape with uint32 entries
             std::vector<uint32_t> shapeTmp(ndim);
             for(int d = 0; d < ndim; ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
@@ -158,6 +167,14 @@ namespace store_detail {
             file.close();
         }
 
+    private:
+        // fail if (part of) the header could not be read
+        static inline void checkHeader(const std::ifstream & file, const ChunkHandleType & chunk) {
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to read n5 chunk header: " + chunk.path().string());
+            }
+        }
+
     };
 
     static_assert(z5::generic::ChunkStorePolicy<ChunkStore>);
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..05924d7 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -234,6 +234,10 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            // the output holds (at most) a full chunk, the header must not claim more
+            if(!is_varlen && chunk_size > chunk.defaultSize()) {
+                throw std::runtime_error("z5: invalid n5 chunk: header is larger than the chunk shape");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..7da84b2 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -123,7 +123,13 @@ namespace z5 {
                     // must be allocated accordingly
                     shape = ds.defaultChunkShape();
                 } else {
-                    ds.getChunkShape(chunkId, shape);
+                    // the shape the chunk is stored with, which must fit into the chunk grid
+                    ds.getChunkShape(chunkId, shape, true);
+                    for(std::size_t d = 0; d < shape.size(); ++d) {
+                        if(shape[d] > ds.defaultChunkShape(d)) {
+                            throw std::runtime_error("Stored chunk is larger than the chunk shape");
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 4472e83b004d59daaea5406237bce270296fb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 06/46] fix: do not decompress truncated blosc buffers

---
 include/z5/compression/blosc_compressor.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..d871760 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,9 +47,19 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // blosc reads the compressed length from its own header,
+            // so make sure that this many bytes are there
+            std::size_t nBytes = 0, cBytes = 0, blockSize = 0;
+            if(nBytesIn >= BLOSC_MIN_HEADER_LENGTH) {
+                blosc_cbuffer_sizes(dataIn, &nBytes, &cBytes, &blockSize);
+            }
+            if(nBytesIn < BLOSC_MIN_HEADER_LENGTH || cBytes > nBytesIn) {
+                throw std::runtime_error("Blosc decompression failed: truncated data");
+            }
+
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
-- 
2.43.0


From 9af499b16732e4dad3f5324d2069deaf3aa9c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 07/46] fix: report truncated raw and lz4 chunks

---
 include/z5/compression/lz4_compressor.hxx | 4 ++++
 include/z5/util/format_data.hxx           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..e4c1ebd 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -51,6 +51,10 @@ namespace compression {
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
+            }
+            // the block format has no end mark, a truncated block just decodes to less data
+            if(static_cast<std::size_t>(compressed) != sizeOut * sizeof(T)) {
+                throw std::runtime_error("Exception during lz4 decompression: unexpected size");
             }
 		}
 
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 05924d7..83385ad 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -148,6 +148,10 @@ namespace util {
             if(nBytes > data_size * sizeof(T)) {
                 throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
             }
+            // a truncated chunk must not leave (part of) the output uninitialized
+            if(nBytes < data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk is smaller than the expected chunk size");
+            }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
         } else {
-- 
2.43.0


From fd3ec307fbd454b0ab51c092de22c5f70babd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 08/46] fix: reject chunk indices and requests with the wrong
 number of dimensions

---
 include/z5/handle.hxx        |  3 +++
 include/z5/util/sharding.hxx |  4 ++++
 src/python/lib/dataset.cxx   | 12 ++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..43a7398 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != ndim || datasetShape_.size() != ndim) {
+                throw std::runtime_error("Chunk index has wrong dimension");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..46cde4e 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -4,6 +4,7 @@
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include "z5/types/types.hxx"
@@ -55,6 +56,9 @@ namespace util {
     // outer shard id of an inner chunk id
     inline types::ShapeType shardId(const types::ShapeType & innerId,
                                     const types::ShapeType & cps) {
+        if(innerId.size() != cps.size()) {
+            throw std::runtime_error("Chunk index has wrong dimension");
+        }
         types::ShapeType sid(innerId.size());
         for(std::size_t d = 0; d < innerId.size(); ++d) {
             sid[d] = innerId[d] / cps[d];
diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index 7da84b2..a9d3b1f 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -48,12 +48,21 @@ namespace z5 {
     }
 
 
+    // the native functions take iterators to the request, so its length must be checked here
+    inline void checkRequestDim(const std::vector<std::size_t> & request, const std::size_t ndim) {
+        if(request.size() != ndim) {
+            throw std::runtime_error("Request has wrong dimension");
+        }
+    }
+
+
     template<class T>
     inline void writePySubarray(const Dataset & ds,
                                 const nb::ndarray<nb::numpy, const T, nb::c_contig> in,
                                 const std::vector<std::size_t> & roiBegin,
                                 const int numberOfThreads) {
         const auto view = constViewFromArray<T>(in);
+        checkRequestDim(roiBegin, in.ndim());
         multiarray::writeSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -64,6 +73,7 @@ namespace z5 {
                                const std::vector<std::size_t> & roiBegin,
                                const int numberOfThreads) {
         const auto view = viewFromArray<T>(out);
+        checkRequestDim(roiBegin, out.ndim());
         multiarray::readSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -74,6 +84,8 @@ namespace z5 {
                               const std::vector<std::size_t> & roiShape,
                               const T val,
                               const int numberOfThreads) {
+        checkRequestDim(roiBegin, ds.dimension());
+        checkRequestDim(roiShape, ds.dimension());
         multiarray::writeScalar<T>(ds, roiBegin.begin(), roiShape.begin(), val, numberOfThreads);
     }
 
-- 
2.43.0


From 1b94c59bd63f7950807fef3fcb66391acec7cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 09/46] fix: reject zero chunk shapes and shard shapes that do
 not fit the chunks

---
 include/z5/metadata.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..c809187 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <string>
@@ -407,6 +408,20 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            if(std::find(chunkShape.begin(), chunkShape.end(), std::size_t(0)) != chunkShape.end()) {
+                throw std::runtime_error("Chunk shape has a zero entry");
+            }
+            // the shard shape must be a (non-zero) multiple of the chunk shape
+            if(!shardShape.empty()) {
+                if(shardShape.size() != chunkShape.size()) {
+                    throw std::runtime_error("Dimension of shards and chunks does not agree");
+                }
+                for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                    if(shardShape[d] == 0 || shardShape[d] % chunkShape[d] != 0) {
+                        throw std::runtime_error("Shard shape is not a multiple of the chunk shape");
+                    }
+                }
+            }
         }
 
 
@@ -489,7 +504,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From a7ebf1b299476c350753fee4bde9ed9e92eb4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 10/46] fix: do not leave an empty directory if the dataset
 metadata is invalid

---
 include/z5/filesystem/factory.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 2d0c806..e3731c7 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -59,6 +59,10 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // make sure that the metadata can be represented in the format
+        // before anything is created on disk
+        nlohmann::json j;
+        metadata.toJson(j);
         dataset.create();
         writeMetadata(dataset, metadata);
         return factory_detail::makeDataset(dataset, metadata);
-- 
2.43.0


From 5af30098197bb54b6be7468b61d278b8754dbe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 11/46] fix: n5 datasets have no fill value, also before they
 are opened again

---
 include/z5/metadata.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index c809187..16f2e19 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -513,7 +513,9 @@ namespace z5 {
         metadata = DatasetMetadata(internalDtype, shape,
                                    chunkShape, createAsZarr,
                                    internalCompressor, internalCompressionOptions,
-                                   fillValue, zarrDelimiter,
+                                   // n5 has no fill value: it is not stored, so data that was never
+                                   // written always reads as zero once the dataset is opened again
+                                   createAsZarr ? fillValue : 0., zarrDelimiter,
                                    zarrFormat, chunkKeyEncoding, shardShape);
     }
 
-- 
2.43.0


From b7717a439babd48a0bb0b74cfa1769aaafe1da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 12/46] fix: undefined fill value of integer zarr v2 arrays

---
 include/z5/metadata.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 16f2e19..4afcdb5 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -164,7 +164,9 @@ namespace z5 {
                     throw std::runtime_error("Invalid string value for fillValue");
                 }
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
-                fillValue = std::numeric_limits<double>::quiet_NaN();
+                // (nan can not be represented by the integer types)
+                const bool isInteger = dtype >= types::int8 && dtype <= types::uint64;
+                fillValue = isInteger ? 0. : std::numeric_limits<double>::quiet_NaN();
             } else {
                 fillValue = static_cast<double>(fillValJson);
             }
-- 
2.43.0


From 2a069d06429cf8defbdc658a2200aa82dfcf67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 13/46] fix: refuse zarr v3 metadata with unsupported codec
 chains, grids and key encodings

---
 include/z5/metadata.hxx    | 31 ++++++++++++++++++++++++++++++-
 include/z5/types/types.hxx | 11 ++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4afcdb5..3037ec3 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -327,12 +327,18 @@ namespace z5 {
             shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
             types::ShapeType outerShape(gridShape.begin(), gridShape.end());
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
             chunkKeyEncoding = cke.at("name").get<std::string>();
+            if(chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Unsupported zarr v3 chunk key encoding: " + chunkKeyEncoding);
+            }
             if(cke.contains("configuration") && cke.at("configuration").contains("separator")) {
                 zarrDelimiter = cke.at("configuration").at("separator").get<std::string>();
             } else {
@@ -365,7 +371,11 @@ namespace z5 {
             for(const auto & c : codecs) {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
+                    if(codecs.size() != 1) {
+                        throw std::runtime_error("z5: codecs around the sharding codec are not supported");
+                    }
                     const auto & scfg = c.at("configuration");
+                    checkShardIndexConfig(scfg);
                     const auto & innerShapeJson = scfg.at("chunk_shape");
                     chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
                     shardShape = outerShape;
@@ -377,7 +387,8 @@ namespace z5 {
                 chunkShape = outerShape;
             }
 
-            types::readV3CodecsFromJson(*innerCodecs, compressor, compressionOptions);
+            types::readV3CodecsFromJson(*innerCodecs, types::datatypeSize(dtype),
+                                        compressor, compressionOptions);
         }
 
     public:
@@ -405,6 +416,24 @@ namespace z5 {
 
     private:
 
+        // make sure that the shard index is stored like we write it
+        void checkShardIndexConfig(const nlohmann::json & config) const {
+            if(config.value("index_location", std::string("end")) != "end") {
+                throw std::runtime_error("z5: only shards with the index at the end are supported");
+            }
+            const auto jIt = config.find("index_codecs");
+            if(jIt == config.end()) {
+                return;
+            }
+            if(jIt->size() != 2 || jIt->at(0).at("name") != "bytes" || jIt->at(1).at("name") != "crc32c") {
+                throw std::runtime_error("z5: unsupported codecs for the shard index");
+            }
+            if(jIt->at(0).contains("configuration") &&
+               jIt->at(0).at("configuration").value("endian", std::string("little")) != "little") {
+                throw std::runtime_error("z5: unsupported codecs for the shard index");
+            }
+        }
+
         // make sure that shapes agree
         void checkShapes() {
             if(shape.size() != chunkShape.size()) {
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..09fb109 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,16 +506,25 @@ namespace types {
         }
     }
 
-    // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
+    // parse a zarr v3 codec list into a Compressor + CompressionOptions
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
+                                     std::size_t typesize,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
             if(name == "bytes") {
+                // the data is stored in little endian order (only optional for single byte types)
+                if(c.contains("configuration") &&
+                   c.at("configuration").value("endian", std::string("little")) != "little" && typesize > 1) {
+                    throw std::runtime_error("z5: only little endian data is supported for zarr v3");
+                }
                 continue;
             }
+            if(compressor != raw) {
+                throw std::runtime_error("z5: multiple zarr v3 compression codecs are not supported");
+            }
             const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
-- 
2.43.0


From 7582e30b4eab12e7f0205b509dbc2cd7c5caf63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 14/46] fix: missing keys in dataset metadata are undefined
 behaviour

---
 include/z5/metadata.hxx    | 20 ++++++++++----------
 include/z5/types/types.hxx | 38 +++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3037ec3..28c23b1 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -145,14 +145,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -178,9 +178,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -193,13 +193,13 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 09fb109..11dadf8 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.value("cname", std::string("lz4"));
+                        options["level"] = jOpts.value("clevel", 5);
+                        options["shuffle"] = jOpts.value("shuffle", 1);
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = jOpts.value("blocksize", 0);
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.value("level", 5);
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.value("level", 5); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.value("acceleration", 6); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.value("level", 3); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +312,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.value("level", 5);
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.value("blockSize", 5); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.value("preset", 6); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.value("blockSize", 6); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.value("cname", std::string("lz4"));
+                        options["level"] = jOpts.value("clevel", 5);
+                        options["shuffle"] = jOpts.value("shuffle", 1);
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = jOpts.value("blocksize", 0);
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = jOpts.value("nthreads", 1);
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.value("level", 3); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From cb0d04f60dafa40f5bdb02509130ed82796de91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 15/46] fix: the blosc option clevel was ignored for n5 and
 zarr v2

---
 src/python/module/z5py/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..9517f45 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -136,6 +136,9 @@ class Dataset:
 
         # update the default options
         default_opts.update(compression_options)
+        # the C++ library calls the blosc compression level 'level'
+        if 'clevel' in default_opts:
+            default_opts['level'] = default_opts.pop('clevel')
         return default_opts
 
     @staticmethod
@@ -191,6 +194,9 @@ class Dataset:
 
         # update the default options
         default_opts.update(compression_options)
+        # the C++ library calls the blosc compression level 'level'
+        if 'clevel' in default_opts:
+            default_opts['level'] = default_opts.pop('clevel')
         return default_opts
 
     # NOTE in contrast to h5py, we also check that the chunks match
-- 
2.43.0


From 164ad2f72ffb5ed05f6a68fc0c7bb749afd5ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 16/46] fix: the first element of an axis can be indexed from
 the end

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From 2c4f0a390612eb0bef3bfab9a84bbd5215d4dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 17/46] fix: names with leading slash left the container and
 nested names lacked intermediate groups

---
 src/python/module/z5py/group.py | 41 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..f604aa7 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -88,12 +88,13 @@ class Group(Mapping):
         if name not in self:
             raise KeyError("Key %s does not exist" % name)
 
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
+        name = name.lstrip('/')
+        if self.is_sub_group(name):
+            handle = self._handle_factory(self._handle, name)
             return Group(handle, self._handle_factory, self, self._name + '/' + name,
                          self._dimension_separator, self._zarr_format)
         else:
-            return Dataset._open_dataset(self, name.lstrip('/'))
+            return Dataset._open_dataset(self, name)
 
     @property
     def attrs(self):
@@ -148,6 +149,15 @@ class Group(Mapping):
         """
         return self._handle.is_sub_group(name)
 
+    def _require_parents(self, name):
+        # for nested names, create the intermediate groups with proper metadata;
+        # returns the direct parent of the object and the object's name in it
+        parts = [part for part in name.split('/') if part]
+        group = self
+        for part in parts[:-1]:
+            group = group.require_group(part)
+        return group, parts[-1]
+
     def create_group(self, name):
         """ Create a new group.
 
@@ -164,8 +174,9 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
-        handle = _z5py.create_group(self._handle, name, self._zarr_format)
-        return Group(handle, self._handle_factory, self, self._name + '/' + name,
+        group, name = self._require_parents(name)
+        handle = _z5py.create_group(group._handle, name, self._zarr_format)
+        return Group(handle, self._handle_factory, group, group._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
 
     def require_group(self, name):
@@ -180,6 +191,7 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
+        name = name.lstrip('/')
         if name in self:
             if not self.is_sub_group(name):
                 raise TypeError("Incompatible object (Dataset) already exists")
@@ -187,7 +199,7 @@ class Group(Mapping):
         else:
             if not self._handle.mode().can_write():
                 raise ValueError("Cannot create group with read-only permissions.")
-            handle = _z5py.create_group(self._handle, name, self._zarr_format)
+            return self.create_group(name)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
 
@@ -237,12 +249,9 @@ class Group(Mapping):
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
+        group, name = self._require_parents(name)
+        if group is not self:
+            return group.create_dataset(name, shape, dtype,
                                         data, chunks, compression,
                                         fillvalue, n_threads,
                                         shards=shards,
@@ -282,7 +291,13 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, name, shape, dtype, chunks,
+        name = name.lstrip('/')
+        group = self
+        if name not in self:
+            if not self._handle.mode().can_write():
+                raise ValueError("Cannot create dataset with read-only permissions.")
+            group, name = self._require_parents(name)
+        return Dataset._require_dataset(group, name, shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
 
-- 
2.43.0


From 77777e51cb2676f702633f8f68f6b6ef18663340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 18/46] fix: scalars that do not fit the dtype of the dataset
 are undefined behaviour

---
 src/python/lib/dataset.cxx | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index a9d3b1f..0e385ab 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -1,6 +1,9 @@
+#include <cmath>
 #include <complex>
+#include <limits>
 #include <memory>
 #include <numeric>
+#include <utility>
 
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
@@ -90,6 +93,28 @@ namespace z5 {
     }
 
 
+    // Convert a scalar to the datatype of the dataset. A value that an integer
+    // datatype can not represent is an error: converting it would be undefined
+    // behaviour (or store a different value).
+    template<class T, class CAST_T>
+    inline T castPyScalar(const CAST_T val) {
+        if constexpr(std::is_integral_v<T> && std::is_integral_v<CAST_T>) {
+            if(!std::in_range<T>(val)) {
+                throw std::out_of_range("Scalar is out of range for the dtype of the dataset");
+            }
+        } else if constexpr(std::is_integral_v<T>) {
+            // (2^digits is exact as double, in contrast to the maximal value)
+            const double end = std::ldexp(1., std::numeric_limits<T>::digits);
+            const double begin = std::is_signed_v<T> ? -end : 0.;
+            const double truncated = std::trunc(val);
+            if(!(truncated >= begin && truncated < end)) {
+                throw std::out_of_range("Scalar is out of range for the dtype of the dataset");
+            }
+        }
+        return static_cast<T>(val);
+    }
+
+
     // Extract the scalar as CAST_T (falling back to double, so float values can
     // still be written - truncating - to integer datasets), then write without the
     // GIL. Funneling every value through double would silently lose precision for
@@ -101,10 +126,11 @@ namespace z5 {
                                     const nb::object & val,
                                     const int numberOfThreads) {
         T v;
-        try {
-            v = static_cast<T>(nb::cast<CAST_T>(val));
-        } catch(...) {
-            v = static_cast<T>(nb::cast<double>(val));
+        CAST_T exact;
+        if(nb::try_cast<CAST_T>(val, exact)) {
+            v = castPyScalar<T, CAST_T>(exact);
+        } else {
+            v = castPyScalar<T, double>(nb::cast<double>(val));
         }
         nb::gil_scoped_release lift_gil;
         writePyScalar<T>(ds, roiBegin, roiShape, v, numberOfThreads);
-- 
2.43.0


From cc68fe7692bde1b2a0b37e8c8fa3cc2e39eb0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 19/46] fix: the padding of zarr edge chunks does not count as
 data in unique and removeTrivialChunks

---
 include/z5/util/functions.hxx | 43 ++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..64b31c3 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -26,6 +26,40 @@ namespace util {
     }
 
 
+    // Read the elements of a stored chunk that belong to the dataset and return
+    // their number. Zarr edge chunks are stored padded to the full chunk shape,
+    // the padding is cropped here because it is not part of the data.
+    template<class T>
+    inline std::size_t readChunkElements(const Dataset & ds,
+                                         const types::ShapeType & chunk,
+                                         std::vector<T> & data) {
+        const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
+        ds.readChunk(chunk, &data[0]);
+        if(!ds.isZarr()) {
+            return dataSize;
+        }
+        const auto & fullShape = ds.defaultChunkShape();
+        types::ShapeType shape;
+        ds.getChunkShape(chunk, shape);
+        const std::size_t size = std::accumulate(shape.begin(), shape.end(), std::size_t(1),
+                                                 std::multiplies<std::size_t>());
+        if(size == dataSize) {
+            return dataSize;
+        }
+        // move the valid elements to the front
+        for(std::size_t i = 0; i < size; ++i) {
+            std::size_t rest = i, source = 0, stride = 1;
+            for(int d = shape.size() - 1; d >= 0; --d) {
+                source += (rest % shape[d]) * stride;
+                rest /= shape[d];
+                stride *= fullShape[d];
+            }
+            data[i] = data[source];
+        }
+        return size;
+    }
+
+
     // remove chunks which contain only a single value
     // -> this is often some background value, that might`
     // be different from the global background value
@@ -48,8 +82,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkElements(ds, chunk, data);
             // check vector for number of uniques and if we only have a single unique, remove it
             const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
             const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
@@ -104,8 +137,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkElements(ds, chunk, data);
             auto & threadSet = (tid == 0) ? uniques : threadData[tid - 1];
             threadSet.insert(data.begin(), data.begin() + dataSize);
         });
@@ -136,8 +168,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            const std::size_t dataSize = readChunkElements(ds, chunk, data);
             data.resize(dataSize);
             auto & threadMap = (tid == 0) ? uniques : threadData[tid - 1];
             for(const T val : data) {
-- 
2.43.0


From 0da5d23a87ffa9933062e4d44835f92a3d273cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:21 +0000
Subject: [PATCH 20/46] fix: partial overwrite of n5 edge chunks that are
 stored at full size

---
 include/z5/multiarray/array_access.hxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index d0115e2..4bd97d2 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -288,8 +288,19 @@ namespace multiarray {
                                                types::ShapeType storedShape;
                                                ds.getChunkShape(chunkId, storedShape, true);
                                                if(storedShape != chunkShape) {
-                                                   throw std::runtime_error(
-                                                       "Can't write to chunk with unexpected shape");
+                                                   if(storedShape != ds.defaultChunkShape()) {
+                                                       throw std::runtime_error(
+                                                           "Can't write to chunk with unexpected shape");
+                                                   }
+                                                   // edge chunk that was stored at full size, crop it
+                                                   std::vector<T> full(maxChunkSize);
+                                                   ds.readChunk(chunkId, &full[0]);
+                                                   const ConstArrayView<T> fullView(full.data(), storedShape,
+                                                                                    cOrderStrides(storedShape));
+                                                   copyView(subview(fullView, types::ShapeType(storedShape.size(), 0),
+                                                                    chunkShape),
+                                                            makeView(buf.data(), chunkShape));
+                                                   return true;
                                                }
                                            }
                                            ds.readChunk(chunkId, &buf[0]);
-- 
2.43.0


From 7924771181c9d44b4ac8e8438d7e5daa639fc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 21/46] fix: unique and removeTrivialChunks with n5 edge chunks
 that are stored at full size

---
 include/z5/util/functions.hxx | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 64b31c3..dc90733 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -27,25 +27,32 @@ namespace util {
 
 
     // Read the elements of a stored chunk that belong to the dataset and return
-    // their number. Zarr edge chunks are stored padded to the full chunk shape,
-    // the padding is cropped here because it is not part of the data.
+    // their number. Zarr edge chunks (and n5 edge chunks of some writers) are stored
+    // padded to the full chunk shape, the padding is cropped because it is not data.
     template<class T>
     inline std::size_t readChunkElements(const Dataset & ds,
                                          const types::ShapeType & chunk,
                                          std::vector<T> & data) {
         const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-        ds.readChunk(chunk, &data[0]);
-        if(!ds.isZarr()) {
+        const bool isVarlen = ds.readChunk(chunk, &data[0]);
+        if(isVarlen) {
             return dataSize;
         }
-        const auto & fullShape = ds.defaultChunkShape();
+        // the shape of the chunk as it is stored and as it is in the dataset
+        types::ShapeType fullShape = ds.defaultChunkShape();
+        if(!ds.isZarr()) {
+            ds.getChunkShape(chunk, fullShape, true);
+        }
         types::ShapeType shape;
         ds.getChunkShape(chunk, shape);
-        const std::size_t size = std::accumulate(shape.begin(), shape.end(), std::size_t(1),
-                                                 std::multiplies<std::size_t>());
-        if(size == dataSize) {
+        if(shape == fullShape) {
             return dataSize;
         }
+        if(fullShape != ds.defaultChunkShape()) {
+            throw std::runtime_error("Can't read chunk with unexpected shape");
+        }
+        const std::size_t size = std::accumulate(shape.begin(), shape.end(), std::size_t(1),
+                                                 std::multiplies<std::size_t>());
         // move the valid elements to the front
         for(std::size_t i = 0; i < size; ++i) {
             std::size_t rest = i, source = 0, stride = 1;
-- 
2.43.0


From f3628e2c518a5f7d6b308847652d005c85d51ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 22/46] fix: concurrent writes to different chunks of a shard
 via one dataset lost data

---
 include/z5/dataset.hxx                 |  7 +++++
 include/z5/generic/sharded_dataset.hxx | 37 +++++++++++++++++++-------
 include/z5/multiarray/array_access.hxx |  8 +++---
 3 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 41d27f4..33d0009 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <mutex>
+#include <shared_mutex>
+
 #include <memory>
 
 #include "z5/metadata.hxx"
@@ -100,6 +103,10 @@ namespace z5 {
         // do a single read-modify-write per shard and parallelize across shards. Default
         // bodies are no-ops; only ShardedDataset overrides them (and the sub-array code
         // only calls them when isSharded() is true).
+        // exclusive access to a shard, must be held during its read-modify-write
+        virtual std::unique_lock<std::shared_mutex> lockShard(const types::ShapeType &) const {
+            return std::unique_lock<std::shared_mutex>();
+        }
         // read all per-slot inner-chunk blobs of a shard (empty vector for empty slots)
         virtual void readShardBlobs(const types::ShapeType &,
                                     std::vector<std::vector<char>> &) const {}
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..38371c8 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <array>
 #include <mutex>
+#include <shared_mutex>
 
 #include "z5/dataset.hxx"
 #include "z5/generic/store.hxx"
@@ -166,8 +168,14 @@ namespace generic {
         // batched shard IO (used by the shard-aware sub-array paths)
         //
 
+        // Exclusive access to a shard for the other threads that use this dataset object.
+        // Must be held while a shard is read, modified and written.
+        inline std::unique_lock<std::shared_mutex> lockShard(const types::ShapeType & shardCoord) const override {
+            return std::unique_lock<std::shared_mutex>(shardMutex(shardCoord));
+        }
+
         // read all per-slot inner-chunk blobs of a shard; empty vector for empty / absent
-        // slots. 'shardCoord' is the shard's coordinate in the (outer) shard grid.
+        // slots (takes no lock, see lockShard). 'shardCoord' is the shard's coordinate in the (outer) shard grid.
         inline void readShardBlobs(const types::ShapeType & shardCoord,
                                    std::vector<std::vector<char>> & blobs) const override {
             // clear slot-by-slot (not assign) so a caller-reused `blobs` keeps the slot
@@ -198,6 +206,7 @@ namespace generic {
                                  std::vector<char> & shardBuf,
                                  std::vector<std::size_t> & offsets,
                                  std::vector<std::size_t> & nbytes) const override {
+            std::shared_lock<std::shared_mutex> lock(shardMutex(shardCoord));
             ChunkHandleType shardChunk(handle_, shardCoord, shardShape_, shape());
             if(!STORE::read(shardChunk, shardBuf, "shard")) {
                 return false;
@@ -216,9 +225,9 @@ namespace generic {
         }
 
         // build & write a shard from its per-slot blobs (remove the object if all empty).
-        // NOTE: takes no lock itself; callers guarantee exclusivity for the shard object --
-        // the shard-aware writeSubarray path uses one task per shard, and writeInnerBlob
-        // (the direct per-chunk path) calls this while holding shardMutex_.
+        // NOTE: takes no lock itself; callers guarantee exclusivity for the shard object by
+        // holding lockShard -- the shard-aware writeSubarray path and writeInnerBlob
+        // (the direct per-chunk path).
         inline void writeShardBlobs(const types::ShapeType & shardCoord,
                                     const std::vector<std::vector<char>> & blobs) const override {
             // single choke point for all sharded writes (writeChunk, removeChunk and
@@ -270,7 +279,9 @@ namespace generic {
         inline bool readShard(const types::ShapeType & chunkId,
                               std::vector<char> & shardBuf,
                               std::vector<util::ShardEntry> & entries) const {
-            ChunkHandleType shardChunk(handle_, util::shardId(chunkId, chunksPerShard_), shardShape_, shape());
+            const auto shardCoord = util::shardId(chunkId, chunksPerShard_);
+            std::shared_lock<std::shared_mutex> lock(shardMutex(shardCoord));
+            ChunkHandleType shardChunk(handle_, shardCoord, shardShape_, shape());
             if(!STORE::read(shardChunk, shardBuf, "shard")) {
                 return false;
             }
@@ -281,14 +292,14 @@ namespace generic {
         }
 
         // replace one inner chunk's blob in its shard (read-modify-write). Serialized by
-        // shardMutex_ so concurrent direct writeChunk calls to the same shard are safe;
+        // lockShard so concurrent writes to the same shard are safe;
         // the read + rebuild themselves are shared with the batched shard-aware path.
         inline void writeInnerBlob(const types::ShapeType & chunkId,
                                    std::vector<char> && blob,
                                    const bool nonEmpty) const {
-            std::lock_guard<std::mutex> lock(shardMutex_);
-
             const auto shardCoord = util::shardId(chunkId, chunksPerShard_);
+            const auto lock = lockShard(shardCoord);
+
             const std::size_t slot = util::shardSlot(chunkId, chunksPerShard_);
 
             std::vector<std::vector<char>> blobs;
@@ -311,7 +322,15 @@ namespace generic {
         types::ShapeType shardShape_;
         types::ShapeType chunksPerShard_;
         std::size_t nSlots_;
-        mutable std::mutex shardMutex_;
+        // the shards are distributed over a fixed number of mutexes
+        inline std::shared_mutex & shardMutex(const types::ShapeType & shardCoord) const {
+            std::size_t hash = 0;
+            for(const auto coord : shardCoord) {
+                hash = hash * 31 + coord;
+            }
+            return shardMutexes_[hash % shardMutexes_.size()];
+        }
+        mutable std::array<std::shared_mutex, 64> shardMutexes_;
     };
 
 
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 4bd97d2..8ff2110 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -331,8 +331,8 @@ namespace multiarray {
     // which read-modify-writes (and, for writes, locks) the whole shard -- so K inner
     // chunks in a shard cost K full shard reads/rebuilds and serialize. The paths below
     // instead group the request's inner chunks by shard, touch each shard file exactly
-    // once, and parallelize ACROSS shards (one task per shard, so no shard-level locking is
-    // needed within a call).
+    // once, and parallelize ACROSS shards (one task per shard, so tasks of one call never
+    // wait for the lock of a shard).
 
     // group the inner-chunk requests by their shard; returns stable pointers into the map.
     inline void groupChunksByShard(
@@ -390,6 +390,8 @@ namespace multiarray {
                                 const types::ShapeType & shardCoord,
                                 const std::vector<types::ShapeType> & innerChunks) {
             auto & blobs = scratch.blobs;
+            // other threads may write different chunks of this shard via the same dataset
+            const auto lock = ds.lockShard(shardCoord);
             ds.readShardBlobs(shardCoord, blobs);  // preserves untouched slots; cheap if absent
 
             types::ShapeType chunkShape;
@@ -418,7 +420,7 @@ namespace multiarray {
             ds.writeShardBlobs(shardCoord, blobs);
         };
 
-        // one task per shard (so each shard file has a single writer -> no lock needed)
+        // one task per shard (so each shard file has a single writer in this call)
         forEachWithState(numberOfThreads, groups.size(),
                          [&]{ return Scratch{std::vector<T>(maxChunkSize, fillValue), {}, {}}; },
                          [&](Scratch & scratch, const std::size_t i){
-- 
2.43.0


From f1e43f2499e120eb56e319ac9c5c424ba34698b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 23/46] fix: empty zstd chunks were silently read as data

---
 include/z5/compression/zstd_compressor.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..730d1bc 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -49,6 +49,10 @@ namespace compression {
                 std::string err = "Exception during zstd decompression: " +
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
+            }
+            // a stream that is cut at the border of a frame (e.g. an empty one) is not an error for zstd
+            if(decompressed != sizeOut * sizeof(T)) {
+                throw std::runtime_error("Exception during zstd decompression: unexpected size of the data");
             }
 		}
 
-- 
2.43.0


From 589a5120b0411739b827fee5553109b9dab24ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 24/46] fix: only the first member of gzip and bzip2 data was
 read

---
 include/z5/compression/bzip2_compressor.hxx |  8 +++++
 include/z5/compression/zlib_compressor.hxx  | 38 +++++++++++++++++----
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..441d547 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -89,6 +89,14 @@ namespace compression {
             bzs.avail_out = sizeOut * sizeof(T);
 
             int ret = BZ2_bzDecompress(&bzs);
+            // a bzip2 file may be a sequence of streams, their data is concatenated
+            while(ret == BZ_STREAM_END && bzs.avail_in > 0 && bzs.avail_out > 0) {
+                BZ2_bzDecompressEnd(&bzs);
+                if(BZ2_bzDecompressInit(&bzs, 0, 0) != BZ_OK) {
+                    throw(std::runtime_error("Initializing bzip decompression failed"));
+                }
+                ret = BZ2_bzDecompress(&bzs);
+            }
             BZ2_bzDecompressEnd(&bzs);
 
             if(ret != BZ_STREAM_END) {
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..ae3d6c2 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -105,14 +105,14 @@ namespace compression {
             std::size_t actualOut = 0;
             libdeflate_result res = useZlibEncoding_ ?
                 libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
-                libdeflate_gzip_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut);
+                decompressGzip(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes);
 
             // Robustness fallback: retry with the other wrapper. The old zlib path used
             // automatic header detection (MAX_WBITS + 32); this preserves the ability to
             // read a foreign file whose on-disk wrapper disagrees with its declared metadata.
             if(res != LIBDEFLATE_SUCCESS) {
                 res = useZlibEncoding_ ?
-                    libdeflate_gzip_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
+                    decompressGzip(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes) :
                     libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut);
             }
 
@@ -188,18 +188,24 @@ namespace compression {
 
             // let zlib decompress the bytes blockwise
             int ret;
-            std::size_t currentPosition = 0;
+            std::size_t currentPosition = 0, totalOut = 0;
             do {
                 // set the stream output to the output dat at the current position
                 // and set the available size to the remaining bytes in the output data
                 // reinterpret_cast because (Bytef*) throws warning
-                zs.next_out = reinterpret_cast<Bytef*>(dataOut + currentPosition);
-                zs.avail_out = (sizeOut - currentPosition) * sizeof(T);
+                zs.next_out = reinterpret_cast<Bytef*>(dataOut) + currentPosition;
+                zs.avail_out = sizeOut * sizeof(T) - currentPosition;
 
                 ret = inflate(&zs, Z_FINISH);
 
                 // get the current position in the out data
-                currentPosition = zs.total_out / sizeof(T);
+                currentPosition = totalOut + zs.total_out;
+
+                // a gzip file is a sequence of members, their data is concatenated
+                if(ret == Z_STREAM_END && zs.avail_in > 0 && zs.avail_out > 0) {
+                    totalOut = currentPosition;
+                    ret = inflateReset(&zs);
+                }
 
             } while(ret == Z_OK);
 
@@ -225,6 +231,26 @@ namespace compression {
         }
 
     private:
+#ifdef WITH_LIBDEFLATE
+        // a gzip file is a sequence of members, their data is concatenated
+        static libdeflate_result decompressGzip(libdeflate_decompressor * decompressor,
+                                                const char * dataIn, std::size_t nBytesIn,
+                                                T * dataOut, std::size_t sizeOutBytes) {
+            char * out = reinterpret_cast<char *>(dataOut);
+            libdeflate_result res;
+            do {
+                std::size_t actualIn = 0, actualOut = 0;
+                res = libdeflate_gzip_decompress_ex(decompressor, dataIn, nBytesIn, out, sizeOutBytes,
+                                                    &actualIn, &actualOut);
+                dataIn += actualIn;
+                nBytesIn -= actualIn;
+                out += actualOut;
+                sizeOutBytes -= actualOut;
+            } while(res == LIBDEFLATE_SUCCESS && nBytesIn > 0 && sizeOutBytes > 0);
+            return res;
+        }
+#endif
+
         void init(const DatasetMetadata & metadata) {
             level_ = std::get<int>(metadata.compressionOptions.at("level"));
             useZlibEncoding_ = std::get<bool>(metadata.compressionOptions.at("useZlib"));
-- 
2.43.0


From 06f496958efb41a775b341bef0325291ce03aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 25/46] fix: zarr v3 datasets could be created with an unknown
 chunk key encoding

z5 (and any other reader) refuses to open such a dataset, so the data
that was written to it could not be read again.
---
 include/z5/metadata.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 28c23b1..2abaeac 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -265,6 +265,9 @@ namespace z5 {
             j["chunk_grid"]["configuration"]["chunk_shape"] = sharded ? shardShape : chunkShape;
 
             // chunk key encoding ("default" -> nested under 'c/', "v2" -> flat)
+            if(chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Unsupported zarr v3 chunk key encoding: " + chunkKeyEncoding);
+            }
             j["chunk_key_encoding"]["name"] = chunkKeyEncoding;
             j["chunk_key_encoding"]["configuration"]["separator"] = zarrDelimiter;
 
-- 
2.43.0


From 286c4b3bd894ef15891256d6d4f6ee9ba4b7c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 26/46] fix: gzip chunks of zarr v3 datasets created via C++
 were zlib streams

The default of useZlib for zarr only applies to v2; the metadata of v3 (and
n5) datasets says gzip, so other readers could not decode the chunks.
---
 include/z5/metadata.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 2abaeac..a350a93 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -527,6 +527,12 @@ namespace z5 {
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
+        #ifdef WITH_ZLIB
+        // zlib streams only exist in zarr v2, n5 and zarr v3 always store gzip streams
+        if(internalCompressor == types::zlib && !(createAsZarr && zarrFormat == 2)) {
+            internalCompressionOptions["useZlib"] = false;
+        }
+        #endif
 
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
-- 
2.43.0


From 4f60c2d6599f7ae89ae59e797c5c5c47c13dee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:37 +0000
Subject: [PATCH 27/46] fix: arrays with one element could not be assigned to
 multi-dimensional selections of one element

---
 src/python/module/z5py/shape_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..4dcfd57 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -83,6 +83,10 @@ def rectify_shape(arr, required_shape):
     if len(important_shape) > len(required_shape):
         raise ValueError(msg)
 
+    # a single element has no non-singleton dimensions to keep together
+    if important_shape == (1,) and all(sh == 1 for sh in required_shape):
+        return arr.reshape(required_shape)
+
     is_leading = True
     for window in sliding_window(required_shape, len(important_shape)):
         if window == important_shape:
-- 
2.43.0


From 4230873a1ad6bade2c941a34f6183b9e92289c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 28/46] fix: removeTrivialChunks removed chunks with data if
 they contain nan

---
 include/z5/util/functions.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index dc90733..c0645b7 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -90,9 +90,13 @@ namespace util {
             }
             std::vector<T> data;
             const std::size_t dataSize = readChunkElements(ds, chunk, data);
-            // check vector for number of uniques and if we only have a single unique, remove it
-            const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
-            const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
+            // check if all elements have the same value, and remove the chunk if this is the case
+            // (nan is not ordered, so a set would not tell it apart from the other values)
+            const T first = data[0];
+            const bool isTrivial = std::all_of(data.begin(), data.begin() + dataSize, [first](const T val) {
+                return val == first || (val != val && first != first);
+            });
+            const bool remove = isTrivial && (!removeSpecificValue || first == value);
             if(remove) {
                 ds.removeChunk(chunk);
             }
-- 
2.43.0


From 8f124172d3ce539dd1936ed01220e8d0b498f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:25 +0000
Subject: [PATCH 29/46] fix: parallel_foreach did not compile for forward
 iterators

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..80a4b82 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -383,7 +383,7 @@ inline void parallel_foreach_impl(
 template<class ITER, class F>
 inline void parallel_foreach_impl(
     ThreadPool & pool,
-    const std::ptrdiff_t nItems,
+    std::ptrdiff_t nItems,
     ITER iter,
     ITER end,
     F && f,
-- 
2.43.0


From ceee1b3e920229699e465384c0a5c73b96954a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 30/46] fix: only one of several threads waiting for a thread
 pool was woken up

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 80a4b82..63cff91 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -245,7 +245,7 @@ inline void ThreadPool::init(const ParallelOptions & options)
                         ++processed;
                         --busy;
                         lock.unlock();
-                        finish_condition.notify_one();
+                        finish_condition.notify_all();
                     }
                 }
             }
-- 
2.43.0


From 0180662866f49d93fdbeb60a90039d1c80e4e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 31/46] fix: a failed or interrupted write lost data of the
 file that the operation did not target

---
 include/z5/filesystem/attributes.hxx   | 18 +++++-----
 include/z5/filesystem/replace_file.hxx | 48 ++++++++++++++++++++++++++
 include/z5/filesystem/store.hxx        | 13 +++----
 3 files changed, 61 insertions(+), 18 deletions(-)
 create mode 100644 include/z5/filesystem/replace_file.hxx

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index ad6da38..361a05e 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -4,6 +4,7 @@
 #include <iomanip>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/replace_file.hxx"
 #include "z5/generic/attributes.hxx"
 
 
@@ -43,23 +44,20 @@ namespace attrs_detail {
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << j;
-            finishWrite(file, name);
+            checkWrite(replaceFile(base_ / name, [&j](std::ostream & file) {file << j;}), name);
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << std::setw(4) << j << std::endl;
-            finishWrite(file, name);
+            checkWrite(replaceFile(base_ / name, [&j](std::ostream & file) {
+                file << std::setw(4) << j << std::endl;
+            }), name);
         }
 
     private:
-        // close the stream and report a failed open / write / flush
-        inline void finishWrite(std::ofstream & file, const std::string & name) const {
-            file.close();
-            if(!file.good()) {
+        // report a failed open / write / flush
+        inline void checkWrite(const bool ok, const std::string & name) const {
+            if(!ok) {
                 throw std::runtime_error("z5: failed to write " + (base_ / name).string());
             }
         }
diff --git a/include/z5/filesystem/replace_file.hxx b/include/z5/filesystem/replace_file.hxx
new file mode 100644
index 0000000..2967530
--- /dev/null
+++ b/include/z5/filesystem/replace_file.hxx
@@ -0,0 +1,48 @@
+#pragma once
+
+#include <fstream>
+#include <random>
+#include <string>
+
+#include "z5/types/types.hxx"
+#include "z5/common.hxx"
+
+
+namespace z5 {
+namespace filesystem {
+
+    // Replace the content of a file. The file may hold more than the data of the current
+    // operation (the other chunks of a shard, the other attributes and the metadata in a
+    // json document), so write a temporary file next to it and rename it: a failed or
+    // interrupted write leaves the previous content in place.
+    // 'write' is called with the output stream. Returns false if the write failed.
+    template<class WRITE>
+    inline bool replaceFile(const fs::path & path, WRITE && write) {
+        std::random_device random;
+        const fs::path tmp = path.parent_path() / (path.filename().string() + ".tmp-" +
+                                                   std::to_string(random()) + "-" +
+                                                   std::to_string(random()));
+        bool ok = false;
+        {
+            std::ofstream file(tmp, std::ios::binary);
+            if(!file.is_open()) {
+                return false;
+            }
+            write(file);
+            // the data may only reach the file when the stream is closed, so check after that
+            file.close();
+            ok = file.good();
+        }
+        std::error_code error;
+        if(ok) {
+            fs::rename(tmp, path, error);
+            ok = !error;
+        }
+        if(!ok) {
+            fs::remove(tmp, error);
+        }
+        return ok;
+    }
+
+}
+}
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 00f6667..4728c41 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -4,6 +4,7 @@
 #include <ios>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/replace_file.hxx"
 #include "z5/generic/store.hxx"
 #include "z5/util/util.hxx"
 
@@ -41,14 +42,10 @@ namespace store_detail {
     }
 
     inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
-        std::ofstream file(path, std::ios::binary);
-        if(!file.is_open()) {
-            throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
-        }
-        file.write(buffer.data(), buffer.size());
-        // the data may only reach the file when the stream is closed, so check after that
-        file.close();
-        if(!file.good()) {
+        const bool ok = replaceFile(path, [&buffer](std::ostream & file) {
+            file.write(buffer.data(), buffer.size());
+        });
+        if(!ok) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
     }
-- 
2.43.0


From 4fb4a0b0ba8097898834796a45072b9bcf9ab4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:43 +0000
Subject: [PATCH 32/46] fix: a failed creation of a dataset, group or file left
 a directory that blocked creating it again

---
 include/z5/filesystem/factory.hxx | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index e3731c7..e5d4adb 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -38,6 +38,19 @@ namespace factory_detail {
             });
     }
 
+    // write the metadata of a node whose directory was just created. If this fails remove
+    // the directory again: it is not a valid node, but it would block creating the node
+    template<class HANDLE, class METADATA>
+    inline void writeNewMetadata(const HANDLE & handle, const METADATA & metadata) {
+        try {
+            writeMetadata(handle, metadata);
+        } catch(...) {
+            std::error_code error;
+            fs::remove(handle.path(), error);
+            throw;
+        }
+    }
+
 }
 
     // factory function to open an existing dataset
@@ -64,7 +77,7 @@ namespace factory_detail {
         nlohmann::json j;
         metadata.toJson(j);
         dataset.create();
-        writeMetadata(dataset, metadata);
+        factory_detail::writeNewMetadata(dataset, metadata);
         return factory_detail::makeDataset(dataset, metadata);
     }
 
@@ -73,14 +86,14 @@ namespace factory_detail {
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr, const int zarrFormat=2) {
         file.create();
         Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(file, fmeta);
+        factory_detail::writeNewMetadata(file, fmeta);
     }
 
 
     inline void createGroup(const handle::Group & group, const bool isZarr, const int zarrFormat=2) {
         group.create();
         Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(group, fmeta);
+        factory_detail::writeNewMetadata(group, fmeta);
     }
 
 
-- 
2.43.0


From 9e070b58f59c86c1b947b597b80e54e8de295862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 33/46] fix: what was left of a failed or interrupted deletion
 could not be deleted

---
 src/python/module/z5py/group.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index f604aa7..a68b24d 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -68,11 +68,9 @@ class Group(Mapping):
             raise ValueError("Cannot call delete on file not opened with write permissions.")
         if name not in self:
             raise KeyError("%s does not exist" % name)
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            handle.remove()
-        else:
-            _z5py.remove_dataset(self[name]._impl, 1)
+        # NOTE do not open the object: it may be what is left of a dataset after
+        # creating or deleting it failed or was interrupted
+        self._handle_factory(self._handle, name.lstrip('/')).remove()
 
     def __getitem__(self, name):
         """ Access group or dataset in the container.
-- 
2.43.0


From b95573b1e025bab042d0c9f482e9e40e0ccb519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 34/46] fix: compression_opts of datasets with raw compression
 raised

---
 src/python/module/z5py/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 9517f45..7618368 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -428,6 +428,9 @@ class Dataset:
         copts = self._impl.compression_options
         # decode to json
         copts = json.loads(copts)
+        # the raw compression does not have any options
+        if copts is None:
+            return {}
         # 'useZlib' is an internal option: it is derived from the compression
         # name ('zlib' vs 'gzip'), so it must not show up in the user-facing
         # options (which can be passed back to create_dataset)
-- 
2.43.0


From 2efd67e22a45bf29fb83966d7ede805d353346da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 35/46] fix: chunks written to n5 datasets with zlib streams
 (useZlib) were gzip streams

---
 include/z5/types/types.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 11dadf8..d124165 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -313,7 +313,8 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: options["level"] = jOpts.value("level", 5);
-                       options["useZlib"] = false;
+                       // the chunks are zlib instead of gzip streams if this is set
+                       options["useZlib"] = jOpts.value("useZlib", false);
                        break;
             #endif
             #ifdef WITH_BZIP2
-- 
2.43.0


From c5a30840e812ed85dd4a31cbe2d76966dc2cbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 36/46] fix: refuse zarr v3 metadata with storage transformers

---
 include/z5/metadata.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index a350a93..1fa9105 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -348,6 +348,12 @@ namespace z5 {
                 zarrDelimiter = (chunkKeyEncoding == "v2") ? "." : "/";
             }
 
+            // the chunks can not be read without applying these
+            const auto transformers = j.find("storage_transformers");
+            if(transformers != j.end() && !transformers->empty()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: storage transformers are not supported");
+            }
+
             // fill value
             const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
-- 
2.43.0


From 580625d4a4b68c47b2946f8ecb2920729a74b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 37/46] fix: objects opened by a name with a double slash could
 not be unpickled

---
 src/python/module/z5py/dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 7618368..185d680 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -26,9 +26,8 @@ def _navigate(file_obj, name):
     path component at a time, which reconstructs the proper parent chain.
     """
     obj = file_obj
-    rel = name.strip('/')
-    if rel:
-        for part in rel.split('/'):
+    for part in name.split('/'):
+        if part:
             obj = obj[part]
     return obj
 
-- 
2.43.0


From 8e33b5fdcfaf75ef8adc2252b2a1625a245a620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 38/46] fix: keys with '..' left the container, absolute keys
 of the C++ API too

---
 include/z5/filesystem/handle.hxx | 27 ++++++++++++++++++++++++---
 src/python/module/z5py/group.py  |  2 ++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..2ac8a33 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -18,6 +18,24 @@ namespace handle {
         HandleImpl(const fs::path & path) : path_(path) {}
         ~HandleImpl() {}
 
+        // keys with '..' would address something outside of the group
+        static inline bool leavesRoot(const std::string & key) {
+            for(const auto & part : fs::path(key)) {
+                if(part == "..") {
+                    return true;
+                }
+            }
+            return false;
+        }
+
+        // the path of the object with the given key, which is always relative to the root
+        static inline fs::path childPath(const fs::path & root, const std::string & key) {
+            if(leavesRoot(key)) {
+                throw std::invalid_argument("Invalid key '" + key + "': '..' is not supported.");
+            }
+            return root / fs::path(key).relative_path();
+        }
+
         // check if the file managed by this handle exists
         inline bool pathExists() const {
             return fs::exists(path_);
@@ -57,7 +75,10 @@ namespace handle {
         }
 
         inline bool elementExists(const std::string & name) const {
-            fs::path p = path_ / name;
+            if(leavesRoot(name)) {
+                return false;
+            }
+            const fs::path p = childPath(path_, name);
             return fs::exists(p) && fs::is_directory(p);
         }
 
@@ -83,7 +104,7 @@ namespace handle {
 
         template<class GROUP>
         Group(const z5::handle::Group<GROUP> & group, const std::string & key)
-            : BaseType(group.mode()), HandleImpl(group.path() / key) {
+            : BaseType(group.mode()), HandleImpl(childPath(group.path(), key)) {
         }
 
         Group(const fs::path & path, const FileMode mode=FileMode())
@@ -195,7 +216,7 @@ namespace handle {
                 const std::string & zarrDelimiter=".", const int zarrFormat=2,
                 const std::string & chunkKeyEncoding="default")
             : BaseType(group.mode(), zarrDelimiter, zarrFormat, chunkKeyEncoding),
-              HandleImpl(group.path() / key) {
+              HandleImpl(childPath(group.path(), key)) {
         }
 
         Dataset(const fs::path & path, const FileMode & mode)
diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index a68b24d..a16c9ce 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -151,6 +151,8 @@ class Group(Mapping):
         # for nested names, create the intermediate groups with proper metadata;
         # returns the direct parent of the object and the object's name in it
         parts = [part for part in name.split('/') if part]
+        if '..' in parts:
+            raise ValueError("Invalid name %s: '..' is not supported" % name)
         group = self
         for part in parts[:-1]:
             group = group.require_group(part)
-- 
2.43.0


From b95047a3fe0e9b32744baf36a3810157fbf5d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 39/46] fix: s3: do not treat a failed existence request as
 absence of the object

---
 include/z5/s3/handle.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..fe46bc2 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -251,7 +251,11 @@ namespace detail {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        auto outcome = client.HeadObject(request);
+        if(!outcome.IsSuccess() && !isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not check for object in S3", key, outcome.GetError());
+        }
+        return outcome.IsSuccess();
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
-- 
2.43.0


From ccc7b9f39126ddeeba9db92b97681cebd5950fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 40/46] fix: s3: report a failed listing instead of returning
 the keys found so far

---
 include/z5/s3/handle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index fe46bc2..bcbed33 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -383,7 +383,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From 2bba130f82919f6d5f5b370bb186ba908cb14400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:45 +0000
Subject: [PATCH 41/46] fix: s3: report the objects that a batched deletion
 could not remove

---
 include/z5/s3/handle.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index bcbed33..39bd91a 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -313,6 +313,13 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // the request can succeed although some of its keys could not be deleted
+            const auto & errors = outcome.GetResult().GetErrors();
+            if(!errors.empty()) {
+                throw std::runtime_error("z5: could not delete object from S3: " +
+                                         std::string(errors.front().GetKey().c_str()) + " (" +
+                                         std::string(errors.front().GetMessage().c_str()) + ")");
+            }
         }
     }
 
-- 
2.43.0


From 4bc87fc5d8054dd346078baf8105ca945fb8dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:51 +0000
Subject: [PATCH 42/46] fix: s3: relative paths must respect the boundaries of
 the key's parts

---
 include/z5/s3/factory.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 8ad541b..bb5cf62 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -119,9 +119,10 @@ namespace factory_detail {
         if(a.empty()) {
             return b;
         }
-        if(b.size() >= a.size() && b.compare(0, a.size(), a) == 0) {
+        // NOTE "ab" is not below "a"
+        if(b.compare(0, a.size(), a) == 0 && (b.size() == a.size() || b[a.size()] == '/')) {
             std::string rel = b.substr(a.size());
-            if(!rel.empty() && rel.front() == '/') {
+            if(!rel.empty()) {
                 rel.erase(0, 1);
             }
             return rel;
-- 
2.43.0


From 3589ebc049f24d8109fe4e957da00215471fd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 43/46] fix: s3: refuse n5 varlen chunks instead of decoding
 them beyond the chunk's buffer

---
 include/z5/generic/dataset.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index e597931..2ca6b4c 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -83,6 +83,15 @@ namespace generic {
                 throw std::runtime_error("Trying to read a chunk that does not exist");
             }
 
+            // callers cannot ask this store for the size of a varlen chunk, so they
+            // only provide the memory for a regular one
+            if constexpr(!STORE::supportsN5HeaderIO) {
+                std::size_t chunkSize, headerLength;
+                if(!isZarr_ && util::read_n5_header(buffer, chunkSize, headerLength)) {
+                    throw std::runtime_error("Varlength chunks are not supported by this store");
+                }
+            }
+
             // format the data
             const bool is_varlen = util::buffer_to_data<T>(chunk, buffer, dataOut, Mixin::compressor_);
 
-- 
2.43.0


From d85351cc8585c92347221da22e1d781e4c08ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 44/46] fix: require_dataset refused the chunks that it had
 created the dataset with if they exceed the shape

---
 src/python/module/z5py/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 185d680..b3d126e 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -222,7 +222,9 @@ class Dataset:
                 raise TypeError("Shapes do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.shape)),
                                                                                      ', '.join(map(str, shape))))
             if chunks is not None:
-                if chunks != ds.chunks:
+                # (chunks are limited to the shape when a dataset is created)
+                limited = tuple(min(ch, sh) for ch, sh in zip(chunks, shape))
+                if chunks != ds.chunks and (len(chunks) != len(shape) or limited != ds.chunks):
                     raise TypeError("Chunks do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.chunks)),
                                                                                          ', '.join(map(str, chunks))))
             if dtype is not None:
-- 
2.43.0


From 51ac5154f0f997870a09876d89a42738b354a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:53 +0000
Subject: [PATCH 45/46] fix: write_direct wrote arrays that do not have the
 size of the selection, selections with steps were taken as contiguous

---
 src/python/module/z5py/dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index b3d126e..08d0b8a 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -588,6 +588,8 @@ class Dataset:
             source_sel = tuple(slice(0, sh) for sh in self.shape)
         if dest_sel is None:
             dest_sel = tuple(slice(0, sh) for sh in dest.shape)
+        if any(s.step not in (None, 1) for s in source_sel):
+            raise ValueError("Selections with steps are not supported")
         start = [s.start for s in source_sel]
         stop = [s.stop for s in source_sel]
         dest[dest_sel] = self.read_subarray(start, stop)
@@ -609,8 +611,14 @@ class Dataset:
             dest_sel = tuple(slice(0, sh) for sh in self.shape)
         if source_sel is None:
             source_sel = tuple(slice(0, sh) for sh in source.shape)
+        if any(s.step not in (None, 1) for s in dest_sel):
+            raise ValueError("Selections with steps are not supported")
         start = [s.start for s in dest_sel]
-        self.write_subarray(start, source[source_sel])
+        shape = tuple(len(range(*s.indices(sh))) for s, sh in zip(dest_sel, self.shape))
+        data = source[source_sel]
+        if data.shape != shape:
+            raise ValueError("Cannot write data of shape %s to the selection of shape %s" % (data.shape, shape))
+        self.write_subarray(start, data)
 
     # expose the impl write subarray functionality
     def write_subarray(self, start, data):
-- 
2.43.0


From b5d413c769c8f106b4214aa269fbbe23d8e54a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:40 +0000
Subject: [PATCH 46/46] fix: n5 containers of major version 10 and later were
 opened as the version of their first digit

---
 src/python/module/z5py/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..0c1c4ee 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -149,7 +149,7 @@ class File(Group):
         else:
             version = metadata.get('n5', None)
             if version is not None:
-                major_version = int(version[0])
+                major_version = int(version.split('.')[0])
                 if major_version > 4:
                     raise RuntimeError("Can't open n5 file with major version bigger than 4")
 
-- 
2.43.0

