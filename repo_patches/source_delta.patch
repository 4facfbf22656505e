From f198c42e7e4de091ec85303cddbb47d0a91c6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 01/63] fix: keep positions when term vectors are re-encoded
 during a merge

---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From 6dfcd9c155f958234451986cfec3171721a76364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 02/63] fix: keep the type and message of an exception that
 aborts a merge

handleMergeException replaced everything but IO and Runtime errors (for
example FileNotFound or CorruptIndex) by an empty RuntimeException.
---
 src/core/index/IndexWriter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..d265fdf 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2432,11 +2432,8 @@ LuceneException IndexWriter::handleMergeException(const LuceneException& exc, co
             return exc;
         }
         break;
-    case LuceneException::IO:
-    case LuceneException::Runtime:
-        return exc;
     default:
-        return RuntimeException(); // Should not get here
+        return exc;
     }
     return LuceneException();
 }
-- 
2.43.0


From 78206864a6a5544b0696b83408ef002ac78d44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 03/63] fix: do not mark doc stores of external segments as
 compound

When addIndexesNoOptimize closes the live doc store, a segment of a source
directory whose doc store happens to have the same name was marked as
compound as well and could not be opened.
---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index d265fdf..002b41e 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -841,7 +841,7 @@ bool IndexWriter::flushDocStores() {
 
         for (int32_t i = 0; i < numSegments; ++i) {
             SegmentInfoPtr si(segmentInfos->info(i));
-            if (si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
+            if (si->dir == directory && si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
                 si->setDocStoreIsCompoundFile(true);
             }
         }
-- 
2.43.0


From 96d7921e24ffd2b04419daffd708803631693ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 04/63] fix: MMapIndexInput: empty files and reads outside the
 file

An empty file can not be mapped, so opening one failed with
FileNotFoundException; reads past the end were not detected at all.
---
 src/core/include/_MMapDirectory.h |  1 +
 src/core/store/MMapDirectory.cpp  | 37 +++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..cb491f7 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -22,6 +22,7 @@ public:
 protected:
     int32_t _length;
     bool isClone;
+    bool isOpen;
     boost::iostreams::mapped_file_source file;
     int32_t bufferPosition; // next byte to read
 
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..ca54f25 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -34,12 +34,21 @@ IndexOutputPtr MMapDirectory::createOutput(const String& name) {
 MMapIndexInput::MMapIndexInput(const String& path) {
     _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
     bufferPosition = 0;
+    isOpen = false;
     if (!path.empty()) {
         try {
-            file.open(boost::filesystem::path(path), _length);
+            if (_length == 0) {
+                // an empty file can not be mapped
+                if (!FileUtils::fileExists(path)) {
+                    boost::throw_exception(FileNotFoundException(path));
+                }
+            } else {
+                file.open(boost::filesystem::path(path), _length);
+            }
         } catch (...) {
             boost::throw_exception(FileNotFoundException(path));
         }
+        isOpen = true;
     }
     isClone = false;
 }
@@ -48,21 +57,21 @@ MMapIndexInput::~MMapIndexInput() {
 }
 
 uint8_t MMapIndexInput::readByte() {
-    try {
-        return file.data()[bufferPosition++];
-    } catch (...) {
+    if (bufferPosition < 0 || bufferPosition >= _length || !file.is_open()) {
         boost::throw_exception(IOException(L"Read past EOF"));
-        return 0;
     }
+    return file.data()[bufferPosition++];
 }
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
-    try {
-        MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
-        bufferPosition += length;
-    } catch (...) {
+    if (length == 0) {
+        return;
+    }
+    if (length < 0 || bufferPosition < 0 || length > _length - bufferPosition || !file.is_open()) {
         boost::throw_exception(IOException(L"Read past EOF"));
     }
+    MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
+    bufferPosition += length;
 }
 
 int64_t MMapIndexInput::getFilePointer() {
@@ -78,16 +87,19 @@ int64_t MMapIndexInput::length() {
 }
 
 void MMapIndexInput::close() {
-    if (isClone || !file.is_open()) {
+    if (isClone || !isOpen) {
         return;
     }
+    isOpen = false;
     _length = 0;
     bufferPosition = 0;
-    file.close();
+    if (file.is_open()) {
+        file.close();
+    }
 }
 
 LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
-    if (!file.is_open()) {
+    if (!isOpen) {
         boost::throw_exception(AlreadyClosedException(L"MMapIndexInput already closed"));
     }
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<MMapIndexInput>());
@@ -95,6 +107,7 @@ LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
     cloneIndexInput->_length = _length;
     cloneIndexInput->file = file;
     cloneIndexInput->bufferPosition = bufferPosition;
+    cloneIndexInput->isOpen = isOpen;
     cloneIndexInput->isClone = true;
     return cloneIndexInput;
 }
-- 
2.43.0


From eb045459bdc66ba12ecaa2b11631c18c92411e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 05/63] fix: FieldCache entries must not depend on the
 deletions of a reader

Segment readers of one segment share a cache entry, but values were only
loaded for documents that were live in the reader used first. An older
reader, still seeing documents deleted since, got no value for them.
---
 include/lucene++/SegmentTermDocs.h |  3 +++
 src/core/index/SegmentTermDocs.cpp |  5 +++++
 src/core/search/FieldCacheImpl.cpp | 25 +++++++++++++++++++------
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/lucene++/SegmentTermDocs.h b/include/lucene++/SegmentTermDocs.h
index 0eb9234..607da8d 100644
--- a/include/lucene++/SegmentTermDocs.h
+++ b/include/lucene++/SegmentTermDocs.h
@@ -54,6 +54,9 @@ public:
 
     virtual void close();
 
+    /// Also return deleted documents from now on.
+    void ignoreDeletions();
+
     /// Returns the current document number.
     virtual int32_t doc();
 
diff --git a/src/core/index/SegmentTermDocs.cpp b/src/core/index/SegmentTermDocs.cpp
index 7e17b9e..2f65528 100644
--- a/src/core/index/SegmentTermDocs.cpp
+++ b/src/core/index/SegmentTermDocs.cpp
@@ -49,6 +49,11 @@ SegmentTermDocs::SegmentTermDocs(const SegmentReaderPtr& parent) {
 SegmentTermDocs::~SegmentTermDocs() {
 }
 
+void SegmentTermDocs::ignoreDeletions() {
+    deletedDocs.reset();
+    __deletedDocs = NULL;
+}
+
 void SegmentTermDocs::seek(const TermPtr& term) {
     TermInfoPtr ti(__parent->core->getTermsReader()->get(term));
     seek(ti, term);
diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index aabcbff..2e880ae 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -11,12 +11,25 @@
 #include "InfoStream.h"
 #include "TermEnum.h"
 #include "TermDocs.h"
+#include "SegmentTermDocs.h"
 #include "Term.h"
 #include "StringUtils.h"
 #include "VariantUtils.h"
 
 namespace Lucene {
 
+/// Segment readers that differ in their deletions only share a cache entry (see {@link
+/// IndexReader#getFieldCacheKey}), so what is cached must not depend on the deletions of the reader that
+/// happened to be used first.
+static TermDocsPtr cacheTermDocs(const IndexReaderPtr& reader) {
+    TermDocsPtr termDocs(reader->termDocs());
+    SegmentTermDocsPtr segmentTermDocs(boost::dynamic_pointer_cast<SegmentTermDocs>(termDocs));
+    if (segmentTermDocs) {
+        segmentTermDocs->ignoreDeletions();
+    }
+    return termDocs;
+}
+
 FieldCacheImpl::FieldCacheImpl() {
 }
 
@@ -220,7 +233,7 @@ boost::any ByteCache::createValue(const IndexReaderPtr& reader, const EntryPtr&
         return FieldCachePtr(_wrapper)->getBytes(reader, field, FieldCache::DEFAULT_BYTE_PARSER());
     }
     Collection<uint8_t> retArray(Collection<uint8_t>::newInstance(reader->maxDoc()));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -266,7 +279,7 @@ boost::any IntCache::createValue(const IndexReaderPtr& reader, const EntryPtr& k
         return ints;
     }
     Collection<int32_t> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -318,7 +331,7 @@ boost::any LongCache::createValue(const IndexReaderPtr& reader, const EntryPtr&
         return longs;
     }
     Collection<int64_t> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -370,7 +383,7 @@ boost::any DoubleCache::createValue(const IndexReaderPtr& reader, const EntryPtr
         return doubles;
     }
     Collection<double> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -411,7 +424,7 @@ boost::any StringCache::createValue(const IndexReaderPtr& reader, const EntryPtr
     EntryPtr entry(key);
     String field(entry->field);
     Collection<String> retArray(Collection<String>::newInstance(reader->maxDoc()));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -446,7 +459,7 @@ boost::any StringIndexCache::createValue(const IndexReaderPtr& reader, const Ent
     String field(entry->field);
     Collection<int32_t> retArray(Collection<int32_t>::newInstance(reader->maxDoc()));
     Collection<String> mterms(Collection<String>::newInstance(reader->maxDoc() + 1));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(cacheTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     int32_t t = 0; // current term number
 
-- 
2.43.0


From 2ee6be55ad836537d0f560b4b6f3ce817e6efb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 06/63] fix: compare doc stores of merged segments within the
 index directory only

setMergeDocStoreIsCompoundFile took the flag from a segment of another
directory when the doc store names happened to be the same.
---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 002b41e..cb7f5fb 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2731,7 +2731,7 @@ void IndexWriter::setMergeDocStoreIsCompoundFile(const OneMergePtr& merge) {
         for (int32_t i = 0; i < size; ++i) {
             SegmentInfoPtr info(segmentInfos->info(i));
             String docStoreSegment(info->getDocStoreSegment());
-            if (!docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
+            if (info->dir == directory && !docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
                 merge->info->setDocStoreIsCompoundFile(true);
                 break;
             }
-- 
2.43.0


From b283856dfd12894445992080675fb7e6977757c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 07/63] fix: commit while only segments of the live doc store
 exist

startCommit removed segments that refer to the open doc store from the copy
to be committed without checking that one was left.
---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index cb7f5fb..a3f1bc3 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3154,7 +3154,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                 String dss(docWriter->getDocStoreSegment());
                 if (!dss.empty()) {
-                    while (true) {
+                    while (toSync->size() > 0) {
                         String dss2(toSync->info(toSync->size() - 1)->getDocStoreSegment());
                         if (dss2.empty() || dss2 != dss) {
                             break;
-- 
2.43.0


From 116d7ac95247446e09c0da183e9e067c492bc090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 08/63] fix: addIndexes(readers) counted the documents of the
 index twice

The flushed document count became too large, so that a delete buffered
afterwards also removed documents added after it.
---
 src/core/index/IndexWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index a3f1bc3..b9a61fa 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1878,8 +1878,9 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                     segmentInfos->add(info);
                 }
 
-                // Notify DocumentsWriter that the flushed count just increased
-                docWriter->updateFlushedDocCount(docCount);
+                // Notify DocumentsWriter that the flushed count just increased (the documents of the existing
+                // segment are counted already)
+                docWriter->updateFlushedDocCount(docCount - (sReader ? sReader->maxDoc() : 0));
 
                 success = true;
             } catch (LuceneException& e) {
-- 
2.43.0


From 8baab2546f533c8378727f9da55edd14acecbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 09/63] fix: addIndexes(readers) lost segments when another
 thread optimizes

A concurrent optimize(n) can leave more than one segment, all of which were
dropped.
---
 src/core/index/IndexWriter.cpp | 48 ++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index b9a61fa..46f7c38 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1848,20 +1848,33 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
             mergedName = newSegmentName();
             merger = newLucene<SegmentMerger>(shared_from_this(), mergedName, OneMergePtr());
 
-            SegmentReaderPtr sReader;
-
-            {
-                SyncLock syncLock(this);
-                if (segmentInfos->size() == 1) { // add existing index, if any
-                    sReader = readerPool->get(segmentInfos->info(0), true, BufferedIndexInput::BUFFER_SIZE, -1);
-                }
-            }
+            Collection<SegmentReaderPtr> sReaders(Collection<SegmentReaderPtr>::newInstance());
+            Collection<SegmentInfoPtr> sInfos(Collection<SegmentInfoPtr>::newInstance());
+            int32_t existingDocCount = 0;
 
             success = false;
 
             try {
-                if (sReader) {
-                    merger->add(sReader);
+                {
+                    SyncLock syncLock(this);
+
+                    // An optimize called by another thread can leave more than one segment or merges still running
+                    while (!pendingMerges.empty() || !runningMerges.empty()) {
+                        doWait();
+                    }
+
+                    for (int32_t i = 0; i < segmentInfos->size(); ++i) { // add existing index, if any
+                        sReaders.add(readerPool->get(segmentInfos->info(i), true, BufferedIndexInput::BUFFER_SIZE, -1));
+                        existingDocCount += sReaders[i]->maxDoc();
+
+                        // No other merge may take this segment
+                        sInfos.add(segmentInfos->info(i));
+                        mergingSegments.add(segmentInfos->info(i));
+                    }
+                }
+
+                for (Collection<SegmentReaderPtr>::iterator i = sReaders.begin(); i != sReaders.end(); ++i) {
+                    merger->add(*i);
                 }
 
                 for (Collection<IndexReaderPtr>::iterator i = readers.begin(); i != readers.end(); ++i) {
@@ -1879,16 +1892,23 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                 }
 
                 // Notify DocumentsWriter that the flushed count just increased (the documents of the existing
-                // segment are counted already)
-                docWriter->updateFlushedDocCount(docCount - (sReader ? sReader->maxDoc() : 0));
+                // segments are counted already)
+                docWriter->updateFlushedDocCount(docCount - existingDocCount);
 
                 success = true;
             } catch (LuceneException& e) {
                 finally = e;
             }
 
-            if (sReader) {
-                readerPool->release(sReader);
+            {
+                SyncLock syncLock(this);
+                for (Collection<SegmentInfoPtr>::iterator i = sInfos.begin(); i != sInfos.end(); ++i) {
+                    mergingSegments.remove(*i);
+                }
+            }
+
+            for (Collection<SegmentReaderPtr>::iterator i = sReaders.begin(); i != sReaders.end(); ++i) {
+                readerPool->release(*i);
             }
         } catch (LuceneException& e) {
             finally = e;
-- 
2.43.0


From 9fb521739d4d0a37982d68261017c54e912e9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 10/63] fix: commit must not contain deletes of documents whose
 replacement it lacks

A flush of another thread between prepareCommit's flush and the snapshot of the
segments applied deletes, while its segment was left out of the commit.
---
 src/core/index/IndexWriter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 46f7c38..d23d69a 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3148,6 +3148,15 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
             BOOST_ASSERT(!hasExternalSegments());
 
             try {
+                // It's possible another flush (that did not close the open doc stores) snuck in after the flush we
+                // just did. Its segments cannot be synced yet, but the deletes of the documents they replace may
+                // have been applied already, so flush again.
+                String openDocStore(docWriter->getDocStoreSegment());
+                if (!openDocStore.empty() && segmentInfos->size() > 0 &&
+                        segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == openDocStore) {
+                    doFlush(true, true);
+                }
+
                 BOOST_ASSERT(lastCommitChangeCount <= changeCount);
                 myChangeCount = changeCount;
 
-- 
2.43.0


From 2f87e39c922fe73a75dfb2ac70ae773bfb9ed3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 11/63] fix: commit must apply the deletes of a flush that
 snuck in

---
 src/core/index/IndexWriter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index d23d69a..cfb1b86 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3148,12 +3148,12 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
             BOOST_ASSERT(!hasExternalSegments());
 
             try {
-                // It's possible another flush (that did not close the open doc stores) snuck in after the flush we
-                // just did. Its segments cannot be synced yet, but the deletes of the documents they replace may
-                // have been applied already, so flush again.
+                // It's possible another flush snuck in after the flush we just did. Its segments cannot be synced yet
+                // while their doc store is open, but the deletes of the documents they replace may have been applied
+                // already; or its segments can be synced, but these deletes have not been applied. So flush again.
                 String openDocStore(docWriter->getDocStoreSegment());
-                if (!openDocStore.empty() && segmentInfos->size() > 0 &&
-                        segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == openDocStore) {
+                if (docWriter->hasDeletes() || (!openDocStore.empty() && segmentInfos->size() > 0 &&
+                                                segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == openDocStore)) {
                     doFlush(true, true);
                 }
 
-- 
2.43.0


From fb4e209d37c457fa3affd5d60405840d6f7da7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 12/63] fix: deleteAll or a failed addIndexes removed the
 prepared segments file

---
 include/lucene++/IndexWriter.h | 1 +
 src/core/index/IndexWriter.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index 5ace809..9be99f6 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -199,6 +199,7 @@ protected:
 
 INTERNAL:
     SegmentInfosPtr pendingCommit; // set when a commit is pending (after prepareCommit() & before commit())
+    HashSet<String> pendingCommitFiles; // segments file of the pendingCommit
     int64_t pendingCommitChangeCount;
 
     ReaderPoolPtr readerPool;
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index cfb1b86..93c1f5f 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1450,6 +1450,7 @@ void IndexWriter::rollbackInternal() {
             if (pendingCommit) {
                 pendingCommit->rollbackCommit(directory);
                 deleter->decRef(pendingCommit);
+                deleter->decRef(pendingCommitFiles);
                 pendingCommit.reset();
                 notifyAll();
             }
@@ -2072,6 +2073,7 @@ void IndexWriter::finishCommit() {
         }
 
         deleter->decRef(pendingCommit);
+        deleter->decRef(pendingCommitFiles);
         pendingCommit.reset();
         notifyAll();
         finally.throwException();
@@ -3298,6 +3300,11 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                             setPending = true;
                             pendingCommit = toSync;
                             pendingCommitChangeCount = myChangeCount;
+
+                            // Protect the segments file from IndexFileDeleter::refresh until the commit is finished
+                            pendingCommitFiles = HashSet<String>::newInstance();
+                            pendingCommitFiles.add(pendingCommit->getCurrentSegmentFileName());
+                            deleter->incRef(pendingCommitFiles);
                             success = true;
                         } catch (LuceneException& e) {
                             finally = e;
-- 
2.43.0


From 759d432fd75aa2678a5fe7f3adb1ca1acf4f7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 13/63] fix: a failed sync of the segments file must fail the
 commit

---
 src/core/index/SegmentInfos.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..4555eec 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -599,12 +599,18 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
     try {
         dir->sync(fileName);
         success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
     if (!success) {
-        dir->deleteFile(fileName);
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+            // Suppress so we keep throwing the original exception
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 0190df1ce840b769072d4091c5bef7d1724cc137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:40 +0000
Subject: [PATCH 14/63] fix: protect the prepared segments file by the name it
 was written under

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 93c1f5f..0feaff9 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3303,7 +3303,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                             // Protect the segments file from IndexFileDeleter::refresh until the commit is finished
                             pendingCommitFiles = HashSet<String>::newInstance();
-                            pendingCommitFiles.add(pendingCommit->getCurrentSegmentFileName());
+                            pendingCommitFiles.add(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", pendingCommit->getGeneration()));
                             deleter->incRef(pendingCommitFiles);
                             success = true;
                         } catch (LuceneException& e) {
-- 
2.43.0


From 70fa575d0952295649e720c25bd909980125b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:14 +0000
Subject: [PATCH 15/63] fix: files of a reused segment name were not deleted
 after a crash

---
 src/core/index/IndexFileDeleter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index cb30e2f..d63b70f 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -197,7 +197,7 @@ void IndexFileDeleter::refresh(const String& segmentName) {
     for (HashSet<String>::iterator fileName = files.begin(); fileName != files.end(); ++fileName) {
         if (filter->accept(L"", *fileName) &&
                 (segmentName.empty() || boost::starts_with(*fileName, segmentPrefix1) || boost::starts_with(*fileName, segmentPrefix2)) &&
-                !refCounts.contains(*fileName) && *fileName != IndexFileNames::SEGMENTS_GEN()) {
+                !exists(*fileName) && *fileName != IndexFileNames::SEGMENTS_GEN()) {
             // Unreferenced file, so remove it
             if (infoStream) {
                 message(L"refresh [prefix=" + segmentName + L"]: removing newly created unreferenced file \"" + *fileName + L"\"");
@@ -352,7 +352,9 @@ void IndexFileDeleter::deleteFiles(HashSet<String> files) {
 
 void IndexFileDeleter::deleteNewFiles(HashSet<String> files) {
     for (HashSet<String>::iterator fileName = files.begin(); fileName != files.end(); ++fileName) {
-        if (!refCounts.contains(*fileName)) {
+        // The count can be 0 for a file of a crashed writer that was removed when this writer was opened, if its
+        // name is used again
+        if (!exists(*fileName)) {
             if (infoStream) {
                 message(L"delete new file \"" + *fileName + L"\"");
             }
-- 
2.43.0


From 412edee682809dd398d4aeb767b261d0d868bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 16/63] fix: a torn segments file was parsed before its
 checksum was verified

Zeros were read as an empty index in the oldest format; random lengths threw
exceptions that are not LuceneExceptions and so prevented the fall back to the
previous commit.
---
 src/core/index/SegmentInfos.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 4555eec..15f3c3c 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -126,6 +126,29 @@ String SegmentInfos::getNextSegmentFileName() {
     return IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", generation == -1 ? 1 : generation + 1);
 }
 
+/// A segments file can be torn by a crash, so nothing that was read from it can be trusted before its checksum matches.
+static void verifyChecksum(const DirectoryPtr& directory, const String& segmentFileName) {
+    ChecksumIndexInputPtr input(newLucene<ChecksumIndexInput>(directory->openInput(segmentFileName)));
+    LuceneException finally;
+    try {
+        ByteArray buffer(ByteArray::newInstance(1024));
+        int64_t remaining = input->length() - 8;
+        while (remaining > 0) {
+            int32_t toRead = (int32_t)std::min(remaining, (int64_t)buffer.size());
+            input->readBytes(buffer.get(), 0, toRead);
+            remaining -= toRead;
+        }
+        int64_t checksumNow = input->getChecksum();
+        if (checksumNow != input->readLong()) {
+            boost::throw_exception(CorruptIndexException(L"Checksum mismatch in segments file"));
+        }
+    } catch (LuceneException& e) {
+        finally = e;
+    }
+    input->close();
+    finally.throwException();
+}
+
 void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFileName) {
     bool success = false;
 
@@ -140,10 +163,18 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
     try {
         int32_t format = input->readInt();
 
+        // files with a generation have never been written in an older format
+        if (generation > 0 && format > FORMAT_LOCKLESS) {
+            boost::throw_exception(CorruptIndexException(L"Unknown format version: " + StringUtils::toString(format)));
+        }
+
         if (format < 0) { // file contains explicit format info
             if (format < CURRENT_FORMAT) {
                 boost::throw_exception(CorruptIndexException(L"Unknown format version: " + StringUtils::toString(format)));
             }
+            if (format <= FORMAT_CHECKSUM) {
+                verifyChecksum(directory, segmentFileName);
+            }
             version = input->readLong(); // read version
             counter = input->readInt(); // read counter
         } else {
-- 
2.43.0


From 57e19931763cbfeec00a85b4c1f35e79af4ba4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 17/63] fix: commit must not contain segments whose doc store
 is open

With segments of addIndexes after them they were not found, and were synced
before their doc store was complete.
---
 src/core/index/IndexWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 0feaff9..88ce3a0 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3154,8 +3154,11 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                 // while their doc store is open, but the deletes of the documents they replace may have been applied
                 // already; or its segments can be synced, but these deletes have not been applied. So flush again.
                 String openDocStore(docWriter->getDocStoreSegment());
-                if (docWriter->hasDeletes() || (!openDocStore.empty() && segmentInfos->size() > 0 &&
-                                                segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == openDocStore)) {
+                bool flushAgain = docWriter->hasDeletes();
+                for (int32_t i = 0; i < segmentInfos->size() && !openDocStore.empty(); ++i) {
+                    flushAgain = flushAgain || segmentInfos->info(i)->getDocStoreSegment() == openDocStore;
+                }
+                if (flushAgain) {
                     doFlush(true, true);
                 }
 
-- 
2.43.0


From 467b0ddaa7c30f975fd2e704e68a3c0ba1dfd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 18/63] fix: report a truncated segments file as an
 IOException, as before

---
 src/core/index/SegmentInfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 15f3c3c..625abfc 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -140,7 +140,7 @@ static void verifyChecksum(const DirectoryPtr& directory, const String& segmentF
         }
         int64_t checksumNow = input->getChecksum();
         if (checksumNow != input->readLong()) {
-            boost::throw_exception(CorruptIndexException(L"Checksum mismatch in segments file"));
+            boost::throw_exception(IOException(L"Checksum mismatch in segments file (torn or truncated)"));
         }
     } catch (LuceneException& e) {
         finally = e;
-- 
2.43.0


From c8a21aed88741dda5cd6b3d687a129817cb0e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 19/63] fix: SimpleFSDirectory ignored failing reads, writes
 and opens

---
 src/core/store/SimpleFSDirectory.cpp | 36 ++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 88d3949..46d2422 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -51,11 +51,13 @@ InputFile::~InputFile() {
 }
 
 void InputFile::setPosition(int64_t position) {
-    this->position = position;
+    file->clear(); // a previous read may have failed
     file->seekg((std::streamoff)position);
     if (!file->good()) {
+        this->position = -1;
         boost::throw_exception(IOException());
     }
+    this->position = position;
 }
 
 int64_t InputFile::getPosition() {
@@ -72,10 +74,15 @@ int32_t InputFile::read(uint8_t* b, int32_t offset, int32_t length) {
             return FILE_EOF;
         }
         file->read((char*)b + offset, length);
+        if (file->bad()) {
+            position = -1; // unknown
+            return FILE_ERROR;
+        }
         int32_t readCount = file->gcount();
         position += readCount;
-        return readCount;
+        return readCount == 0 && length > 0 ? FILE_EOF : readCount;
     } catch (...) {
+        position = -1;
         return FILE_ERROR;
     }
 }
@@ -116,11 +123,13 @@ void SimpleFSIndexInput::readInternal(uint8_t* b, int32_t offset, int32_t length
     int32_t total = 0;
 
     while (total < length) {
-        int32_t readLength = total + chunkSize > length ? length - total : chunkSize;
+        int32_t readLength = length - total < chunkSize ? length - total : chunkSize;
 
         int32_t i = file->read(b, offset + total, readLength);
         if (i == InputFile::FILE_EOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
+        } else if (i == InputFile::FILE_ERROR) {
+            boost::throw_exception(IOException(L"Read failure: " + path));
         }
         total += i;
     }
@@ -156,6 +165,9 @@ LuceneObjectPtr SimpleFSIndexInput::clone(const LuceneObjectPtr& other) {
 OutputFile::OutputFile(const String& path) {
     this->path = path;
     file = newInstance<boost::filesystem::ofstream>(path, std::ios::binary | std::ios::out);
+    if (!file->is_open()) {
+        boost::throw_exception(IOException(L"Cannot create: " + path));
+    }
 }
 
 OutputFile::~OutputFile() {
@@ -211,15 +223,25 @@ SimpleFSIndexOutput::~SimpleFSIndexOutput() {
 }
 
 void SimpleFSIndexOutput::flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
-    file->write(b, offset, length);
-    file->flush();
+    if (file->write(b, offset, length)) {
+        file->flush();
+    }
+    if (!file->isValid()) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
 }
 
 void SimpleFSIndexOutput::close() {
     if (isOpen) {
-        BufferedIndexOutput::close();
-        file.reset();
         isOpen = false;
+        LuceneException finally;
+        try {
+            BufferedIndexOutput::close();
+        } catch (LuceneException& e) {
+            finally = e;
+        }
+        file.reset();
+        finally.throwException();
     }
 }
 
-- 
2.43.0


From 378f3ddeb04fbb32f29de06f777a62053b87de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 20/63] fix: errors of closing a copied file, listing and
 creating a directory

---
 src/core/store/Directory.cpp   | 6 +++++-
 src/core/store/FSDirectory.cpp | 2 +-
 src/core/util/FileUtils.cpp    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/store/Directory.cpp b/src/core/store/Directory.cpp
index f7a6c4b..a816ba0 100644
--- a/src/core/store/Directory.cpp
+++ b/src/core/store/Directory.cpp
@@ -96,7 +96,11 @@ void Directory::copy(const DirectoryPtr& src, const DirectoryPtr& dest, bool clo
             if (os) {
                 os->close();
             }
-        } catch (...) {
+        } catch (LuceneException& e) {
+            // the end of the file is written by close
+            if (finally.isNull()) {
+                finally = e;
+            }
         }
         try {
             if (is) {
diff --git a/src/core/store/FSDirectory.cpp b/src/core/store/FSDirectory.cpp
index 2cb257a..f6d2130 100644
--- a/src/core/store/FSDirectory.cpp
+++ b/src/core/store/FSDirectory.cpp
@@ -81,7 +81,7 @@ FSDirectoryPtr FSDirectory::open(const String& path, const LockFactoryPtr& lockF
 
 void FSDirectory::createDir() {
     if (!checked) {
-        if (!FileUtils::fileExists(directory) && !FileUtils::createDirectory(directory)) {
+        if (!FileUtils::fileExists(directory) && !FileUtils::createDirectory(directory) && !FileUtils::isDirectory(directory)) {
             boost::throw_exception(IOException(L"Cannot create directory: " + directory));
         }
         checked = true;
diff --git a/src/core/util/FileUtils.cpp b/src/core/util/FileUtils.cpp
index dd6e048..65b14cf 100644
--- a/src/core/util/FileUtils.cpp
+++ b/src/core/util/FileUtils.cpp
@@ -101,7 +101,7 @@ bool listDirectory(const String& path, bool filesOnly, HashSet<String> dirList)
             break;
         }
 
-        for (; dir != boost::filesystem::directory_iterator(); ++dir) {
+        for (; !ec && dir != boost::filesystem::directory_iterator(); dir.increment(ec)) {
             if (filesOnly) {
                 bool is_dir = boost::filesystem::is_directory(dir->status(ec));
                 if (ec) {
-- 
2.43.0


From df5920042badad80c6bbbb0717cc8f0df15e691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 21/63] fix: RAMInputStream served the last buffer again after
 a seek to its end

---
 src/core/store/RAMInputStream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..ad00adf 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -98,9 +98,16 @@ int64_t RAMInputStream::getFilePointer() {
 }
 
 void RAMInputStream::seek(int64_t pos) {
-    if (!currentBuffer || (int32_t)pos < bufferStart || (int32_t)pos >= bufferStart + BUFFER_SIZE) {
+    if (!currentBuffer || pos < bufferStart || pos >= bufferStart + BUFFER_SIZE) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
-        switchCurrentBuffer(false);
+        if (currentBufferIndex >= file->numBuffers()) {
+            // the end of a file that fills its last buffer: force eof if a read takes place at this position
+            currentBuffer.reset();
+            bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+            bufferLength = 0;
+        } else {
+            switchCurrentBuffer(false);
+        }
     }
     bufferPosition = (int32_t)(pos % BUFFER_SIZE);
 }
-- 
2.43.0


From 41d38bf79da52d57e8cad6d76b699998468b034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 22/63] fix: a failed read left stale bytes in the buffer of an
 input

---
 src/core/store/BufferedIndexInput.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/store/BufferedIndexInput.cpp b/src/core/store/BufferedIndexInput.cpp
index 52599ef..b1e28f7 100644
--- a/src/core/store/BufferedIndexInput.cpp
+++ b/src/core/store/BufferedIndexInput.cpp
@@ -155,10 +155,12 @@ void BufferedIndexInput::refill() {
         newBuffer(ByteArray::newInstance(bufferSize)); // allocate buffer lazily
         seekInternal(bufferStart);
     }
-    readInternal(__buffer, 0, newLength);
-    bufferLength = newLength;
+    // the buffer holds nothing valid unless the read succeeds
     bufferStart = start;
     bufferPosition = 0;
+    bufferLength = 0;
+    readInternal(__buffer, 0, newLength);
+    bufferLength = newLength;
 }
 
 void BufferedIndexInput::close() {
-- 
2.43.0


From f67da2cfc22b697a9e6282e7562885cfc1fb6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 23/63] fix: RAMInputStream ends at the length of the file

---
 src/core/store/RAMInputStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index ad00adf..e4471b1 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -75,7 +75,7 @@ void RAMInputStream::readBytes(uint8_t* b, int32_t offset, int32_t length) {
 }
 
 void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
-    if (currentBufferIndex >= file->numBuffers()) {
+    if ((int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex >= _length) {
         // end of file reached, no more buffers left
         if (enforceEOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
@@ -100,7 +100,7 @@ int64_t RAMInputStream::getFilePointer() {
 void RAMInputStream::seek(int64_t pos) {
     if (!currentBuffer || pos < bufferStart || pos >= bufferStart + BUFFER_SIZE) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
-        if (currentBufferIndex >= file->numBuffers()) {
+        if ((int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex >= _length) {
             // the end of a file that fills its last buffer: force eof if a read takes place at this position
             currentBuffer.reset();
             bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
-- 
2.43.0


From 6d7173d4d39c5521ae9bb998c7e95fe1ec92c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 24/63] fix: term vectors were lost silently after a failure to
 open them

CoreReaders::openDocStores assigned the stored fields reader before it opened
the term vectors. When that failed, the next call found the stored fields
reader and returned, so readers and merges went on without any vectors.
---
 src/core/index/SegmentReader.cpp | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 201da19..15bd932 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -883,8 +883,9 @@ void CoreReaders::openDocStores(const SegmentInfoPtr& si) {
         DirectoryPtr storeDir;
         if (si->getDocStoreOffset() != -1) {
             if (si->getDocStoreIsCompoundFile()) {
-                BOOST_ASSERT(!storeCFSReader);
-                storeCFSReader = newLucene<CompoundFileReader>(dir, si->getDocStoreSegment() + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION(), readBufferSize);
+                if (!storeCFSReader) {
+                    storeCFSReader = newLucene<CompoundFileReader>(dir, si->getDocStoreSegment() + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION(), readBufferSize);
+                }
                 storeDir = storeCFSReader;
                 BOOST_ASSERT(storeDir);
             } else {
@@ -906,18 +907,28 @@ void CoreReaders::openDocStores(const SegmentInfoPtr& si) {
 
         String storesSegment(si->getDocStoreOffset() != -1 ? si->getDocStoreSegment() : segment);
 
-        fieldsReaderOrig = newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+        // Assigned only once both are open: otherwise, after a failure, the next call would not try again
+        FieldsReaderPtr fieldsReader(newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount));
+        TermVectorsReaderPtr termVectorsReader;
 
-        // Verify two sources of "maxDoc" agree
-        if (si->getDocStoreOffset() == -1 && fieldsReaderOrig->size() != si->docCount) {
-            boost::throw_exception(CorruptIndexException(L"doc counts differ for segment " + segment +
-                                   L": fieldsReader shows " + StringUtils::toString(fieldsReaderOrig->size()) +
-                                   L" but segmentInfo shows " + StringUtils::toString(si->docCount)));
-        }
+        try {
+            // Verify two sources of "maxDoc" agree
+            if (si->getDocStoreOffset() == -1 && fieldsReader->size() != si->docCount) {
+                boost::throw_exception(CorruptIndexException(L"doc counts differ for segment " + segment +
+                                       L": fieldsReader shows " + StringUtils::toString(fieldsReader->size()) +
+                                       L" but segmentInfo shows " + StringUtils::toString(si->docCount)));
+            }
 
-        if (fieldInfos->hasVectors()) { // open term vector files only as needed
-            termVectorsReaderOrig = newLucene<TermVectorsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+            if (fieldInfos->hasVectors()) { // open term vector files only as needed
+                termVectorsReader = newLucene<TermVectorsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+            }
+        } catch (...) {
+            fieldsReader->close();
+            throw;
         }
+
+        fieldsReaderOrig = fieldsReader;
+        termVectorsReaderOrig = termVectorsReader;
     }
 }
 
-- 
2.43.0


From 8f134f3fc911f32ebfa32b5f52f655ee9d25f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 25/63] fix: a transaction lost deletes and files that were
 needed to roll it back

---
 src/core/index/IndexWriter.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 88ce3a0..1e45788 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1337,14 +1337,18 @@ void IndexWriter::startTransaction(bool haveReadLock) {
     success = false;
 
     try {
+        // Write the deletes that are pending in pooled readers: a merge in this transaction drops these readers
+        readerPool->commit();
+
         localRollbackSegmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(segmentInfos->clone());
 
         BOOST_ASSERT(!hasExternalSegments());
 
         localFlushedDocCount = docWriter->getFlushedDocCount();
 
-        // We must "protect" our files at this point from deletion in case we need to rollback
-        deleter->incRef(segmentInfos, false);
+        // We must "protect" our files at this point from deletion in case we need to rollback. These are the files
+        // of the copy, which the matching decRef uses: the file list of a segment grows when its doc store gets vectors
+        deleter->incRef(localRollbackSegmentInfos, false);
 
         success = true;
     } catch (LuceneException& e) {
@@ -1378,6 +1382,15 @@ void IndexWriter::rollbackTransaction() {
     segmentInfos->addAll(localRollbackSegmentInfos);
     localRollbackSegmentInfos.reset();
 
+    // Pooled readers must record their deletes in these instances, not in the ones just replaced
+    for (int32_t i = 0; i < segmentInfos->size(); ++i) {
+        SegmentReaderPtr reader(readerPool->getIfExists(segmentInfos->info(i)));
+        if (reader) {
+            reader->setSegmentInfo(segmentInfos->info(i));
+            reader->decRef();
+        }
+    }
+
     // This must come after we rollback segmentInfos, so that if a commit() kicks off it does not see the
     // segmentInfos with external segments.
     finishAddIndexes();
-- 
2.43.0


From 0be6ef0db9baacb4374e799c63445b701ca8459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 26/63] fix: a failure while vectors are first written damaged
 flushed documents

---
 src/core/index/TermVectorsReader.cpp      |  7 +++----
 src/core/index/TermVectorsTermsWriter.cpp | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index 488de77..798e0f1 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -73,12 +73,11 @@ void TermVectorsReader::ConstructReader(const DirectoryPtr& d, const String& seg
             BOOST_ASSERT(format == tvdFormat);
             BOOST_ASSERT(format == tvfFormat);
 
+            // A doc store shared with flushed segments can end in the middle of an entry, if the disk became full
             if (format >= FORMAT_VERSION2) {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 16 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 4);
+                numTotalDocs = (int32_t)((tvx->length() - FORMAT_SIZE) >> 4);
             } else {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 8 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 3);
+                numTotalDocs = (int32_t)((tvx->length() - FORMAT_SIZE) >> 3);
             }
 
             if (docStoreOffset == -1) {
diff --git a/src/core/index/TermVectorsTermsWriter.cpp b/src/core/index/TermVectorsTermsWriter.cpp
index f7173ce..4cdd359 100644
--- a/src/core/index/TermVectorsTermsWriter.cpp
+++ b/src/core/index/TermVectorsTermsWriter.cpp
@@ -146,6 +146,10 @@ void TermVectorsTermsWriter::initTermVectorsWriter() {
 
         // If we hit an exception while init'ing the term vector output files, we must abort this segment
         // because those files will be in an unknown state
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
+
         tvx = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
         tvd = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
         tvf = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
@@ -154,11 +158,16 @@ void TermVectorsTermsWriter::initTermVectorsWriter() {
         tvd->writeInt(TermVectorsReader::FORMAT_CURRENT);
         tvf->writeInt(TermVectorsReader::FORMAT_CURRENT);
 
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
-
         lastDocID = 0;
+
+        if (docWriter->getDocStoreOffset() > 0) {
+            // Flushed segments share this doc store and will find these files now, so their entries must be there
+            // even if we abort
+            fill(0);
+            tvf->flush();
+            tvd->flush();
+            tvx->flush();
+        }
     }
 }
 
-- 
2.43.0


From 19dcbbc6bb2958c5b19c5d3413bdcf6e7291e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 27/63] fix: fall back to the latest older segments file that
 exists

---
 src/core/index/SegmentInfos.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 625abfc..3baf522 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -513,10 +513,22 @@ void FindSegmentsFile::doRun(const IndexCommitPtr& commit) {
 
             if (!retry && gen > 1) {
                 // This is our first time trying this segments file (because retry is false), and, there is possibly a
-                // segments_(N-1) (because gen > 1). So, check if the segments_(N-1) exists and try it if so.
-                String prevSegmentFileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", gen - 1));
+                // previous one, although not necessarily segments_(N-1): the generations of failed commits are skipped.
+                // So, check if one exists and try it if so.
+                int64_t prevGen = -1;
+                HashSet<String> files(directory->listAll());
+                for (HashSet<String>::iterator file = files.begin(); file != files.end(); ++file) {
+                    if (boost::starts_with(*file, IndexFileNames::SEGMENTS()) && *file != IndexFileNames::SEGMENTS_GEN()) {
+                        int64_t fileGen = SegmentInfos::generationFromSegmentsFileName(*file);
+                        if (fileGen < gen) {
+                            prevGen = std::max(prevGen, fileGen);
+                        }
+                    }
+                }
+
+                if (prevGen > 0) {
+                    String prevSegmentFileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", prevGen));
 
-                if (directory->fileExists(prevSegmentFileName)) {
                     segmentInfos->message(L"fallback to prior segment file '" + prevSegmentFileName + L"'");
 
                     try {
-- 
2.43.0


From 374f6366936bcd7aa619ed64f5fd7cf097edb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 28/63] fix: a failed write was repeated when the file was
 closed

---
 src/core/store/SimpleFSDirectory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 46d2422..bd0e1c5 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -164,7 +164,11 @@ LuceneObjectPtr SimpleFSIndexInput::clone(const LuceneObjectPtr& other) {
 
 OutputFile::OutputFile(const String& path) {
     this->path = path;
-    file = newInstance<boost::filesystem::ofstream>(path, std::ios::binary | std::ios::out);
+    file = newInstance<boost::filesystem::ofstream>();
+    // Unbuffered (our callers buffer already): when a write fails in the middle, a stream buffer would write all of
+    // its bytes once more, behind the part that was written, when the file is closed.
+    file->rdbuf()->pubsetbuf(NULL, 0);
+    file->open(path, std::ios::binary | std::ios::out);
     if (!file->is_open()) {
         boost::throw_exception(IOException(L"Cannot create: " + path));
     }
-- 
2.43.0


From 0e4c9b4cbb0d090e4f89aff0f74fdf2ae9b972f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 29/63] fix: a retried deletion removed a file that is in use
 again

---
 src/core/index/IndexFileDeleter.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index d63b70f..616d227 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -124,6 +124,17 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
         }
     }
 
+    // The names of files that could not be deleted, and are deleted again later, must not be given to new segments
+    if (deletable) {
+        for (HashSet<String>::iterator fileName = deletable.begin(); fileName != deletable.end(); ++fileName) {
+            if (boost::starts_with(*fileName, L"_")) {
+                String number(fileName->substr(1, fileName->find_first_of(L"._", 1) - 1));
+                int64_t counter = StringUtils::toLong(number, StringUtils::CHARACTER_MAX_RADIX) + 1;
+                segmentInfos->counter = std::max(segmentInfos->counter, (int32_t)counter);
+            }
+        }
+    }
+
     // Finally, give policy a chance to remove things on startup
     policy->onInit(commits);
 
@@ -225,10 +236,13 @@ void IndexFileDeleter::deletePendingFiles() {
         HashSet<String> oldDeletable(deletable);
         deletable.reset();
         for (HashSet<String>::iterator fileName = oldDeletable.begin(); fileName != oldDeletable.end(); ++fileName) {
-            if (infoStream) {
-                message(L"delete pending file " + *fileName);
+            // A file of the same name may have been written and referenced in the meantime
+            if (!exists(*fileName)) {
+                if (infoStream) {
+                    message(L"delete pending file " + *fileName);
+                }
+                deleteFile(*fileName);
             }
-            deleteFile(*fileName);
         }
     }
 }
@@ -238,12 +252,12 @@ void IndexFileDeleter::checkpoint(const SegmentInfosPtr& segmentInfos, bool isCo
         message(L"now checkpoint \"" + segmentInfos->getCurrentSegmentFileName() + L"\" [" + StringUtils::toString(segmentInfos->size()) + L" segments; isCommit = " + StringUtils::toString(isCommit) + L"]");
     }
 
-    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
-    deletePendingFiles();
-
     // Incref the files
     incRef(segmentInfos, isCommit);
 
+    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
+    deletePendingFiles();
+
     if (isCommit) {
         // Append to our commits list
         commits.add(newLucene<CommitPoint>(commitsToDelete, directory, segmentInfos));
-- 
2.43.0


From 06876ec2b8c3af9fe25daf5ba4046c4b39d01daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 30/63] fix: a writer must not start from an older commit after
 a read error

---
 src/core/index/IndexWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 1e45788..92efa28 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -231,6 +231,11 @@ void IndexWriter::initialize() {
         // Default deleter (for backwards compatibility) is KeepOnlyLastCommitDeleter
         deleter = newLucene<IndexFileDeleter>(directory, deletionPolicy ? deletionPolicy : newLucene<KeepOnlyLastCommitDeletionPolicy>(), segmentInfos, infoStream, docWriter, synced);
 
+        if (deleter->getLastSegmentInfos() && deleter->getLastSegmentInfos()->getGeneration() > segmentInfos->getGeneration()) {
+            // An older commit was read because of a temporary error.  Continuing from it would lose the latest commit.
+            boost::throw_exception(IOException(L"the latest commit could not be read: " + deleter->getLastSegmentInfos()->getCurrentSegmentFileName()));
+        }
+
         if (deleter->startingCommitDeleted) {
             // Deletion policy deleted the "head" commit point.  We have to mark ourself as changed so that if we
             // are closed without any further changes we write a new segments_N file.
-- 
2.43.0


From fa71b243ad65bcd99b74a4dd7811361aa9ae264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 31/63] fix: optimize and waitForMerges hung after a merge
 failed

---
 src/core/index/ConcurrentMergeScheduler.cpp | 52 +++++++++++----------
 src/core/index/IndexWriter.cpp              |  8 ++++
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/core/index/ConcurrentMergeScheduler.cpp b/src/core/index/ConcurrentMergeScheduler.cpp
index 61c1ab1..c714902 100644
--- a/src/core/index/ConcurrentMergeScheduler.cpp
+++ b/src/core/index/ConcurrentMergeScheduler.cpp
@@ -263,38 +263,42 @@ void MergeThread::run() {
     OneMergePtr merge(this->startMerge);
     ConcurrentMergeSchedulerPtr merger(_merger);
 
-    LuceneException finally;
-    try {
-        merger->message(L"  merge thread: start");
-        IndexWriterPtr writer(_writer);
-
-        while (true) {
-            setRunningMerge(merge);
-            merger->doMerge(merge);
+    merger->message(L"  merge thread: start");
+    IndexWriterPtr writer(_writer);
 
-            // Subsequent times through the loop we do any new merge that writer says is necessary
-            merge = writer->getNextMerge();
-            if (merge) {
+    LuceneException finally;
+    bool initDone = true;
+    while (merge) {
+        try {
+            if (!initDone) {
                 writer->mergeInit(merge);
                 merger->message(L"  merge thread: do another merge " + merge->segString(merger->dir));
-            } else {
-                break;
             }
-        }
-
-        merger->message(L"  merge thread: done");
-    } catch (MergeAbortedException&) {
-        // Ignore the exception if it was due to abort
-    } catch (LuceneException& e) {
-        if (!merger->suppressExceptions) {
-            // suppressExceptions is normally only set during testing.
-            merger->anyExceptions = true;
-            merger->handleMergeException(e);
-        } else {
+            setRunningMerge(merge);
+            merger->doMerge(merge);
+        } catch (MergeAbortedException&) {
+            // Ignore the exception if it was due to abort
+        } catch (LuceneException& e) {
             finally = e;
+            if (!merger->suppressExceptions) {
+                // suppressExceptions is normally only set during testing.
+                merger->anyExceptions = true;
+                try {
+                    merger->handleMergeException(e);
+                } catch (LuceneException& mergeException) {
+                    finally = mergeException;
+                }
+            }
         }
+
+        // Subsequent times through the loop we do any new merge that writer says is necessary, even if this one
+        // failed: other threads may wait for it
+        merge = writer->getNextMerge();
+        initDone = false;
     }
 
+    merger->message(L"  merge thread: done");
+
     {
         SyncLock syncLock(merger);
         merger->notifyAll();
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 92efa28..e907fa4 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1613,6 +1613,11 @@ void IndexWriter::finishMerges(bool waitForMerges) {
 }
 
 void IndexWriter::waitForMerges() {
+    // Give merge scheduler a chance to run, in case any pending merges were left behind when a merge failed
+    if (!holdsLock()) {
+        mergeScheduler->merge(shared_from_this());
+    }
+
     SyncLock syncLock(this);
     // Ensure any running addIndexes finishes.
     acquireRead();
@@ -2593,6 +2598,9 @@ void IndexWriter::mergeInit(const OneMergePtr& merge) {
         success = true;
     } catch (LuceneException& e) {
         finally = e;
+        // A merge thread can get here without merge(), eg while optimize() waits for this merge
+        merge->setException(e);
+        addMergeException(merge);
     }
 
     if (!success) {
-- 
2.43.0


From 4d0c81759ecf8c6ae082a9edae1b8d4cd088fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 32/63] fix: deletes applied by a failed flush were not
 committed by the next one

---
 src/core/index/IndexWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index e907fa4..4635b1f 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3052,6 +3052,8 @@ bool IndexWriter::applyDeletes() {
         success = true;
     } catch (LuceneException& e) {
         finally = e;
+        // Deletes may have been applied to some segments, which do not change again when we try again
+        ++changeCount;
     }
 
     if (!success && infoStream) {
-- 
2.43.0


From 3426d6d4e2bb095ed8525b2df98f1c3cc03a4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 33/63] fix: norms were left unread after a failed read

---
 src/core/index/SegmentReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 15bd932..a8d57e5 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -1081,7 +1081,7 @@ ByteArray Norm::bytes() {
         } else {
             // We are the origNorm, so load the bytes for real ourself
             int32_t count = SegmentReaderPtr(_reader)->maxDoc();
-            _bytes = ByteArray::newInstance(count);
+            ByteArray normBytes(ByteArray::newInstance(count));
 
             // Since we are orig, in must not be null
             BOOST_ASSERT(in);
@@ -1090,9 +1090,10 @@ ByteArray Norm::bytes() {
             {
                 SyncLock instancesLock(in);
                 in->seek(normSeek);
-                in->readBytes(_bytes.get(), 0, count, false);
+                in->readBytes(normBytes.get(), 0, count, false);
             }
 
+            _bytes = normBytes; // only now, so that we read again after a failure
             _bytesRef = newLucene<SegmentReaderRef>();
             closeInput();
         }
-- 
2.43.0


From a8d42947eb8ac29441d4575410d3b5ca20240618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 34/63] fix: races between the start and the end of a
 LuceneThread

---
 include/lucene++/LuceneThread.h |  2 +-
 src/core/util/LuceneThread.cpp  | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/lucene++/LuceneThread.h b/include/lucene++/LuceneThread.h
index 2a5c33a..bbfc232 100644
--- a/include/lucene++/LuceneThread.h
+++ b/include/lucene++/LuceneThread.h
@@ -78,7 +78,7 @@ protected:
     bool isRunning();
 
     /// function that controls the lifetime of the running thread.
-    static void runThread(LuceneThread* thread);
+    static void runThread(LuceneThreadPtr thread);
 };
 
 }
diff --git a/src/core/util/LuceneThread.cpp b/src/core/util/LuceneThread.cpp
index 591caa0..79816cb 100644
--- a/src/core/util/LuceneThread.cpp
+++ b/src/core/util/LuceneThread.cpp
@@ -28,19 +28,23 @@ LuceneThread::~LuceneThread() {
 }
 
 void LuceneThread::start() {
-    setRunning(false);
-    thread = newInstance<boost::thread>(LuceneThread::runThread, this);
+    // The thread may end at any time once it was started, and then clears the flag
     setRunning(true);
+    try {
+        thread = newInstance<boost::thread>(LuceneThread::runThread, shared_from_this());
+    } catch (...) {
+        setRunning(false);
+        throw;
+    }
 }
 
-void LuceneThread::runThread(LuceneThread* thread) {
-    LuceneThreadPtr threadObject(thread->shared_from_this());
+void LuceneThread::runThread(LuceneThreadPtr thread) {
     try {
-        threadObject->run();
+        thread->run();
     } catch (...) {
     }
-    threadObject->setRunning(false);
-    threadObject.reset();
+    thread->setRunning(false);
+    thread.reset();
 }
 
 void LuceneThread::setRunning(bool running) {
-- 
2.43.0


From c27c2c6982221733ba149fe0643267b0ad3a401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 35/63] fix: a NativeFSLock excluded nobody after another lock
 object had been tried

---
 src/core/store/NativeFSLockFactory.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 2ba0471..5c208c2 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -46,7 +46,9 @@ NativeFSLock::NativeFSLock(const String& lockDir, const String& lockFileName) {
 
 NativeFSLock::~NativeFSLock() {
     try {
-        release();
+        if (lockExists()) {
+            release();
+        }
     } catch (...) {
     }
 }
@@ -83,7 +85,7 @@ bool NativeFSLock::obtain() {
 
     // ensure that lockdir exists and is a directory
     if (!FileUtils::fileExists(lockDir)) {
-        if (!FileUtils::createDirectory(lockDir)) {
+        if (!FileUtils::createDirectory(lockDir) && !FileUtils::isDirectory(lockDir)) {
             boost::throw_exception(IOException(L"Cannot create directory: " + lockDir));
         }
     } else if (!FileUtils::isDirectory(lockDir)) {
@@ -110,8 +112,13 @@ bool NativeFSLock::obtain() {
     try {
         // we can get intermittent "access denied" here, so we treat this as failure to acquire the lock
         boost::filesystem::ofstream f(path, std::ios::binary | std::ios::out);
+        bool created = f.is_open();
 
-        if (f.is_open()) {
+        // must not be open any more when we lock: on POSIX systems a process loses its lock on a file as soon as it
+        // closes any handle of that file
+        f.close();
+
+        if (created) {
             std::string lockpath;
 
             // file_lock only accepts char* filenames and we cannot losslessly convert Unicode paths to
@@ -126,7 +133,9 @@ bool NativeFSLock::obtain() {
                 lockpath = boost::filesystem::path(path).string();
             }
             lock = newInstance<boost::interprocess::file_lock>(lockpath.c_str());
-            lock->lock();
+            if (!lock->try_lock()) {
+                lock.reset();
+            }
         }
     } catch (...) {
         lock.reset();
@@ -155,9 +164,8 @@ void NativeFSLock::release() {
             LOCK_HELD().remove(path);
         }
 
-        // we don't care anymore if the file cannot be deleted because it's held up by another process
-        // (eg. AntiVirus). NativeFSLock does not depend on the existence/absence of the lock file
-        FileUtils::removeFile(path);
+        // NativeFSLock does not depend on the existence/absence of the lock file. We leave it: another process may
+        // have locked it since, and one that creates the file again would not see that lock.
     } else {
         // if we don't hold the lock, and somebody still called release(), for example as a result of
         // calling IndexWriter.unlock(), we should attempt to obtain the lock and release it.  If the
-- 
2.43.0


From a971c0b7e427c5286a4637d1a03e904d23e2a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 36/63] fix: SimpleFSLock did not exclude

---
 src/core/store/SimpleFSLockFactory.cpp | 28 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/core/store/SimpleFSLockFactory.cpp b/src/core/store/SimpleFSLockFactory.cpp
index fcbbc61..dea383a 100644
--- a/src/core/store/SimpleFSLockFactory.cpp
+++ b/src/core/store/SimpleFSLockFactory.cpp
@@ -5,7 +5,11 @@
 /////////////////////////////////////////////////////////////////////////////
 
 #include "LuceneInc.h"
-#include <boost/filesystem/fstream.hpp>
+#include <boost/filesystem/path.hpp>
+#if !defined(_WIN32) && !defined(_WIN64)
+#include <fcntl.h>
+#include <unistd.h>
+#endif
 #include "SimpleFSLockFactory.h"
 #include "_SimpleFSLockFactory.h"
 #include "FileUtils.h"
@@ -47,18 +51,28 @@ SimpleFSLock::~SimpleFSLock() {
 bool SimpleFSLock::obtain() {
     // Ensure that lockDir exists and is a directory
     if (!FileUtils::fileExists(lockDir)) {
-        if (!FileUtils::createDirectory(lockDir)) {
+        if (!FileUtils::createDirectory(lockDir) && !FileUtils::isDirectory(lockDir)) {
             boost::throw_exception(RuntimeException(L"Cannot create directory: " + lockDir));
         }
     } else if (!FileUtils::isDirectory(lockDir)) {
         boost::throw_exception(RuntimeException(L"Found regular file where directory expected: " + lockDir));
     }
-    boost::filesystem::ofstream f;
-    try {
-        f.open(FileUtils::joinPath(lockDir, lockFile), std::ios::binary | std::ios::out);
-    } catch (...) {
+    // The lock is ours only if we created the file
+    String path(FileUtils::joinPath(lockDir, lockFile));
+#if defined(_WIN32) || defined(_WIN64)
+    HANDLE f = ::CreateFileW(path.c_str(), GENERIC_WRITE, 0, NULL, CREATE_NEW, FILE_ATTRIBUTE_NORMAL, NULL);
+    if (f == INVALID_HANDLE_VALUE) {
+        return false;
+    }
+    ::CloseHandle(f);
+#else
+    int f = ::open(boost::filesystem::path(path).c_str(), O_WRONLY | O_CREAT | O_EXCL, 0666);
+    if (f == -1) {
+        return false;
     }
-    return f.is_open();
+    ::close(f);
+#endif
+    return true;
 }
 
 void SimpleFSLock::release() {
-- 
2.43.0


From c560d2ba71eeaf673f707697805f9058f6d13c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 37/63] fix: locks of a SingleInstanceLockFactory were not
 synchronised

---
 src/core/store/SingleInstanceLockFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/store/SingleInstanceLockFactory.cpp b/src/core/store/SingleInstanceLockFactory.cpp
index f3f398b..d9ca67a 100644
--- a/src/core/store/SingleInstanceLockFactory.cpp
+++ b/src/core/store/SingleInstanceLockFactory.cpp
@@ -12,6 +12,7 @@ namespace Lucene {
 
 SingleInstanceLockFactory::SingleInstanceLockFactory() {
     locks = HashSet<String>::newInstance();
+    locks.getSync(); // create the lock now, so that all copies of this set share it
 }
 
 SingleInstanceLockFactory::~SingleInstanceLockFactory() {
-- 
2.43.0


From 756f4d1db4619e81d883b9bb9fe5ba23fd6a1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 38/63] fix: the deleter's copy of the synced files was not
 synchronised with the writer's

---
 src/core/index/IndexWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 4635b1f..c697d37 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -134,6 +134,7 @@ void IndexWriter::initialize() {
     mergingSegments = SetSegmentInfo::newInstance();
     runningMerges = SetOneMerge::newInstance();
     synced = HashSet<String>::newInstance();
+    synced.getSync(); // create the lock now, so that the copy of this set in the deleter shares it
     syncing = HashSet<String>::newInstance();
     changeCount = 0;
     lastCommitChangeCount = 0;
-- 
2.43.0


From 7d7df598c1c7f19cd52f3897f5510cb884889be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 39/63] fix: lost wake-up in LuceneSignal

---
 src/core/util/LuceneSignal.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/util/LuceneSignal.cpp b/src/core/util/LuceneSignal.cpp
index e2aef40..650419b 100644
--- a/src/core/util/LuceneSignal.cpp
+++ b/src/core/util/LuceneSignal.cpp
@@ -26,11 +26,15 @@ void LuceneSignal::createSignal(LuceneSignalPtr& signal, const SynchronizePtr& o
 }
 
 void LuceneSignal::wait(int32_t timeout) {
-    int32_t relockCount = objectLock ? objectLock->unlockAll() : 0;
-    boost::mutex::scoped_lock waitLock(waitMutex);
-    while (!signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(timeout))) {
-        if (timeout != 0 || signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(10))) {
-            break;
+    int32_t relockCount = 0;
+    {
+        // Hold this before the object is unlocked, so that we do not miss a signal in between
+        boost::mutex::scoped_lock waitLock(waitMutex);
+        relockCount = objectLock ? objectLock->unlockAll() : 0;
+        while (!signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(timeout))) {
+            if (timeout != 0 || signalCondition.timed_wait(waitMutex, boost::posix_time::milliseconds(10))) {
+                break;
+            }
         }
     }
     for (int32_t relock = 0; relock < relockCount; ++relock) {
@@ -39,6 +43,7 @@ void LuceneSignal::wait(int32_t timeout) {
 }
 
 void LuceneSignal::notifyAll() {
+    boost::mutex::scoped_lock waitLock(waitMutex);
     signalCondition.notify_all();
 }
 
-- 
2.43.0


From 0d843ca5d30902a436aae9519f4665b72d1d2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 40/63] fix: a stale writable reader overwrote newer commits

---
 src/core/index/DirectoryReader.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 8704c32..aa516e9 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -293,7 +293,13 @@ void DirectoryReader::_initialize(Collection<SegmentReaderPtr> subReaders) {
 }
 
 IndexReaderPtr DirectoryReader::open(const DirectoryPtr& directory, const IndexDeletionPolicyPtr& deletionPolicy, const IndexCommitPtr& commit, bool readOnly, int32_t termInfosIndexDivisor) {
-    return newLucene<FindSegmentsOpen>(readOnly, deletionPolicy, termInfosIndexDivisor, newLucene<SegmentInfos>(), directory)->run(commit);
+    IndexReaderPtr reader(newLucene<FindSegmentsOpen>(readOnly, deletionPolicy, termInfosIndexDivisor, newLucene<SegmentInfos>(), directory)->run(commit));
+    if (!readOnly && !commit) {
+        // The index may have changed while we opened it: then this reader is stale already
+        DirectoryReaderPtr directoryReader(boost::dynamic_pointer_cast<DirectoryReader>(reader));
+        directoryReader->maxIndexVersion = directoryReader->segmentInfos->getVersion();
+    }
+    return reader;
 }
 
 LuceneObjectPtr DirectoryReader::clone(const LuceneObjectPtr& other) {
@@ -315,6 +321,11 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
 
     newReader->_writer = _writer;
 
+    if (!openReadOnly) {
+        // A clone is as stale as its original
+        newReader->maxIndexVersion = readOnly ? segmentInfos->getVersion() : maxIndexVersion;
+    }
+
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
         // In near real-time search, reader is always readonly
@@ -409,7 +420,12 @@ IndexReaderPtr DirectoryReader::doReopenNoWriter(bool openReadOnly, const IndexC
         }
     }
 
-    return newLucene<FindSegmentsReopen>(shared_from_this(), openReadOnly, newLucene<SegmentInfos>(), _directory)->run(commit);
+    DirectoryReaderPtr newReader(newLucene<FindSegmentsReopen>(shared_from_this(), openReadOnly, newLucene<SegmentInfos>(), _directory)->run(commit));
+    if (!openReadOnly) {
+        // The index may have changed while we opened it: then the new reader is stale already
+        newReader->maxIndexVersion = newReader->segmentInfos->getVersion();
+    }
+    return newReader;
 }
 
 DirectoryReaderPtr DirectoryReader::doReopen(const SegmentInfosPtr& infos, bool doClone, bool openReadOnly) {
-- 
2.43.0


From d29f9a40d9392ca4428b892750234f55d555736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:47 +0000
Subject: [PATCH 41/63] fix: undeleteAll wrote over the deletions file of the
 last commit and was missed by reopen

---
 src/core/index/SegmentInfo.cpp   |  3 ++-
 src/core/index/SegmentReader.cpp | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index ed8deb3..7bc9248 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -204,7 +204,8 @@ bool SegmentInfo::hasDeletions() {
     if (delGen == NO) {
         return false;
     } else if (delGen >= YES) {
-        return true;
+        // The file is empty after undeleteAll
+        return delCount != 0;
     } else {
         return dir->fileExists(getDelFileName());
     }
diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index a8d57e5..3aed145 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -142,7 +142,7 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
     SyncLock syncLock(this);
 
     bool deletionsUpToDate = (this->si->hasDeletions() == si->hasDeletions() &&
-                              (!si->hasDeletions() || this->si->getDelFileName() == si->getDelFileName()));
+                              this->si->getDelFileName() == si->getDelFileName());
     bool normsUpToDate = true;
     int32_t fieldCount = core->fieldInfos->size();
     Collection<uint8_t> fieldNormsChanged(Collection<uint8_t>::newInstance(fieldCount));
@@ -263,7 +263,7 @@ void SegmentReader::commitChanges(MapStringString commitUserData) {
         bool success = false;
         LuceneException finally;
         try {
-            deletedDocs->write(directory(), delFileName);
+            (deletedDocs ? deletedDocs : newLucene<BitVector>(maxDoc()))->write(directory(), delFileName);
             success = true;
         } catch (LuceneException& e) {
             finally = e;
@@ -279,7 +279,7 @@ void SegmentReader::commitChanges(MapStringString commitUserData) {
 
         si->setDelCount(si->getDelCount() + pendingDeleteCount);
         pendingDeleteCount = 0;
-        BOOST_ASSERT(deletedDocs->count() == si->getDelCount()); // delete count mismatch during commit?
+        BOOST_ASSERT((deletedDocs ? deletedDocs->count() : 0) == si->getDelCount()); // delete count mismatch during commit?
     } else {
         BOOST_ASSERT(pendingDeleteCount == 0);
     }
@@ -354,14 +354,15 @@ void SegmentReader::doDelete(int32_t docNum) {
 }
 
 void SegmentReader::doUndeleteAll() {
-    deletedDocsDirty = false;
     if (deletedDocs) {
+        // An empty file is written with the next generation: the name of a file that the last commit
+        // (or an open reader) refers to must not be used again
+        deletedDocsDirty = true;
         BOOST_ASSERT(deletedDocsRef);
         deletedDocsRef->decRef();
         deletedDocs.reset();
         deletedDocsRef.reset();
         pendingDeleteCount = 0;
-        si->clearDelGen();
         si->setDelCount(0);
     } else {
         BOOST_ASSERT(!deletedDocsRef);
-- 
2.43.0


From 6b7efcd994995958438a9b92484e5002d4cbfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:47 +0000
Subject: [PATCH 42/63] fix: setNorm showed in clones that had not read their
 norms yet

---
 src/core/index/SegmentReader.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 3aed145..da9b3ba 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -493,7 +493,23 @@ void SegmentReader::doSetNorm(int32_t doc, const String& field, uint8_t value) {
     }
 
     normsDirty = true;
-    ByteArray bytes(norm->copyOnWrite());
+    ByteArray bytes;
+    if (norm->refCount > 1) {
+        // Clones that have not read their norms yet will ask this instance for them, and they must not see the
+        // change: leave it to them
+        NormPtr newNorm(boost::dynamic_pointer_cast<Norm>(norm->clone()));
+        newNorm->_reader = shared_from_this();
+        try {
+            bytes = newNorm->copyOnWrite();
+        } catch (...) {
+            newNorm->decRef();
+            throw;
+        }
+        _norms.put(field, newNorm);
+        norm->decRef();
+    } else {
+        bytes = norm->copyOnWrite();
+    }
     if (doc < 0 || doc >= bytes.size()) {
         boost::throw_exception(IndexOutOfBoundsException());
     }
-- 
2.43.0


From d77f07326280b2fcbcc8761a161600be390e735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:47 +0000
Subject: [PATCH 43/63] fix: files written again after a failed commit were not
 synced

---
 src/core/index/IndexFileDeleter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index 616d227..79c1f5f 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -330,11 +330,6 @@ void IndexFileDeleter::decRef(const String& fileName) {
         // This file is no longer referenced by any past commit points nor by the in-memory SegmentInfos
         deleteFile(fileName);
         refCounts.remove(fileName);
-
-        if (synced) {
-            SyncLock syncLock(&synced);
-            synced.remove(fileName);
-        }
     }
 }
 
@@ -378,6 +373,11 @@ void IndexFileDeleter::deleteNewFiles(HashSet<String> files) {
 }
 
 void IndexFileDeleter::deleteFile(const String& fileName) {
+    if (synced) {
+        // A file of that name that is written later must be synced again
+        SyncLock syncLock(&synced);
+        synced.remove(fileName);
+    }
     try {
         if (infoStream) {
             message(L"delete \"" + fileName + L"\"");
-- 
2.43.0


From df99c5f46e5d590839a25ac5943cab3859ea6633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:47 +0000
Subject: [PATCH 44/63] fix: a reader kept the version of its failed commit

---
 src/core/index/DirectoryReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index aa516e9..f6052c3 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -686,6 +686,9 @@ void DirectoryReader::doCommit(MapStringString commitUserData) {
             // actually in the index)
             rollbackCommit();
 
+            // The version has been advanced for the commit that failed; another commit will get that version
+            segmentInfos->updateGeneration(deleter->getLastSegmentInfos());
+
             // Recompute deletable files & remove them (so partially written .del files, etc,
             // are removed)
             deleter->refresh();
-- 
2.43.0


From 1de6e6ffc5ec7df86c0cff96448e277ef3d26068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 45/63] fix: a FilteredQuery over a field cache filter threw
 bad_weak_ptr

---
 src/core/include/_FieldCacheRangeFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 22b52fd..404cd34 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -229,7 +229,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorTermDocs);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet; // nobody else keeps it while iterating
     TermDocsPtr termDocs;
     int32_t doc;
 
@@ -249,7 +249,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorIncrement);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet; // nobody else keeps it while iterating
     int32_t doc;
 
 public:
-- 
2.43.0


From 268c06838c8b87a0963cca11da597296e4d28d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 46/63] fix: an exception in a search of a
 ParallelMultiSearcher ended the process

---
 include/lucene++/ThreadPool.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/lucene++/ThreadPool.h b/include/lucene++/ThreadPool.h
index 175ac8a..c030e5f 100644
--- a/include/lucene++/ThreadPool.h
+++ b/include/lucene++/ThreadPool.h
@@ -11,6 +11,7 @@
 #include <boost/any.hpp>
 #include <boost/thread/thread.hpp>
 #include "LuceneObject.h"
+#include "StringUtils.h"
 
 namespace Lucene {
 
@@ -27,6 +28,7 @@ public:
 
 protected:
     boost::any value;
+    LuceneException exception;
 
 public:
     void set(const boost::any& value) {
@@ -34,12 +36,19 @@ public:
         this->value = value;
     }
 
+    /// The computation failed: {@link #get} throws this exception.
+    void setException(const LuceneException& exception) {
+        SyncLock syncLock(this);
+        this->exception = exception;
+    }
+
     template <typename TYPE>
     TYPE get() {
         SyncLock syncLock(this);
-        while (value.empty()) {
+        while (value.empty() && exception.isNull()) {
             wait(10);
         }
+        exception.throwException();
         return value.empty() ? TYPE() : boost::any_cast<TYPE>(value);
     }
 };
@@ -74,7 +83,13 @@ protected:
     // this will be executed when one of the threads is available
     template <typename FUNC>
     void execute(FUNC func, const FuturePtr& future) {
-        future->set(func());
+        try {
+            future->set(func());
+        } catch (LuceneException& e) {
+            future->setException(e);
+        } catch (std::exception& e) {
+            future->setException(RuntimeException(StringUtils::toUnicode(e.what())));
+        }
         future->notifyAll();
     }
 };
-- 
2.43.0


From 0658024f1780fc3e6eab9134512274f9828ceff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 47/63] fix: field cache filters matched deleted documents

---
 src/core/include/_FieldCacheRangeFilter.h |  4 ++++
 src/core/include/_FieldCacheTermsFilter.h | 10 +++++++---
 src/core/search/FieldCacheRangeFilter.cpp | 18 ++++++++++++++++--
 src/core/search/FieldCacheTermsFilter.cpp | 22 +++++++++++++++-------
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 404cd34..a8bc8dc 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -44,8 +44,12 @@ public:
 protected:
     IndexReaderPtr reader;
     bool mayUseTermDocs;
+    BitVectorPtr deletedDocs;
 
 public:
+    /// Whether a doc was deleted when this set was made without TermDocs.
+    bool isDeleted(int32_t doc);
+
     /// This method checks, if a doc is a hit, should throw ArrayIndexOutOfBounds, when position invalid
     virtual bool matchDoc(int32_t doc) = 0;
 
diff --git a/src/core/include/_FieldCacheTermsFilter.h b/src/core/include/_FieldCacheTermsFilter.h
index 68708bd..4e122ac 100644
--- a/src/core/include/_FieldCacheTermsFilter.h
+++ b/src/core/include/_FieldCacheTermsFilter.h
@@ -14,34 +14,38 @@ namespace Lucene {
 
 class FieldCacheTermsFilterDocIdSet : public DocIdSet {
 public:
-    FieldCacheTermsFilterDocIdSet(Collection<String> terms, const StringIndexPtr& fcsi);
+    FieldCacheTermsFilterDocIdSet(const IndexReaderPtr& reader, Collection<String> terms, const StringIndexPtr& fcsi);
     virtual ~FieldCacheTermsFilterDocIdSet();
 
     LUCENE_CLASS(FieldCacheTermsFilterDocIdSet);
 
 protected:
+    IndexReaderPtr reader;
     StringIndexPtr fcsi;
     OpenBitSetPtr openBitSet;
 
 public:
     virtual DocIdSetIteratorPtr iterator();
 
-    /// This DocIdSet implementation is cacheable.
+    /// This DocIdSet implementation is cacheable unless there are deletions.
     virtual bool isCacheable();
 };
 
 class FieldCacheTermsFilterDocIdSetIterator : public DocIdSetIterator {
 public:
-    FieldCacheTermsFilterDocIdSetIterator(const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet);
+    FieldCacheTermsFilterDocIdSetIterator(const IndexReaderPtr& reader, const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet);
     virtual ~FieldCacheTermsFilterDocIdSetIterator();
 
     LUCENE_CLASS(FieldCacheTermsFilterDocIdSetIterator);
 
 protected:
+    IndexReaderPtr reader;
     StringIndexPtr fcsi;
     OpenBitSetPtr openBitSet;
     int32_t doc;
 
+    bool matchDoc(int32_t doc);
+
 public:
     virtual int32_t docID();
     virtual int32_t nextDoc();
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 7a3e1ae..3bcc9bf 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -7,6 +7,7 @@
 #include "LuceneInc.h"
 #include "FieldCacheRangeFilter.h"
 #include "_FieldCacheRangeFilter.h"
+#include "BitVector.h"
 #include "FieldCache.h"
 #include "IndexReader.h"
 #include "TermDocs.h"
@@ -237,6 +238,15 @@ Collection<double> FieldCacheRangeFilterDouble::getValues(const IndexReaderPtr&
 FieldCacheDocIdSet::FieldCacheDocIdSet(const IndexReaderPtr& reader, bool mayUseTermDocs) {
     this->reader = reader;
     this->mayUseTermDocs = mayUseTermDocs;
+    if (!mayUseTermDocs && reader->hasDeletions()) {
+        // The field cache has the values of deleted documents, too
+        deletedDocs = newLucene<BitVector>(reader->maxDoc());
+        for (int32_t doc = 0; doc < reader->maxDoc(); ++doc) {
+            if (reader->isDeleted(doc)) {
+                deletedDocs->set(doc);
+            }
+        }
+    }
 }
 
 FieldCacheDocIdSet::~FieldCacheDocIdSet() {
@@ -246,6 +256,10 @@ bool FieldCacheDocIdSet::isCacheable() {
     return !(mayUseTermDocs && reader->hasDeletions());
 }
 
+bool FieldCacheDocIdSet::isDeleted(int32_t doc) {
+    return deletedDocs && deletedDocs->get(doc);
+}
+
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
     // Synchronization needed because deleted docs BitVector can change after call to hasDeletions until
     // TermDocs creation.  We only use an iterator with termDocs, when this was requested (eg. range
@@ -337,7 +351,7 @@ int32_t FieldDocIdSetIteratorIncrement::nextDoc() {
     try {
         do {
             ++doc;
-        } while (!cacheDocIdSet->matchDoc(doc));
+        } while (!cacheDocIdSet->matchDoc(doc) || cacheDocIdSet->isDeleted(doc));
         return doc;
     } catch (IndexOutOfBoundsException&) {
         doc = NO_MORE_DOCS;
@@ -349,7 +363,7 @@ int32_t FieldDocIdSetIteratorIncrement::advance(int32_t target) {
     FieldCacheDocIdSetPtr cacheDocIdSet(_cacheDocIdSet);
     try {
         doc = target;
-        while (!cacheDocIdSet->matchDoc(doc)) {
+        while (!cacheDocIdSet->matchDoc(doc) || cacheDocIdSet->isDeleted(doc)) {
             ++doc;
         }
         return doc;
diff --git a/src/core/search/FieldCacheTermsFilter.cpp b/src/core/search/FieldCacheTermsFilter.cpp
index 32ca0a4..92ee1b1 100644
--- a/src/core/search/FieldCacheTermsFilter.cpp
+++ b/src/core/search/FieldCacheTermsFilter.cpp
@@ -8,6 +8,7 @@
 #include "FieldCacheTermsFilter.h"
 #include "_FieldCacheTermsFilter.h"
 #include "FieldCache.h"
+#include "IndexReader.h"
 #include "OpenBitSet.h"
 
 namespace Lucene {
@@ -25,10 +26,12 @@ FieldCachePtr FieldCacheTermsFilter::getFieldCache() {
 }
 
 DocIdSetPtr FieldCacheTermsFilter::getDocIdSet(const IndexReaderPtr& reader) {
-    return newLucene<FieldCacheTermsFilterDocIdSet>(terms, getFieldCache()->getStringIndex(reader, field));
+    return newLucene<FieldCacheTermsFilterDocIdSet>(reader, terms, getFieldCache()->getStringIndex(reader, field));
 }
 
-FieldCacheTermsFilterDocIdSet::FieldCacheTermsFilterDocIdSet(Collection<String> terms, const StringIndexPtr& fcsi) {
+FieldCacheTermsFilterDocIdSet::FieldCacheTermsFilterDocIdSet(const IndexReaderPtr& reader, Collection<String> terms, const StringIndexPtr& fcsi) {
+    // The field cache has the values of deleted documents, too
+    this->reader = reader->hasDeletions() ? reader : IndexReaderPtr();
     this->fcsi = fcsi;
     openBitSet = newLucene<OpenBitSet>(this->fcsi->lookup.size());
     for (Collection<String>::iterator term = terms.begin(); term != terms.end(); ++term) {
@@ -43,14 +46,15 @@ FieldCacheTermsFilterDocIdSet::~FieldCacheTermsFilterDocIdSet() {
 }
 
 DocIdSetIteratorPtr FieldCacheTermsFilterDocIdSet::iterator() {
-    return newLucene<FieldCacheTermsFilterDocIdSetIterator>(fcsi, openBitSet);
+    return newLucene<FieldCacheTermsFilterDocIdSetIterator>(reader, fcsi, openBitSet);
 }
 
 bool FieldCacheTermsFilterDocIdSet::isCacheable() {
-    return true;
+    return !reader;
 }
 
-FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet) {
+FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(const IndexReaderPtr& reader, const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet) {
+    this->reader = reader;
     this->fcsi = fcsi;
     this->openBitSet = openBitSet;
     this->doc = -1;
@@ -59,6 +63,10 @@ FieldCacheTermsFilterDocIdSetIterator::FieldCacheTermsFilterDocIdSetIterator(con
 FieldCacheTermsFilterDocIdSetIterator::~FieldCacheTermsFilterDocIdSetIterator() {
 }
 
+bool FieldCacheTermsFilterDocIdSetIterator::matchDoc(int32_t doc) {
+    return openBitSet->fastGet(fcsi->order[doc]) && !(reader && reader->isDeleted(doc));
+}
+
 int32_t FieldCacheTermsFilterDocIdSetIterator::docID() {
     return doc;
 }
@@ -68,7 +76,7 @@ int32_t FieldCacheTermsFilterDocIdSetIterator::nextDoc() {
         if (++doc >= fcsi->order.size()) {
             boost::throw_exception(IndexOutOfBoundsException());
         }
-        while (!openBitSet->fastGet(fcsi->order[doc])) {
+        while (!matchDoc(doc)) {
             if (++doc >= fcsi->order.size()) {
                 boost::throw_exception(IndexOutOfBoundsException());
             }
@@ -85,7 +93,7 @@ int32_t FieldCacheTermsFilterDocIdSetIterator::advance(int32_t target) {
         if (doc < 0 || doc >= fcsi->order.size()) {
             boost::throw_exception(IndexOutOfBoundsException());
         }
-        while (!openBitSet->fastGet(fcsi->order[doc])) {
+        while (!matchDoc(doc)) {
             if (++doc >= fcsi->order.size()) {
                 boost::throw_exception(IndexOutOfBoundsException());
             }
-- 
2.43.0


From ef58002e1a4d7966a75814c6dca1f56cca259244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 48/63] fix: purgeAllCaches pulled the field cache away under
 concurrent searches

---
 include/lucene++/FieldCacheImpl.h  |  3 +++
 src/core/search/FieldCacheImpl.cpp | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/FieldCacheImpl.h b/include/lucene++/FieldCacheImpl.h
index c58eed0..8caebc3 100644
--- a/include/lucene++/FieldCacheImpl.h
+++ b/include/lucene++/FieldCacheImpl.h
@@ -87,6 +87,9 @@ public:
     /// Remove this reader from the cache, if present.
     virtual void purge(const IndexReaderPtr& r);
 
+    /// Remove all entries of this cache.
+    virtual void purgeAll();
+
     virtual boost::any get(const IndexReaderPtr& reader, const EntryPtr& key);
     virtual void printNewInsanity(const InfoStreamPtr& infoStream, const boost::any& value);
 };
diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index 2e880ae..fe4923f 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -47,7 +47,10 @@ void FieldCacheImpl::initialize() {
 }
 
 void FieldCacheImpl::purgeAllCaches() {
-    initialize();
+    // Other threads may be using the caches
+    for (MapStringCache::iterator cache = caches.begin(); cache != caches.end(); ++cache) {
+        cache->second->purgeAll();
+    }
 }
 
 void FieldCacheImpl::purge(const IndexReaderPtr& r) {
@@ -59,6 +62,7 @@ void FieldCacheImpl::purge(const IndexReaderPtr& r) {
 Collection<FieldCacheEntryPtr> FieldCacheImpl::getCacheEntries() {
     Collection<FieldCacheEntryPtr> result(Collection<FieldCacheEntryPtr>::newInstance());
     for (MapStringCache::iterator cache = caches.begin(); cache != caches.end(); ++cache) {
+        SyncLock cacheLock(&cache->second->readerCache);
         for (WeakMapLuceneObjectMapEntryAny::iterator key = cache->second->readerCache.begin(); key != cache->second->readerCache.end(); ++key) {
             LuceneObjectPtr readerKey(key->first.lock());
 
@@ -161,6 +165,11 @@ void Cache::purge(const IndexReaderPtr& r) {
     readerCache.remove(readerKey);
 }
 
+void Cache::purgeAll() {
+    SyncLock cacheLock(&readerCache);
+    readerCache.clear();
+}
+
 boost::any Cache::get(const IndexReaderPtr& reader, const EntryPtr& key) {
     MapEntryAny innerCache;
     boost::any value;
-- 
2.43.0


From 405341b0920733606f822c7591e16cbc55e915f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 49/63] fix: a cached filter outlived the deletions it was
 computed with

---
 src/core/index/SegmentReader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index da9b3ba..2abfef0 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -350,6 +350,8 @@ void SegmentReader::doDelete(int32_t docNum) {
     deletedDocsDirty = true;
     if (!deletedDocs->getAndSet(docNum)) {
         ++pendingDeleteCount;
+        // what was cached for the deletions so far does not hold for these (see getDeletesCacheKey)
+        deletedDocsRef = newLucene<SegmentReaderRef>();
     }
 }
 
@@ -717,7 +719,9 @@ LuceneObjectPtr SegmentReader::getFieldCacheKey() {
 }
 
 LuceneObjectPtr SegmentReader::getDeletesCacheKey() {
-    return deletedDocs;
+    // deletedDocs itself can't be the key: once no other reader shares it, it is changed in place
+    SyncLock syncLock(this);
+    return deletedDocs ? LuceneObjectPtr(deletedDocsRef) : LuceneObjectPtr();
 }
 
 int64_t SegmentReader::getUniqueTermCount() {
-- 
2.43.0


From 060112ceab60e342044ec6392686af80483d2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 50/63] fix: a cached filter that applies deletions dynamically
 hid live documents

---
 src/core/search/CachingWrapperFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/search/CachingWrapperFilter.cpp b/src/core/search/CachingWrapperFilter.cpp
index c04f965..3350e48 100644
--- a/src/core/search/CachingWrapperFilter.cpp
+++ b/src/core/search/CachingWrapperFilter.cpp
@@ -126,7 +126,8 @@ void FilterCache::put(const LuceneObjectPtr& coreKey, const LuceneObjectPtr& del
     } else if (deletesMode == CachingWrapperFilter::DELETES_RECACHE) {
         cache.put(delCoreKey, value);
     } else {
-        cache.put(coreKey, value);
+        // no entry for the core when the reader has deletions: the value may lack documents that are
+        // not deleted for another reader of the same core
         cache.put(delCoreKey, value);
     }
 }
-- 
2.43.0


From d8e475c7a196111f1083b2589a8f2b7f84901459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:31 +0000
Subject: [PATCH 51/63] fix: searches that began at once started several
 timers, and stopTimer could wait forever

---
 src/core/include/_TimeLimitingCollector.h |  3 +-
 src/core/search/TimeLimitingCollector.cpp | 36 ++++++++++++++++-------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/core/include/_TimeLimitingCollector.h b/src/core/include/_TimeLimitingCollector.h
index a0cd94f..f918767 100644
--- a/src/core/include/_TimeLimitingCollector.h
+++ b/src/core/include/_TimeLimitingCollector.h
@@ -19,6 +19,7 @@ public:
     LUCENE_CLASS(TimerThread);
 
 protected:
+    SynchronizePtr startStopLock;
     int64_t time;
     bool _stopThread;
 
@@ -29,7 +30,7 @@ public:
     /// Get the timer value in milliseconds.
     int64_t getMilliseconds();
 
-    /// Stop timer thread.
+    /// Stop timer thread and wait until it has ended.
     void stopThread();
 };
 
diff --git a/src/core/search/TimeLimitingCollector.cpp b/src/core/search/TimeLimitingCollector.cpp
index 39174f4..0b073e4 100644
--- a/src/core/search/TimeLimitingCollector.cpp
+++ b/src/core/search/TimeLimitingCollector.cpp
@@ -34,9 +34,7 @@ TimerThreadPtr TimeLimitingCollector::TIMER_THREAD() {
         _TIMER_THREAD = newLucene<TimerThread>();
         CycleCheck::addStatic(_TIMER_THREAD);
     );
-    if (!_TIMER_THREAD->isAlive()) {
-        _TIMER_THREAD->start();    // start single thread instance
-    }
+    _TIMER_THREAD->start(); // start single thread instance
     return _TIMER_THREAD;
 }
 
@@ -49,10 +47,7 @@ void TimeLimitingCollector::setResolution(int64_t newResolution) {
 }
 
 void TimeLimitingCollector::stopTimer() {
-    if (TIMER_THREAD()->isAlive()) {
-        TIMER_THREAD()->stopThread();
-        TIMER_THREAD()->join();
-    }
+    TIMER_THREAD()->stopThread();
 }
 
 bool TimeLimitingCollector::isGreedy() {
@@ -90,6 +85,7 @@ bool TimeLimitingCollector::acceptsDocsOutOfOrder() {
 }
 
 TimerThread::TimerThread() {
+    startStopLock = newInstance<Synchronize>();
     time = 0;
     _stopThread = false;
 }
@@ -98,15 +94,26 @@ TimerThread::~TimerThread() {
 }
 
 void TimerThread::start() {
-    _stopThread = false;
-    LuceneThread::start();
+    // Searches that begin at once must not start two threads, and none while the last one is being
+    // stopped
+    SyncLock startStop(startStopLock);
+    if (!isAlive()) {
+        {
+            SyncLock syncLock(this);
+            _stopThread = false;
+        }
+        LuceneThread::start();
+    }
 }
 
 void TimerThread::run() {
-    while (!_stopThread) {
+    while (true) {
         int64_t resolution;
         {
             SyncLock syncLock(this);
+            if (_stopThread) {
+                break;
+            }
             resolution = TimeLimitingCollector::resolution;
             time += resolution;
         }
@@ -120,7 +127,14 @@ int64_t TimerThread::getMilliseconds() {
 }
 
 void TimerThread::stopThread() {
-    _stopThread = true;
+    SyncLock startStop(startStopLock);
+    if (isAlive()) {
+        {
+            SyncLock syncLock(this);
+            _stopThread = true;
+        }
+        join();
+    }
 }
 
 }
-- 
2.43.0


From ccbc496281396a45d5503194dae7268e0d78370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 52/63] fix: files of a merge aborted after its last write
 stayed behind

---
 src/core/index/IndexWriter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index c697d37..9e9bdfd 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2508,11 +2508,12 @@ void IndexWriter::merge(const OneMergePtr& merge) {
                 SyncLock syncLock(this);
                 mergeFinish(merge);
 
-                if (!success) {
-                    if (infoStream) {
-                        message(L"hit exception during merge");
-                    }
+                if (!success && infoStream) {
+                    message(L"hit exception during merge");
+                }
 
+                // A merge that was aborted after it wrote its last file did not throw, but left its files
+                if (!success || merge->isAborted()) {
                     if (merge->info && !segmentInfos->contains(merge->info)) {
                         deleter->refresh(merge->info->name);
                     }
-- 
2.43.0


From 98276fdab1ce603efe208fb79e341324cfb35c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:42 +0000
Subject: [PATCH 53/63] fix: a writer at an earlier commit overwrote deletions
 and norms of later commits

---
 src/core/index/SegmentReader.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 2abfef0..4853101 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -254,7 +254,10 @@ void SegmentReader::doCommit(MapStringString commitUserData) {
 
 void SegmentReader::commitChanges(MapStringString commitUserData) {
     if (deletedDocsDirty) { // re-write deleted
-        si->advanceDelGen();
+        // After an earlier commit was opened, the next generations may be those of later commits
+        do {
+            si->advanceDelGen();
+        } while (directory()->fileExists(si->getDelFileName()));
 
         // We can write directly to the actual name (vs to a .tmp & renaming it) because the file
         // is not live until segments file is written
@@ -1190,9 +1193,11 @@ void Norm::reWrite(const SegmentInfoPtr& si) {
     BOOST_ASSERT(refCount > 0 && (!origNorm || origNorm->refCount > 0));
 
     // NOTE: norms are re-written in regular directory, not cfs
-    si->advanceNormGen(this->number);
-    String normFileName(si->getNormFileName(this->number));
     SegmentReaderPtr reader(_reader);
+    do {
+        si->advanceNormGen(this->number);
+    } while (reader->directory()->fileExists(si->getNormFileName(this->number)));
+    String normFileName(si->getNormFileName(this->number));
     IndexOutputPtr out(reader->directory()->createOutput(normFileName));
     bool success = false;
     LuceneException finally;
-- 
2.43.0


From 3f8fd6a9da331947b24670f6074374eb5801bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 54/63] fix: getReader crashed while addIndexesNoOptimize was
 adding to an empty index

---
 src/core/index/DirectoryReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index f6052c3..9d00a5f 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -140,7 +140,7 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
 
     if (upto < readers.size()) {
         // This means some segments were in a foreign Directory
-        readers.resize(upto);
+        readers = Collection<SegmentReaderPtr>::newInstance(readers.begin(), readers.begin() + upto);
     }
 
     _initialize(readers);
-- 
2.43.0


From 67fb6b11eeeb675b715ca7d1f7319a084bd63312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 55/63] fix: an index rolled back by a failed addIndexes kept
 pooled readers that wrote deletions of segments that are gone

---
 src/core/include/_IndexWriter.h |  3 +++
 src/core/index/IndexWriter.cpp  | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/core/include/_IndexWriter.h b/src/core/include/_IndexWriter.h
index a683757..b6a0a6e 100644
--- a/src/core/include/_IndexWriter.h
+++ b/src/core/include/_IndexWriter.h
@@ -30,6 +30,9 @@ public:
     /// This is called on successful merge.
     void clear(const SegmentInfosPtr& infos);
 
+    /// Discard the readers of all other segments. This is called when segments are rolled back.
+    void retain(const SegmentInfosPtr& infos);
+
     /// used only by asserts
     bool infoIsLive(const SegmentInfoPtr& info);
     SegmentInfoPtr mapToLive(const SegmentInfoPtr& info);
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 9e9bdfd..5cf1548 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1397,6 +1397,9 @@ void IndexWriter::rollbackTransaction() {
         }
     }
 
+    // Readers of the segments that are gone must not stay in the pool and write their deletes later
+    readerPool->retain(segmentInfos);
+
     // This must come after we rollback segmentInfos, so that if a commit() kicks off it does not see the
     // segmentInfos with external segments.
     finishAddIndexes();
@@ -3446,6 +3449,21 @@ void ReaderPool::clear(const SegmentInfosPtr& infos) {
     }
 }
 
+void ReaderPool::retain(const SegmentInfosPtr& infos) {
+    SyncLock syncLock(this);
+    Collection<SegmentReaderPtr> gone(Collection<SegmentReaderPtr>::newInstance());
+    for (MapSegmentInfoSegmentReader::iterator ent = readerMap.begin(); ent != readerMap.end(); ++ent) {
+        if (!infos->contains(ent->first)) {
+            gone.add(ent->second);
+        }
+    }
+    for (Collection<SegmentReaderPtr>::iterator reader = gone.begin(); reader != gone.end(); ++reader) {
+        readerMap.remove((*reader)->getSegmentInfo());
+        (*reader)->_hasChanges = false;
+        (*reader)->close();
+    }
+}
+
 bool ReaderPool::infoIsLive(const SegmentInfoPtr& info) {
     SyncLock syncLock(this);
     IndexWriterPtr indexWriter(_indexWriter);
-- 
2.43.0


From 8ade2fe1eb7f1edb35ab62d884a8ab1a69eb95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 56/63] fix: the compound doc store of segments that were
 merged away stayed behind

---
 src/core/index/IndexWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 5cf1548..a86909b 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2301,6 +2301,13 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
             checkpoint();
         }
 
+        if (docStoreIsCompoundFile) {
+            // All segments that shared this doc store can have been merged into others before it was closed
+            HashSet<String> docStoreFiles(HashSet<String>::newInstance());
+            docStoreFiles.add(docStoreSegment + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION());
+            deleter->deleteNewFiles(docStoreFiles);
+        }
+
         doAfterFlush();
     } catch (std::bad_alloc& oom) {
         finally = handleOOM(oom, L"doFlush");
-- 
2.43.0


From b28fea76c5465b9d0552b2307f27607a969b9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 57/63] fix: addIndexes built a compound file for a segment
 that was gone, and kept its files when it could not

---
 src/core/index/IndexWriter.cpp | 62 +++++++++++++++-------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index a86909b..46e42e8 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1954,49 +1954,43 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
         finally.throwException();
 
         if (boost::dynamic_pointer_cast<LogMergePolicy>(mergePolicy) && getUseCompoundFile()) {
-            HashSet<String> files;
-
-            {
-                SyncLock syncLock(this);
-                // Must incRef our files so that if another thread is running merge/optimize, it doesn't delete our
-                // segment's files before we have a change to finish making the compound file.
-                if (segmentInfos->contains(info)) {
-                    files = info->files();
-                    deleter->incRef(files);
-                }
-            }
-
-            if (files) {
-                success = false;
-
-                startTransaction(false);
+            success = false;
 
-                try {
-                    merger->createCompoundFile(mergedName + L".cfs");
+            // The transaction keeps the files of our segment from being deleted
+            startTransaction(false);
 
-                    {
-                        SyncLock syncLock(this);
-                        info->setUseCompoundFile(true);
+            try {
+                // While this waited for other transactions one of them can have merged the segment away, or put
+                // another instance of it in place on rolling back
+                bool exists = false;
+                {
+                    SyncLock syncLock(this);
+                    int32_t idx = segmentInfos->find(info);
+                    if (idx != -1) {
+                        info = segmentInfos->info(idx);
+                        exists = true;
                     }
-
-                    success = true;
-                } catch (LuceneException& e) {
-                    finally = e;
                 }
 
-                {
+                if (exists) {
+                    merger->createCompoundFile(mergedName + L".cfs");
+
                     SyncLock syncLock(this);
-                    deleter->decRef(files);
+                    info->setUseCompoundFile(true);
                 }
 
-                if (!success) {
-                    if (infoStream) {
-                        message(L"hit exception building compound file in addIndexes during merge");
-                    }
-                    rollbackTransaction();
-                } else {
-                    commitTransaction();
+                success = true;
+            } catch (LuceneException& e) {
+                finally = e;
+            }
+
+            if (!success) {
+                if (infoStream) {
+                    message(L"hit exception building compound file in addIndexes during merge");
                 }
+                rollbackTransaction();
+            } else {
+                commitTransaction();
             }
         }
     } catch (std::bad_alloc& oom) {
-- 
2.43.0


From 49e53c97a296d6675436b6b6e73224d5c43ef982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 58/63] fix: threads inside of DocumentsWriter crashed when
 another thread closed the writer

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 46e42e8..632ae91 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -742,8 +742,8 @@ void IndexWriter::closeInternal(bool waitForMerges) {
 
         {
             SyncLock syncLock(this);
+            // docWriter is kept: another thread can be inside of it, waiting to be told that the writer is closed
             readerPool->close();
-            docWriter.reset();
             deleter->close();
         }
 
-- 
2.43.0


From 38dddc270d1bfbd0705186483c79a349253c7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 59/63] fix: deleteAll of a closed writer crashed

---
 src/core/index/IndexWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 632ae91..6d2e619 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1524,6 +1524,7 @@ void IndexWriter::rollbackInternal() {
 
 void IndexWriter::deleteAll() {
     SyncLock syncLock(this);
+    ensureOpen();
     bool success = false;
     docWriter->pauseAllThreads();
     LuceneException finally;
-- 
2.43.0


From 91b5ffb8ba5baeb281d94b4aae88fdb3f9a56864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 60/63] fix: a commit that ran while another thread closed or
 rolled back returned as if it had succeeded

---
 src/core/index/IndexWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 6d2e619..b020c53 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -670,6 +670,9 @@ void IndexWriter::close() {
 }
 
 void IndexWriter::close(bool waitForMerges) {
+    // A commit that is under way finishes first: it must not return as if it had succeeded
+    SyncLock messageLock(commitLock);
+
     // Ensure that only one thread actually gets to do the closing
     if (shouldClose()) {
         // If any methods have hit std::bad_alloc, then abort on close, in case the internal state of IndexWriter
@@ -1443,6 +1446,9 @@ void IndexWriter::commitTransaction() {
 void IndexWriter::rollback() {
     ensureOpen();
 
+    // A commit that is under way finishes first: it must not return as if it had succeeded
+    SyncLock messageLock(commitLock);
+
     // Ensure that only one thread actually gets to do the closing
     if (shouldClose()) {
         rollbackInternal();
-- 
2.43.0


From 41ff32bfb3b0e352493abb04fe6b9ea7812d997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:03 +0000
Subject: [PATCH 61/63] fix: transactions and merges that began while another
 thread closed or rolled back a writer worked on

---
 src/core/index/IndexWriter.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index b020c53..5c1cb20 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -357,6 +357,14 @@ void IndexWriter::upgradeReadToWrite() {
     while (readCount > upgradeCount || writeThread != 0) {
         doWait();
     }
+
+    // we could have been closed while we were waiting
+    if (!isOpen(true)) {
+        --upgradeCount;
+        releaseRead();
+        ensureOpen();
+    }
+
     writeThread = LuceneThread::currentId();
     --readCount;
     --upgradeCount;
@@ -726,8 +734,15 @@ void IndexWriter::closeInternal(bool waitForMerges) {
 
         mergePolicy->close();
 
-        finishMerges(waitForMerges);
-        stopMerges = true;
+        // Threads that were using the writer when the close began can still register merges until this is done
+        for (bool finished = false; !finished; ) {
+            finishMerges(waitForMerges);
+            SyncLock syncLock(this);
+            if (pendingMerges.empty() && runningMerges.empty()) {
+                stopMerges = true;
+                finished = true;
+            }
+        }
 
         mergeScheduler->close();
 
@@ -769,6 +784,7 @@ void IndexWriter::closeInternal(bool waitForMerges) {
         closing = false;
         notifyAll();
         if (!closed) {
+            stopMerges = false;
             if (docWriter) {
                 docWriter->resumeAllThreads();
             }
@@ -1324,6 +1340,7 @@ void IndexWriter::startTransaction(bool haveReadLock) {
         // If a transaction is trying to roll back (because addIndexes hit an exception) then wait here until that's done
         while (stopMerges) {
             doWait();
+            ensureOpen();
         }
 
         success = true;
@@ -1465,7 +1482,12 @@ void IndexWriter::rollbackInternal() {
     docWriter->pauseAllThreads();
     LuceneException finally;
     try {
-        finishMerges(false);
+        {
+            // Threads that were using the writer when the rollback began must not start merges after this
+            SyncLock syncLock(this);
+            finishMerges(false);
+            stopMerges = true;
+        }
 
         // Must pre-close these two, in case they increment changeCount so that we can then set it to false before
         // calling closeInternal
@@ -1516,6 +1538,7 @@ void IndexWriter::rollbackInternal() {
 
         if (!success) {
             docWriter->resumeAllThreads();
+            stopMerges = false;
             closing = false;
             notifyAll();
             if (infoStream) {
-- 
2.43.0


From e931869bc23168beee19b36e361fc022d1f80ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:07 +0000
Subject: [PATCH 62/63] fix: a stored field that could not be read was silently
 dropped or read as empty, and merges made that permanent

---
 src/core/index/FieldsReader.cpp | 360 +++++---------------------------
 1 file changed, 53 insertions(+), 307 deletions(-)

diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 439b917..2c8633f 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -280,105 +280,27 @@ void FieldsReader::addField(const DocumentPtr& doc, const FieldInfoPtr& fi, bool
 
     // we have a binary stored field, and it may be compressed
     if (binary) {
-        try {
-            int32_t toRead = fieldsStream->readVInt();
-            if (toRead < 0) {
-                return;
-            }
-            
-            ByteArray b;
-            try {
-                b = ByteArray::newInstance(toRead);
-                if (!b) {
-                    return;
-                }
-                
-                fieldsStream->readBytes(b.get(), 0, b.size());
-                
-                // Create field object outside the doc->add call to allow for null checking
-                FieldPtr field;
-                if (compressed) {
-                    try {
-                        ByteArray uncompressedData = uncompress(b);
-                        if (uncompressedData && uncompressedData.size() > 0) {
-                            field = newLucene<Field>(fi->name, uncompressedData, Field::STORE_YES);
-                        }
-                    } catch (...) {
-                        // Fall through to use original data
-                    }
-                    
-                    // If decompression failed or returned null, use the original binary data
-                    if (!field) {
-                        field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                    }
-                } else {
-                    field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                }
-                
-                // Add the field to document only if field creation was successful
-                if (field && doc) {
-                    doc->add(field);
-                }
-            } catch (...) {
-                // Skip field on error
-            }
-        } catch (...) {
-            // Skip field on error
-        }
+        int32_t toRead = fieldsStream->readVInt();
+        ByteArray b(ByteArray::newInstance(toRead));
+        fieldsStream->readBytes(b.get(), 0, b.size());
+        doc->add(newLucene<Field>(fi->name, compressed ? uncompress(b) : b, Field::STORE_YES));
     } else {
         Field::Store store = Field::STORE_YES;
         Field::Index index = Field::toIndex(fi->isIndexed, tokenize);
         Field::TermVector termVector = Field::toTermVector(fi->storeTermVector, fi->storeOffsetWithTermVector, fi->storePositionWithTermVector);
 
-        try {
-            AbstractFieldPtr f;
-            
-            if (compressed) {
-                int32_t toRead = fieldsStream->readVInt();
-                if (toRead < 0) {
-                    return;
-                }
-                
-                ByteArray b;
-                try {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        return;
-                    }
-                    
-                    fieldsStream->readBytes(b.get(), 0, b.size());
-                    
-                    try {
-                        String fieldValue = uncompressString(b);
-                        if (!fieldValue.empty()) {
-                            f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                        } else {
-                            f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                        }
-                    } catch (...) {
-                        f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                    }
-                } catch (...) {
-                    return;
-                }
-            } else {
-                try {
-                    String fieldValue = fieldsStream->readString();
-                    f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                } catch (...) {
-                    f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                }
-            }
-            
-            // Set field properties and add to document only if field creation was successful
-            if (f && doc) {
-                f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
-                f->setOmitNorms(fi->omitNorms);
-                doc->add(f);
-            }
-        } catch (...) {
-            // Skip field on error
+        AbstractFieldPtr f;
+        if (compressed) {
+            int32_t toRead = fieldsStream->readVInt();
+            ByteArray b(ByteArray::newInstance(toRead));
+            fieldsStream->readBytes(b.get(), 0, b.size());
+            f = newLucene<Field>(fi->name, uncompressString(b), store, index, termVector);
+        } else {
+            f = newLucene<Field>(fi->name, fieldsStream->readString(), store, index, termVector);
         }
+        f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
+        f->setOmitNorms(fi->omitNorms);
+        doc->add(f);
     }
 }
 
@@ -395,47 +317,21 @@ int32_t FieldsReader::addFieldSize(const DocumentPtr& doc, const FieldInfoPtr& f
 }
 
 ByteArray FieldsReader::uncompress(ByteArray b) {
-    if (!b) {
-        return ByteArray::newInstance(0);
-    }
-    
     try {
-        if (b.size() == 0) {
-            return ByteArray::newInstance(0);
-        }
-        
-        ByteArray result = CompressionTools::decompress(b);
-        if (!result) {
-            return ByteArray::newInstance(0);
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty array on any exception
-        return ByteArray::newInstance(0);
+        return CompressionTools::decompress(b);
+    } catch (LuceneException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format [" + e.getError() + L"]"));
     }
+    return ByteArray();
 }
 
 String FieldsReader::uncompressString(ByteArray b) {
-    if (!b) {
-        return L"";
-    }
-    
     try {
-        if (b.size() == 0) {
-            return L"";
-        }
-        
-        String result = CompressionTools::decompressString(b);
-        if (result.empty()) {
-            return L"";
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty string on any exception
-        return L"";
+        return CompressionTools::decompressString(b);
+    } catch (LuceneException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format [" + e.getError() + L"]"));
     }
+    return L"";
 }
 
 LazyField::LazyField(const FieldsReaderPtr& reader, const String& name, Field::Store store, int32_t toRead, int64_t pointer, bool isBinary, bool isCompressed) :
@@ -490,114 +386,37 @@ TokenStreamPtr LazyField::tokenStreamValue() {
 String LazyField::stringValue() {
     FieldsReaderPtr reader(_reader);
     if (!reader) {
-        return L"";
-    }
-    
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return L"";
+        boost::throw_exception(AlreadyClosedException(L"this FieldsReader is closed"));
     }
-    
+    reader->ensureOpen();
     if (_isBinary) {
         return L"";
     } else {
         if (VariantUtils::isNull(fieldsData)) {
-            IndexInputPtr localFieldsStream;
-            try {
-                localFieldsStream = getFieldStream();
-                if (!localFieldsStream) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-                return L"";
-            }
-            
+            IndexInputPtr localFieldsStream(getFieldStream());
             try {
                 localFieldsStream->seek(pointer);
-                
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-                
                 if (isCompressed) {
-                    try {
-                        ByteArray b(ByteArray::newInstance(toRead));
-                        if (!b) {
-                            fieldsData = String(L"");
-                            return L"";
-                        }
-                        
-                        localFieldsStream->readBytes(b.get(), 0, b.size());
-                        try {
-                            fieldsData = reader->uncompressString(b);
-                            if (VariantUtils::isNull(fieldsData)) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } catch (...) {
-                        fieldsData = String(L"");
-                    }
+                    ByteArray b(ByteArray::newInstance(toRead));
+                    localFieldsStream->readBytes(b.get(), 0, b.size());
+                    fieldsData = reader->uncompressString(b);
                 } else {
                     if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
-                        try {
-                            ByteArray bytes(ByteArray::newInstance(toRead));
-                            if (!bytes) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            localFieldsStream->readBytes(bytes.get(), 0, toRead);
-                            try {
-                                fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
+                        ByteArray bytes(ByteArray::newInstance(toRead));
+                        localFieldsStream->readBytes(bytes.get(), 0, toRead);
+                        fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
                     } else {
-                        try {
-                            // read in chars because we already know the length we need to read
-                            CharArray chars(CharArray::newInstance(toRead));
-                            if (!chars) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
-                            try {
-                                fieldsData = String(chars.get(), length);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
+                        // read in chars because we already know the length we need to read
+                        CharArray chars(CharArray::newInstance(toRead));
+                        int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
+                        fieldsData = String(chars.get(), length);
                     }
                 }
-            } catch (...) {
-                fieldsData = String(L"");
+            } catch (IOException& e) {
+                boost::throw_exception(FieldReaderException(e.getError()));
             }
         }
-        
-        try {
-            return VariantUtils::get<String>(fieldsData);
-        } catch (...) {
-            return L"";
-        }
+        return VariantUtils::get<String>(fieldsData);
     }
 }
 
@@ -624,101 +443,28 @@ void LazyField::setToRead(int32_t toRead) {
 ByteArray LazyField::getBinaryValue(ByteArray result) {
     FieldsReaderPtr reader(_reader);
     if (!reader) {
-        return ByteArray();
-    }
-
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return ByteArray();
+        boost::throw_exception(AlreadyClosedException(L"this FieldsReader is closed"));
     }
-
+    reader->ensureOpen();
     if (_isBinary) {
         if (VariantUtils::isNull(fieldsData)) {
-            ByteArray b;
+            // Allocate new buffer if result is null or too small
+            ByteArray b(result && result.size() >= toRead ? result : ByteArray::newInstance(toRead));
 
-            try {
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-                
-                // Allocate new buffer if result is null or too small
-                if (!result || result.size() < toRead) {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } else {
-                    b = result;
-                }
+            IndexInputPtr localFieldsStream(getFieldStream());
 
-                IndexInputPtr localFieldsStream;
-                try {
-                    localFieldsStream = getFieldStream();
-                    if (!localFieldsStream) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                try {
-                    localFieldsStream->seek(pointer);
-                    localFieldsStream->readBytes(b.get(), 0, toRead);
-                    if (isCompressed) {
-                        try {
-                            ByteArray uncompressed = reader->uncompress(b);
-                            if (uncompressed && uncompressed.size() > 0) {
-                                fieldsData = uncompressed;
-                            } else {
-                                fieldsData = b;
-                            }
-                        } catch (...) {
-                            fieldsData = b;
-                        }
-                    } else {
-                        fieldsData = b;
-                    }
-                } catch (IOException&) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                binaryOffset = 0;
-                binaryLength = toRead;
-            } catch (...) {
-                fieldsData = ByteArray();
-                binaryOffset = 0;
-                binaryLength = 0;
-                return ByteArray();
+            try {
+                localFieldsStream->seek(pointer);
+                localFieldsStream->readBytes(b.get(), 0, toRead);
+                fieldsData = isCompressed ? reader->uncompress(b) : b;
+            } catch (IOException& e) {
+                boost::throw_exception(FieldReaderException(e.getError()));
             }
-        }
 
-        try {
-            return VariantUtils::get<ByteArray>(fieldsData);
-        } catch (...) {
-            return ByteArray();
+            binaryOffset = 0;
+            binaryLength = toRead;
         }
+        return VariantUtils::get<ByteArray>(fieldsData);
     } else {
         return ByteArray();
     }
-- 
2.43.0


From 5e9fe44d24208c7511114002eef28f612d36363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:07 +0000
Subject: [PATCH 63/63] fix: a failed read of the term dictionary left the
 cached enumerator half advanced, and later lookups led to other documents

---
 src/core/index/SegmentTermEnum.cpp | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/core/index/SegmentTermEnum.cpp b/src/core/index/SegmentTermEnum.cpp
index 2a157b4..a8f5ade 100644
--- a/src/core/index/SegmentTermEnum.cpp
+++ b/src/core/index/SegmentTermEnum.cpp
@@ -140,24 +140,31 @@ bool SegmentTermEnum::next() {
     }
 
     prevBuffer->set(termBuffer);
-    termBuffer->read(input, fieldInfos);
+    try {
+        termBuffer->read(input, fieldInfos);
 
-    _termInfo->docFreq = input->readVInt(); // read doc freq
-    _termInfo->freqPointer += input->readVLong(); // read freq pointer
-    _termInfo->proxPointer += input->readVLong(); // read prox pointer
+        _termInfo->docFreq = input->readVInt(); // read doc freq
+        _termInfo->freqPointer += input->readVLong(); // read freq pointer
+        _termInfo->proxPointer += input->readVLong(); // read prox pointer
 
-    if (format == -1) {
-        // just read skipOffset in order to increment file pointer; value is never used
-        // since skipTo is switched off
-        if (!isIndex && _termInfo->docFreq > formatM1SkipInterval) {
+        if (format == -1) {
+            // just read skipOffset in order to increment file pointer; value is never used
+            // since skipTo is switched off
+            if (!isIndex && _termInfo->docFreq > formatM1SkipInterval) {
+                _termInfo->skipOffset = input->readVInt();
+            }
+        } else if (_termInfo->docFreq >= skipInterval) {
             _termInfo->skipOffset = input->readVInt();
         }
-    } else if (_termInfo->docFreq >= skipInterval) {
-        _termInfo->skipOffset = input->readVInt();
-    }
 
-    if (isIndex) {
-        indexPointer += input->readVLong();    // read index pointer
+        if (isIndex) {
+            indexPointer += input->readVLong();    // read index pointer
+        }
+    } catch (...) {
+        // the term may be read and its info not: nobody may go on from here without seeking
+        termBuffer->reset();
+        prevBuffer->reset();
+        throw;
     }
 
     return true;
-- 
2.43.0

