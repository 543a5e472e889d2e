From d9c939d5b0cc072a7680f6dc951d99e28f98eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 01/51] fix: report the failure to write an entry or a head
 into the persistence file

---
 blocks/persistence/file.h | 60 +++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..762cf74 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -171,17 +171,38 @@ class FilePersister {
     FilePersisterImpl(std::mutex& publish_mutex_ref,
                       const ss::StreamNamespaceName& namespace_name,
                       const std::string& filename)
-        : filename_(filename),
-          file_appender_(filename, std::ofstream::app | std::ofstream::ate),
-          head_rewriter_(filename, std::ofstream::in | std::ofstream::out),
-          publish_mutex_ref_(publish_mutex_ref),
-          head_offset_(0) {
+        : filename_(filename), publish_mutex_ref_(publish_mutex_ref), head_offset_(0) {
+      // Not buffered, as what could not be written must not be re-attempted behind the scenes later on.
+      file_appender_.rdbuf()->pubsetbuf(nullptr, 0);
+      head_rewriter_.rdbuf()->pubsetbuf(nullptr, 0);
+      file_appender_.open(filename, std::ofstream::app | std::ofstream::ate);
+      head_rewriter_.open(filename, std::ofstream::in | std::ofstream::out);
       ValidateFileAndInitializeHead(namespace_name);
       if (file_appender_.bad() || head_rewriter_.bad()) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
     }
 
+    // Appends one line to the file, returns the offset at which it begins.
+    // Throws if the line could not be written. Once this has happened, no further writes are accepted,
+    // as the last line of the file may now be incomplete.
+    std::streampos AppendLine(const std::string& line) {
+      const std::string line_with_newline = line + '\n';
+      const std::streampos offset = file_appender_.tellp();
+      if (!file_appender_.write(line_with_newline.data(), line_with_newline.length()).flush()) {
+        CURRENT_THROW(PersistenceFileNotWritable(filename_));
+      }
+      return offset;
+    }
+
+    // Updates the head in the very last line of the file, where it is a "head" directive. Throws same as the above.
+    void RewriteHead(const std::string& head) {
+      if (!file_appender_ || !head_rewriter_.seekp(head_offset_, std::ios_base::beg) ||
+          !head_rewriter_.write(head.data(), head.length()).flush()) {
+        CURRENT_THROW(PersistenceFileNotWritable(filename_));
+      }
+    }
+
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
     void ValidateFileAndInitializeHead(const ss::StreamNamespaceName& namespace_name) {
       std::ifstream fi(filename_);
@@ -247,7 +268,7 @@ class FilePersister {
         end_.store({next.index, next.us - std::chrono::microseconds(1), head});
         // Append the signature if there is neither entries nor directives in the file.
         if (!current_offset) {
-          file_appender_ << constants::kSignatureDirective << ' ' << signature << std::endl;
+          AppendLine(std::string(constants::kSignatureDirective) + ' ' + signature);
         }
       } else {
         end_.store({0ull, std::chrono::microseconds(-1), std::chrono::microseconds(-1)});
@@ -453,15 +474,14 @@ class FilePersister {
     const auto idxts = idxts_t(iterator.next_index, iterator.last_entry_us);
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == iterator.next_index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == iterator.next_index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
-    file_persister_impl_->record_timestamp_.push_back(timestamp);
 
     // Explicit `MakeSureTheRightTypeIsSerialized` is essential, otherwise the `Variant`'s case
     // would be serialized in an unwrapped way when passed directly.
-    file_persister_impl_->file_appender_ << JSON(idxts) << '\t'
-                                         << JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(
-                                                std::forward<E>(entry)))
-                                         << std::endl;
+    const auto offset = file_persister_impl_->AppendLine(
+        JSON(idxts) + '\t' +
+        JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(std::forward<E>(entry))));
+    file_persister_impl_->record_offset_.push_back(offset);
+    file_persister_impl_->record_timestamp_.push_back(timestamp);
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -489,10 +509,9 @@ class FilePersister {
     iterator.last_entry_us = iterator.head = idxts.us;
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == idxts.index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == idxts.index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    const auto offset = file_persister_impl_->AppendLine(raw_log_line);
+    file_persister_impl_->record_offset_.push_back(offset);
     file_persister_impl_->record_timestamp_.push_back(idxts.us);
-
-    file_persister_impl_->file_appender_ << raw_log_line << std::endl;
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -512,14 +531,11 @@ class FilePersister {
     iterator.head = timestamp;
     const auto head_str = Printf(constants::kHeadFormatString, static_cast<long long>(timestamp.count()));
     if (file_persister_impl_->head_offset_) {
-      auto& rewriter = file_persister_impl_->head_rewriter_;
-      rewriter.seekp(file_persister_impl_->head_offset_, std::ios_base::beg);
-      rewriter << head_str << std::endl;
+      file_persister_impl_->RewriteHead(head_str);
     } else {
-      auto& file_appender_ = file_persister_impl_->file_appender_;
-      file_appender_ << constants::kHeadDirective << ' ';
-      file_persister_impl_->head_offset_ = file_appender_.tellp();
-      file_appender_ << head_str << std::endl;
+      const std::string prefix = std::string(constants::kHeadDirective) + ' ';
+      const auto offset = file_persister_impl_->AppendLine(prefix + head_str);
+      file_persister_impl_->head_offset_ = offset + static_cast<std::streamoff>(prefix.length());
     }
     file_persister_impl_->end_.store(iterator);
   }
-- 
2.43.0


From 15d29e0e5040396645b3060a2a6a5c21cb8b103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 02/51] fix: do not mistake a persistence file which can not be
 opened or read for an empty one

---
 blocks/persistence/exceptions.h |  5 +++++
 blocks/persistence/file.h       | 13 +++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/blocks/persistence/exceptions.h b/blocks/persistence/exceptions.h
index d27d3a5..d87bf07 100644
--- a/blocks/persistence/exceptions.h
+++ b/blocks/persistence/exceptions.h
@@ -64,6 +64,11 @@ struct PersistenceFileNotWritable : PersistenceException {
       : PersistenceException("Persistence file not writable: `" + filename + "`.") {}
 };
 
+struct PersistenceFileNotReadable : PersistenceException {
+  explicit PersistenceFileNotReadable(const std::string& filename)
+      : PersistenceException("Persistence file not readable: `" + filename + "`.") {}
+};
+
 struct UnsafePublishBadIndexTimestampException : PersistenceException {
   explicit UnsafePublishBadIndexTimestampException(uint64_t expected, uint64_t found)
       : PersistenceException(current::strings::Printf(
diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 762cf74..8b0360a 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -177,10 +177,10 @@ class FilePersister {
       head_rewriter_.rdbuf()->pubsetbuf(nullptr, 0);
       file_appender_.open(filename, std::ofstream::app | std::ofstream::ate);
       head_rewriter_.open(filename, std::ofstream::in | std::ofstream::out);
-      ValidateFileAndInitializeHead(namespace_name);
-      if (file_appender_.bad() || head_rewriter_.bad()) {
+      if (!file_appender_ || !head_rewriter_) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
+      ValidateFileAndInitializeHead(namespace_name);
     }
 
     // Appends one line to the file, returns the offset at which it begins.
@@ -206,7 +206,7 @@ class FilePersister {
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
     void ValidateFileAndInitializeHead(const ss::StreamNamespaceName& namespace_name) {
       std::ifstream fi(filename_);
-      if (!fi.bad()) {
+      if (fi.is_open()) {
         // Read through all the lines.
         // Let `IteratorOverFileOfPersistedEntries` maintain its own `next_`, which later becomes `this->end_`.
         // While reading the file, record the offset of each record and store it in `record_offset_`.
@@ -262,6 +262,10 @@ class FilePersister {
             })) {
           ;
         }
+        if (fi.bad()) {
+          // Do not mistake a read error for the end of the file, as the entries past it would then be published over.
+          CURRENT_THROW(PersistenceFileNotReadable(filename_));
+        }
         const auto& next = cit.Next();
         // The `next.us` stores the closest possible next entry timestamp,
         // so the last processed entry timestamp is always 1us less.
@@ -271,7 +275,8 @@ class FilePersister {
           AppendLine(std::string(constants::kSignatureDirective) + ' ' + signature);
         }
       } else {
-        end_.store({0ull, std::chrono::microseconds(-1), std::chrono::microseconds(-1)});
+        // The file does exist by now, as `file_appender_` has been opened successfully.
+        CURRENT_THROW(PersistenceFileNotReadable(filename_));
       }
     }
   };
-- 
2.43.0


From 3f6446ce3dce15ec915f06c259fb696464e27180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 03/51] fix: drop the incomplete last line of a persistence
 file on startup

---
 blocks/persistence/file.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 8b0360a..cee4ff8 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -31,7 +31,9 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_FILE_H
 #define BLOCKS_PERSISTENCE_FILE_H
 
+#include <algorithm>
 #include <atomic>
+#include <filesystem>
 #include <fstream>
 #include <functional>
 
@@ -172,6 +174,7 @@ class FilePersister {
                       const ss::StreamNamespaceName& namespace_name,
                       const std::string& filename)
         : filename_(filename), publish_mutex_ref_(publish_mutex_ref), head_offset_(0) {
+      DropIncompleteLastLine(filename);
       // Not buffered, as what could not be written must not be re-attempted behind the scenes later on.
       file_appender_.rdbuf()->pubsetbuf(nullptr, 0);
       head_rewriter_.rdbuf()->pubsetbuf(nullptr, 0);
@@ -183,6 +186,40 @@ class FilePersister {
       ValidateFileAndInitializeHead(namespace_name);
     }
 
+    // An entry is published once its line, together with the trailing newline, is in the file. If the process has died,
+    // or the disk has failed, half way through, what is there of that last line must go, as otherwise it would be taken
+    // for an entry, and the next published entry would become the continuation of it.
+    static void DropIncompleteLastLine(const std::string& filename) {
+      std::ifstream fi(filename, std::ifstream::binary | std::ifstream::ate);
+      if (!fi.is_open()) {
+        return;  // No file yet. If there is one, but it can not be opened, `ValidateFileAndInitializeHead()` will throw.
+      }
+      const std::streamoff size = fi.tellg();
+      std::streamoff good_size = size;
+      std::string block;
+      while (good_size > 0) {
+        const std::streamoff block_begin = std::max(static_cast<std::streamoff>(0), good_size - 4096);
+        block.resize(static_cast<size_t>(good_size - block_begin));
+        if (!fi.seekg(block_begin, std::ios_base::beg) || !fi.read(&block[0], block.size())) {
+          CURRENT_THROW(PersistenceFileNotReadable(filename));
+        }
+        const size_t newline_pos = block.rfind('\n');
+        if (newline_pos != std::string::npos) {
+          good_size = block_begin + static_cast<std::streamoff>(newline_pos) + 1;
+          break;
+        }
+        good_size = block_begin;
+      }
+      if (good_size != size) {
+        fi.close();
+        std::error_code error;
+        std::filesystem::resize_file(filename, static_cast<uintmax_t>(good_size), error);
+        if (error) {
+          CURRENT_THROW(PersistenceFileNotWritable(filename));
+        }
+      }
+    }
+
     // Appends one line to the file, returns the offset at which it begins.
     // Throws if the line could not be written. Once this has happened, no further writes are accepted,
     // as the last line of the file may now be incomplete.
-- 
2.43.0


From 56898f17519c9dbeabd9f987c82536d1559a84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 04/51] fix: do not return the entries past the end of the time
 range being iterated over

---
 blocks/persistence/file.h   | 8 +++++++-
 blocks/persistence/memory.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index cee4ff8..23b0935 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -701,9 +701,15 @@ class FilePersister {
       CURRENT_THROW(InvalidIterableRangeException());
     }
 
+    // If no entries past `till` exist yet, they may well have been published by the time the range is constructed,
+    // so the size to use is the one from before the timestamps were looked at.
+    const uint64_t current_size = file_persister_impl_->end_.load().next_index;
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
     if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first,
+                                                 index_range.second != static_cast<uint64_t>(-1)
+                                                     ? index_range.second
+                                                     : std::max(index_range.first, current_size));
     } else {  // No entries found in the requested range.
       return ITERABLE(file_persister_impl_, 0, 0, 0);
     }
diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..edf99d0 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -322,9 +322,15 @@ class MemoryPersister {
     if (till.count() > 0 && till < from) {
       CURRENT_THROW(InvalidIterableRangeException());
     }
+    // If no entries past `till` exist yet, they may well have been published by the time the range is constructed,
+    // so the size to use is the one from before the timestamps were looked at.
+    const uint64_t current_size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
     if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first,
+                                                 index_range.second != static_cast<uint64_t>(-1)
+                                                     ? index_range.second
+                                                     : std::max(index_range.first, current_size));
     } else {  // No entries found in the given range.
       return ITERABLE(container_, 0, 0);
     }
-- 
2.43.0


From edd5097b8d0b7e8f0bc42cc2b06b3072bb4552d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 05/51] fix: keep reporting the last line of a persistence file
 as malformed if it is not merely incomplete

---
 blocks/persistence/file.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 23b0935..64b3463 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -188,7 +188,8 @@ class FilePersister {
 
     // An entry is published once its line, together with the trailing newline, is in the file. If the process has died,
     // or the disk has failed, half way through, what is there of that last line must go, as otherwise it would be taken
-    // for an entry, and the next published entry would become the continuation of it.
+    // for an entry, and the next published entry would become the continuation of it. What could not have been written
+    // by the persister, on the other hand, is kept, to be reported as malformed.
     static void DropIncompleteLastLine(const std::string& filename) {
       std::ifstream fi(filename, std::ifstream::binary | std::ifstream::ate);
       if (!fi.is_open()) {
@@ -210,7 +211,11 @@ class FilePersister {
         }
         good_size = block_begin;
       }
-      if (good_size != size) {
+      char first_char = '\0';
+      if (good_size != size && (!fi.seekg(good_size, std::ios_base::beg) || !fi.get(first_char))) {
+        CURRENT_THROW(PersistenceFileNotReadable(filename));
+      }
+      if (first_char == constants::kDirectiveMarker || first_char == '{') {
         fi.close();
         std::error_code error;
         std::filesystem::resize_file(filename, static_cast<uintmax_t>(good_size), error);
-- 
2.43.0


From aad867f4513241453ee51124bdad36d2197052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 06/51] fix: do not access the offsets of the entries without a
 lock when iterating over a persistence file as raw lines

---
 blocks/persistence/file.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 64b3463..304f08a 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -413,8 +413,8 @@ class FilePersister {
                    const std::string& filename,
                    uint64_t i,
                    std::streampos offset,
-                   uint64_t)
-        : file_persister_impl_(std::move(file_persister_impl)), i_(i), current_offset_(offset) {
+                   uint64_t index_at_offset)
+        : file_persister_impl_(std::move(file_persister_impl)), i_(i), next_index_(index_at_offset) {
       if (!filename.empty()) {
         fi_ = std::make_unique<std::ifstream>(filename);
         CURRENT_ASSERT(!fi_->bad());
@@ -426,26 +426,22 @@ class FilePersister {
 
     // `operator*` relies on the fact each entry will be requested at most once.
     // The range-based for-loop works fine. -- D.K.
+    // The file is read sequentially, as `record_offset_` is not to be accessed without locking the publish mutex.
     std::string operator*() const {
-      if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
-        if (offset != current_offset_) {
-          fi_->seekg(offset, std::ios_base::beg);
-          current_offset_ = offset;
-        }
-        if (std::getline(*fi_, current_entry_)) {
-          CURRENT_ASSERT(current_entry_[0] != constants::kDirectiveMarker);
-        } else {
+      while (next_index_ <= i_) {
+        if (!std::getline(*fi_, current_entry_)) {
           // End of file. Should never happen as long as the user only iterates over valid ranges.
           CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
         }
+        if (!current_entry_.empty() && current_entry_[0] != constants::kDirectiveMarker) {
+          ++next_index_;
+        }
       }
       return current_entry_;
     }
 
     IteratorUnsafe& operator++() {
       ++i_;
-      current_entry_.clear();
       return *this;
     }
     bool operator==(const IteratorUnsafe& rhs) const { return i_ == rhs.i_; }
@@ -458,7 +454,7 @@ class FilePersister {
     std::unique_ptr<std::ifstream> fi_;
     uint64_t i_;
     mutable std::string current_entry_;
-    mutable std::streampos current_offset_;
+    mutable uint64_t next_index_;  // The index of the entry to be read from the file next.
   };
 
   template <typename ITERATOR>
-- 
2.43.0


From 366289ab6fab61f79f464f03ad79c82881c4762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 07/51] fix: lock the mutex of the in-memory persister even if
 the publish mutex is locked already

---
 blocks/persistence/memory.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index edf99d0..fa10154 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -33,6 +33,7 @@ SOFTWARE.
 // that's what `FilePersister` does. The `MemoryPersister` one is just for safe unit-testing;
 // its primary goal is to help find issues unrelated to the persister itself. Thus,
 // rather than making it mutex-efficient, I'd rather make it mutex-bulletproof.
+// For the same reason `MutexLockStatus`, which is about the publish mutex, does not affect locking this dedicated one.
 
 #ifndef BLOCKS_PERSISTENCE_MEMORY_H
 #define BLOCKS_PERSISTENCE_MEMORY_H
@@ -153,7 +154,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -168,7 +169,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -190,7 +191,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -202,19 +203,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -225,7 +226,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -236,14 +237,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -293,7 +294,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From 577b6297a798871e07a07e5dbb6909c77c970350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 08/51] fix: do not touch the owned object once its last
 borrower has been unregistered

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..9d6ac22 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
+      // Must notify with the mutex locked, as once it is unlocked `*this` may well be destructed at any moment.
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From d1d29ace0df35225705a5fb0eed3f89f704c6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 09/51] fix: release the previously borrowed object when
 another one is moved into its borrower

---
 bricks/sync/owned_borrowed.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 9d6ac22..3bd874e 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -401,7 +401,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();  // Release what has been borrowed before.
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
-- 
2.43.0


From 5706c747eb00c7c952356f97bb92fe3ff58546c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 10/51] fix: keep the borrower alive while its destruction
 callback is being called

---
 bricks/sync/owned_borrowed.h | 85 ++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 3bd874e..b107861 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -52,6 +52,7 @@ SOFTWARE.
 
 #include "../../port.h"
 
+#include <algorithm>
 #include <atomic>
 #include <condition_variable>
 #include <functional>
@@ -59,7 +60,7 @@ SOFTWARE.
 #include <map>
 #include <memory>
 #include <mutex>
-#include <vector>
+#include <thread>
 
 #include "../exception.h"
 
@@ -92,61 +93,91 @@ struct UniqueInstance final {
     // Mark the instance of the object as being destructed.
     destructing_ = true;
 
-    // Collect all the "destructing" callbacks to call.
-    std::vector<std::function<void()>> callbacks_to_call;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      for (const auto& cit : borrowers_) {
-        callbacks_to_call.push_back(cit.second);
+    std::unique_lock<std::mutex> lock(mutex_);
+    destructing_thread_id_ = std::this_thread::get_id();
+
+    // Call all the "destructing" callbacks, and wait until all the borrowers have terminated.
+    while (!borrowers_.empty()) {
+      const auto it = std::find_if(borrowers_.begin(), borrowers_.end(), [](const typename borrowers_t::value_type& e) {
+        return !e.second.callback_called;
+      });
+      if (it != borrowers_.end()) {
+        // The callback should be called with the mutex unlocked, while the borrower should stay alive until it returns.
+        const std::function<void()> callback = it->second.destruction_callback;
+        it->second.callback_called = true;
+        callback_in_progress_key_ = it->first;
+        lock.unlock();
+        callback();
+        lock.lock();
+        callback_in_progress_key_ = 0u;
+        condition_variable_.notify_all();
+      } else {
+        condition_variable_.wait(lock);
       }
     }
-
-    // Call all the "destructing" callbacks.
-    for (auto& f : callbacks_to_call) {
-      f();
-    }
-
-    // Wait until all the borrowers have terminated.
-    {
-      std::unique_lock<std::mutex> lock(mutex_);
-      condition_variable_.wait(lock, [this]() { return borrowers_.empty(); });
-    }
   }
 
   // Register ("increase the ref-count") a newly spawned borrower, along with its termination signal callback.
   // Must be called from within a mutex-locked section.
   size_t RegisterBorrowerFromLockedSection(std::function<void()> destruction_callback) {
-    borrowers_[++total_borrowers_spawned_throughout_lifetime_] = destruction_callback;
+    borrowers_[++total_borrowers_spawned_throughout_lifetime_] = Borrower{std::move(destruction_callback), false};
+    if (destructing_) {
+      condition_variable_.notify_all();
+    }
     return total_borrowers_spawned_throughout_lifetime_;
   }
 
-  void UpdateBorrowersCallbackFromLockedSection(size_t key, std::function<void()> destruction_callback) {
-    borrowers_[key] = destruction_callback;
+  // Replaces the borrower, along with its callback. Waits for the old callback to return if it is being called.
+  void UpdateBorrowersCallback(std::unique_lock<std::mutex>& lock,
+                               size_t key,
+                               std::function<void()> destruction_callback) {
+    WaitForCallbackInProgress(lock, key);
+    borrowers_[key] = Borrower{std::move(destruction_callback), false};
+    if (destructing_) {
+      condition_variable_.notify_all();
+    }
   }
 
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
+  // If the callback of this borrower is being called from another thread, waits for it to return.
   void UnRegisterBorrower(size_t borrower_index) {
-    std::lock_guard<std::mutex> lock(mutex_);
+    std::unique_lock<std::mutex> lock(mutex_);
+    WaitForCallbackInProgress(lock, borrower_index);
     auto it = borrowers_.find(borrower_index);
     CURRENT_ASSERT(it != borrowers_.end());
     borrowers_.erase(it);
     if (borrowers_.empty()) {
       // Must notify with the mutex locked, as once it is unlocked `*this` may well be destructed at any moment.
-      condition_variable_.notify_one();
+      condition_variable_.notify_all();
     }
   }
 
+  void WaitForCallbackInProgress(std::unique_lock<std::mutex>& lock, size_t key) {
+    // The callback itself is free to release its borrower.
+    condition_variable_.wait(lock, [this, key]() {
+      return callback_in_progress_key_ != key || destructing_thread_id_ == std::this_thread::get_id();
+    });
+  }
+
   UniqueInstance(const UniqueInstance&) = delete;
   UniqueInstance(UniqueInstance&&) = delete;
   UniqueInstance& operator=(const UniqueInstance&) = delete;
   UniqueInstance& operator=(UniqueInstance&&) = delete;
 
+  struct Borrower {
+    std::function<void()> destruction_callback;  // The termination signal callback.
+    bool callback_called;                        // Whether the above callback has been called, or is being called.
+  };
+  using borrowers_t = std::map<size_t, Borrower>;
+
   std::atomic_bool destructing_;                        // Whether it already is in the "destructing" mode.
   T instance_;                                          // The actual instance.
   std::mutex mutex_;                                    // The mutex to guard per-borrower info.
-  std::condition_variable condition_variable_;          // The variable to notify as all the borrowers are gone.
-  std::map<size_t, std::function<void()>> borrowers_;   // Map of live borrower -> termination signal callback.
+  std::condition_variable condition_variable_;          // The variable to notify as the per-borrower info changes.
+  borrowers_t borrowers_;                               // Map of live borrowers.
+  size_t callback_in_progress_key_ = 0u;                // The borrower the callback of which is being called, if any.
+  std::thread::id destructing_thread_id_;               // The thread the callbacks are called from.
   size_t total_borrowers_spawned_throughout_lifetime_;  // A pre-increment of this value is the key in the above map.
 };
 
@@ -190,10 +221,10 @@ class WeakBorrowed {
   }
 
   void MoveFrom(WeakBorrowed&& rhs, std::function<void()> destruction_callback) {
-    std::lock_guard<std::mutex> lock(rhs.p_actual_instance_->mutex_);
+    std::unique_lock<std::mutex> lock(rhs.p_actual_instance_->mutex_);
     p_actual_instance_ = rhs.p_actual_instance_;
     key_ = rhs.key_;
-    p_actual_instance_->UpdateBorrowersCallbackFromLockedSection(key_, destruction_callback);
+    p_actual_instance_->UpdateBorrowersCallback(lock, key_, destruction_callback);
     rhs.key_ = 0u;  // Must mark the passed in xvalue of `WeakBorrowed<>` as abandoned.
     rhs.p_actual_instance_ = nullptr;
   }
-- 
2.43.0


From a12419ba5c8c8225a31db1528e810407d54ed2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 11/51] fix: do not hold the publishing mutex while waiting for
 the publishers of the stream to be released

---
 storage/persister/stream.h |  5 +++--
 stream/stream.h            | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..5f24240 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -164,9 +164,10 @@ class StreamStreamPersisterImpl final {
       CURRENT_THROW(StorageIsAlreadyMasterException());
     } else {
       TerminateStreamSubscriptionFromLockedSection();
+      // Should be done while the publishing mutex is not locked, as the present publishers may need it to finish first.
+      Borrowed<typename stream_t::publisher_t> publisher = stream_->BecomeFollowingStream();
       std::lock_guard<std::mutex> lock(stream_publishing_mutex_ref_);
-      publisher_used_ = nullptr;
-      publisher_used_ = stream_->template BecomeFollowingStream<current::locks::MutexLockStatus::AlreadyLocked>();
+      publisher_used_ = std::move(publisher);
       const uint64_t save_replay_index = subscriber_instance_->next_replay_index_;
       subscriber_instance_ = nullptr;
       SyncReplayStreamFromLockedSectionOrConstructor(save_replay_index);
diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..cb68436 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -154,6 +154,9 @@ class Stream final {
   // DIMA Optional<BorrowedOfGuaranteedLifetime<publisher_t>> borrowable_publisher_;
   Optional<Borrowed<publisher_t>> borrowable_publisher_;
 
+  // To have the publisher recreated from one thread at a time. To be locked before the publishing mutex.
+  std::mutex recreate_publisher_mutex_;
+
  public:
   // "Constructors" and the destructor.
   template <typename... ARGS>
@@ -196,6 +199,21 @@ class Stream final {
         owned_publisher_(MakeOwned<publisher_t>(impl_)),
         borrowable_publisher_(Value(owned_publisher_)) {}
 
+  // Invalidates all external publishers to this stream, and waits for them to be released. This waiting should happen
+  // while the publishing mutex is not locked, as the borrowers of the publisher need it to complete their publishing.
+  template <current::locks::MutexLockStatus MLS>
+  void InvalidatePublisher() {
+    if constexpr (MLS == current::locks::MutexLockStatus::NeedToLock) {
+      Optional<Owned<publisher_t>> invalidated_publisher;
+      {
+        std::lock_guard<std::mutex> lock(impl_->publishing_mutex);
+        borrowable_publisher_ = nullptr;
+        invalidated_publisher = std::move(owned_publisher_);
+        owned_publisher_ = nullptr;
+      }
+    }
+  }
+
   // `RecreatePublisher` invalidates all external publishers to this stream and creates a fresh new publisher,
   // which then can be stored in the stream (Master mode) or given out of it (Following mode).
   // NOTE: The call to `RecreatePublisher` will wait indefinitely if external publishers are not giving up.
@@ -248,6 +266,8 @@ class Stream final {
   // NOTE: The call to `BecomeMasterStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   void BecomeMasterStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_publisher_lock(recreate_publisher_mutex_);
+    InvalidatePublisher<MLS>();
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
     borrowable_publisher_ = RecreatePublisher();
   }
@@ -259,6 +279,8 @@ class Stream final {
   // NOTE: The call to `BecomeFollowingStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   Borrowed<publisher_t> BecomeFollowingStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_publisher_lock(recreate_publisher_mutex_);
+    InvalidatePublisher<MLS>();
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
     return RecreatePublisher();
   }
-- 
2.43.0


From dacc10188712730a563a3a134f1d1b33a8e6641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 12/51] fix: publish the messages of the MMQ in order and
 deliver all of them prior to its destruction

The timestamp was taken, and validated, before waiting for a free slot, the timestamps the publishers
returned were read from slots which could have been reused, and the destructor dropped the queued messages.
---
 blocks/mmq/mmq.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..5533d8d 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the slot may well be exported and reused, so its contents should be saved prior to that.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the slot may well be exported and reused, so its contents should be saved prior to that.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
@@ -144,8 +148,8 @@ class MMQImpl {
         std::unique_lock<std::mutex> lock(mutex_);
         condition_variable_.wait(
             lock, [this, tail] { return (circular_buffer_[tail].status == Entry::READY) || destructing_; });
-        if (destructing_) {
-          return;  // LCOV_EXCL_LINE
+        if (circular_buffer_[tail].status != Entry::READY) {
+          return;  // Destructing, and all the queued messages have been processed. LCOV_EXCL_LINE
         }
         circular_buffer_[tail].status = Entry::BEING_EXPORTED;
         save_last_idx_ts = last_idx_ts_;
@@ -212,10 +216,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -224,9 +224,16 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // Other messages could have been published while waiting, so obtain and/or validate the timestamp here.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      // If this thread has been notified of the slot, pass the notification on, as the slot is still free.
+      condition_variable_.notify_all();
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
-    last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
+    last_idx_ts_.us = timestamp;
     Increment(head_);
     circular_buffer_[index].status = Entry::BEING_IMPORTED;
     circular_buffer_[index].index_timestamp = last_idx_ts_;
-- 
2.43.0


From 009f3f95183011e3b5f380031c18bea538a7f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 13/51] fix: do not drop the messages of the MMPQ which have
 equal timestamps, or are due by its destruction

---
 blocks/mmq/mmpq.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..afa48fa 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -108,11 +108,13 @@ class MMPQImpl {
     while (true) {
       std::unique_lock<std::mutex> lock(mutex_);
 
-      condition_variable_.wait(lock, [this] {
-        return (!queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us) || destructing_;
-      });
+      const auto ready = [this] {
+        return !queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us;
+      };
+      condition_variable_.wait(lock, [this, ready] { return ready() || destructing_; });
 
-      if (destructing_) {
+      // When destructing, first process the messages the head has already reached.
+      if (destructing_ && !ready()) {
         return;  // LCOV_EXCL_LINE
       }
 
@@ -135,7 +137,11 @@ class MMPQImpl {
     Entry(Entry&&) = default;
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
-    bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
+    bool operator<(const Entry& rhs) const {
+      // The messages may well share the timestamp, in which case they go in the order they were published.
+      return index_timestamp.us < rhs.index_timestamp.us ||
+             (index_timestamp.us == rhs.index_timestamp.us && index_timestamp.index < rhs.index_timestamp.index);
+    }
   };
 
   std::set<Entry> queue_;
-- 
2.43.0


From fd7806ca7ce230d0a730e0482e767cbbddcd6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 14/51] fix: do not reject messages emitted concurrently by a
 RipCurrent block as out of order

---
 ripcurrent/ripcurrent.h | 47 +++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/ripcurrent/ripcurrent.h b/ripcurrent/ripcurrent.h
index ab60867..ba601f6 100644
--- a/ripcurrent/ripcurrent.h
+++ b/ripcurrent/ripcurrent.h
@@ -227,6 +227,9 @@ class GenericBlockOutgoingInterface {
  public:
   virtual ~GenericBlockOutgoingInterface() = default;
   virtual void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) = 0;
+  // Same as `OnThreadUnsafeEmitted(x, time::Now())`, except the implementation takes the timestamp itself,
+  // as timestamps taken concurrently prior to lining the messages up would not necessarily come in order.
+  virtual void OnThreadUnsafeEmittedNow(movable_message_t&&) = 0;
   virtual void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeHeadUpdated(std::chrono::microseconds) = 0;
 };
@@ -245,6 +248,10 @@ class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<>> : public GenericBlockO
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
   }
+  void OnThreadUnsafeEmittedNow(movable_message_t&&) override {
+    std::cerr << "Not expecting any entries from a non-emitting block.\n";
+    CURRENT_ASSERT(false);
+  }
   void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) override {
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
@@ -492,8 +499,7 @@ class CallsGeneratingBlock<EmittableTypes<EMITTED_TYPES...>> : public GenericCal
   template <typename T, typename... ARGS>
   std::enable_if_t<TypeListContains<TypeListImpl<EMITTED_TYPES...>, T>::value> emit(ARGS&&... args) const {
     // A seemingly unnecessary `release()` is due to `std::make_unique()` not supporting a custom deleter. -- D.K
-    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()),
-                                    time::Now());
+    handler_->OnThreadUnsafeEmittedNow(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()));
   }
 
   template <typename T, typename... ARGS>
@@ -713,15 +719,11 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
       }
 
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
-        waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
-        try {
-          mmpq_.UpdateHead(t);  // Run `UpdateHead` before `Publish`, as the latter does not validate monotocinity.
-          mmpq_.Publish(std::move(x), t);
-          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessagePublished(); });
-        } catch (const ss::InconsistentTimestampException& e) {
-          current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
-          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessageNotPublished(); });
-        }
+        EmitImpl(std::move(x), t);
+      }
+
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override {
+        EmitImpl(std::move(x), current::time::DefaultTimeArgument());
       }
 
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
@@ -737,6 +739,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
 
       void OnThreadUnsafeHeadUpdated(std::chrono::microseconds t) override {
         try {
+          std::lock_guard<std::mutex> lock(emit_mutex_);
           mmpq_.UpdateHead(t);
         } catch (const ss::InconsistentTimestampException& e) {
           current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
@@ -744,6 +747,25 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
       }
 
      private:
+      template <typename TIMESTAMP>
+      void EmitImpl(movable_message_t&& x, const TIMESTAMP timestamp) {
+        waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
+        try {
+          {
+            // Obtaining the timestamp, updating the head, and publishing the message should be one atomic operation,
+            // as otherwise the messages emitted from different threads concurrently would be considered out of order.
+            std::lock_guard<std::mutex> lock(emit_mutex_);
+            const std::chrono::microseconds t = current::time::TimestampAsMicroseconds(timestamp);
+            mmpq_.UpdateHead(t);  // Run `UpdateHead` before `Publish`, as the latter does not validate monotocinity.
+            mmpq_.Publish(std::move(x), t);
+          }
+          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessagePublished(); });
+        } catch (const ss::InconsistentTimestampException& e) {
+          current::Singleton<RipCurrentMockableErrorHandler>().HandleError(e.DetailedDescription());
+          waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportMessageNotPublished(); });
+        }
+      }
+
       class ThreadMessageCounters {
        public:
         void ReportPublishCalled() { ++publish_called_count_; }
@@ -775,6 +797,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         std::shared_ptr<BlockIncomingInterface<ThreadSafeIncomingTypes<VIA_X, VIA_XS...>>> next_;
       };
 
+      std::mutex emit_mutex_;
       WaitableAtomic<ThreadMessageCounters> waitable_counters_;
       current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t> single_threaded_processor_;
       mmq::MMPQ<movable_message_t, current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t>> mmpq_;
@@ -899,6 +922,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override { next->OnThreadUnsafeEmittedNow(std::move(x)); }
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeScheduled(std::move(x), t);
       }
@@ -910,6 +934,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
+      void OnThreadUnsafeEmittedNow(movable_message_t&& x) override { next->OnThreadUnsafeEmittedNow(std::move(x)); }
       void OnThreadUnsafeScheduled(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeScheduled(std::move(x), t);
       }
-- 
2.43.0


From 7bc0d8f45b47e707b7b5abf627cf85c18bd5ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 15/51] fix: let the intrusive WaitableAtomic be destroyed
 while its last client leaves, and abort its timed waits

The destructor could complete between the last client releasing the mutex and notifying the destructor, and
WaitFor(), unlike Wait(), was not aborted.
---
 bricks/sync/waitable_atomic.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..d59f453 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -321,6 +321,19 @@ class WaitableAtomicImpl {
       }
     }
 
+    template <typename T>
+    bool WaitFor(std::function<bool(const data_t&)> predicate, T duration) const {
+      std::unique_lock<std::mutex> lock(BasicImpl::data_mutex_);
+      if (destructing_) {
+        return false;
+      } else {
+        const data_t& data = BasicImpl::data_;
+        const bool result = BasicImpl::data_condition_variable_.wait_for(
+            lock, duration, [this, &predicate, &data] { return destructing_ || predicate(data); });
+        return result && !destructing_;
+      }
+    }
+
     IntrusiveClient RegisterScopedClient() { return IntrusiveClient(this); }
 
     virtual bool RefCounterTryIncrease() override {
@@ -338,10 +351,11 @@ class WaitableAtomicImpl {
 
     virtual void RefCounterDecrease() override {
       {
+        // Notify with the mutex locked, as otherwise this object could be destroyed by the time `cv_` is to be notified.
         std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
         --ref_count_;
+        cv_.notify_one();
       }
-      cv_.notify_one();
     }
 
     virtual bool IsDestructing() const override {
-- 
2.43.0


From 178137020ec1da6e2a9d3d4d5d290912b4c4e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 16/51] fix: bricks/net/tcp: blocking reads and writes survive
 an interrupting signal

---
 bricks/net/tcp/impl/posix.h | 44 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/bricks/net/tcp/impl/posix.h b/bricks/net/tcp/impl/posix.h
index 1c1a6bf..01fb3df 100644
--- a/bricks/net/tcp/impl/posix.h
+++ b/bricks/net/tcp/impl/posix.h
@@ -439,13 +439,15 @@ class Connection : public SocketHandle {
           }
         }
 
+        // NOTE: Zero means the end of the stream, and neither `errno` nor its Windows equivalent is set in that case.
 #ifndef CURRENT_WINDOWS
-        if (errno == EAGAIN) {  // LCOV_EXCL_LINE
-          continue;             // LCOV_EXCL_LINE
+        if (retval < 0 && (errno == EAGAIN || errno == EINTR)) {  // LCOV_EXCL_LINE
+          continue;                                               // LCOV_EXCL_LINE
         }
 #else
         wsa_last_error = ::WSAGetLastError();
-        if (wsa_last_error == WSAEWOULDBLOCK || wsa_last_error == WSAEINPROGRESS || wsa_last_error == WSAENETDOWN) {
+        if (retval < 0 && (wsa_last_error == WSAEWOULDBLOCK || wsa_last_error == WSAEINPROGRESS ||
+                           wsa_last_error == WSAENETDOWN)) {
           // Effectively, `errno == EAGAIN`.
           continue;
         }
@@ -453,10 +455,11 @@ class Connection : public SocketHandle {
 
         // Only keep looping via `continue`.
         // There are two ways:
-        // 1) `EAGAIN` or a Windows equivalent has been returned.
+        // 1) `EAGAIN`, `EINTR`, or a Windows equivalent has been returned.
         // 2) `retval > 0`, not all the data has been read, and mode is `BlockingReadPolicy::FillFullBuffer`.
-        //    (Really, just a safety check).
-      } while (false);
+        //    (`MSG_WAITALL` does return early if a signal is caught.)
+        break;
+      } while (true);
 
 // LCOV_EXCL_START
 #ifndef CURRENT_WINDOWS
@@ -514,18 +517,29 @@ class Connection : public SocketHandle {
     CURRENT_ASSERT(buffer);
     CURRENT_BRICKS_NET_LOG(
         "S%05d BlockingWrite(%d bytes) ...\n", static_cast<SOCKET>(socket), static_cast<int>(write_length));
+    // A blocking `send()` that gets interrupted by a signal may write nothing at all, or just some part of the buffer.
+    const char* ptr = static_cast<const char*>(buffer);
+    size_t remaining_bytes_to_write = write_length;
+    while (remaining_bytes_to_write > 0) {
 #if !defined(CURRENT_WINDOWS) && !defined(CURRENT_APPLE)
-    const int result = static_cast<int>(::send(socket, buffer, write_length, MSG_NOSIGNAL | (more ? MSG_MORE : 0)));
+      const ssize_t result = ::send(socket, ptr, remaining_bytes_to_write, MSG_NOSIGNAL | (more ? MSG_MORE : 0));
 #else
-    // No `MSG_NOSIGNAL` and extra cast for Visual Studio.
-    // (As I understand, Windows sockets would not result in pipe-related issues. -- D.K.)
-    const int result =
-        static_cast<int>(::send(socket, static_cast<const char*>(buffer), static_cast<int>(write_length), 0));
+      // No `MSG_NOSIGNAL` and extra cast for Visual Studio.
+      // (As I understand, Windows sockets would not result in pipe-related issues. -- D.K.)
+      const int result = static_cast<int>(::send(socket, ptr, static_cast<int>(remaining_bytes_to_write), 0));
 #endif
-    if (result < 0) {
-      CURRENT_THROW(SocketWriteException());  // LCOV_EXCL_LINE -- Not covered by the unit tests.
-    } else if (static_cast<size_t>(result) != write_length) {
-      CURRENT_THROW(SocketCouldNotWriteEverythingException());  // This one is tested though.
+#ifndef CURRENT_WINDOWS
+      if (result < 0 && errno == EINTR) {
+        continue;  // LCOV_EXCL_LINE
+      }
+#endif
+      if (result < 0) {
+        CURRENT_THROW(SocketWriteException());  // LCOV_EXCL_LINE -- Not covered by the unit tests.
+      } else if (result == 0) {
+        CURRENT_THROW(SocketCouldNotWriteEverythingException());  // LCOV_EXCL_LINE
+      }
+      ptr += result;
+      remaining_bytes_to_write -= static_cast<size_t>(result);
     }
     CURRENT_BRICKS_NET_LOG(
         "S%05d BlockingWrite(%d bytes) : OK\n", static_cast<SOCKET>(socket), static_cast<int>(write_length));
-- 
2.43.0


From 44b18038d5c8a6261c027685cef285feaa913735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 17/51] fix: blocks/url: a path with `://` in it is a path, not
 a URL with a scheme and a host

---
 blocks/url/url.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..3afb581 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -102,8 +102,10 @@ struct URLWithoutParametersParser {
     size_t parsed_offset = 0;
 
     // This piece parses scheme.
+    // A URL that starts with a single slash is a relative one, with no scheme, even if there is a `://` down its path.
     const size_t double_slash = url.find("//");
-    if (double_slash != std::string::npos && (double_slash == 0 || url[double_slash - 1] == ':')) {
+    if (double_slash != std::string::npos &&
+        (double_slash == 0 || (url[0] != '/' && url[double_slash - 1] == ':'))) {
       scheme = (double_slash == 0 ? "" : url.substr(0, double_slash - 1));
       parsed_offset = double_slash + 2;
     }
-- 
2.43.0


From 37a150821ade3c64b211bb17b2cd382cf6227119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 18/51] fix: bricks/net/http: negative and overly long chunk
 sizes are bad requests, not the end of the server

---
 bricks/net/http/impl/server.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 142fb77..d84759c 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -485,16 +485,20 @@ class GenericHTTPRequestData : public HELPER {
           if (!line_is_blank) {
             const size_t chunk_length = static_cast<size_t>([&]() {
               try {
-                return std::stoi(&buffer_[current_line_offset], nullptr, 16);
+                const int length = std::stoi(&buffer_[current_line_offset], nullptr, 16);
+                if (length >= 0) {
+                  return length;
+                }
               } catch (const std::invalid_argument&) {
-                // Not a valid hexadecimal chunk size. HTTP bad request is it.
-                HTTPResponder::SendHTTPResponse(c,
-                                                net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
-                                                HTTPResponseCode.BadRequest,
-                                                net::http::Headers(),
-                                                net::constants::kDefaultHTMLContentType);
-                CURRENT_THROW(ChunkSizeNotAValidHEXValue());
+              } catch (const std::out_of_range&) {
               }
+              // Not a valid hexadecimal chunk size. HTTP bad request is it.
+              HTTPResponder::SendHTTPResponse(c,
+                                              net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
+                                              HTTPResponseCode.BadRequest,
+                                              net::http::Headers(),
+                                              net::constants::kDefaultHTMLContentType);
+              CURRENT_THROW(ChunkSizeNotAValidHEXValue());
             }());
             if (chunk_length == 0) {
               // Done with the body.
-- 
2.43.0


From 2386d0a2c5bcccf614f21406d31a290e81e862bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 19/51] fix: bricks/net/http/headers: assignment replaces, and
 removal in a different case leaves no dangling pointers

---
 bricks/net/http/headers/headers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index dff875a..93029b6 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -187,7 +187,11 @@ struct Headers final {
   Headers(const Headers& rhs) { DeepCopyFrom(rhs); }
 
   Headers& operator=(const Headers& rhs) {
-    DeepCopyFrom(rhs);
+    if (this != &rhs) {
+      list.clear();
+      map.clear();
+      DeepCopyFrom(rhs);
+    }
     return *this;
   }
 
@@ -225,14 +229,16 @@ struct Headers final {
     Header::ThrowIfHeaderIsCookie(header);
     const auto cit = map.find(header);
     if (cit != map.end()) {
-      map.erase(cit);
+      // NOTE: The spelling of `header` may be different from the one this header has been added under.
+      const Header* const removed_header = cit->second.get();
       headers_list_t updated_list;
       for (const auto& e : list) {
-        if (e.first != header) {
+        if (e.second != removed_header) {
           updated_list.emplace_back(std::move(e));
         }
       }
       list = std::move(updated_list);
+      map.erase(cit);
     }
     return *this;
   }
-- 
2.43.0


From 1a756bcbc11e7e84ee6df3919dd56d36844adb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 20/51] fix: blocks/url: encode the bytes from 0x80 up
 correctly

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 3afb581..2d4f08f 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -262,7 +262,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<unsigned char>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From 01dbee7d3eb0a02fc8ea05ff5f8cbc88d98bfdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 21/51] fix: blocks/http: unregistering or replacing a route
 does not hold the mutex while its handler is running

---
 blocks/http/impl/posix_server.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..bf6b871 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -225,7 +225,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, path_args_count_mask, POLICY);
   }
@@ -235,7 +234,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, path_args_count_mask, POLICY);
   }
 
@@ -243,19 +241,21 @@ class HTTPServerPOSIX final {
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt, typename F>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, URLPathArgs::CountMask::None, POLICY);
   }
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, URLPathArgs::CountMask::None, POLICY);
   }
 
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
+    // Destroying a handler waits for the request it is serving, if any, so it should not be done with the mutex locked:
+    // that request may well be registering or unregistering some other route.
+    std::vector<Owned<std::function<void(Request)>>> handlers_to_destroy;
+
     std::lock_guard<std::mutex> lock(mutex_);
     URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
     for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
@@ -269,6 +269,7 @@ class HTTPServerPOSIX final {
         if (it2 == map.end()) {
           CURRENT_THROW(HandlerDoesNotExistException(path));
         }
+        handlers_to_destroy.push_back(std::move(it2->second));
         map.erase(it2);
         if (map.empty()) {
           // Maintain the value of `PathHandlersCount()` invariant.
@@ -498,6 +499,11 @@ class HTTPServerPOSIX final {
 
     ValidateRoute(path);
 
+    // The handlers being replaced are to be destroyed with the mutex unlocked, see `UnRegister()`.
+    std::vector<Owned<std::function<void(Request)>>> handlers_to_destroy;
+
+    std::lock_guard<std::mutex> lock(mutex_);
+
     {
       // Step 1: Confirm the request is valid.
       const auto handlers_per_path_iterator = handlers_.find(path);
@@ -526,7 +532,11 @@ class HTTPServerPOSIX final {
       URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
       for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask = mask << 1) {
         if ((path_args_count_mask & mask) == mask) {
-          handlers_per_path[i] = MakeOwned<std::function<void(Request)>>(handler);
+          Owned<std::function<void(Request)>>& placeholder = handlers_per_path[i];
+          if (placeholder) {
+            handlers_to_destroy.push_back(std::move(placeholder));
+          }
+          placeholder = MakeOwned<std::function<void(Request)>>(handler);
         }
       }
     }
-- 
2.43.0


From 280eb032a6ca5afb67ce3c386c40acf85634ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 22/51] fix: blocks/http: the serving thread starts after the
 members of the server it uses are constructed

---
 blocks/http/impl/posix_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index bf6b871..d932e66 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -552,13 +552,15 @@ class HTTPServerPOSIX final {
 
   std::atomic_bool terminating_;
   const uint16_t port_;
-  std::thread thread_;
 
   // TODO(dkorolev): Look into read-write mutexes here.
   mutable std::mutex mutex_;
 
   std::map<std::string, std::map<size_t, Owned<std::function<void(Request)>>>> handlers_;
   std::vector<std::unique_ptr<StaticFileServer>> static_file_servers_;
+
+  // NOTE: Must be the last member, as the thread starts using the other ones right away.
+  std::thread thread_;
 };
 
 }  // namespace http
-- 
2.43.0


From 444dae68cc3f0c0e9422f4caaec6b7cc5ed3ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 23/51] fix: stream/pubsub: a client of an HTTP subscription
 having disconnected does not terminate the process

---
 stream/pubsub.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 34e6045..5bfaf63 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -332,11 +332,7 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done && params_.array) {
-      if (!output_started_) {
-        http_response_("[]\n");
-      } else {
-        http_response_("]\n");
-      }
+      SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
     }
     return result;
   }
@@ -418,14 +414,10 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     }();
     if (result == ss::EntryResponse::Done) {
       if (params_.array) {
-        if (!output_started_) {
-          http_response_("[]\n");
-        } else {
-          http_response_("]\n");
-        }
+        SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
       } else {
         // flush cached response data.
-        http_response_("", current::net::ChunkFlush::Flush);
+        SendUnlessDisconnected("");
       }
     }
     return result;
@@ -449,7 +441,9 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only) {
-        http_response_(JSON<J>(ts_only_t(us)) + '\n');
+        if (!SendUnlessDisconnected(JSON<J>(ts_only_t(us)) + '\n')) {
+          return ss::EntryResponse::Done;  // LCOV_EXCL_LINE
+        }
       }
     }
     return ss::EntryResponse::More;
@@ -465,15 +459,25 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   ss::TerminationResponse Terminate() {
     static const std::string message = "{\"error\":\"The subscriber has terminated.\"}\n";
     if (params_.array && output_started_) {
-      http_response_(",\n" + message + "]\n");
+      SendUnlessDisconnected(",\n" + message + "]\n");
     } else {
-      http_response_(message);
+      SendUnlessDisconnected(message);
     }
     return ss::TerminationResponse::Terminate;
   }
   // LCOV_EXCL_STOP
 
  private:
+  // Called from the thread of the subscriber, hence the client having disconnected should not result in an exception.
+  bool SendUnlessDisconnected(const std::string& data) {
+    try {
+      http_response_(data, current::net::ChunkFlush::Flush);
+      return true;
+    } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+      return false;                                    // LCOV_EXCL_LINE
+    }
+  }
+
   // The HTTP listener must register itself as a user of stream data to ensure the lifetime of stream data.
   const BorrowedWithCallback<impl_t> impl_;
   std::atomic_bool time_to_terminate_{false};
-- 
2.43.0


From dee9fd1f1451e5612adbbd0c5c9d5b02a69251be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 24/51] fix: stream: respect `i` when it is combined with
 `tail=0`

---
 stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index cb68436..fc2acd7 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -571,7 +571,7 @@ class Stream final {
       if (request_params.tail) {
         if (request_params.tail == static_cast<uint64_t>(-1)) {
           // Special case for `&tail=0`: act as `tail -f` from the current end of the stream.
-          begin_idx = stream_size;
+          begin_idx = std::max(request_params.i, stream_size);
           request_params.tail = stream_size;
         } else {
           const uint64_t idx_by_tail = request_params.tail < stream_size ? (stream_size - request_params.tail) : 0u;
-- 
2.43.0


From 93bc09fa9bd7396532a4824ea8de601fdc6c4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 25/51] fix: stream/pubsub: respect `i` and `tail` past the
 head update which satisfies `since` or `recent`

---
 stream/pubsub.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 5bfaf63..7efd475 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -427,11 +427,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     if (time_to_terminate_) {
       return ss::EntryResponse::Done;
     }
-    // Respect `since` and `recent`.
-    if (!serving_ && from_timestamp_.count() > 0 && us >= from_timestamp_) {
-      serving_ = true;
-    }
-    if (serving_) {
+    // Respect `since` and `recent`. The entries to follow this head should still respect `i` and `tail` too.
+    if (serving_ || (from_timestamp_.count() > 0 && us >= from_timestamp_)) {
       // If `period` is set, set the maximum possible timestamp.
       if (params_.period.count() && to_timestamp_.count() == 0u) {
         to_timestamp_ = us + params_.period;
-- 
2.43.0


From e22a631666d2b8830ae68e97467a4bfde55285a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 26/51] fix: stream/pubsub: close the JSON array when the
 response is ended by a head update

---
 stream/pubsub.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 7efd475..f3dbbc5 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -425,7 +425,7 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
 
   ss::EntryResponse operator()(std::chrono::microseconds us) {
     if (time_to_terminate_) {
-      return ss::EntryResponse::Done;
+      return CloseArrayAndReturnDone();
     }
     // Respect `since` and `recent`. The entries to follow this head should still respect `i` and `tail` too.
     if (serving_ || (from_timestamp_.count() > 0 && us >= from_timestamp_)) {
@@ -435,7 +435,7 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
-        return ss::EntryResponse::Done;
+        return CloseArrayAndReturnDone();
       }
       if (!params_.array && !params_.entries_only) {
         if (!SendUnlessDisconnected(JSON<J>(ts_only_t(us)) + '\n')) {
@@ -475,6 +475,14 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     }
   }
 
+  // For the response which has ended not because of an entry to remain a valid JSON array.
+  ss::EntryResponse CloseArrayAndReturnDone() {
+    if (params_.array) {
+      SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
+    }
+    return ss::EntryResponse::Done;
+  }
+
   // The HTTP listener must register itself as a user of stream data to ensure the lifetime of stream data.
   const BorrowedWithCallback<impl_t> impl_;
   std::atomic_bool time_to_terminate_{false};
-- 
2.43.0


From 877e409e51c011ec57e3caf740c000d431ce3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 27/51] fix: stream/replicator: retry terminating the remote
 subscription until the subscriber thread is interrupted

---
 stream/exceptions.h |  4 ++++
 stream/replicator.h | 45 +++++++++++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/stream/exceptions.h b/stream/exceptions.h
index 9c82ce9..d667be7 100644
--- a/stream/exceptions.h
+++ b/stream/exceptions.h
@@ -59,6 +59,10 @@ struct RemoteStreamMalformedChunkException : StreamException {
   using StreamException::StreamException;
 };
 
+struct RemoteStreamTerminationRequestedException : StreamException {
+  using StreamException::StreamException;
+};
+
 struct StreamIsAlreadyExposedException : StreamException {
   using StreamException::StreamException;
 };
diff --git a/stream/replicator.h b/stream/replicator.h
index 21a7537..d675489 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -253,6 +253,8 @@ class SubscribableRemoteStream final {
           done_callback_(done_callback),
           subscription_mode_(subscription_mode),
           terminate_subscription_requested_(false),
+          terminate_sent_(false),
+          consecutive_malformed_chunks_count_(0u),
           thread_([this]() { Thread(); }) {
       valid_ = true;
     }
@@ -286,10 +288,9 @@ class SubscribableRemoteStream final {
 
     void ThreadImpl() {
       const RemoteStream& bare_stream = *this->borrowed_remote_stream_;
-      bool terminate_sent = false;
       while (true) {
-        if (!terminate_sent && terminate_subscription_requested_) {
-          terminate_sent = true;
+        if (!terminate_sent_ && terminate_subscription_requested_) {
+          terminate_sent_ = true;
           if (this->subscriber_.Terminate() != ss::TerminationResponse::Wait) {
             return;
           }
@@ -324,8 +325,9 @@ class SubscribableRemoteStream final {
     }
 
     void OnChunk(const std::string& chunk) {
-      if (terminate_subscription_requested_) {
-        return;
+      if (!terminate_sent_ && terminate_subscription_requested_) {
+        // Stop receiving the data, to have the subscriber notified of the termination.
+        CURRENT_THROW(RemoteStreamTerminationRequestedException());
       }
 
       this->PassChunkToSubscriber(chunk);
@@ -333,22 +335,24 @@ class SubscribableRemoteStream final {
     }
 
     void TerminateSubscription() {
-      subscription_id_.Wait([this](const std::string& subscription_id) {
-        if (subscriber_thread_done_) {
-          return true;
-        } else {
-          terminate_subscription_requested_ = true;
-          if (!subscription_id.empty()) {
-            const std::string terminate_url = this->borrowed_remote_stream_->GetURLToTerminate(subscription_id);
-            try {
-              HTTP(GET(terminate_url));
-            } catch (current::Exception&) {
-            }
-            return true;
+      terminate_subscription_requested_ = true;
+      // The request to terminate the subscription may fail, or may reach the remote stream when the subscription
+      // with this ID is already, or not yet, there, so keep trying until the subscriber thread has been interrupted.
+      const auto interrupted = [this]() { return subscriber_thread_done_ || terminate_sent_; };
+      while (!interrupted()) {
+        const std::string subscription_id = subscription_id_.GetValue();
+        if (!subscription_id.empty()) {
+          try {
+            HTTP(GET(this->borrowed_remote_stream_->GetURLToTerminate(subscription_id)));
+          } catch (current::Exception&) {
           }
         }
-        return false;
-      });
+        subscription_id_.WaitFor(
+            [&interrupted, &subscription_id](const std::string& current_subscription_id) {
+              return interrupted() || current_subscription_id != subscription_id;
+            },
+            std::chrono::milliseconds(100));
+      }
     }
 
    private:
@@ -357,8 +361,9 @@ class SubscribableRemoteStream final {
     const SubscriptionMode subscription_mode_;
     current::WaitableAtomic<std::string> subscription_id_;
     std::atomic_bool terminate_subscription_requested_;
-    std::thread thread_;
+    std::atomic_bool terminate_sent_;
     uint32_t consecutive_malformed_chunks_count_;
+    std::thread thread_;
   };
 
   template <typename F, typename TYPE_SUBSCRIBED_TO, ReplicationMode RM>
-- 
2.43.0


From 939483c9be503d58253b85bb2446ff45edbbeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 28/51] fix: stream/replicator: when reconnecting after an
 entry, do not ask for the head of this very entry

---
 stream/replicator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index d675489..42dbc52 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -196,7 +196,7 @@ class SubscribableRemoteStream final {
             CURRENT_THROW(StreamTerminatedBySubscriber());
           }
           ++next_expected_index_;
-          from_us_ = std::chrono::microseconds(0);
+          from_us_ = idxts.us + std::chrono::microseconds(1);
         } else {
           if (split.size() != 1u) {
             CURRENT_THROW(RemoteStreamMalformedChunkException());
@@ -221,7 +221,11 @@ class SubscribableRemoteStream final {
         // NOTE(dkorolev) & NOTE(grixa): In `RM::Unchecked` mode
         // `next_expected_index_` is not checked at all, just incremented.
         ++next_expected_index_;
-        from_us_ = std::chrono::microseconds(0);
+        try {
+          from_us_ = ParseJSON<ts_only_t>(raw_log_line.substr(0, tab_pos)).us + std::chrono::microseconds(1);
+        } catch (const current::serialization::json::TypeSystemParseJSONException&) {
+          from_us_ = std::chrono::microseconds(0);
+        }
       } else {
         try {
           const auto ts = ParseJSON<ts_only_t>(raw_log_line);
-- 
2.43.0


From 4cd8931364af42657673378cfe6bfe3bb9be2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 29/51] fix: stream: deliver the head updates to the subscriber
 which has not been passed any entries

---
 stream/stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index fc2acd7..2d28922 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -427,10 +427,10 @@ class Stream final {
         } else {
           std::unique_lock<std::mutex> lock(impl_->publishing_mutex);
           current::WaitableTerminateSignalBulkNotifier::Scope scope(impl_->notifier, terminate_signal_);
-          terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
+          terminate_signal_.WaitUntil(lock, [this, &index, &size, &begin_idx, &head]() {
             return terminate_signal_ ||
                    impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (index > begin_idx &&
+                   (size >= begin_idx &&
                     impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
           });
         }
-- 
2.43.0


From da4ca297f3ae3a987fde2161d44fb27b480bd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 30/51] fix: stream/replicator: respect the max. index
 difference when the prospective master has no entries

---
 stream/replicator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 42dbc52..0d64eec 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -744,7 +744,8 @@ class MasterFlipController final {
     const auto max_diff_size = restrictions.max_diff_size_;
     const auto max_head_diff = restrictions.max_head_diff_;
 
-    if (max_index_diff != 0 && start_idx != 0 && Value(head_idxts.idxts).index >= start_idx + max_index_diff) {
+    if (max_index_diff != 0 && Exists(head_idxts.idxts) &&
+        Value(head_idxts.idxts).index >= start_idx + max_index_diff) {
       r("Too many entries to replay, aborting sending the diff.\n", HTTPResponseCode.BadRequest);
       return false;
     }
-- 
2.43.0


From 981133cdee5efa588231fec6cc25c195eb6c0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 31/51] fix: stream/replicator: follow and flip with the mutex
 locked, as the flip requests being served do

---
 stream/replicator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 0d64eec..7c6ea3a 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -584,11 +584,11 @@ class MasterFlipController final {
 
   // Makes the local, owned, ex-master stream follow the remote now-master one.
   void FollowRemoteStream(const std::string& url, SubscriptionMode subscription_mode = SubscriptionMode::Unchecked) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (remote_follower_) {
       CURRENT_THROW(StreamIsAlreadyFollowingException());
     }
 
-    std::lock_guard<std::mutex> lock(mutex_);
     const bool has_borrowed_publisher = Exists(borrowed_publisher_);
     try {
       remote_follower_ = std::make_unique<RemoteStreamFollower>(
@@ -611,6 +611,7 @@ class MasterFlipController final {
   }
 
   void FlipToMaster(uint64_t secret_flip_key) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (stream_->IsMasterStream()) {
       CURRENT_THROW(StreamIsAlreadyMasterException());
     }
-- 
2.43.0


From 75fc89c0cd8af80332bf0b628fedc9235aadee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 32/51] fix: stream/replicator: do not wait for the flip
 requests being served with the mutex locked, and do wait for them when
 destructing

---
 stream/replicator.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 7c6ea3a..a1b643f 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -540,6 +540,9 @@ class MasterFlipController final {
 
   MasterFlipController(Borrowed<STREAM> stream) : stream_(std::move(stream)) {}
 
+  // The flip requests being served use the other members of this class, so they should complete first.
+  ~MasterFlipController() { static_cast<void>(ReleaseExposedState()); }
+
   // Expose an endpoint to make it possible to request this (`Owned`, local) master stream to become
   // a following stream to an external prospective master that is being promoted to the new master of this stream.
   //
@@ -574,10 +577,7 @@ class MasterFlipController final {
 
   // Remove the possibility of remotely promoting this stream to master.
   void StopExposingViaHTTP() {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (exposed_via_http_) {
-      exposed_via_http_ = nullptr;
-    } else {
+    if (!ReleaseExposedState()) {
       CURRENT_THROW(StreamIsNotExposedException());
     }
   }
@@ -808,6 +808,13 @@ class MasterFlipController final {
           flip_canceled_callback_(flip_canceled) {}
   };
 
+  // Unregistering the endpoints waits for the requests being served, which lock the mutex,
+  // so the state should be destructed with the mutex unlocked.
+  std::unique_ptr<ExposedStreamState> ReleaseExposedState() {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return std::move(exposed_via_http_);
+  }
+
   struct RemoteStreamFollower {
     using remote_stream_t = SubscribableRemoteStream<entry_t>;
     SubscriptionMode subscription_mode_;
-- 
2.43.0


From 6644bf83fbfbd9c9dc84cd36341dedad4c7accbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 33/51] fix: karl: the snapshot of a service is its most recent
 keepalive, not the one before it in the log

---
 karl/karl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index c48e313..bc367e7 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -552,7 +552,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
             {
               std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
               latest_keepalive_index_plus_one_[parsed_status.codename] =
-                  keepalives_stream_->Publisher()->Publish(std::move(record)).index;
+                  keepalives_stream_->Publisher()->Publish(std::move(record)).index + 1;
             }
           }
 
@@ -733,14 +733,13 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
   void ServeSnapshot(Request r) {
     const auto codename = r.url_path_args[0];
 
-    uint64_t& index_placeholder = [&]() {
+    uint64_t index = [&]() {
       std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
-      return std::ref(latest_keepalive_index_plus_one_[codename]);
+      return latest_keepalive_index_plus_one_[codename];
     }();
 
     const auto& keepalives_data = keepalives_stream_->Data();
 
-    uint64_t index = index_placeholder;
     if (!index) {
       // If no latest keepalive index in cache, go through the whole log.
       for (const auto& e : keepalives_data->Iterate()) {
@@ -750,6 +749,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
       }
       if (index) {
         std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
+        uint64_t& index_placeholder = latest_keepalive_index_plus_one_[codename];
         index_placeholder = std::max(index_placeholder, index);
       }
     }
-- 
2.43.0


From 573c07104d866ba3b5928f6f3f073a354d1b444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 34/51] fix: karl: a service which has gone silent before Karl
 was restarted times out

---
 karl/karl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karl/karl.h b/karl/karl.h
index bc367e7..40ce2b0 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -330,11 +330,15 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           const auto now = current::time::Now();
           // Pre-populate services marked as `Active` due to abrupt shutdown into the cache.
           // This will help to eventually mark non-active services as `DisconnectedByTimeout`.
+          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
           for (const auto& claire : fields.claires) {
             if (claire.registered_state == ClaireRegisteredState::Active) {
               services_keepalive_time_cache_[claire.codename] = now;
             }
           }
+          // The state update thread is already running, and it is not aware of these services.
+          state_update_thread_force_wakeup_ = true;
+          update_thread_condition_variable_.notify_one();
         })
         .Wait();
   }
-- 
2.43.0


From 605b3c4dbb6fc1cd89d89d148e6622d599ac534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 35/51] fix: karl: a keepalive or a deregistration racing with
 the timeout is not overridden by it

---
 karl/karl.h | 60 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index 40ce2b0..0d0db50 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -389,19 +389,32 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
         for (auto it = services_keepalive_time_cache_.cbegin(); it != services_keepalive_time_cache_.cend();) {
           if ((now - it->second) > parameters_.service_timeout_interval) {
             timeouted_codenames.insert(it->first);
-            services_keepalive_time_cache_.erase(it++);
           } else {
             most_recent_keepalive_time = std::max(it->second, most_recent_keepalive_time);
-            ++it;
           }
+          ++it;
         }
       }
       if (!timeouted_codenames.empty()) {
         auto& notifiable_ref = notifiable_ref_;
         storage_
             ->ReadWriteTransaction(
-                [&timeouted_codenames, now, &notifiable_ref](MutableFields<storage_t> fields) -> void {
+                [this, &timeouted_codenames, &most_recent_keepalive_time, now, &notifiable_ref](
+                    MutableFields<storage_t> fields) -> void {
                   for (const auto& codename : timeouted_codenames) {
+                    {
+                      // The service may well have sent a keepalive, or have been deregistered, in the meantime.
+                      std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                      const auto it = services_keepalive_time_cache_.find(codename);
+                      if (it == services_keepalive_time_cache_.end()) {
+                        continue;
+                      }
+                      if (!((now - it->second) > parameters_.service_timeout_interval)) {
+                        most_recent_keepalive_time = std::max(it->second, most_recent_keepalive_time);
+                        continue;
+                      }
+                      services_keepalive_time_cache_.erase(it);
+                    }
                     const auto& current_claire_info = fields.claires[codename];
                     // OK to call from within a transaction.
                     // The call is fast, and `storage_`'s transaction guarantees thread
@@ -467,7 +480,14 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
         auto& notifiable_ref = notifiable_ref_;
         storage_
             ->ReadWriteTransaction(
-                [codename, now, &notifiable_ref](MutableFields<storage_t> fields) -> Response {
+                [this, codename, now, &notifiable_ref](MutableFields<storage_t> fields) -> Response {
+                  {
+                    // Delete this `codename` from cache, in the same transaction, so that it does not time out.
+                    std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                    services_keepalive_time_cache_.erase(codename);
+                    state_update_thread_force_wakeup_ = true;
+                    update_thread_condition_variable_.notify_one();
+                  }
                   const auto& current_claire_info = fields.claires[codename];
                   // OK to call from within a transaction.
                   // The call is fast, and `storage_`'s transaction guarantees thread safety. -- D.K.
@@ -484,13 +504,6 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
                 },
                 std::move(r))
             .Wait();  // NOTE(dkorolev): Could be `.Detach()`, but staying "safe" within Karl for now.
-        {
-          // Delete this `codename` from cache.
-          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
-          services_keepalive_time_cache_.erase(codename);
-          state_update_thread_force_wakeup_ = true;
-          update_thread_condition_variable_.notify_one();
-        }
       } else {
         // Respond with "200 OK" in any case.
         r("NOP\n");
@@ -569,8 +582,19 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           auto& notifiable_ref = notifiable_ref_;
           storage_
               ->ReadWriteTransaction(
-                  [now, location, &parsed_status, &detailed_parsed_status, optional_behind_this_by, &notifiable_ref](
+                  [this, now, location, &parsed_status, &detailed_parsed_status, optional_behind_this_by, &notifiable_ref](
                       MutableFields<storage_t> fields) -> Response {
+                    {
+                      // Update the cache in the same transaction, so that this keepalive is not the one to time out.
+                      std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                      auto& placeholder = services_keepalive_time_cache_[parsed_status.codename];
+                      if (placeholder.count() == 0) {
+                        // Wake up state update thread only if the new codename has appeared in the cache.
+                        state_update_thread_force_wakeup_ = true;
+                        update_thread_condition_variable_.notify_one();
+                      }
+                      placeholder = now;
+                    }
                     // OK to call from within a transaction.
                     // The call is fast, and `storage_`'s transaction guarantees thread safety. -- D.K.
                     notifiable_ref.OnKeepalive(now, location, parsed_status.codename, detailed_parsed_status);
@@ -661,18 +685,6 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
                   },
                   std::move(r))
               .Wait();
-          {
-            std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
-            auto& placeholder = services_keepalive_time_cache_[parsed_status.codename];
-            if (placeholder.count() == 0) {
-              placeholder = now;
-              // Wake up state update thread only if the new codename has appeared in the cache.
-              state_update_thread_force_wakeup_ = true;
-              update_thread_condition_variable_.notify_one();
-            } else {
-              placeholder = now;
-            }
-          }
         } else {
           r("Inconsistent URL/body parameters.\n", HTTPResponseCode.BadRequest);
         }
-- 
2.43.0


From 577bb1c9c8fb183edcc81e4880a22a2d6f21513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 36/51] fix: karl/claire: registering after a keepalive has
 been requested does not exit the process

---
 karl/claire.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karl/claire.h b/karl/claire.h
index 60e40a0..9ad86d0 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -191,7 +191,13 @@ class GenericClaire final : private DummyClaireNotifiable {
         SendKeepaliveToKarl(lock, karl_keepalive_route_ + "&confirm");
       }
 
-      StartKeepaliveThread();
+      {
+        // The thread may well be running already, if a keepalive has been requested prior to registering.
+        std::lock_guard<std::mutex> inner_lock(keepalive_thread_running_status_mutex_);
+        if (!keepalive_thread_running_) {
+          StartKeepaliveThread<current::locks::MutexLockStatus::AlreadyLocked>();
+        }
+      }
       in_beacon_mode_ = true;
     }
   }
-- 
2.43.0


From ce3f8721d2b22fee1dfabd8b49f1ab19fe8ff8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 37/51] fix: karl/claire: do not serve requests before the
 fields they use are constructed and after they are destroyed

---
 karl/claire.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 9ad86d0..7642fa3 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -111,11 +111,11 @@ class GenericClaire final : private DummyClaireNotifiable {
         karl_keepalive_route_(KarlKeepaliveRoute(karl_, codename_, port_)),
         notifiable_ref_(notifiable),
         us_start_(current::time::Now()),
-        http_scope_(HTTP(current::net::BarePort(port))
-                        .Register("/.current", [this](Request r) { ServeCurrent(std::move(r)); })),
         destructing_(false),
         keepalive_thread_force_wakeup_(false),
-        keepalive_thread_running_(false) {}
+        keepalive_thread_running_(false),
+        http_scope_(HTTP(current::net::BarePort(port))
+                        .Register("/.current", [this](Request r) { ServeCurrent(std::move(r)); })) {}
 
   GenericClaire(Locator karl,
                 const std::string& service,
@@ -544,8 +544,6 @@ class GenericClaire final : private DummyClaireNotifiable {
   std::chrono::microseconds last_successful_keepalive_timestamp_ = std::chrono::microseconds(0);
   std::chrono::microseconds last_successful_keepalive_ping_ = std::chrono::microseconds(0);
 
-  const HTTPRoutesScope http_scope_;
-
   std::atomic_bool destructing_;
 
   std::atomic_bool keepalive_thread_force_wakeup_;
@@ -556,6 +554,9 @@ class GenericClaire final : private DummyClaireNotifiable {
   std::thread keepalive_thread_;
 
   bool keepalive_sent_ = false;  // For `ForceSendKeepalive(wait == ForceSendKeepaliveWaitRequest::Wait)`. -- D.K.
+
+  // The requests may well arrive as soon as, and for as long as, the route is there, thus it should be the last one.
+  const HTTPRoutesScope http_scope_;
 };
 
 using Claire = GenericClaire<Variant<default_user_status::status>>;
-- 
2.43.0


From 5553810e486f12d0a890590ea5d546b8943c0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 38/51] fix: karl/claire: destructing does not hang if a
 keepalive is being waited for

---
 karl/claire.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 7642fa3..e699ebc 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -227,9 +227,10 @@ class GenericClaire final : private DummyClaireNotifiable {
     // Generally, unnecessary. For debugging / troubleshooting purposes. -- D.K.
     if (wait_for_keepalive == ForceSendKeepaliveWaitRequest::Wait) {
       std::unique_lock<std::mutex> lock(keepalive_mutex_);
-      while (!keepalive_sent_) {
+      // No keepalive will be sent if this Claire is being destructed, and its destructor waits for this very call.
+      while (!keepalive_sent_ && !destructing_) {
         keepalive_condition_variable_.wait_for(
-            lock, std::chrono::milliseconds(1), [this]() { return keepalive_sent_; });
+            lock, std::chrono::milliseconds(1), [this]() { return keepalive_sent_ || destructing_; });
       }
     }
   }
-- 
2.43.0


From db15eddb94501c78fef585ba21f57fbb3ec558c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 39/51] fix: karl/claire: the destructor uses the address of
 Karl with the mutex locked

---
 karl/claire.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index e699ebc..cbf6c0d 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -140,8 +140,12 @@ class GenericClaire final : private DummyClaireNotifiable {
       keepalive_thread_.join();
       CURRENT_ASSERT(!keepalive_thread_running_);
       try {
-        // Deregister self from Karl.
-        HTTP(DELETE(karl_keepalive_route_));
+        // Deregister self from Karl. A request to report to another one may well be served at the moment.
+        const std::string karl_keepalive_route = [this]() {
+          std::lock_guard<std::mutex> keepalive_mutex_lock(keepalive_mutex_);
+          return karl_keepalive_route_;
+        }();
+        HTTP(DELETE(karl_keepalive_route));
       } catch (net::NetworkException&) {  // LCOV_EXCL_LINE
       }
     }
-- 
2.43.0


From dce280b0f99e496e7e852f8b6e2e9939ef93bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 40/51] fix: karl/claire: report the dependencies and the
 locator of Karl while they are being changed

---
 karl/claire.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index cbf6c0d..b0ac0b9 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -153,26 +153,31 @@ class GenericClaire final : private DummyClaireNotifiable {
 
   void AddDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
     dependencies_.insert(service);
   }
 
   void AddDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
     dependencies_.insert(service);
   }
 
   void SetDependencies(const std::vector<std::string>& services) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
     dependencies_ = ParseDependencies(services);
   }
 
   void RemoveDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
     dependencies_.erase(service);
   }
 
   void RemoveDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
     dependencies_.erase(service);
   }
 
@@ -248,7 +253,10 @@ class GenericClaire final : private DummyClaireNotifiable {
                       ForceSendKeepaliveWaitRequest wait_for_keepalive = ForceSendKeepaliveWaitRequest::DoNotWait) {
     {
       std::lock_guard<std::mutex> lock(keepalive_mutex_);
-      karl_ = new_karl_locator;
+      {
+        std::lock_guard<std::mutex> inner_lock(dependencies_and_locator_mutex_);
+        karl_ = new_karl_locator;
+      }
       karl_keepalive_route_ = KarlKeepaliveRoute(karl_, codename_, port_);
       notifiable_ref_.OnKarlLocatorChanged(new_karl_locator);
     }
@@ -291,8 +299,11 @@ class GenericClaire final : private DummyClaireNotifiable {
     status.start_time_epoch_microseconds = us_start_;
 
     status.local_port = port_;
-    status.dependencies.assign(dependencies_.begin(), dependencies_.end());
-    status.reporting_to = karl_.address_port_route;
+    {
+      std::lock_guard<std::mutex> lock(dependencies_and_locator_mutex_);
+      status.dependencies.assign(dependencies_.begin(), dependencies_.end());
+      status.reporting_to = karl_.address_port_route;
+    }
 
     status.now = now;
 
@@ -540,6 +551,10 @@ class GenericClaire final : private DummyClaireNotifiable {
   std::string karl_keepalive_route_;
   IClaireNotifiable& notifiable_ref_;
 
+  // To report `dependencies_` and `karl_` while a keepalive, sending which holds `keepalive_mutex_`, is being sent.
+  // Both mutexes are locked to change them.
+  mutable std::mutex dependencies_and_locator_mutex_;
+
   const std::chrono::microseconds us_start_;
 
   mutable std::mutex status_mutex_;
-- 
2.43.0


From 44491692c85bd9882c352ab29b6296330e881a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 41/51] fix: karl/claire: registering with confirmation does
 not deadlock with the requests being served

---
 karl/claire.h | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index b0ac0b9..0f5bada 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -197,7 +197,11 @@ class GenericClaire final : private DummyClaireNotifiable {
         // The call to `SendKeepaliveToKarl` is blocking.
         // With "&confirm" at the end, the call to Karl would require Karl calling Claire back.
         // Can throw, the exception should propagate up.
-        SendKeepaliveToKarl(lock, karl_keepalive_route_ + "&confirm");
+        // As Karl's call can only be served once the requests being served are, and those may need the mutex,
+        // do not keep it locked, neither here nor while sending the regular keepalives.
+        lock.unlock();
+        SendKeepaliveToKarl(route);
+        lock.lock();
       }
 
       {
@@ -221,15 +225,13 @@ class GenericClaire final : private DummyClaireNotifiable {
       }
     }
 
-    // Generally, unnecessary. For debugging / troubleshooting purposes. -- D.K.
-    if (wait_for_keepalive == ForceSendKeepaliveWaitRequest::Wait) {
-      std::lock_guard<std::mutex> lock(keepalive_mutex_);
-      keepalive_sent_ = false;
-    }
-
-    keepalive_thread_force_wakeup_ = true;
     {
       std::lock_guard<std::mutex> lock(keepalive_mutex_);
+      // Generally, unnecessary. For debugging / troubleshooting purposes. -- D.K.
+      if (wait_for_keepalive == ForceSendKeepaliveWaitRequest::Wait) {
+        keepalive_sent_ = false;
+      }
+      keepalive_thread_force_wakeup_ = true;
       keepalive_condition_variable_.notify_all();
     }
 
@@ -381,16 +383,18 @@ class GenericClaire final : private DummyClaireNotifiable {
   // Sends a keepalive message to Karl.
   // Blocking, and can throw.
   // Possibly via a custom `route`: adding "&confirm", for example, would require Karl to crawl Claire back.
-  void SendKeepaliveToKarl(std::unique_lock<std::mutex>&, const std::string& route) {
+  void SendKeepaliveToKarl(const std::string& route) {
     // Basically, throw in case of any error, and throw only one type: `ClaireRegistrationException`.
     const auto keepalive_body = GenerateKeepaliveStatus();
 
     std::string error_message = "";
 
+    const std::chrono::microseconds timestamp = current::time::Now();
+
     try {
       {
         std::lock_guard<std::mutex> lock(status_mutex_);
-        last_keepalive_attempt_result_.timestamp = current::time::Now();
+        last_keepalive_attempt_result_.timestamp = timestamp;
         last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::Unknown;
         last_keepalive_attempt_result_.http_code = static_cast<uint16_t>(net::HTTPResponseCodeValue::InvalidCode);
       }
@@ -402,8 +406,8 @@ class GenericClaire final : private DummyClaireNotifiable {
         if (static_cast<int>(code) >= 200 && static_cast<int>(code) <= 299) {
           // Success. And anything else is failure.
           last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::Success;
-          last_successful_keepalive_timestamp_ = last_keepalive_attempt_result_.timestamp;
-          last_successful_keepalive_ping_ = current::time::Now() - last_keepalive_attempt_result_.timestamp;
+          last_successful_keepalive_timestamp_ = timestamp;
+          last_successful_keepalive_ping_ = current::time::Now() - timestamp;
           return;
         } else {
           last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::ErrorCodeReturned;
@@ -411,6 +415,7 @@ class GenericClaire final : private DummyClaireNotifiable {
         }
       }
     } catch (const current::Exception& e) {
+      std::lock_guard<std::mutex> lock(status_mutex_);
       last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
       error_message = e.DetailedDescription();
     }
@@ -420,12 +425,6 @@ class GenericClaire final : private DummyClaireNotifiable {
     CURRENT_THROW(ClaireRegistrationException(service_, route, error_message));
   }
 
-  // The semantic to ensure keepalives only happen from a locked section.
-  void SendKeepaliveToKarl(const std::string& route) {
-    std::unique_lock<std::mutex> lock(keepalive_mutex_);
-    SendKeepaliveToKarl(lock, route);
-  }
-
   // The thread sends periodic keepalive messages.
   void KeepaliveThread() {
     while (!destructing_) {
@@ -434,7 +433,10 @@ class GenericClaire final : private DummyClaireNotifiable {
       // Have the interval normalized a bit.
       // TODO(dkorolev): Parameter or named constant for keepalive frequency?
       const std::chrono::microseconds projected_next_keepalive =
-          last_keepalive_attempt_result_.timestamp +
+          [this]() {
+            std::lock_guard<std::mutex> inner_lock(status_mutex_);
+            return last_keepalive_attempt_result_.timestamp;
+          }() +
           std::chrono::microseconds(
               current::random::CSRandomUInt64(static_cast<uint64_t>(20e6 * 0.9), static_cast<uint64_t>(20e6 * 1.1)));
 
@@ -454,14 +456,18 @@ class GenericClaire final : private DummyClaireNotifiable {
         keepalive_thread_force_wakeup_ = false;
       }
 
+      const std::string route = karl_keepalive_route_;
+      lock.unlock();
       try {
-        SendKeepaliveToKarl(lock, karl_keepalive_route_);
+        SendKeepaliveToKarl(route);
       } catch (const ClaireRegistrationException&) {
         // Ignore exceptions if there's a problem talking to Karl. He'll come back. He's Karl.
       }
+      lock.lock();
 
       // Generally, unnecessary. For debugging / troubleshooting purposes. -- D.K.
-      if (!keepalive_sent_) {
+      // If one more keepalive has been requested while this one was being sent, it is the next one which counts.
+      if (!keepalive_sent_ && !keepalive_thread_force_wakeup_) {
         keepalive_sent_ = true;
         keepalive_condition_variable_.notify_all();
       }
-- 
2.43.0


From 2cdd6f3d3120606d7b01f7de254262ce2e1028da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 42/51] fix: persistence/file: do not overwrite the head in
 place across the border of a disk sector

---
 blocks/persistence/file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 304f08a..a090d5f 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -237,6 +237,14 @@ class FilePersister {
       return offset;
     }
 
+    // Whether the head in the very last line of the file, if this line is a "head" directive, can be updated in place.
+    // Only within one disk sector, so that a crash half way through would not leave the head made of two different ones.
+    bool CanRewriteHead(const std::string& head) const {
+      constexpr std::streamoff kSectorSize = 512;
+      const std::streamoff begin = head_offset_;
+      return begin && begin / kSectorSize == (begin + static_cast<std::streamoff>(head.length()) - 1) / kSectorSize;
+    }
+
     // Updates the head in the very last line of the file, where it is a "head" directive. Throws same as the above.
     void RewriteHead(const std::string& head) {
       if (!file_appender_ || !head_rewriter_.seekp(head_offset_, std::ios_base::beg) ||
@@ -573,7 +581,7 @@ class FilePersister {
     }
     iterator.head = timestamp;
     const auto head_str = Printf(constants::kHeadFormatString, static_cast<long long>(timestamp.count()));
-    if (file_persister_impl_->head_offset_) {
+    if (file_persister_impl_->CanRewriteHead(head_str)) {
       file_persister_impl_->RewriteHead(head_str);
     } else {
       const std::string prefix = std::string(constants::kHeadDirective) + ' ';
-- 
2.43.0


From 8286acbae3474a2754fb90a32ac886555aa0b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 43/51] fix: stream: a subscription from a moment in the future
 waits for it, not spins

---
 stream/stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 2d28922..b972c59 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -428,10 +428,11 @@ class Stream final {
           std::unique_lock<std::mutex> lock(impl_->publishing_mutex);
           current::WaitableTerminateSignalBulkNotifier::Scope scope(impl_->notifier, terminate_signal_);
           terminate_signal_.WaitUntil(lock, [this, &index, &size, &begin_idx, &head]() {
+            // Past the entries and the head seen so far the new ones have to be past `from_us_` too to be worth waking up.
             return terminate_signal_ ||
-                   impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (size >= begin_idx &&
-                    impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
+                   (impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head &&
+                    (size >= begin_idx ||
+                     impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index));
           });
         }
       }
-- 
2.43.0


From f8b43ce1b9f71ca512515f36527a74e032cd3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:04 +0000
Subject: [PATCH 44/51] fix: RESTfulStorage should unregister its routes before
 destroying what their handlers use

---
 storage/api.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/api.h b/storage/api.h
index 7b40a71..a9eb0d1 100644
--- a/storage/api.h
+++ b/storage/api.h
@@ -522,13 +522,16 @@ class RESTfulStorage {
 
     std::vector<std::pair<std::string, URLPathArgs::CountMask>> handler_routes_;
     impl::storage_handlers_map_t handlers_;
-    HTTPRoutesScope handlers_scope_;
 
     std::atomic_bool up_status_;
     mutable std::mutex cqs_handlers_mutex_;
     std::unordered_map<std::string, std::pair<cqs_universal_parser_t, cqs_query_handler_t>> cqs_query_map_;
     std::unordered_map<std::string, std::pair<cqs_universal_parser_t, cqs_command_handler_t>> cqs_command_map_;
 
+    // The last one, to be destroyed first: the requests being served, which unregistering the routes waits for,
+    // refer to the members above.
+    HTTPRoutesScope handlers_scope_;
+
     Data(uint16_t port, const std::string& route_prefix) : port_(port), route_prefix_(route_prefix), up_status_(true) {}
   };
   std::unique_ptr<Data> data_;
-- 
2.43.0


From a668c92d3fd92214e6edf16f8d61b68a76dfdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 45/51] fix: WriteStringToFile should report the write failing
 as the file is being closed

---
 bricks/file/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index d93f7c8..dee1a36 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -120,6 +120,7 @@ struct FileSystem {
       fo.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       fo.open(file_name, (append ? std::ofstream::app : std::ofstream::trunc) | std::ofstream::binary);
       fo << contents;
+      fo.close();  // What is still buffered is written here, and the destructor would not report if this fails.
     } catch (const std::ofstream::failure&) {
       CURRENT_THROW(FileException(file_name));
     }
-- 
2.43.0


From 66817c7f2bf0f64edb60d1ffbb6bba6f19956a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 46/51] fix: ReadFileByLines should report a missing file and a
 read error, not take them for the end of the file

---
 bricks/file/file.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index dee1a36..e0c03b3 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -99,13 +99,16 @@ struct FileSystem {
   static inline void ReadFileByLines(const std::string& file_name, F&& f) {
     try {
       std::ifstream fi(file_name);
-      if (fi.bad()) {
+      if (!fi.is_open()) {
         CURRENT_THROW(CannotReadFileException(file_name));
       }
       std::string line;
       while (std::getline(fi, line)) {
         f(std::move(line));
       }
+      if (fi.bad()) {
+        CURRENT_THROW(CannotReadFileException(file_name));
+      }
     } catch (const std::ifstream::failure&) {
       CURRENT_THROW(CannotReadFileException(file_name));
     }
-- 
2.43.0


From 8f6c6b97da398c641bb48d87c49273478f70bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 47/51] fix: ReadFileAsString of a directory should throw
 CannotReadFileException

---
 bricks/file/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index e0c03b3..507f088 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -81,6 +81,7 @@ struct FileSystem {
       std::ifstream fi;
       fi.exceptions(std::ifstream::failbit | std::ifstream::badbit);
       fi.open(file_name, std::ifstream::binary);
+      fi.peek();  // A directory opens, and its "size" is huge; it fails here, as it can not be read from.
       fi.seekg(0, std::ios::end);
       const size_t size = static_cast<size_t>(fi.tellg());
       std::string buffer(size, '\0');
-- 
2.43.0


From 721478a36982e13a361e14fecf9368c570975916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 48/51] fix: ScanDirUntil should stop the whole recursive scan
 when told to stop within a nested directory

---
 bricks/file/file.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 507f088..659eb30 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -257,8 +257,9 @@ struct FileSystem {
     return (*name && ::strcmp(name, ".") && ::strcmp(name, ".."));
   }
 
+  // Returns `false` if the handler has stopped the scan.
   template <typename ITEM_HANDLER>
-  static inline void ScanDirUntil(const std::string& directory,
+  static inline bool ScanDirUntil(const std::string& directory,
                                   ITEM_HANDLER&& item_handler,
                                   ScanDirParameters parameters = ScanDirParameters::ListFilesOnly,
                                   ScanDirRecursive recursive = ScanDirRecursive::No,
@@ -285,12 +286,13 @@ struct FileSystem {
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
               if (!item_handler(ScanDirItemInfo(
                       directory, name, JoinPath(directory, name), is_directory, context.path_components))) {
-                return;
+                return false;
               }
             }
           }
         } while (::FindNextFileA(handle, &find_data) != 0);
       }
+      return true;
 #else
       DIR* dir = ::opendir(directory.c_str());
       const auto closedir_guard = MakeScopeGuard([dir]() {
@@ -312,7 +314,7 @@ struct FileSystem {
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
               if (!item_handler(
                       ScanDirItemInfo(directory, name, std::move(path), is_directory, context.path_components))) {
-                return;
+                return false;
               }
             }
           }
@@ -326,11 +328,13 @@ struct FileSystem {
           CURRENT_THROW(FileException(directory));  // LCOV_EXCL_LINE
         }
       }
+      return true;
 #endif
     } else {
       // Inner lambdas have distinct types thus creating template instantiation limit,
       // which is fixed by casting the lambda to its canonical type.
-      ScanDirUntil(directory,
+      return ScanDirUntil(
+                   directory,
                    static_cast<const std::function<bool(const ScanDirItemInfo&)>>(
                        [&item_handler, parameters, &context](const ScanDirItemInfo& item_info) {
                          const ScanDirParameters mask = item_info.is_directory ? ScanDirParameters::ListDirsOnly
@@ -344,11 +348,11 @@ struct FileSystem {
                            context.path_components.push_back(item_info.basename);
                            const auto guard =
                                current::MakeScopeGuard([&context]() { context.path_components.pop_back(); });
-                           ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
-                                                      std::forward<ITEM_HANDLER>(item_handler),
-                                                      parameters,
-                                                      ScanDirRecursive::Yes,
-                                                      context);
+                           return ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
+                                                             std::forward<ITEM_HANDLER>(item_handler),
+                                                             parameters,
+                                                             ScanDirRecursive::Yes,
+                                                             context);
                          }
                          return true;
                        }),
-- 
2.43.0


From f2825cde178a42075697eb75f85ca4c320f4d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 49/51] fix: ScanDir should report the directory failing to be
 read, not take it for the end of the directory

---
 bricks/file/file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 659eb30..05da5ac 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -301,7 +301,15 @@ struct FileSystem {
         }
       });
       if (dir) {
-        while (struct dirent* entry = ::readdir(dir)) {
+        while (true) {
+          errno = 0;  // The only way to tell an error from the end of the directory.
+          struct dirent* entry = ::readdir(dir);
+          if (!entry) {
+            if (errno) {
+              CURRENT_THROW(FileException(directory));  // LCOV_EXCL_LINE
+            }
+            break;
+          }
           const char* const name = entry->d_name;
           if (ScanDirCanHandleName(name)) {
             // `IsDir` is proved to be required on Ubuntu running in Parallels on a Mac,
-- 
2.43.0


From 41a35014d2aaa32804e562568bc4272a78165699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 50/51] fix: recursive RmDir should remove symbolic links, not
 what they point to, and the dangling ones too

---
 bricks/file/file.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 05da5ac..96a9fc7 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -173,6 +173,16 @@ struct FileSystem {
     }
   }
 
+  static inline bool IsSymbolicLink(const std::string& file_or_directory_name) {
+#ifndef CURRENT_WINDOWS
+    struct stat info;
+    return !::lstat(file_or_directory_name.c_str(), &info) && S_ISLNK(info.st_mode);
+#else
+    static_cast<void>(file_or_directory_name);
+    return false;
+#endif
+  }
+
   static inline uint64_t GetFileSize(const std::string& file_name) {
     struct stat info;
     if (::stat(file_name.c_str(), &info)) {
@@ -312,11 +322,17 @@ struct FileSystem {
           }
           const char* const name = entry->d_name;
           if (ScanDirCanHandleName(name)) {
-            // `IsDir` is proved to be required on Ubuntu running in Parallels on a Mac,
+            // `stat` is proved to be required on Ubuntu running in Parallels on a Mac,
             // with Bricks' directory mounted from Mac's filesystem.
             // `entry->d_type` is always zero there, see http://comments.gmane.org/gmane.comp.lib.libcg.devel/4236
             std::string path = JoinPath(directory, name);
-            const bool is_directory = IsDir(path);
+            // What is gone by now, or is a symbolic link to what does not exist, is still to be listed, and is not a directory.
+            struct stat info;
+            const bool exists = !::stat(path.c_str(), &info);
+            if (!exists && errno != ENOENT && errno != ENOTDIR && errno != ELOOP) {
+              CURRENT_THROW(FileException(path));  // LCOV_EXCL_LINE
+            }
+            const bool is_directory = exists && S_ISDIR(info.st_mode);
             const ScanDirParameters mask =
                 is_directory ? ScanDirParameters::ListDirsOnly : ScanDirParameters::ListFilesOnly;
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
@@ -438,7 +454,7 @@ struct FileSystem {
         ScanDir(
             directory,
             [parameters](const ScanDirItemInfo& item_info) {
-              if (item_info.is_directory) {
+              if (item_info.is_directory && !IsSymbolicLink(item_info.pathname)) {
                 RmDir(item_info.pathname, parameters, RmDirRecursive::Yes);
               } else {
                 RmFile(item_info.pathname,
-- 
2.43.0


From cb437d716148c537abd9d9b561956a77473a4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:51 +0000
Subject: [PATCH 51/51] fix: SelfModifyingConfig should replace the config file
 atomically, and keep the config if this fails

---
 blocks/self_modifying_config/config.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blocks/self_modifying_config/config.h b/blocks/self_modifying_config/config.h
index 6c7080d..560eaed 100644
--- a/blocks/self_modifying_config/config.h
+++ b/blocks/self_modifying_config/config.h
@@ -102,14 +102,18 @@ class SelfModifyingConfig final : public SelfModifyingConfigHelper {
     } catch (const current::FileException&) {
       CURRENT_THROW(SelfModifyingConfigWriteFileException(new_filename));
     }
-    // Then, update the config.
-    config_ = new_config;
-    // Finally, save the current config under the original config file name.
+    // Then, save the new config under a temporary name, and atomically put it in place of the original config file,
+    // so that there is a complete config file at any moment, whatever happens in between.
+    const std::string tmp_filename = filename_ + ".tmp";
     try {
-      current::FileSystem::WriteStringToFile(JSON(config_), filename_.c_str());
+      current::FileSystem::WriteStringToFile(JSON(new_config), tmp_filename.c_str());
+      current::FileSystem::RenameFile(tmp_filename, filename_);
     } catch (const current::FileException&) {
+      current::FileSystem::RmFile(tmp_filename, current::FileSystem::RmFileParameters::Silent);
       CURRENT_THROW(SelfModifyingConfigWriteFileException(filename_));
     }
+    // Finally, update the config in memory.
+    config_ = new_config;
   }
 
   // Not thread-safe.
-- 
2.43.0

