From f162e2d6cadec1179d05dbda2038b489c34d7783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 01/58] fix: trim a torn WAL tail before appending

A crash inside an append leaves a partial frame at the end of the log.
Replay stops there, so every operation acknowledged after the restart was
lost at the next one.
---
 include/recovery/write_ahead_log.hpp | 46 ++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..5da8cb7 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,55 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Returns the byte length of the leading run of complete, valid frames.
+   *
+   * Replay stops at the first damaged frame, so anything appended behind one would never be seen.
+   */
+  [[nodiscard]] auto valid_prefix_size(uintmax_t wal_file_size) const -> uintmax_t {
+    std::ifstream input(path_, std::ios::binary);
+    if (!input.is_open()) {
+      throw std::runtime_error("Failed to open WAL file at " + path_.string());
+    }
+    uintmax_t valid_size = 0;
+    while (true) {
+      auto header = read_frame_header(input);
+      if (!header.has_value() ||
+          !payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+        return valid_size;
+      }
+      input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+      uint32_t trailer = 0;
+      input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+      if (!input || trailer != kWalTrailerMagic) {
+        return valid_size;
+      }
+      valid_size = static_cast<uintmax_t>(input.tellg());
+    }
+  }
+
+  /**
+   * @brief Cuts off a torn tail left by a crash so that new frames follow the last valid one.
+   */
+  auto trim_torn_tail() const -> void {
+    if (!fs::exists(path_)) {
+      return;
+    }
+    const auto wal_file_size = fs::file_size(path_);
+    const auto valid_size = valid_prefix_size(wal_file_size);
+    if (valid_size < wal_file_size) {
+      LOG_WARN("WAL torn tail trimmed from {} to {} bytes at {}",
+               wal_file_size,
+               valid_size,
+               path_.string());
+      fs::resize_file(path_, valid_size);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      trim_torn_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From a6aa01fb2998a9af3313518ada64dcfd995d1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 02/58] fix: report WAL appends that could not be written or
 synced

A failed write left the stream in an error state: that append and every
later one were acknowledged although nothing reached the log.
---
 include/recovery/write_ahead_log.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 5da8cb7..fad68fd 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -396,12 +396,19 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopening trims whatever part of the frame reached the file.
+      wal_stream_.clear();
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append WAL frame at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From d72a9165bdc506ba15833734da5f442ee117c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 03/58] fix: keep operation ids above the checkpoint's after a
 restart

next_operation_id() let the scan of the (truncated) log overwrite the bound
taken from the checkpoint, so ids restarted at 1 and the operations carrying
them were skipped as already applied at the following restart.
---
 include/recovery/recovery_manager.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..4bac959 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -58,7 +58,8 @@ class RecoveryManager {
     if (manifest.has_value()) {
       max_seen = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
+    // The scan starts from the bound it is given, so it never falls below the snapshot's.
+    (void)wal_.replayable_records(max_seen, &max_seen);
     return max_seen + 1;
   }
 
-- 
2.43.0


From 111b0f507cbabff725f081345a1336c2b12cf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 04/58] fix: never build a checkpoint inside an existing
 snapshot directory

Two checkpoints in the same millisecond, or after a clock step, shared one
directory: the published checkpoint was overwritten in place.
---
 include/recovery/recovery_manager.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 4bac959..beea249 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -66,10 +66,10 @@ class RecoveryManager {
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
     auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
+    auto snapshot_dir = snapshots_dir_ / ("snapshot-" + std::to_string(now));
+    while (!fs::create_directory(snapshot_dir)) {
+      snapshot_dir = snapshots_dir_ / ("snapshot-" + std::to_string(++now));
+    }
     return snapshot_dir;
   }
 
-- 
2.43.0


From 0ba6d7353c971d60c4b5e7c4f6b962d1b40452d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 05/58] fix: do not publish a checkpoint whose manifest could
 not be written

A short write (disk full) of the manifest or of CURRENT was renamed into
place, after which the log and the previous checkpoint were removed.
---
 include/recovery/recovery_manager.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index beea249..80fc726 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -255,9 +255,12 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
-    platform::sync_file(tmp_path);
+    platform::sync_file_or_throw(tmp_path);
     platform::atomic_replace(tmp_path, path);
     platform::sync_directory(path.parent_path());
   }
-- 
2.43.0


From 4e3e163e4c6fdb2c31ff39f64b23a55a65cb62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 06/58] fix: do not restore a checkpoint on top of files that
 could not be removed

Leftovers of the old database were mixed into the restored one.
---
 include/recovery/recovery_manager.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 80fc726..62d2c20 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -173,9 +173,7 @@ class RecoveryManager {
     }
 
     fs::create_directories(active_rocksdb_path_.parent_path());
-    std::error_code ec;
-    fs::remove_all(active_rocksdb_path_, ec);
-    ec.clear();
+    fs::remove_all(active_rocksdb_path_);
     copy_directory_recursive(source, active_rocksdb_path_);
     LOG_INFO("recovery: restored rocksdb checkpoint from {}", source.string());
   }
-- 
2.43.0


From 81efb24c5bd769185fb3ca17e31f832957a93928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 07/58] fix: persist the record count together with the records

The count was written only on flush and close, so after a process death the
reopened store reported a stale number of records.
---
 include/storage/rocksdb_storage.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..2477b30 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -240,6 +240,9 @@ class RocksDBStorage {
 
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
+    if (!replacing_existing) {
+      put_count(batch, cached_count_.load() + 1);
+    }
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -345,6 +348,7 @@ class RocksDBStorage {
       // Add field indexes for indexed fields
       add_field_indexes(batch, record.id, record.data);
     }
+    put_count(batch, cached_count_.load() + inserted_count);
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -379,6 +383,9 @@ class RocksDBStorage {
 
     // Remove field indexes
     remove_field_indexes(batch, id, data);
+    if (cached_count_ > 0) {
+      put_count(batch, cached_count_.load() - 1);
+    }
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -984,6 +991,11 @@ class RocksDBStorage {
     db_->Put(sync_options, count_key(), count_slice);
   }
 
+  // Keeps the persisted count in step with the records of the same batch.
+  static void put_count(rocksdb::WriteBatch &batch, size_t cnt) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&cnt), sizeof(size_t)));
+  }
+
   static auto item_id_index_key(const std::string &item_id) -> std::string {
     return "i_" + item_id;
   }
-- 
2.43.0


From 712e99a2a34d1171f265ebc7bd4434b21522e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 08/58] fix: do not take longer values or names for a match in
 the field index

Looking up "a" in the field index also returned the records whose value
starts with "a_", because the separator may occur in values and names.
---
 include/storage/rocksdb_storage.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 2477b30..4b53320 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -568,6 +568,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // A longer string value (or field name) continues past the separator; ids are digits only.
+      if (key.find_first_not_of("0123456789", prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
@@ -612,6 +616,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (encoded_value.size() != end_encoded.size()) {
+        continue;  // Key of another field whose name starts with this one
+      }
       if (encoded_value > end_encoded) {
         break;  // Exceeded max value
       }
@@ -656,6 +663,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (encoded_value.size() != end_encoded.size()) {
+        continue;  // Key of another field whose name starts with this one
+      }
       if (encoded_value > end_encoded) {
         break;
       }
-- 
2.43.0


From 74fa5a7f3714929dcecaee22e21cb26978bb0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 09/58] fix: answer filters on doubles from the index as the
 scan does

Infinities were outside every indexed range, -0.0 and 0.0 were told apart,
the largest double satisfied > itself, and NaN compared as equal to any
number.
---
 include/utils/metadata_filter.hpp         |  7 ++-
 include/utils/metadata_filter_matcher.hpp | 75 ++++++++++++++++++-----
 2 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/include/utils/metadata_filter.hpp b/include/utils/metadata_filter.hpp
index 876d061..ab2b0ee 100644
--- a/include/utils/metadata_filter.hpp
+++ b/include/utils/metadata_filter.hpp
@@ -96,7 +96,7 @@ struct FilterCondition {
  private:
   /**
    * @brief Compare two MetadataValue objects
-   * @return -1 if a < b, 0 if a == b, 1 if a > b
+   * @return -1 if a < b, 0 if a == b, 1 if a > b, nullopt if they are not comparable
    */
   static auto compare(const MetadataValue &a, const MetadataValue &b) -> std::optional<int> {
     // Type mismatch: cannot compare
@@ -114,7 +114,10 @@ struct FilterCondition {
           if (va > vb) {
             return 1;
           }
-          return 0;
+          if (va == vb) {
+            return 0;
+          }
+          return std::nullopt;  // NaN is unordered
         },
         a);
   }
diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..984e751 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <algorithm>
+#include <bit>
 #include <cmath>
 #include <cstdint>
 #include <limits>
@@ -168,20 +169,61 @@ class MetadataFilterExecutor {
     return std::find(indexed_fields.begin(), indexed_fields.end(), field) != indexed_fields.end();
   }
 
+  // Bit tests, because release builds assume that NaN, infinities and -0.0 do not occur.
+  static constexpr uint64_t kSignBit = uint64_t{1} << 63;
+  static constexpr uint64_t kInfinityBits = uint64_t{0x7FF} << 52;
+
+  static auto magnitude_bits(const MetadataValue &value) -> uint64_t {
+    return std::bit_cast<uint64_t>(std::get<double>(value)) & ~kSignBit;
+  }
+  static auto is_nan(const MetadataValue &value) -> bool {
+    return std::holds_alternative<double>(value) && magnitude_bits(value) > kInfinityBits;
+  }
+  static auto is_double_zero(const MetadataValue &value) -> bool {
+    return std::holds_alternative<double>(value) && magnitude_bits(value) == 0;
+  }
+  /// The bound as a double, where either zero becomes the one that includes both.
+  static auto range_bound(const MetadataValue &value, bool lower) -> double {
+    auto bits = std::bit_cast<uint64_t>(std::get<double>(value));
+    if (magnitude_bits(value) == 0) {
+      bits = lower ? kSignBit : 0;
+    }
+    return std::bit_cast<double>(bits);
+  }
+
+  [[nodiscard]] auto lookup_equal_ids(const std::string &field, const MetadataValue &value) const
+      -> std::vector<IDType> {
+    if (is_nan(value)) {
+      return {};
+    }
+    if (is_double_zero(value)) {
+      return storage_->get_ids_by_double_range(field,
+                                               range_bound(value, true),
+                                               range_bound(value, false));
+    }
+    return storage_->get_ids_by_field_value(field, value);
+  }
+
   [[nodiscard]] auto lookup_indexed_ids(const FilterCondition &cond) const
       -> std::optional<std::vector<IDType>> {
     if (!is_indexed_field(cond.field)) {
       return std::nullopt;
     }
 
+    // The index orders doubles by their bits: NaN sorts like a number and -0.0 before 0.0.
+    if (is_nan(cond.value)) {
+      return std::nullopt;
+    }
+
+    constexpr auto kInfinity = std::numeric_limits<double>::infinity();
     std::vector<IDType> ids;
     switch (cond.op) {
       case FilterOp::EQ:
-        return storage_->get_ids_by_field_value(cond.field, cond.value);
+        return lookup_equal_ids(cond.field, cond.value);
       case FilterOp::IN_SET:
         ids.reserve(cond.values.size());
         for (const auto &value : cond.values) {
-          auto partial = storage_->get_ids_by_field_value(cond.field, value);
+          auto partial = lookup_equal_ids(cond.field, value);
           ids.insert(ids.end(), partial.begin(), partial.end());
         }
         std::sort(ids.begin(), ids.end());
@@ -195,8 +237,8 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   range_bound(cond.value, true),
+                                                   kInfinity);
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -211,10 +253,12 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+          if (std::bit_cast<uint64_t>(value) == kInfinityBits) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field,
+                                                   std::nextafter(value, kInfinity),
+                                                   kInfinity);
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,8 +269,8 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
-                                                   std::get<double>(cond.value));
+                                                   -kInfinity,
+                                                   range_bound(cond.value, false));
         }
         return std::nullopt;
       case FilterOp::LT:
@@ -241,11 +285,12 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
-                                        std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+          if (std::bit_cast<uint64_t>(value) == (kInfinityBits | kSignBit)) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field,
+                                                   -kInfinity,
+                                                   std::nextafter(value, -kInfinity));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From d033c33d93c51e29e1c2f3f6254c6bdd2d8199df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 10/58] fix: decode damaged boolean metadata without undefined
 behaviour

---
 include/utils/scalar_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/scalar_data.hpp b/include/utils/scalar_data.hpp
index 12bc529..2b484f3 100644
--- a/include/utils/scalar_data.hpp
+++ b/include/utils/scalar_data.hpp
@@ -423,8 +423,8 @@ struct ScalarData {
           offset = size + 1;
           return int64_t{0};
         }
-        bool v;
-        std::memcpy(&v, data + offset, sizeof(v));
+        // Any byte may be stored here; only 0 and 1 are valid representations of a bool.
+        const bool v = data[offset] != 0;
         offset += sizeof(v);
         return v;
       }
-- 
2.43.0


From 04e0dc104940132e116143521a4f775d0c371798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 11/58] fix: restore the distance function when a space is
 loaded

---
 include/space/raw_space.hpp | 1 +
 include/space/sq4_space.hpp | 1 +
 include/space/sq8_space.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..d7c5bce 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -383,6 +383,7 @@ class RawSpace {
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
     data_storage_.load(reader);
+    set_metric_function();
     LOG_INFO("RawSpace is loaded from {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..10ea922 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -362,6 +362,7 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    set_metric_function();
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..ea7d674 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -361,6 +361,7 @@ class SQ8Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    set_metric_function();
     LOG_INFO("SQ8Space is loaded from {}", filename);
   }
 
-- 
2.43.0


From aedb180e1f4e1ccf5606caae1129ef57c3b9548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 12/58] fix: do not count or describe a vector that a full
 space refused

---
 include/space/raw_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index d7c5bce..76a3457 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,6 +163,9 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-- 
2.43.0


From bdcfa625c04c32650bfd1b530824cda9237a350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 13/58] fix: removing an unknown or already removed id changes
 nothing

---
 include/space/raw_space.hpp | 3 +++
 include/space/sq4_space.hpp | 3 +++
 include/space/sq8_space.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 76a3457..f76a447 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -183,6 +183,9 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
+    if (id >= capacity_ || !data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 10ea922..acf1927 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -308,6 +308,9 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (id >= capacity_ || !data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index ea7d674..516d2e9 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -307,6 +307,9 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (id >= capacity_ || !data_storage_.is_valid(id)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
-- 
2.43.0


From f6e15d4a9c336edaaab0d73a95c050856e305e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 14/58] fix: keep ids and counts in step when a space refuses
 scalar data

---
 include/space/raw_space.hpp | 2 ++
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index f76a447..352a8d7 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -170,6 +170,8 @@ class RawSpace {
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index acf1927..d62a2d0 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -291,7 +291,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 516d2e9..cc520e2 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -290,7 +290,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
-- 
2.43.0


From 348116fce2cbfd285df1a002744c6717914f1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 15/58] fix: read 4-bit codes with the ranges of the components
 they encode

---
 include/space/sq4_space.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index d62a2d0..9d451aa 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -85,6 +85,7 @@ class SQ4Space {
     data_size_ = ((dim + 1) / 2) * sizeof(uint8_t);
     data_storage_.init(data_size_, capacity);
     set_metric_function();
+    refresh_packed_ranges();
   }
 
   ~SQ4Space() = default;
@@ -134,6 +135,7 @@ class SQ4Space {
     item_cnt_ = item_cnt;
 
     quantizer_.fit(data, item_cnt);
+    refresh_packed_ranges();
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
       quantizer_.encode(data + (i * dim_), data_storage_[id]);
@@ -175,9 +177,9 @@ class SQ4Space {
   auto get_distance(IDType i, IDType j) -> DistanceType {
     return distance_calu_func_(get_data_by_id(i),
                                get_data_by_id(j),
-                               dim_,
-                               quantizer_.get_min(),
-                               quantizer_.get_max());
+                               packed_min_.size(),
+                               packed_min_.data(),
+                               packed_max_.data());
   }
 
   /**
@@ -365,6 +367,7 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    refresh_packed_ranges();
     set_metric_function();
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
@@ -435,9 +438,9 @@ class SQ4Space {
     auto operator()(IDType u) const -> DistanceType {
       return distance_space_.distance_calu_func_(query_,
                                                  distance_space_.get_data_by_id(u),
-                                                 distance_space_.get_dim(),
-                                                 distance_space_.get_quantizer().get_min(),
-                                                 distance_space_.get_quantizer().get_max());
+                                                 distance_space_.packed_min_.size(),
+                                                 distance_space_.packed_min_.data(),
+                                                 distance_space_.packed_max_.data());
     }
   };
 
@@ -480,11 +483,25 @@ class SQ4Space {
   IDType delete_cnt_{0};              ///< Number of deleted data points (nodes)
   DataStorage data_storage_;          ///< Data storage for encoded data
   SQ4Quantizer<DataType> quantizer_;  ///< The quantizer used to quantize the data
+  std::vector<DataType> packed_min_;  ///< Minimum values in the order the kernels read the codes
+  std::vector<DataType> packed_max_;  ///< Maximum values in the order the kernels read the codes
 
   RocksDBConfig config_;  ///< Configuration for Scalar Data Storage
   std::unique_ptr<RocksDBStorage<IDType>>
       scalar_storage_;  ///< Scalar Data Storage (stores ScalarData)
 
+  // The quantizer packs the even component of a pair into the high nibble and the odd one into the
+  // low nibble, while the distance kernels read the low nibble first: hand them the ranges in that
+  // order. The low nibble left over in an odd dimension gets an empty range and contributes nothing.
+  void refresh_packed_ranges() {
+    packed_min_.assign(data_size_ * 2, DataType{});
+    packed_max_.assign(data_size_ * 2, DataType{});
+    for (uint32_t i = 0; i < dim_; ++i) {
+      packed_min_[i ^ 1U] = quantizer_.get_min()[i];
+      packed_max_[i ^ 1U] = quantizer_.get_max()[i];
+    }
+  }
+
   // TODO(review - scalar storage dedup): extract scalar_storage_ plus save/load_scalar_config into
   // a shared helper reused by Raw/SQ4/SQ8/RaBitQ spaces.
   // TODO(review - portable snapshots): checkpoint the RocksDB contents or rewrite db_path_
-- 
2.43.0


From d5b3e2fae2c78a0b50366785798949aede389227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 16/58] fix: wake every thread that waits for the pool's tasks

---
 include/utils/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..7c3276a 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -47,7 +47,7 @@ class ThreadPool {
           {
             std::lock_guard<std::mutex> lock(this->queue_mutex_);
             tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
+            condition_tasks_completed_.notify_all();
           }
         }
       });
-- 
2.43.0


From e039d95a3ff0469902235d54ddafa730817012a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 17/58] fix: keep workers running until the scheduler is joined

---
 include/executor/worker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..03e946b 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -108,7 +108,8 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Tasks may still be scheduled until join() is called.
+          if (!active_.load() && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
@@ -170,7 +171,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic<bool> active_{true};  ///< Flag indicating whether the worker is active.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From 286f1c6592aa91ba30dbbcc69e93364cc089f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 18/58] fix: resume a task that yields to the scheduler only
 once

---
 include/executor/scheduler.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..5b8247e 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -62,15 +62,16 @@ class Scheduler {
      * @brief Suspends the current coroutine and schedules it to be resumed later by a worker
      * thread.
      *
-     * This function stores the awaiting coroutine and hands control back to the scheduler. The
-     * coroutine will be resumed by the worker thread once the task is ready to continue.
+     * This function hands control back to the worker that is running the coroutine. The worker
+     * keeps the coroutine among its local tasks and resumes it in its next round, so it must not
+     * be queued a second time.
      *
      * @param awaiting_coroutine The coroutine that is waiting to be resumed.
      * @return Always returns true to indicate that the coroutine is suspended.
      */
     template <typename Promise>
-    auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+    auto await_suspend([[maybe_unused]] std::coroutine_handle<Promise> awaiting_coroutine) noexcept
+        -> bool {
       return true;
     }
 
-- 
2.43.0


From 1f207f46a4c2b2a6b4ab4492d7317830cdb792e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 19/58] fix: build NSG graphs over few vectors

---
 include/index/graph/knng/nndescent.hpp  |  8 +++++---
 include/index/graph/nsg/nsg_builder.hpp | 11 +++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/knng/nndescent.hpp b/include/index/graph/knng/nndescent.hpp
index 870c392..f92a3d7 100644
--- a/include/index/graph/knng/nndescent.hpp
+++ b/include/index/graph/knng/nndescent.hpp
@@ -140,7 +140,8 @@ struct NndescentImpl {
     // copy the graph
     for (IDType i = 0; i < vector_num_; ++i) {
       std::sort(graph_[i].candidate_pool_.begin(), graph_[i].candidate_pool_.end());
-      for (uint32_t j = 0; j < max_nbrs_; j++) {
+      auto nbr_num = std::min<size_t>(max_nbrs_, graph_[i].candidate_pool_.size());
+      for (uint32_t j = 0; j < nbr_num; j++) {
         final_graph->at(i, j) = graph_[i].candidate_pool_[j].id_;
       }
     }
@@ -437,8 +438,9 @@ struct NndescentImpl {
             tmp.push_back(Neighbor<IDType>(iter, dist, true));
           }
 
-          std::partial_sort(tmp.begin(), tmp.begin() + max_nbrs_, tmp.end());
-          for (uint32_t it = 0; it < max_nbrs_; ++it) {
+          auto nbr_num = std::min<size_t>(max_nbrs_, tmp.size());
+          std::partial_sort(tmp.begin(), tmp.begin() + nbr_num, tmp.end());
+          for (uint32_t it = 0; it < nbr_num; ++it) {
             eval_gt[j].push_back(tmp[it].id_);
           }
         }
diff --git a/include/index/graph/nsg/nsg_builder.hpp b/include/index/graph/nsg/nsg_builder.hpp
index 9780854..e48b038 100644
--- a/include/index/graph/nsg/nsg_builder.hpp
+++ b/include/index/graph/nsg/nsg_builder.hpp
@@ -207,16 +207,17 @@ struct NSGBuilder {
                        std::vector<Neighbor<IDType>> &retset,
                        std::vector<Node<IDType>> &full_set) const {
     RandomGenerator gen(0x1234);
+    pool_size = static_cast<int>(std::min<IDType>(pool_size, vector_num_));
     retset.resize(pool_size + 1);
 
     std::vector<IDType> init_ids(pool_size);
     int num_ids = 0;
     for (size_t i = 0; i < init_ids.size() && i < graph->max_nbrs_; i++) {
       IDType id = graph->at(ep, i);
-      if (id >= vector_num_) {
+      if (id >= vector_num_ || vis[id]) {
         continue;
       }
-      init_ids[i] = id;
+      init_ids[num_ids] = id;
       vis[id] = true;
       num_ids += 1;
     }
@@ -357,10 +358,12 @@ struct NSGBuilder {
     std::vector<Node<IDType>> result;
 
     size_t start = 0;
-    if (pool[start].id_ == q) {
+    if (start < pool.size() && pool[start].id_ == q) {
       start++;
     }
-    result.push_back(pool[start]);
+    if (start < pool.size()) {
+      result.push_back(pool[start]);
+    }
 
     while (result.size() < max_nbrs_ && (++start) < pool.size() && start < cut_len_) {  // NOLINT
       auto &p = pool[start];
-- 
2.43.0


From 01b96a3d37fc8c56617f8315a68716c1d7c2c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 20/58] fix: link the unreached nodes of an NSG graph instead
 of the reached ones

---
 include/index/graph/nsg/nsg_builder.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/nsg/nsg_builder.hpp b/include/index/graph/nsg/nsg_builder.hpp
index e48b038..f0bc2ba 100644
--- a/include/index/graph/nsg/nsg_builder.hpp
+++ b/include/index/graph/nsg/nsg_builder.hpp
@@ -501,8 +501,10 @@ struct NSGBuilder {
       if (static_cast<IDType>(cnt) >= vector_num_) {
         break;
       }
+      std::vector<bool> unlinked(vis);
+      unlinked.flip();
       std::vector<bool> vis2(vector_num_, false);
-      root = attach_unlinked(vis, vis2, degrees);
+      root = attach_unlinked(unlinked, vis2, degrees);
       num_attached += 1;
     }
     return num_attached;
@@ -523,7 +525,7 @@ struct NSGBuilder {
     IDType node = root;
     std::stack<IDType> stack;
     stack.push(root);
-    if (vis[root]) {
+    if (!vis[root]) {
       cnt++;
     }
     vis[root] = true;
@@ -559,10 +561,10 @@ struct NSGBuilder {
    * connected and linking them to nodes with available degree slots. It ensures that
    * all nodes are eventually connected in the graph.
    *
-   * @param vis A vector indicating whether each node has been visited.
+   * @param vis A vector indicating whether each node is not linked to the tree yet.
    * @param vis2 A secondary vector indicating whether each node has been visited.
    * @param degrees A vector containing the degree of each node.
-   * @return IDType The ID of the node that was attached.
+   * @return IDType The ID of the node to continue the traversal from.
    */
   auto attach_unlinked(std::vector<bool> &vis,
                        std::vector<bool> &vis2,
@@ -591,12 +593,21 @@ struct NSGBuilder {
     bool found = false;
     for (size_t i = 0; i < pool.size(); i++) {
       node = pool[i].id_;
-      if (degrees[node] < max_nbrs_ && node != id) {
+      if (!vis[node] && degrees[node] < max_nbrs_ && node != id) {
         found = true;
         break;
       }
     }
     if (!found) {
+      bool any_free = false;
+      for (IDType i = 0; i < vector_num_ && !any_free; i++) {
+        any_free = !vis[i] && degrees[i] < max_nbrs_;
+      }
+      if (!any_free) {
+        // No linked node has a free slot, so searches have to start from this one as well.
+        final_graph_->eps_.push_back(id);
+        return id;
+      }
       do {
         node = rng_.rand_int(vector_num_);
         if (!vis[node] && degrees[node] < max_nbrs_ && node != id) {
-- 
2.43.0


From c80ce9a793ec8c67d7b739da9f238749ffb5c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 21/58] fix: build and search RaBitQ graphs over few vectors

---
 include/executor/jobs/graph_search_job.hpp |  2 ++
 include/index/graph/qg/qg_builder.hpp      | 11 +++++++----
 include/space/rabitq_space.hpp             |  5 ++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..985a4bd 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -410,6 +410,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
+    std::fill(ids, ids + k, std::numeric_limits<IDType>::max());
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
   }
 
@@ -482,6 +483,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
+    std::fill(ids, ids + k, std::numeric_limits<IDType>::max());
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
 
     co_return;
diff --git a/include/index/graph/qg/qg_builder.hpp b/include/index/graph/qg/qg_builder.hpp
index d69de3f..98b9d88 100644
--- a/include/index/graph/qg/qg_builder.hpp
+++ b/include/index/graph/qg/qg_builder.hpp
@@ -107,6 +107,9 @@ class QGBuilder {
   // std::unique_ptr<Graph<DataType, IDType>> final_graph_;
   std::shared_ptr<DistanceSpaceType> space_;
 
+  /// Distinct neighbors a vertex can have: the degree bound, or all other vertices if they are fewer.
+  auto target_degree() const -> size_t { return std::min(degree_bound_, num_nodes_ - 1); }
+
   void iter(bool sup) {
     if (sup) {
       for (size_t i = 0; i < num_nodes_; ++i) {
@@ -127,7 +130,7 @@ class QGBuilder {
     // update result with space and graph in the end of every iteration
     ALAYA_OMP_PARALLEL_FOR_DYNAMIC
     for (int64_t i = 0; i < static_cast<int64_t>(num_nodes_); ++i) {
-      if (sup && new_neighbors_[i].size() < degree_bound_) {
+      if (sup && new_neighbors_[i].size() < target_degree()) {
         LOG_ERROR("After supplement, node_{} only has {} neighbors.", i, new_neighbors_[i].size());
       }
       space_->update_nei(i, new_neighbors_[i]);
@@ -254,13 +257,13 @@ class QGBuilder {
       add_pruned_edges(cur_neighbors, pruned_list, new_result, right);
 
       // if the vertex still doesn't have enough neighbors, use random vertices
-      if (new_result.size() < degree_bound_) {
+      if (new_result.size() < target_degree()) {
         std::unordered_set<IDType> ids;
         ids.reserve(degree_bound_);
         for (auto &neighbor : new_result) {
           ids.emplace(neighbor.id_);
         }
-        while (new_result.size() < degree_bound_) {
+        while (new_result.size() < target_degree()) {
           IDType rand_id = rand_integer<IDType>(0, static_cast<IDType>(num_nodes_) - 1);
           if (rand_id != static_cast<IDType>(i) && ids.find(rand_id) == ids.end()) {
             new_result.emplace_back(rand_id, space_->get_distance(rand_id, i));
@@ -505,7 +508,7 @@ class QGBuilder {
       // generate random neighbors
       std::unordered_set<IDType> neighbor_set;
       neighbor_set.reserve(degree_bound_);
-      while (neighbor_set.size() < degree_bound_) {
+      while (neighbor_set.size() < target_degree()) {
         IDType rand_id = rand_integer<IDType>(0, num_nodes_ - 1);
         if (rand_id != static_cast<IDType>(i)) {
           neighbor_set.emplace(rand_id);
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..a468a5a 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -237,11 +237,14 @@ class RaBitQSpace {
 
   void update_nei(IDType c, const std::vector<Neighbor<IDType, DistanceType>> &new_neighbors) {
     size_t cur_degree = new_neighbors.size();
+
+    auto nei_ptr = get_edges(c);
+    // searches scan every slot: an unused one refers to the vertex itself, which they have visited
+    std::fill(nei_ptr + std::min(cur_degree, kDegreeBound), nei_ptr + kDegreeBound, c);
     if (cur_degree == 0) {
       return;
     }
 
-    auto nei_ptr = get_edges(c);
     // update neighbors' IDs
     for (size_t i = 0; i < cur_degree; ++i) {
       *(nei_ptr + i) = new_neighbors[i].id_;
-- 
2.43.0


From 37e1c044b3307a4334e54cabd991c7763b07268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 22/58] fix: draw HNSW levels under the lock of the graph

---
 include/index/graph/hnsw/hnswlib.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/hnsw/hnswlib.hpp b/include/index/graph/hnsw/hnswlib.hpp
index ec32f04..292f34d 100644
--- a/include/index/graph/hnsw/hnswlib.hpp
+++ b/include/index/graph/hnsw/hnswlib.hpp
@@ -659,11 +659,12 @@ class HNSWImpl {
     }
 
     std::unique_lock<std::mutex> lock_el(link_list_locks_[internal_id]);
-    // Calculate the maximum number of levels for the current insertion point.
+    std::unique_lock<std::mutex> templock(global_);
+    // Calculate the maximum number of levels for the current insertion point. The generator is
+    // shared by all threads that build the graph.
     int cur_level = get_random_level(mult_);
     element_levels_[internal_id] = cur_level;
 
-    std::unique_lock<std::mutex> templock(global_);
     int maxlevel_copy = maxlevel_;
     if (cur_level <= maxlevel_copy) {
       templock.unlock();
-- 
2.43.0


From ad8656e67bd191a8cfd72ef914c8b8d051605010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 23/58] fix: removed vectors are no search results

---
 include/executor/jobs/graph_search_job.hpp | 27 ++++++++++++++++++----
 include/executor/vector_iterator.hpp       |  7 +++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 985a4bd..efa13ea 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -138,6 +138,19 @@ struct GraphSearchJob {
     std::fill(distances + begin, distances + end, kInvalidDistance);
   }
 
+  /**
+   * @brief Number of results a sorted pool holds for a query: removed vectors are kInvalidDistance
+   * away, hence at its end, and are no results.
+   */
+  static auto existing_results(const LinearPool<DistanceType, IDType> &pool, uint32_t topk)
+      -> uint32_t {
+    auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+    while (result_count > 0 && pool.dist(result_count - 1) == kInvalidDistance) {
+      --result_count;
+    }
+    return result_count;
+  }
+
   struct RerankCandidate {
     DistanceType distance_;
     IDType id_;
@@ -275,6 +288,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -323,6 +339,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -545,7 +564,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = existing_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -612,7 +631,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = existing_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
@@ -677,7 +696,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = existing_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -743,7 +762,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = existing_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
diff --git a/include/executor/vector_iterator.hpp b/include/executor/vector_iterator.hpp
index 26a45f7..a68435f 100644
--- a/include/executor/vector_iterator.hpp
+++ b/include/executor/vector_iterator.hpp
@@ -145,7 +145,12 @@ class GraphVectorIterator final : public VectorIterator<IDType, DistanceType> {
         continue;
       }
 
-      pending_candidate_ = VectorCandidate<IDType, DistanceType>{node, (*exact_qc_)(node)};
+      auto distance = (*exact_qc_)(node);
+      if (distance == std::numeric_limits<DistanceType>::max()) {
+        continue;  // removed
+      }
+
+      pending_candidate_ = VectorCandidate<IDType, DistanceType>{node, distance};
       return true;
     }
 
-- 
2.43.0


From 6d0f445fcbaaf103eceb0aed7d3789346cb53662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 24/58] fix: copy filtered search results into 64-bit ids

---
 include/executor/jobs/graph_hybrid_search_job.hpp  | 2 +-
 include/executor/jobs/graph_search_job.hpp         | 8 ++++----
 include/utils/rabitq_utils/search_utils/buffer.hpp | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index b50f3bc..cca6f1f 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -143,7 +143,7 @@ struct GraphHybridSearchJob {
                                      IDType *ids,
                                      uint32_t topk) -> uint32_t {
     auto result_count = static_cast<uint32_t>(std::min<size_t>(pool.size(), topk));
-    pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), result_count);
+    pool.copy_results_to(ids, result_count);
     return result_count;
   }
 
diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index efa13ea..37e20db 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -430,7 +430,7 @@ struct GraphSearchJob {
 
     // return result
     std::fill(ids, ids + k, std::numeric_limits<IDType>::max());
-    res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    res_pool.copy_results_to(ids);
   }
 
 #if defined(__linux__)
@@ -503,7 +503,7 @@ struct GraphSearchJob {
 
     // return result
     std::fill(ids, ids + k, std::numeric_limits<IDType>::max());
-    res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    res_pool.copy_results_to(ids);
 
     co_return;
   }
@@ -877,7 +877,7 @@ struct GraphSearchJob {
     }
 
     std::fill(ids, ids + search_info.topk_, std::numeric_limits<IDType>::max());
-    result_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), search_info.topk_);
+    result_pool.copy_results_to(ids, search_info.topk_);
   }
 
   void rabitq_search_solo(const DataType *query,
@@ -905,7 +905,7 @@ struct GraphSearchJob {
     }
 
     std::fill(ids, ids + topk, std::numeric_limits<IDType>::max());
-    result_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), topk);
+    result_pool.copy_results_to(ids, topk);
   }
 };
 
diff --git a/include/utils/rabitq_utils/search_utils/buffer.hpp b/include/utils/rabitq_utils/search_utils/buffer.hpp
index 1b8db39..7ae13ca 100644
--- a/include/utils/rabitq_utils/search_utils/buffer.hpp
+++ b/include/utils/rabitq_utils/search_utils/buffer.hpp
@@ -121,13 +121,15 @@ class SearchBuffer {
     data_ = std::vector<ANNCand, AlignedAlloc<ANNCand>>(capacity_ + 1);
   }
 
-  void copy_results_to(PID *knn, size_t knn_size) const {
+  template <typename OutputID>
+  void copy_results_to(OutputID *knn, size_t knn_size) const {
     for (size_t i = 0; i < std::min(size_, knn_size); ++i) {
       knn[i] = data_[i].id_;
     }
   }
 
-  void copy_results_to(PID *knn) const {
+  template <typename OutputID>
+  void copy_results_to(OutputID *knn) const {
     for (size_t i = 0; i < size_; ++i) {
       knn[i] = data_[i].id_;
     }
-- 
2.43.0


From 42ea05aadddfca14999ad53782d682ac21a8a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 25/58] fix: leave unused edges of an updated vector empty

---
 include/executor/jobs/graph_update_job.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..9de2835 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -185,7 +185,7 @@ class GraphUpdateJob {
       pool.insert(nbr, dist);
     }
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_);
+    std::vector<IDType> updated_edges(graph_->max_nbrs_, invalid_id());
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-- 
2.43.0


From ac0703eb954e4eec755cedb420fa31206dfe9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 26/58] fix: keep every vector reachable through inserts and
 removes

---
 include/executor/jobs/graph_update_job.hpp | 55 ++++++++++++++++++----
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 9de2835..30656ae 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <limits>
@@ -125,7 +126,6 @@ class GraphUpdateJob {
       job_context_->removed_node_nbrs_[node_id].push_back(nbr);
     }
     job_context_->removed_vertices_.insert(node_id);
-    graph_->remove(node_id);
     if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
       build_space_->remove(node_id);
     }
@@ -152,7 +152,6 @@ class GraphUpdateJob {
         job_context_->removed_node_nbrs_[internal_id].push_back(nbr);
       }
       job_context_->removed_vertices_.insert(internal_id);
-      graph_->remove(internal_id);
     } else {
       throw std::runtime_error("Remove by item_id is not supported for spaces without scalar data");
     }
@@ -167,7 +166,7 @@ class GraphUpdateJob {
         break;
       }
       if (job_context_->removed_vertices_.count(nbr)) {
-        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_.at(nbr)) {
+        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_[nbr]) {
           candidate_nbrs.insert(second_hop_nbr);
         }
       }
@@ -178,23 +177,59 @@ class GraphUpdateJob {
         candidate_nbrs.insert(inserted_nbr);
       }
     }
-    auto handler = space_->get_query_computer(node_id);
-    LinearPool<DistanceType, IDType> pool(space_->get_data_num(), graph_->max_nbrs_);
+    auto &vectors = edge_space();
+    auto handler = vectors.get_query_computer(node_id);
+    std::vector<Neighbor<IDType, DistanceType>> candidates;
+    candidates.reserve(candidate_nbrs.size());
     for (auto &nbr : candidate_nbrs) {
-      auto dist = handler(nbr);
-      pool.insert(nbr, dist);
+      if (nbr != node_id) {
+        candidates.emplace_back(nbr, handler(nbr));
+      }
     }
+    std::sort(candidates.begin(), candidates.end());
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_, invalid_id());
-    for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
-      updated_edges[i] = pool.id(i);
+    // First the candidates that are nearer to this vertex than to any neighbor selected before, so
+    // that a vertex keeps the edge from its nearest vertex however far away it is, then the nearest.
+    std::vector<IDType> updated_edges;
+    std::vector<IDType> others;
+    updated_edges.reserve(graph_->max_nbrs_);
+    for (auto &candidate : candidates) {
+      if (updated_edges.size() == graph_->max_nbrs_) {
+        break;
+      }
+      auto nearer = [&](IDType selected) {
+        return vectors.get_distance(selected, candidate.id_) < candidate.distance_;
+      };
+      if (std::any_of(updated_edges.begin(), updated_edges.end(), nearer)) {
+        others.push_back(candidate.id_);
+      } else {
+        updated_edges.push_back(candidate.id_);
+      }
     }
+    auto free_edges = graph_->max_nbrs_ - updated_edges.size();
+    others.resize(std::min<size_t>(others.size(), free_edges));
+    updated_edges.insert(updated_edges.end(), others.begin(), others.end());
+    updated_edges.resize(graph_->max_nbrs_, invalid_id());
     graph_->update(node_id, updated_edges.data());
+    // searches pass through a removed vertex: what is linked from it must stay reachable
+    if (job_context_->removed_vertices_.count(node_id)) {
+      auto end = std::find(updated_edges.begin(), updated_edges.end(), invalid_id());
+      job_context_->removed_node_nbrs_[node_id].assign(updated_edges.begin(), end);
+    }
   }
 
  private:
   static constexpr auto invalid_id() -> IDType { return std::numeric_limits<IDType>::max(); }
 
+  /// The space edges are selected in, the one the graph was built in.
+  auto edge_space() const -> auto & {
+    if constexpr (std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
+      return *space_;
+    } else {
+      return *build_space_;
+    }
+  }
+
   void validate_scalar_insertable(const ScalarData *scalar_data) const {
     if constexpr (DistanceSpaceType::has_scalar_data) {
       if (scalar_data == nullptr || scalar_data->item_id.empty()) {
-- 
2.43.0


From 0c5af79f26eb080fdbeb59b46c90b40e7e7bb4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 27/58] fix: build and store HNSW graphs with 64-bit ids

---
 include/index/graph/hnsw/hnsw_builder.hpp |  2 +-
 include/index/graph/overlay_graph.hpp     | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/index/graph/hnsw/hnsw_builder.hpp b/include/index/graph/hnsw/hnsw_builder.hpp
index 4f2ae2a..62b62a9 100644
--- a/include/index/graph/hnsw/hnsw_builder.hpp
+++ b/include/index/graph/hnsw/hnsw_builder.hpp
@@ -136,7 +136,7 @@ struct HNSWBuilder {
       // thread_pool.enqueue([i, this, &graph] {
       std::vector<IDType> ids(max_nbrs_underlay_, -1);
       auto internal_id = hnsw_->label_lookup_[i];
-      auto edges = reinterpret_cast<uint32_t *>(hnsw_->get_linklist0(internal_id));
+      auto *edges = hnsw_->get_linklist0(internal_id);
       for (uint32_t j = 1; j <= edges[0]; ++j) {
         auto external_id = hnsw_->get_external_label(edges[j]);
         ids[j - 1] = external_id;
diff --git a/include/index/graph/overlay_graph.hpp b/include/index/graph/overlay_graph.hpp
index fe5ef46..4d8d9f9 100644
--- a/include/index/graph/overlay_graph.hpp
+++ b/include/index/graph/overlay_graph.hpp
@@ -108,7 +108,7 @@ class OverlayGraph {
    */
   template <typename CandPoolType, typename DistFuncType>
   void initialize(CandPoolType &cand_pool, const DistFuncType &dist_func) const {
-    uint32_t u = ep_;
+    NodeIDType u = ep_;
     auto cur_dist = dist_func(u);
     for (int level = levels_[u]; level > 0; --level) {
       bool changed = true;
@@ -140,9 +140,9 @@ class OverlayGraph {
   void load(std::ifstream &reader) {
     static_assert(std::is_trivial<NodeIDType>::value && std::is_standard_layout<NodeIDType>::value,
                   "IDType must be a POD type");
-    reader.read(reinterpret_cast<char *>(&node_num_), 4);
-    reader.read(reinterpret_cast<char *>(&max_nbrs_), 4);
-    reader.read(reinterpret_cast<char *>(&ep_), 4);
+    reader.read(reinterpret_cast<char *>(&node_num_), sizeof(node_num_));
+    reader.read(reinterpret_cast<char *>(&max_nbrs_), sizeof(max_nbrs_));
+    reader.read(reinterpret_cast<char *>(&ep_), sizeof(ep_));
 
     levels_.clear();
     lists_.clear();
@@ -160,7 +160,7 @@ class OverlayGraph {
       lists_[i].clear();
       lists_[i].resize(cur, -1);
 
-      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * 4);
+      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * sizeof(EdgeIDType));
     }
   }
 
@@ -172,13 +172,14 @@ class OverlayGraph {
   void save(std::ofstream &writer) const {
     static_assert(std::is_trivial<NodeIDType>::value && std::is_standard_layout<NodeIDType>::value,
                   "IDType must be a POD type");
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&node_num_)), 4);
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&max_nbrs_)), 4);
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&ep_)), 4);
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&node_num_)), sizeof(node_num_));
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&max_nbrs_)), sizeof(max_nbrs_));
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&ep_)), sizeof(ep_));
     for (NodeIDType i = 0; i < node_num_; ++i) {
       int cur = levels_[i] * max_nbrs_;
       writer.write(reinterpret_cast<char *>(&cur), 4);
-      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())), cur * 4);
+      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())),
+                   cur * sizeof(EdgeIDType));
     }
   }
 };
-- 
2.43.0


From 0cbb31a2540b2a8b61883d7c3c7f7261fdc9b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 28/58] fix: share no random generator between the threads of
 NN-descent

---
 include/index/graph/knng/nndescent.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/knng/nndescent.hpp b/include/index/graph/knng/nndescent.hpp
index f92a3d7..1eff73e 100644
--- a/include/index/graph/knng/nndescent.hpp
+++ b/include/index/graph/knng/nndescent.hpp
@@ -167,12 +167,13 @@ struct NndescentImpl {
 
     auto num_cores = thread_num_;
     {
-      std::mt19937 rng((random_seed_ * 7741) + num_cores);
       ThreadPool pool(num_cores);
 
       IDType per_core_num = (vector_num_ + num_cores - 1) / num_cores;
       for (uint32_t thread_id = 0; thread_id < num_cores; thread_id++) {
-        pool.enqueue([thread_id, &rng, per_core_num, this]() -> auto {
+        pool.enqueue([thread_id, num_cores, per_core_num, this]() -> auto {
+          // Each task draws from its own generator: std::mt19937 is not thread-safe.
+          std::mt19937 rng((random_seed_ * 7741) + num_cores + thread_id);
           IDType start = thread_id * per_core_num;
           IDType end = std::min((thread_id + 1) * per_core_num, vector_num_);
 
@@ -333,12 +334,11 @@ struct NndescentImpl {
     thread_pool.wait_until_all_tasks_completed(num_cores);
 
     {
-      std::mt19937 rng((random_seed_ * 5081) + num_cores);
-
       thread_pool.reset_task();
 
       for (uint32_t i = 0; i < num_cores; ++i) {
         thread_pool.enqueue([&, i, per_num_cores]() -> auto {
+          std::mt19937 rng((random_seed_ * 5081) + num_cores + i);
           for (auto j = per_num_cores * i; j < per_num_cores * (i + 1) && j < vector_num_; ++j) {
             auto &node = graph_[j];
             auto &nn_new = node.nn_new_;
@@ -373,7 +373,6 @@ struct NndescentImpl {
                 }
               }
             }
-            std::make_heap(node.candidate_pool_.begin(), node.candidate_pool_.end());
           }
         });
       }
@@ -389,6 +388,8 @@ struct NndescentImpl {
           for (auto j = i * per_num_cores;
                j < (i * per_num_cores) + per_num_cores && j < vector_num_;
                ++j) {
+            // Only now, as the pass above reads the candidate pools of other nodes in sorted order.
+            std::make_heap(graph_[j].candidate_pool_.begin(), graph_[j].candidate_pool_.end());
             auto &nn_new = graph_[j].nn_new_;
             auto &nn_old = graph_[j].nn_old_;
             auto &rnn_new = graph_[j].rnn_new_;
-- 
2.43.0


From bf3fa61922f9d9cdaa34aeed16c4b35cd777e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 29/58] fix: read the edges of an NSG node under its lock

---
 include/index/graph/nsg/nsg_builder.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/nsg/nsg_builder.hpp b/include/index/graph/nsg/nsg_builder.hpp
index f0bc2ba..226a3ad 100644
--- a/include/index/graph/nsg/nsg_builder.hpp
+++ b/include/index/graph/nsg/nsg_builder.hpp
@@ -406,13 +406,22 @@ struct NSGBuilder {
    * @param graph The graph to which reverse links are to be added.
    */
   void add_reverse_links(IDType q, std::vector<std::mutex> &locks, Graph<DataType, IDType> &graph) {
+    // Other threads may be adding q to the edges of its neighbors, and those to the edges of q.
+    std::vector<IDType> nbrs(max_nbrs_);
+    {
+      std::scoped_lock guard(locks[q]);
+      for (uint32_t i = 0; i < max_nbrs_; i++) {
+        nbrs[i] = graph.at(q, i);
+      }
+    }
+
     for (uint32_t i = 0; i < max_nbrs_; i++) {
-      if (graph.at(q, i) == Graph<DataType, IDType>::kEmptyId) {
+      if (nbrs[i] == Graph<DataType, IDType>::kEmptyId) {
         break;
       }
 
-      Node<IDType> sn(q, graph.at(q, i));
-      IDType des = graph.at(q, i);
+      Node<IDType> sn(q, nbrs[i]);
+      IDType des = nbrs[i];
 
       std::vector<Node<IDType>> tmp_pool;
       int dup = 0;
-- 
2.43.0


From a926147687241e3a986964a8bddff30132b40dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 30/58] fix: keep removed vectors out of exact filtered results

---
 include/executor/jobs/graph_hybrid_search_job.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index cca6f1f..1a49e4c 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -217,9 +217,14 @@ struct GraphHybridSearchJob {
     std::vector<uint8_t> matches;
     constexpr size_t kBatchSize = 1024;
     batch_ids.reserve(kBatchSize);
+    auto insert_candidate = [&](IDType id, DistanceType distance) {
+      if (distance != std::numeric_limits<DistanceType>::max()) {  // removed otherwise
+        result_pool.insert(id, distance);
+      }
+    };
     auto run_indexed_candidates = [&](const auto &exact_distance) {
       for (auto id : filter_executor.indexed_ids()) {
-        result_pool.insert(id, exact_distance(id));
+        insert_candidate(id, exact_distance(id));
       }
     };
     auto run_full_scan = [&](const auto &exact_distance, size_t data_num) {
@@ -232,7 +237,7 @@ struct GraphHybridSearchJob {
         filter_executor.eval_offsets(batch_ids, matches);
         for (size_t i = 0; i < batch_ids.size(); ++i) {
           if (matches[i] != 0) {
-            result_pool.insert(batch_ids[i], exact_distance(batch_ids[i]));
+            insert_candidate(batch_ids[i], exact_distance(batch_ids[i]));
           }
         }
       }
-- 
2.43.0


From b23b707e0ecbe5bf92d19802cd561ef5a418a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 31/58] fix: release the scratch of pipelined searches with the
 index

---
 include/index/graph/diskann/diskann_index.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..c5746b6 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2219,6 +2219,13 @@ class DiskANNIndex {
     thread_data_storage_.clear();
     while (thread_data_pool_.pop() != nullptr) {
     }
+#if defined(__linux__)
+    // Sized for the geometry of the index being dropped, like the storage above.
+    for (auto &td : pipeline_tds_) {
+      td->free_scratch();
+    }
+    pipeline_tds_.clear();
+#endif
     reader_.reset();
     page_io_.reset();
     update_reactor_.reset();  // after page_io_: it holds a raw pointer to the reactor
-- 
2.43.0


From 1e0c1c62d8adb5a2e2e45d0ec362ff094c3e6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 32/58] fix: read the neighbors of removed DiskANN nodes under
 the update lock

---
 include/index/graph/diskann/diskann_index.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c5746b6..53afeb1 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -1967,6 +1967,8 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
+    // Other inserts of the batch allocate slots, and forget their old neighbors, meanwhile.
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
     const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
@@ -1991,6 +1993,7 @@ class DiskANNIndex {
         }
       }
     }
+    state_lock.unlock();
     prune_and_write(node_id, nd.nbrs, cand);
   }
 
@@ -2025,6 +2028,8 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
+    // Other inserts of the batch allocate slots, and forget their old neighbors, meanwhile.
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
     const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
@@ -2049,6 +2054,7 @@ class DiskANNIndex {
         }
       }
     }
+    state_lock.unlock();
     if (cand.size() <= max_degree_) {
       co_return;  // fast path keeps the pool verbatim — no distance reads at all
     }
-- 
2.43.0


From 9a88a1a45708f1244b6be2aaecb4d1981f10bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 33/58] fix: do not move PQ codes while DiskANN searches read
 them

---
 include/index/graph/diskann/beam_search.hpp   | 10 +++++++++
 .../index/graph/diskann/beam_search_async.hpp | 15 ++++++++-----
 include/index/graph/diskann/diskann_index.hpp | 22 ++++++++++++-------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a2392da..c2b7a38 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -49,6 +49,7 @@
 #include <chrono>
 #include <cstdint>
 #include <deque>
+#include <shared_mutex>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -95,6 +96,15 @@ struct SearchContext {
   // read pages back through the versioned fill protocol. nullptr keeps the
   // static-index behavior: BFS cache + device reads only.
   DiskPageIO *page_io = nullptr;
+
+  // Guards the PQ codes of an updatable index for searches whose caller does not
+  // hold it: coroutines, which lock it between suspensions.
+  std::shared_mutex *pq_mutex = nullptr;
+
+  [[nodiscard]] std::shared_lock<std::shared_mutex> lock_pq_codes() const {
+    return pq_mutex != nullptr ? std::shared_lock<std::shared_mutex>(*pq_mutex)
+                               : std::shared_lock<std::shared_mutex>();
+  }
 };
 
 /// Optional instrumentation for tests / profiling.
diff --git a/include/index/graph/diskann/beam_search_async.hpp b/include/index/graph/diskann/beam_search_async.hpp
index 1f057df..6c757d0 100644
--- a/include/index/graph/diskann/beam_search_async.hpp
+++ b/include/index/graph/diskann/beam_search_async.hpp
@@ -251,11 +251,10 @@ inline auto disk_greedy_search_async(const SearchContext &ctx,
 /// byte-identical to the deterministic one when nothing is cached).
 ///
 /// PQ-lock note: callers do NOT hold pq_mutex_ across this coroutine (a
-/// shared_mutex may not be released on a different thread than took it).
-/// That is safe by protocol: concurrent encode_pq_slot() only writes codes of
-/// slots that are still dark (allocated, not yet published), and the search's
-/// tombstone snapshot — taken before the search — masks every such slot, so
-/// pq_distance is never called on an entry being written.
+/// shared_mutex may not be released on a different thread than took it). The
+/// search locks ctx.pq_mutex itself while it reads codes: concurrent
+/// encode_pq_slot() calls move the code array as it grows, and rewrite the codes
+/// of slots that were removed after the search took its tombstone snapshot.
 inline auto pq_beam_search_async(const SearchContext &ctx,
                                  const float *query,
                                  uint32_t top_k,
@@ -285,7 +284,10 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
   const float *pq_table = td.pq_table.data();
 
   visited.set(ctx.medoid);
-  retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  {
+    const auto pq_lock = ctx.lock_pq_codes();
+    retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  }
 
   const uint64_t beam = std::max<uint64_t>(1, params.beam_width);
   td.ensure_wave_scratch(beam * page_size);
@@ -297,6 +299,7 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
       stats->read_order.push_back(id);
       stats->n_nodes_processed++;
     }
+    const auto pq_lock = ctx.lock_pq_codes();
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 53afeb1..64f1364 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -679,6 +679,7 @@ class DiskANNIndex {
           ctx.geom = &geom_;
           ctx.cache = &cache_;
           ctx.pq = use_pq ? &pq_ : nullptr;
+          ctx.pq_mutex = &pq_mutex_;
           ctx.medoid = medoid_;
           ctx.num_points = snapshot.max_slot_id;
           if (snapshot.has_tombstone) {
@@ -696,8 +697,7 @@ class DiskANNIndex {
           SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
           const float *query = queries + static_cast<uint64_t>(qi) * dim_;
           // No pq_mutex_ across the coroutine (a shared_mutex may not be
-          // released on another thread) — safe by the dark-slot protocol, see
-          // run_update_search_async.
+          // released on another thread), see run_update_search_async.
           std::vector<std::pair<uint32_t, float>> results;
           if (use_pq) {
             results = co_await pq_beam_search_async(ctx,
@@ -1240,6 +1240,7 @@ class DiskANNIndex {
         ctx.geom = &geom_;
         ctx.cache = &cache_;
         ctx.pq = has_pq_ ? &pq_ : nullptr;
+        ctx.pq_mutex = &pq_mutex_;
         ctx.medoid = medoid_;
         ctx.num_points = snapshot.max_slot_id;
         ctx.tombstone = &snapshot.tombstone;
@@ -1249,10 +1250,9 @@ class DiskANNIndex {
         sp.beam_width = beam_width_;
         sp.use_pq = has_pq_;
         sp.rerank = false;
-        // No pq_mutex_ here (a shared_mutex cannot be released on a different
-        // thread than locked it): safe because concurrent encode_pq_slot only
-        // writes codes of still-dark slots, all masked by snapshot.tombstone —
-        // see the note on pq_beam_search_async.
+        // No pq_mutex_ across the coroutine (a shared_mutex cannot be released on
+        // a different thread than locked it): the search takes it between
+        // suspensions — see the note on pq_beam_search_async.
         if (has_pq_) {
           results = co_await pq_beam_search_async(ctx,
                                                   query,
@@ -1395,6 +1395,7 @@ class DiskANNIndex {
     std::vector<uint8_t> query_code(pq_n_chunks_);
     pq_.encode_to_code(query, query_code.data());
     if (update_insert_prune_) {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       std::vector<alaya::vamana::Neighbor> pool;
       pool.reserve(cand.size());
       for (const auto &c : cand) {
@@ -1422,8 +1423,11 @@ class DiskANNIndex {
     }
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
-    for (const auto &c : cand) {
-      pool.emplace_back(c.first, pq_.pq_symmetric_distance(query_code.data(), c.first));
+    {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
+      for (const auto &c : cand) {
+        pool.emplace_back(c.first, pq_.pq_symmetric_distance(query_code.data(), c.first));
+      }
     }
     std::sort(pool.begin(), pool.end());
     std::vector<uint32_t> out;
@@ -1843,6 +1847,7 @@ class DiskANNIndex {
                                                            const std::vector<uint32_t> &cand) {
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
+    std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     for (const uint32_t c : cand) {
       pool.emplace_back(c, pq_.pq_symmetric_distance(node_id, c));
     }
@@ -1877,6 +1882,7 @@ class DiskANNIndex {
       return new_nbrs;
     }
     if (has_pq_) {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       auto dist_fn = [this](uint32_t a, uint32_t b) -> float {
         return pq_.pq_symmetric_distance(a, b);
       };
-- 
2.43.0


From 2cabb863e538075bfbece24037bdf3cb52fd2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 34/58] fix: link vectors inserted into an emptied DiskANN
 index from its entry point

---
 include/index/graph/diskann/diskann_index.hpp | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 64f1364..b11c049 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -840,7 +840,7 @@ class DiskANNIndex {
     encode_pq_slot(query, slot);
     write_inserted_node(slot, query, pruned);
     publish_slots(&slot, &slot + 1);
-    reconnect_inserted_neighbors(pruned, slot);
+    reconnect_inserted_neighbors(reconnect_targets(pruned, slot), slot);
     return slot;
   }
 
@@ -1787,13 +1787,14 @@ class DiskANNIndex {
       st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       write_inserted_node(ids[i], vec, selected);
       publish_slots(&ids[i], &ids[i] + 1);
-      for (const uint32_t n : selected) {
+      const std::vector<uint32_t> targets = reconnect_targets(selected, ids[i]);
+      for (const uint32_t n : targets) {
         staged.add(n, ids[i]);
       }
       st_write_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       std::vector<coro::task<>> reconnects;
-      reconnects.reserve(selected.size());
-      for (const uint32_t n : selected) {
+      reconnects.reserve(targets.size());
+      for (const uint32_t n : targets) {
         reconnects.emplace_back(reconnect_one(n));
       }
       co_await coro::when_all(std::move(reconnects));
@@ -1801,8 +1802,12 @@ class DiskANNIndex {
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
 
-    for (uint32_t off = 0; off < count; off += batch_size) {
-      const uint32_t end = std::min<uint32_t>(count, off + batch_size);
+    uint32_t end = 0;
+    for (uint32_t off = 0; off < count; off = end) {
+      // Inserts of a chunk do not see each other: no more of them than live nodes
+      // they can be linked from.
+      const uint64_t chunk = std::clamp<uint64_t>(live_count(), 1, batch_size);
+      end = static_cast<uint32_t>(std::min<uint64_t>(count, off + chunk));
       auto run = [&]() -> coro::task<> {
         std::vector<coro::task<>> tasks;
         tasks.reserve(end - off);
@@ -2074,6 +2079,17 @@ class DiskANNIndex {
     co_return;
   }
 
+  /// The nodes to link a new node from. Searches enter at the medoid, live or not, but do not
+  /// select a removed one: it is added here, lest its last edges to live nodes run out.
+  std::vector<uint32_t> reconnect_targets(const std::vector<uint32_t> &selected,
+                                          uint32_t slot) const {
+    std::vector<uint32_t> targets = selected;
+    if (slot != medoid_ && slot_alloc_.is_deleted(medoid_)) {
+      targets.push_back(medoid_);
+    }
+    return targets;
+  }
+
   void update_node_impl_for_insert(uint32_t node_id, uint32_t inserted_slot) {
     const std::vector<uint32_t> extra_edges{inserted_slot};
     update_node_impl_locked(node_id, extra_edges);
-- 
2.43.0


From 0d3b157dc1f0bcbb42c73683b1d113e470c8b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 35/58] fix: read the entry point of an HNSW graph under its
 lock

---
 include/index/graph/hnsw/hnswlib.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/hnsw/hnswlib.hpp b/include/index/graph/hnsw/hnswlib.hpp
index 292f34d..9b64a82 100644
--- a/include/index/graph/hnsw/hnswlib.hpp
+++ b/include/index/graph/hnsw/hnswlib.hpp
@@ -666,12 +666,12 @@ class HNSWImpl {
     element_levels_[internal_id] = cur_level;
 
     int maxlevel_copy = maxlevel_;
+    // Read the entry point while the lock still protects it: another thread may be replacing it.
+    InternalID curr_node = enterpoint_node_;
     if (cur_level <= maxlevel_copy) {
       templock.unlock();
     }
 
-    InternalID curr_node = enterpoint_node_;
-
     if (cur_level != 0) {
       // Allocate storage space for upper-level graphs.
       link_lists_[internal_id] =
-- 
2.43.0


From 4d5eb1d5a1aebe8835394c3fd4ebad0d727367e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 36/58] fix: build partitioned Vamana graphs when a shard is
 empty

---
 include/index/graph/vamana/build_dispatch.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..af80273 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -351,8 +351,17 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
                                                        shard_prefix);
   LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> shard_graphs(num_parts);
+  // A centroid that is nearest to no point (possible when many points are equal)
+  // gets an empty shard: there is nothing to build or to merge for it.
+  std::vector<std::filesystem::path> shard_graphs;
+  std::vector<std::filesystem::path> idmaps;
+  shard_graphs.reserve(num_parts);
+  idmaps.reserve(num_parts);
   for (size_t s = 0; s < num_parts; ++s) {
+    if (assign.counts[s] == 0) {
+      LOG_INFO("skipping empty shard {}/{}", s + 1, num_parts);
+      continue;
+    }
     alaya::Timer shard_timer;
     LOG_INFO("building shard {}/{}: {} points", s + 1, num_parts, assign.counts[s]);
     std::vector<float> shard_data;
@@ -380,7 +389,8 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     const std::filesystem::path graph_path =
         work_dir / (std::string("s_subshard-") + std::to_string(s) + "_mem.index");
     alaya::vamana::save_graph(b.graph(), graph_path, shard_R, b.medoid());
-    shard_graphs[s] = graph_path;
+    shard_graphs.push_back(graph_path);
+    idmaps.emplace_back(assign.idmap_paths[s]);
     LOG_INFO("shard {}/{} built + saved in {}s -> {}",
              s + 1,
              num_parts,
@@ -392,11 +402,6 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
   const uint32_t global_medoid = alaya::vamana::compute_medoid_streaming(data_path);
   LOG_INFO("global medoid = {} (streaming pass {}s)", global_medoid, medoid_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> idmaps;
-  idmaps.reserve(num_parts);
-  for (const auto &p : assign.idmap_paths) {
-    idmaps.emplace_back(p);
-  }
   alaya::Timer merge_timer;
   alaya::vamana::merge_shards(shard_graphs, idmaps, out_path_str, args.R, global_medoid, args.seed);
   LOG_INFO("merge done in {}s", merge_timer.elapsed_s());
-- 
2.43.0


From bd124d708ec9a3a05a28e68f7e71e2262d370a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 37/58] fix: disk collection reopens with a Vamana seed wider
 than 32 bits

---
 include/index/disk/disk_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..d02c4f4 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -599,7 +599,7 @@ inline auto load_vamana_params_from_manifest(const CollectionManifest &manifest)
   params.R = parse_u32_extra(manifest, "x_vamana_R", params.R);
   params.L = parse_u32_extra(manifest, "x_vamana_L", params.L);
   params.alpha = parse_float_extra(manifest, "x_vamana_alpha", params.alpha);
-  params.seed = parse_u32_extra(manifest, "x_vamana_seed", static_cast<uint32_t>(params.seed));
+  params.seed = parse_u64_extra(manifest, "x_vamana_seed", params.seed);
   params.num_threads = parse_u32_extra(manifest, "x_vamana_num_threads", params.num_threads);
   return params;
 }
-- 
2.43.0


From 8c003881d752bfeac70b2414dca382875fa194b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 38/58] fix: flat segment builder makes its file names durable
 before publishing

---
 include/index/disk/disk_flat_builder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/index/disk/disk_flat_builder.hpp b/include/index/disk/disk_flat_builder.hpp
index 4257e6e..b486dfc 100644
--- a/include/index/disk/disk_flat_builder.hpp
+++ b/include/index/disk/disk_flat_builder.hpp
@@ -252,6 +252,7 @@ class DiskFlatBuilder {
     manifest.vectors_file = "vectors.f32.bin";
     manifest.save(tmp_dir / "manifest.txt");
 
+    detail::fsync_dir(tmp_dir);
     detail::rename_no_replace(tmp_dir, segment_dir);
     guard.disarm();
     // The segment is now published — mark builder closed BEFORE the parent
-- 
2.43.0


From 75542aa8ebed6b01f6ac39cb8e366d8e5f99ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 39/58] fix: a new disk collection makes its own directory name
 durable

---
 include/index/disk/disk_collection.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index d02c4f4..252d2f4 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -764,6 +764,13 @@ class DiskCollection {
     } catch (const std::exception &e) {
       LOG_WARN("DiskCollection: ctor fsync_dir failed (durability only): {}", e.what());
     }
+    // The name of the collection itself lives in the directory above it.
+    try {
+      const auto parent = path_.parent_path();
+      detail::fsync_dir(parent.empty() ? std::filesystem::path(".") : parent);
+    } catch (const std::exception &e) {
+      LOG_WARN("DiskCollection: ctor parent fsync_dir failed (durability only): {}", e.what());
+    }
   }
 
   static auto open(const std::filesystem::path &path) -> DiskCollection {
-- 
2.43.0


From 5a9e45f3c6c00d668bdffeb71d985bb241c2aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 40/58] fix: Vamana graph writers report a failure to write the
 last buffered bytes

---
 include/index/graph/vamana/shard_merger.hpp  | 3 ++-
 include/index/graph/vamana/vamana_writer.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..a2ce04b 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -338,10 +338,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
   // Patch the expected_file_size header.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&expected_file_size), sizeof(uint64_t));
+  out.close();  // flushes what is still buffered, and reports if that fails
   if (!out.good()) {
     throw std::runtime_error("merge_shards: write error on output");
   }
-  out.close();
 
   // DiskANN-format medoids file: uint32 nshards, uint32 1 (stride),
   // nshards × uint32 global_medoid. Path = `<output>_medoids.bin`,
@@ -359,6 +359,7 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     mf.write(reinterpret_cast<const char *>(&one_stride), sizeof(uint32_t));
     mf.write(reinterpret_cast<const char *>(shard_medoids_global.data()),
              static_cast<std::streamsize>(nshards) * sizeof(uint32_t));
+    mf.close();
     if (!mf.good()) {
       throw std::runtime_error("merge_shards: write error on " + medoids_path.string());
     }
diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..f77b327 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -65,10 +65,10 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
   // Rewrite the expected_file_size at offset 0 now that we know the total.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&index_size), sizeof(uint64_t));
+  out.close();  // flushes what is still buffered, and reports if that fails
   if (!out.good()) {
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
-  out.close();
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0


From 5b9e4e9aba24f30e85cc43f31a28668af0c06c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 41/58] fix: flush and import can be repeated after a published
 segment failed to open

---
 include/index/disk/disk_collection.hpp | 36 +++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 252d2f4..b59feca 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -931,12 +931,18 @@ class DiskCollection {
     // the dispatch decision in one place. The factory call also constructs
     // the searcher, so a builder-side or open-side failure is reported from
     // a single throw site.
-    auto searcher = create_segment_from_pending(seg_dir,
-                                                manifest_,
-                                                pending_vectors_.data(),
-                                                pending_labels_.data(),
-                                                pending_labels_.size(),
-                                                vamana_params_);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = create_segment_from_pending(seg_dir,
+                                             manifest_,
+                                             pending_vectors_.data(),
+                                             pending_labels_.data(),
+                                             pending_labels_.size(),
+                                             vamana_params_);
+    } catch (...) {
+      skip_taken_segment_id(seg_id, seg_dir);
+      throw;
+    }
     // Segment is now on disk. Any subsequent failure in this function leaves
     // an orphan segment that will be classified as kind=complete on next open.
     // Eagerly advance in-memory next_segment_id so a retried flush() uses a
@@ -1016,7 +1022,13 @@ class DiskCollection {
     const std::string seg_basename = detail::format_segment_id(seg_id);
     const auto seg_dir = path_ / "segments" / seg_basename;
 
-    auto searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    } catch (...) {
+      skip_taken_segment_id(seg_id, seg_dir);
+      throw;
+    }
 
     // Segment is now on disk. Match flush(): advance next_segment_id before
     // manifest publication so a retry after manifest-publish failure uses a
@@ -1256,6 +1268,16 @@ class DiskCollection {
  private:
   DiskCollection() = default;
 
+  // A segment can be published although creating it failed afterwards (its
+  // files could not be opened for searching, say). Its id is then taken: a
+  // retry has to use the next one.
+  void skip_taken_segment_id(uint64_t seg_id, const std::filesystem::path &seg_dir) {
+    std::error_code ec;
+    if (std::filesystem::exists(seg_dir, ec) && !ec) {
+      manifest_.next_segment_id = seg_id + 1;
+    }
+  }
+
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
-- 
2.43.0


From eae422b5ae1a2f12edebcd51ce65c45e222a1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 42/58] fix: a disk collection refuses segments that are listed
 twice or of another shape

---
 include/index/disk/disk_collection.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index b59feca..c6f897a 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1281,7 +1281,11 @@ class DiskCollection {
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
+    std::set<std::string> seen;
     for (const auto &id : manifest_.segment_ids) {
+      if (!seen.insert(id).second) {
+        throw std::runtime_error("DiskCollection: segment listed twice: " + id);
+      }
       const auto seg_dir = path_ / "segments" / id;
       // Reject segment directories that are themselves symlinks: a
       // symlink-swap of seg_*/ would otherwise redirect reads outside the
@@ -1291,6 +1295,15 @@ class DiskCollection {
         throw std::runtime_error("DiskCollection: segment directory is a symlink: " +
                                  seg_dir.string());
       }
+      // Queries have the collection's dimension, and hits of all segments are
+      // ranked together: a segment of another shape does not belong here.
+      const auto segment = SegmentManifest::load(seg_dir / "manifest.txt");
+      if (segment.dim != manifest_.dim || segment.metric != manifest_.metric ||
+          segment.index_type != manifest_.index_type) {
+        throw std::runtime_error(
+            "DiskCollection: dim, metric or index_type of segment disagrees with collection: " +
+            seg_dir.string());
+      }
       auto searcher = load_segment_from_manifest(seg_dir);
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
-- 
2.43.0


From 1d8f3725955cb5b3b2232f6aa5a395cd4be6fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 43/58] fix: DiskANN load checks the sizes and ids in its files
 against each other

---
 include/index/graph/diskann/disk_layout.hpp   |  6 +++++-
 include/index/graph/diskann/diskann_index.hpp | 19 +++++++++++++++++++
 include/index/graph/diskann/node_cache.hpp    |  8 ++++++++
 .../index/graph/diskann/slot_allocator.hpp    | 12 ++++++++++--
 .../index/graph/diskann/tombstone_bitmap.hpp  |  3 +++
 5 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/diskann/disk_layout.hpp b/include/index/graph/diskann/disk_layout.hpp
index bf43d0b..466027c 100644
--- a/include/index/graph/diskann/disk_layout.hpp
+++ b/include/index/graph/diskann/disk_layout.hpp
@@ -35,6 +35,7 @@
 #include <cstring>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -102,6 +103,9 @@ struct DiskLayoutGeometry {
     if (dim == 0) {
       throw std::invalid_argument("DiskLayoutGeometry: dim must be > 0");
     }
+    if (dim > std::numeric_limits<uint32_t>::max()) {  // the byte counts below would wrap
+      throw std::invalid_argument("DiskLayoutGeometry: dim too large");
+    }
     DiskLayoutGeometry g;
     g.dim = dim;
     g.max_degree = max_degree;
@@ -334,7 +338,7 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
     throw std::runtime_error("read_disk_layout_header: medoid out of range in " + path);
   }
   const uint64_t expected = geom.total_file_size(h.num_points);
-  if (h.total_file_size != expected) {
+  if (h.total_file_size != expected || h.num_points > expected / geom.node_len) {
     throw std::runtime_error("read_disk_layout_header: header total_file_size " +
                              std::to_string(h.total_file_size) + " != expected " +
                              std::to_string(expected));
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index b11c049..8473c42 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -323,12 +323,28 @@ class DiskANNIndex {
     if (geom_.node_len != meta.node_len || geom_.nodes_per_sector != meta.nodes_per_sector) {
       throw std::runtime_error("DiskANNIndex::load: meta geometry inconsistent");
     }
+    // Everything below is sized by the slot count: the index file must have the
+    // pages for it.
+    const std::string index_path = path(index_dir, "diskann.index");
+    const uint64_t index_bytes = std::filesystem::file_size(index_path);
+    const uint64_t slots_on_disk =
+        index_bytes < kSectorLen
+            ? 0
+            : (index_bytes - kSectorLen) / geom_.page_size * geom_.nodes_per_sector;
+    if (max_slot_id_ > slots_on_disk || num_points > slots_on_disk || medoid_ >= max_slot_id_ ||
+        live_count_ > max_slot_id_) {
+      throw std::runtime_error("DiskANNIndex::load: meta.bin does not fit " + index_path);
+    }
 
     read_ids(path(index_dir, "ids.bin"), max_slot_id_);
     const std::string slots_path = path(index_dir, "slots.bin");
     if (std::filesystem::exists(slots_path)) {
       slot_alloc_.load(slots_path);
       max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
+      if (max_slot_id_ > slots_on_disk) {
+        throw std::runtime_error("DiskANNIndex::load: slots.bin does not fit " + index_path);
+      }
+      labels_.resize(max_slot_id_, kNoLabel);
     } else {
       slot_alloc_.reset(static_cast<uint32_t>(max_slot_id_));
     }
@@ -341,6 +357,9 @@ class DiskANNIndex {
                num_points,
                dim_,
                pq_n_chunks_);
+      if (pq_.num_points() < max_slot_id_) {
+        throw std::runtime_error("DiskANNIndex::load: fewer PQ codes than slots");
+      }
     }
 
     // Open the disk index and pre-register one libaio I/O context + scratch
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..21123f7 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -207,6 +207,9 @@ class NodeCache {
       if (!in) {
         throw std::runtime_error("NodeCache::load: short read (ids count) " + ids_path);
       }
+      if (id_count > std::filesystem::file_size(ids_path) / sizeof(uint32_t)) {
+        throw std::runtime_error("NodeCache::load: more ids than " + ids_path + " can hold");
+      }
       ids_.assign(id_count, 0);
       if (id_count > 0) {
         in.read(reinterpret_cast<char *>(ids_.data()),
@@ -233,6 +236,11 @@ class NodeCache {
                                  std::to_string(id_count) + " vs " + std::to_string(node_count) +
                                  ")");
       }
+      if (node_count > 0 &&
+          (node_len_ == 0 || node_len_ > std::filesystem::file_size(nodes_path) / node_count)) {
+        throw std::runtime_error("NodeCache::load: more node data than " + nodes_path +
+                                 " can hold");
+      }
       node_data_.assign(node_count * node_len_, 0);
       if (!node_data_.empty()) {
         in.read(node_data_.data(), static_cast<std::streamsize>(node_data_.size()));
diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..50ce537 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -123,6 +123,12 @@ class SlotAllocator {
     if (!in || magic != kMagic) {
       throw std::runtime_error("SlotAllocator::load: bad magic/truncated " + path);
     }
+    if (next > std::numeric_limits<uint32_t>::max()) {
+      throw std::runtime_error("SlotAllocator::load: next_fresh_id overflows u32 " + path);
+    }
+    if (n_free > next) {  // no more slots can be free than were ever handed out
+      throw std::runtime_error("SlotAllocator::load: free list longer than slot range " + path);
+    }
     free_list_.assign(n_free, 0);
     if (n_free > 0) {
       in.read(reinterpret_cast<char *>(free_list_.data()),
@@ -131,8 +137,10 @@ class SlotAllocator {
         throw std::runtime_error("SlotAllocator::load: free list truncated " + path);
       }
     }
-    if (next > std::numeric_limits<uint32_t>::max()) {
-      throw std::runtime_error("SlotAllocator::load: next_fresh_id overflows u32 " + path);
+    for (const uint32_t id : free_list_) {
+      if (id >= next) {
+        throw std::runtime_error("SlotAllocator::load: free slot out of range " + path);
+      }
     }
     next_fresh_id_ = static_cast<uint32_t>(next);
     tombstone_.deserialize(in);
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..96f5129 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -194,6 +194,9 @@ class TombstoneBitmap {
     if (!in || magic != kMagic) {
       throw std::runtime_error("TombstoneBitmap::deserialize: bad magic/truncated");
     }
+    if (n_words > kMaxChunks * kChunkWords) {
+      throw std::runtime_error("TombstoneBitmap::deserialize: word count out of range");
+    }
     reset(0);
     ensure_capacity(n_words * 64);
     uint64_t recount = 0;
-- 
2.43.0


From 08a06c19b3e9b83c4fca7de23d123214aba399e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 44/58] fix: DiskANN reads no more neighbours than a node
 record holds

---
 include/index/graph/diskann/beam_search.hpp       | 2 +-
 include/index/graph/diskann/beam_search_async.hpp | 2 +-
 include/index/graph/diskann/disk_page_io.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index c2b7a38..73e422d 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -529,7 +529,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
-                              view.n_nbrs(),
+                              std::min(view.n_nbrs(), ctx.geom->max_degree),  // defensive, as for ids
                               pq,
                               pq_table,
                               ctx.num_points,
diff --git a/include/index/graph/diskann/beam_search_async.hpp b/include/index/graph/diskann/beam_search_async.hpp
index 6c757d0..bc97737 100644
--- a/include/index/graph/diskann/beam_search_async.hpp
+++ b/include/index/graph/diskann/beam_search_async.hpp
@@ -303,7 +303,7 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
-                              view.n_nbrs(),
+                              std::min(view.n_nbrs(), ctx.geom->max_degree),  // defensive, as for ids
                               pq,
                               pq_table,
                               ctx.num_points,
diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..846fe90 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -537,7 +537,7 @@ class DiskPageIO {
 
   std::vector<uint32_t> neighbors_from_page(const char *page, uint32_t id) const {
     const NodeRecordView view{page + geom_.offset_to_node(id), geom_.dim};
-    const uint32_t n = view.n_nbrs();
+    const uint32_t n = std::min(view.n_nbrs(), geom_.max_degree);  // defensive: corrupt record
     return std::vector<uint32_t>(view.nbrs(), view.nbrs() + n);
   }
 
@@ -545,7 +545,7 @@ class DiskPageIO {
     const NodeRecordView view{page + geom_.offset_to_node(id), geom_.dim};
     NodeData d;
     d.coords.assign(view.coords(), view.coords() + geom_.dim);
-    const uint32_t n = view.n_nbrs();
+    const uint32_t n = std::min(view.n_nbrs(), geom_.max_degree);  // defensive: corrupt record
     d.nbrs.assign(view.nbrs(), view.nbrs() + n);
     return d;
   }
-- 
2.43.0


From 5ea6d315e9d8aca0a196bd7f3ef5a915351b3a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 45/58] fix: a failing open or io_setup is an exception, not
 the end of the process

---
 include/index/graph/diskann/diskann_index.hpp | 23 ++++++++++++++-----
 .../graph/laser/utils/aligned_file_reader.hpp | 17 +++++++-------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 8473c42..432d404 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -30,6 +30,7 @@
 #include <chrono>
 #include <cstdint>
 #include <cstring>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iostream>
@@ -407,19 +408,29 @@ class DiskANNIndex {
     thread_data_storage_.resize(pool);
     {
       std::vector<std::thread> regs;
+      std::vector<std::exception_ptr> errors(pool);
       regs.reserve(pool);
       for (uint32_t t = 0; t < pool; ++t) {
-        regs.emplace_back([this, t, scratch_config]() {
-          reader_->register_thread();
-          auto td = std::make_unique<ThreadData>();
-          td->ctx_ = reader_->get_ctx();
-          td->alloc_scratch(scratch_config);
-          thread_data_storage_[t] = std::move(td);
+        regs.emplace_back([this, t, scratch_config, &errors]() {
+          try {
+            reader_->register_thread();
+            auto td = std::make_unique<ThreadData>();
+            td->ctx_ = reader_->get_ctx();
+            td->alloc_scratch(scratch_config);
+            thread_data_storage_[t] = std::move(td);
+          } catch (...) {
+            errors[t] = std::current_exception();
+          }
         });
       }
       for (auto &th : regs) {
         th.join();
       }
+      for (const auto &error : errors) {
+        if (error) {
+          std::rethrow_exception(error);
+        }
+      }
     }
     for (auto &td : thread_data_storage_) {
       ThreadData *p = td.get();
diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..2b465a5 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -312,15 +312,11 @@ inline void LinuxAlignedFileReader::register_thread() {
   io_context_t ctx = nullptr;
   int ret = io_setup(MAX_EVENTS, &ctx);
   if (ret != 0) {
-    lk.unlock();
-    assert(errno != EAGAIN);
-    assert(errno != ENOMEM);
-    std::cerr << "io_setup() failed; returned " << ret << ", errno=" << errno << ":"
-              << ::strerror(errno) << std::endl;
-  } else {
-    ctx_map_[my_id] = ctx;
+    // io_setup() returns the negated error and leaves errno alone.
+    throw std::runtime_error(std::string("LinuxAlignedFileReader: io_setup() failed: ") +
+                             ::strerror(-ret));
   }
-  lk.unlock();
+  ctx_map_[my_id] = ctx;
 }
 
 inline void LinuxAlignedFileReader::deregister_thread() {
@@ -358,7 +354,10 @@ inline void LinuxAlignedFileReader::open(const std::string &fname) {
   // O_RDONLY: Open file for reading only (index files are read-only during search).
   int flags = O_DIRECT | O_RDONLY;
   this->file_desc_ = ::open(fname.c_str(), flags);
-  assert(this->file_desc_ != -1);
+  if (this->file_desc_ == -1) {
+    throw std::runtime_error("LinuxAlignedFileReader: cannot open " + fname + ": " +
+                             std::strerror(errno));
+  }
 }
 
 inline void LinuxAlignedFileReader::close() {
-- 
2.43.0


From e2c6d790cfc8356e16a40396d841458186167e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 46/58] fix: LinuxAlignedFileReader::read reports failed and
 short reads

---
 .../index/graph/laser/utils/aligned_file_reader.hpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 2b465a5..ff80bdf 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -259,6 +259,9 @@ inline void execute_io(io_context_t ctx,
       int64_t ret = io_submit(ctx, static_cast<int64_t>(n_ops), cbs.data());
       // if requests didn't get accepted
       if (ret != static_cast<int64_t>(n_ops)) {
+        if (ret > 0) {  // the accepted ones must not complete after the buffers are gone
+          io_getevents_exact(ctx, evts.data(), ret, "LinuxAlignedFileReader");
+        }
         throw std::runtime_error("LinuxAlignedFileReader: io_submit() failed; returned " +
                                  std::to_string(ret) + ", expected=" + std::to_string(n_ops) +
                                  ", errno=" + std::to_string(errno) + "=" +
@@ -266,6 +269,14 @@ inline void execute_io(io_context_t ctx,
       } else {
         // wait for the whole batch (drains partial deliveries after interrupts)
         io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
+        for (const auto &evt : evts) {
+          const auto j = static_cast<uint64_t>(evt.obj - cb.data());
+          if (j >= n_ops || static_cast<int64_t>(evt.res) != static_cast<int64_t>(
+                                                                 cb[j].u.c.nbytes)) {
+            throw std::runtime_error("LinuxAlignedFileReader: short/failed read, result=" +
+                                     std::to_string(static_cast<int64_t>(evt.res)));
+          }
+        }
         break;
       }
     }
-- 
2.43.0


From ce00bafeb6b59b26bd956f3d94800a5a9563d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 47/58] fix: a DiskANN search that fails leaves no reads in
 flight

---
 include/index/graph/diskann/beam_search.hpp | 46 +++++++++++++++++++--
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index 73e422d..bdbe077 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -177,6 +177,42 @@ inline void scan_and_insert_neighbors(alaya::vamana::NeighborPriorityQueue &rets
   }
 }
 
+/**
+ * @brief The reads a search has in flight on one I/O context. A search that is
+ * left by an error waits for them: the next search reuses its context and page
+ * buffers, and must neither be handed their completions nor be overwritten.
+ */
+class InflightReads {
+ public:
+  InflightReads(AlignedFileReader &reader, IOContext &ctx) : reader_(reader), ctx_(ctx) {}
+  InflightReads(const InflightReads &) = delete;
+  auto operator=(const InflightReads &) -> InflightReads & = delete;
+  ~InflightReads() {
+    try {
+      std::vector<AlignedReadEvent> events;
+      while (count_ > 0) {
+        wait_one(events);
+      }
+    } catch (...) {  // the context itself is broken: nothing can be reaped
+    }
+  }
+
+  void submit(std::vector<AlignedRead> &reqs) {
+    reader_.submit_reqs(reqs, ctx_);
+    count_ += reqs.size();
+  }
+
+  void wait_one(std::vector<AlignedReadEvent> &events) {
+    reader_.get_events(ctx_, 1, events);  // clears + fills `events`
+    count_ -= std::min<size_t>(count_, events.size());
+  }
+
+ private:
+  AlignedFileReader &reader_;
+  IOContext &ctx_;
+  size_t count_ = 0;
+};
+
 /**
  * @brief No-PQ disk greedy search: a disk port of Vamana greedy search.
  *
@@ -394,6 +430,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     if (page_io != nullptr) {
       td.ensure_peek_scratch(page_size);
     }
+    InflightReads in_flight(reader, td.ctx_);
     auto submit_pending = [&]() {
       reqs.clear();
       while (!free_slots.empty() && !pending.empty()) {
@@ -424,7 +461,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
         reqs.emplace_back(page_off, page_size, m, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        in_flight.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -438,7 +475,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     // without ever entering `inflight`).
     while (td.has_inflight() || !pending.empty() || frontier.has_unexpanded_node()) {
       if (td.has_inflight()) {
-        reader.get_events(td.ctx_, 1, evts);  // get_events clears + fills `evts`
+        in_flight.wait_one(evts);  // get_events clears + fills `evts`
         for (const auto &e : evts) {
           if (e.result != static_cast<int64_t>(page_size)) {
             throw std::runtime_error("disk_greedy_search: short/failed read, result=" +
@@ -640,6 +677,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
     if (page_io != nullptr) {
       td.ensure_peek_scratch(page_size);
     }
+    InflightReads in_flight(reader, td.ctx_);
     auto fill_pipe = [&]() {
       reqs.clear();
       while (!free_slots.empty() && retset.has_unexpanded_node()) {
@@ -680,7 +718,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         reqs.emplace_back(page_off, page_size, id, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        in_flight.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -698,7 +736,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         stats->n_waits++;
         stats->inflight_sum += beam - free_slots.size();
       }
-      reader.get_events(td.ctx_, 1, evts);
+      in_flight.wait_one(evts);
       if (stats != nullptr) {
         stats->wait_us +=
             static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::microseconds>(
-- 
2.43.0


From 4d837fa46e5f6284be890b44a0a244bf85b0be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 48/58] fix: thread-pool reads keep the context their worker
 notifies alive

---
 .../graph/laser/utils/threadpool_file_reader.hpp   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..d0487dd 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -34,7 +34,7 @@
 #include "index/graph/laser/utils/aligned_file_reader.hpp"
 #include "utils/thread_config.hpp"
 
-struct ThreadPoolContext {
+struct ThreadPoolContext : std::enable_shared_from_this<ThreadPoolContext> {
   moodycamel::ConcurrentQueue<AlignedReadEvent> completions;
   std::mutex completion_mutex;
   std::condition_variable completion_cv;
@@ -45,11 +45,13 @@ class ThreadPoolFileReader : public AlignedFileReader {
  private:
   struct SubmittedRead {
     AlignedRead read;
-    ThreadPoolContext *ctx = nullptr;
+    // Keeps the context until the worker has notified it: its owner may take the
+    // completion and deregister first.
+    std::shared_ptr<ThreadPoolContext> ctx;
   };
 
   int file_desc_ = -1;
-  std::map<std::thread::id, std::unique_ptr<ThreadPoolContext>> owned_contexts_;
+  std::map<std::thread::id, std::shared_ptr<ThreadPoolContext>> owned_contexts_;
   moodycamel::ConcurrentQueue<SubmittedRead> submitted_reads_;
   std::vector<std::thread> workers_;
   std::atomic<bool> stop_{false};
@@ -117,7 +119,7 @@ inline void ThreadPoolFileReader::register_thread() {
     throw std::runtime_error("ThreadPoolFileReader::register_thread: thread is already registered");
   }
 
-  auto ctx = std::make_unique<ThreadPoolContext>();
+  auto ctx = std::make_shared<ThreadPoolContext>();
   IOContext raw_ctx = ctx.get();
   owned_contexts_[my_id] = std::move(ctx);
   ctx_map_[my_id] = raw_ctx;
@@ -224,7 +226,7 @@ inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs
   }
 
   for (const auto &read : read_reqs) {
-    submitted_reads_.enqueue(SubmittedRead{read, ctx});
+    submitted_reads_.enqueue(SubmittedRead{read, ctx->shared_from_this()});
   }
   submit_cv_.notify_all();
   return static_cast<int>(read_reqs.size());
@@ -290,7 +292,7 @@ inline void ThreadPoolFileReader::worker_loop() {
       } else {
         result = static_cast<int64_t>(bytes_read);
       }
-      notify_completion(submitted.ctx, AlignedReadEvent{submitted.read.id, result});
+      notify_completion(submitted.ctx.get(), AlignedReadEvent{submitted.read.id, result});
       continue;
     }
 
-- 
2.43.0


From 4f0e8d2d67f27f6040464606f929e4cd93cfc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 49/58] fix: ThreadPoolFileReader::read reports failed and
 short reads

---
 .../laser/utils/threadpool_file_reader.hpp    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d0487dd..ba7f452 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -204,12 +204,30 @@ inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  std::vector<AlignedReadEvent> events;
+  const int completed = get_events(ctx, submitted, events);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+
+  // No read returns more than it asked for, so the totals agree only if every one was complete.
+  uint64_t wanted = 0;
+  for (const auto &req : read_reqs) {
+    wanted += req.len;
+  }
+  uint64_t got = 0;
+  for (const auto &event : events) {
+    if (event.result < 0) {
+      throw std::runtime_error(std::string("ThreadPoolFileReader::read: pread() failed: ") +
+                               ::strerror(static_cast<int>(-event.result)));
+    }
+    got += static_cast<uint64_t>(event.result);
+  }
+  if (got != wanted) {
+    throw std::runtime_error("ThreadPoolFileReader::read: short read: " + std::to_string(got) +
+                             " of " + std::to_string(wanted) + " bytes");
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
-- 
2.43.0


From 5ea82eb614e1ba9af495bbd5140d887d5b4847b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 50/58] fix: $or in a metadata filter no longer makes its
 sibling entries optional

---
 python/src/alayalite/collection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 8f87de4..e8f5e4a 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -473,10 +473,12 @@ class Collection:
                     sub_filter = self._build_filter(sub_dict)
                     mf.add_sub_filter(sub_filter)
             elif key == "$or":
-                mf.logic_op = _LogicOp.OR
+                # Its own sub-filter: the other entries of this dict still have to match.
+                or_filter = _MetadataFilter()
+                or_filter.logic_op = _LogicOp.OR
                 for sub_dict in value:
-                    sub_filter = self._build_filter(sub_dict)
-                    mf.add_sub_filter(sub_filter)
+                    or_filter.add_sub_filter(self._build_filter(sub_dict))
+                mf.add_sub_filter(or_filter)
             elif isinstance(value, dict):
                 for op, op_value in value.items():
                     # TODO(review - filter DSL parity): expose `$ne`, `$not_in`, and `$contains`
-- 
2.43.0


From a40a9d290c419beec38755f933131a4866b8c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 51/58] fix: a failed delete is an error, not a silently
 skipped id

---
 python/src/alayalite/collection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index e8f5e4a..ec4fc20 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -326,10 +326,8 @@ class Collection:
             return
 
         for item_id in ids:
-            try:
+            if self.__cpp_index.contains(item_id):
                 self.__cpp_index.remove_by_item_id(item_id)
-            except RuntimeError:
-                pass  # item_id not found, skip
 
     def get_by_id(self, ids: List[str]) -> dict:
         """
-- 
2.43.0


From 143eb476fa64b1a322d10aa0a2f219fda0a52a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 52/58] fix: cosine collections normalize vectors however the
 metric is capitalized

---
 python/src/alayalite/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/alayalite/utils.py b/python/src/alayalite/utils.py
index fd5233b..808bba7 100644
--- a/python/src/alayalite/utils.py
+++ b/python/src/alayalite/utils.py
@@ -104,7 +104,7 @@ def md5(arr, chunk_size=1024 * 1024):
 
 def normalize_vectors_for_cosine_metric(vectors: np.ndarray, metric: Optional[str]) -> np.ndarray:
     """Normalize vectors only when cosine similarity is configured."""
-    if metric not in ("cos", "cosine"):
+    if metric is None or metric.lower() not in ("cos", "cosine"):
         return vectors
 
     if vectors.ndim == 1:
-- 
2.43.0


From 49f85a79ca689e1efcccf21bb430b013687f4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 53/58] fix: a bool in a metadata filter is compared as a bool

---
 python/src/pybind.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/src/pybind.cpp b/python/src/pybind.cpp
index 852cff8..3325252 100644
--- a/python/src/pybind.cpp
+++ b/python/src/pybind.cpp
@@ -39,6 +39,20 @@
 
 namespace py = pybind11;
 
+namespace pybind11::detail {
+// A Python bool is also an int, which the variant's alternatives would be tried as first.
+template <>
+struct type_caster<alaya::MetadataValue> : variant_caster<alaya::MetadataValue> {
+  auto load(handle src, bool convert) -> bool {
+    if (PyBool_Check(src.ptr())) {
+      value = (src.ptr() == Py_True);
+      return true;
+    }
+    return variant_caster<alaya::MetadataValue>::load(src, convert);
+  }
+};
+}  // namespace pybind11::detail
+
 PYBIND11_MODULE(_alayalitepy, m) {
   m.doc() = "AlayaLite";
 
-- 
2.43.0


From abd1c2369123a823323b2a3bdb27c3b295debb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 54/58] fix: strided and column-major arrays are read as numpy
 lays them out

---
 python/include/index.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..fadd657 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -479,6 +479,9 @@ class PyIndex : public BasePyIndex {
   }
 
  public:
+  /// Vectors are read through their data pointer, so strided or column-major arrays are copied.
+  using DenseArray = py::array_t<DataType, py::array::c_style | py::array::forcecast>;
+
   auto get_data_by_id(IDType id) -> py::array_t<DataType> {
     if constexpr (is_rabitq_space_v<SearchSpaceType>) {
       if (search_space_ == nullptr) {
@@ -1231,12 +1234,12 @@ class PyIndex : public BasePyIndex {
            const py::object &item_ids = py::none(),
            const py::object &documents = py::none(),
            const py::object &metadata_list = py::none()) -> void override {
-    auto typed_vectors = vectors.cast<py::array_t<DataType>>();
+    auto typed_vectors = vectors.cast<DenseArray>();
     fit(typed_vectors, ef_construction, num_threads, item_ids, documents, metadata_list);
   }
 
   auto search(py::array query, uint32_t topk, uint32_t ef) -> py::array override {  // NOLINT
-    auto typed_query = query.cast<py::array_t<DataType>>();
+    auto typed_query = query.cast<DenseArray>();
     return search(typed_query, topk, ef);
   }
 
@@ -1249,7 +1252,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<py::array_t<DataType>>();
+    auto typed_insert_data = insert_data.cast<DenseArray>();
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return insert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1259,7 +1262,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<py::array_t<DataType>>();
+    auto typed_insert_data = insert_data.cast<DenseArray>();
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return upsert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1300,7 +1303,7 @@ class PyIndex : public BasePyIndex {
                     uint32_t topk,
                     uint32_t ef,  // NOLINT
                     uint32_t num_threads) -> py::array override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = queries.cast<DenseArray>();
     return batch_search(typed_queries, topk, ef, num_threads);
   }
 
@@ -1308,7 +1311,7 @@ class PyIndex : public BasePyIndex {
                                   uint32_t topk,
                                   uint32_t ef,  // NOLINT
                                   uint32_t num_threads) -> py::object override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = queries.cast<DenseArray>();
     return batch_search_with_distance(typed_queries, topk, ef, num_threads);
   }
 
@@ -1318,7 +1321,7 @@ class PyIndex : public BasePyIndex {
                      const MetadataFilter &filter,
                      bool bf = false,
                      const std::string &filter_exec_hint = std::string()) -> py::object override {
-    auto typed_query = query.cast<py::array_t<DataType>>();
+    auto typed_query = query.cast<DenseArray>();
     return hybrid_search(typed_query, topk, ef, filter, bf, filter_exec_hint);
   }
 
@@ -1330,7 +1333,7 @@ class PyIndex : public BasePyIndex {
                            bool bf = false,
                            const std::string &filter_exec_hint = std::string())
       -> py::object override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = queries.cast<DenseArray>();
     return batch_hybrid_search(typed_queries, topk, ef, filter, num_threads, bf, filter_exec_hint);
   }
 
-- 
2.43.0


From 7b15bcb4bc7a168f81039a70aa1bed1d6e4808af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 55/58] fix: inserts and upserts that cannot be applied are
 refused before anything changes

---
 python/include/index.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index fadd657..036136f 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -329,6 +329,19 @@ class PyIndex : public BasePyIndex {
     return inserted_id;
   }
 
+  /// A mutation that cannot be applied is refused before it reaches the log or any space.
+  void validate_insertable(const py::array_t<DataType> &data) const {
+    if (static_cast<uint64_t>(data.size()) != data_dim_) {
+      throw std::invalid_argument("vector dimension must match the dimension of the index");
+    }
+    if (update_job_ == nullptr) {
+      throw std::runtime_error("incremental updates are not supported for the current index type");
+    }
+    if (search_space_->get_data_num() >= search_space_->get_capacity()) {
+      throw std::runtime_error("The index is full, cannot insert more vectors");
+    }
+  }
+
   void validate_insert_item_id_available(const ScalarData &scalar_data) const {
     if constexpr (SearchSpaceType::has_scalar_data) {
       if (scalar_data.item_id.empty() || search_space_ == nullptr) {
@@ -696,6 +709,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_insertable(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
@@ -727,6 +741,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_insertable(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
@@ -748,6 +763,9 @@ class PyIndex : public BasePyIndex {
   }
 
   auto remove(IDType id) -> void {
+    if (id >= search_space_->get_data_num()) {
+      throw std::runtime_error("id out of range");
+    }
     if (recovery_manager_ != nullptr) {
       auto op_id = next_recovery_op_id_++;
       recovery_manager_->append_prepare({op_id,
-- 
2.43.0


From 48bbf24a02161b659e2be482b0957bd3a5a5dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 56/58] fix: dense copies go to the typed overloads

---
 python/include/index.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 036136f..6066124 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -1252,12 +1252,12 @@ class PyIndex : public BasePyIndex {
            const py::object &item_ids = py::none(),
            const py::object &documents = py::none(),
            const py::object &metadata_list = py::none()) -> void override {
-    auto typed_vectors = vectors.cast<DenseArray>();
+    py::array_t<DataType> typed_vectors = vectors.cast<DenseArray>();
     fit(typed_vectors, ef_construction, num_threads, item_ids, documents, metadata_list);
   }
 
   auto search(py::array query, uint32_t topk, uint32_t ef) -> py::array override {  // NOLINT
-    auto typed_query = query.cast<DenseArray>();
+    py::array_t<DataType> typed_query = query.cast<DenseArray>();
     return search(typed_query, topk, ef);
   }
 
@@ -1270,7 +1270,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<DenseArray>();
+    py::array_t<DataType> typed_insert_data = insert_data.cast<DenseArray>();
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return insert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1280,7 +1280,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<DenseArray>();
+    py::array_t<DataType> typed_insert_data = insert_data.cast<DenseArray>();
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return upsert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1321,7 +1321,7 @@ class PyIndex : public BasePyIndex {
                     uint32_t topk,
                     uint32_t ef,  // NOLINT
                     uint32_t num_threads) -> py::array override {
-    auto typed_queries = queries.cast<DenseArray>();
+    py::array_t<DataType> typed_queries = queries.cast<DenseArray>();
     return batch_search(typed_queries, topk, ef, num_threads);
   }
 
@@ -1329,7 +1329,7 @@ class PyIndex : public BasePyIndex {
                                   uint32_t topk,
                                   uint32_t ef,  // NOLINT
                                   uint32_t num_threads) -> py::object override {
-    auto typed_queries = queries.cast<DenseArray>();
+    py::array_t<DataType> typed_queries = queries.cast<DenseArray>();
     return batch_search_with_distance(typed_queries, topk, ef, num_threads);
   }
 
@@ -1339,7 +1339,7 @@ class PyIndex : public BasePyIndex {
                      const MetadataFilter &filter,
                      bool bf = false,
                      const std::string &filter_exec_hint = std::string()) -> py::object override {
-    auto typed_query = query.cast<DenseArray>();
+    py::array_t<DataType> typed_query = query.cast<DenseArray>();
     return hybrid_search(typed_query, topk, ef, filter, bf, filter_exec_hint);
   }
 
@@ -1351,7 +1351,7 @@ class PyIndex : public BasePyIndex {
                            bool bf = false,
                            const std::string &filter_exec_hint = std::string())
       -> py::object override {
-    auto typed_queries = queries.cast<DenseArray>();
+    py::array_t<DataType> typed_queries = queries.cast<DenseArray>();
     return batch_hybrid_search(typed_queries, topk, ef, filter, num_threads, bf, filter_exec_hint);
   }
 
-- 
2.43.0


From 34f1a439b01afb5a10f9106c3b8b28b0e1d932f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 57/58] fix: a search that fails in DiskANN batch_search is an
 exception, not the end of the process

---
 include/index/graph/diskann/diskann_index.hpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 432d404..6b7579d 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -573,22 +573,32 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
+    std::vector<std::exception_ptr> errors(workers);
     std::vector<std::thread> pool;
     pool.reserve(workers);
     for (uint32_t w = 0; w < workers; ++w) {
-      pool.emplace_back([&]() {
-        for (;;) {
-          const uint32_t qi = next.fetch_add(1);
-          if (qi >= n_queries) {
-            break;
+      pool.emplace_back([&, w]() {
+        try {
+          for (;;) {
+            const uint32_t qi = next.fetch_add(1);
+            if (qi >= n_queries) {
+              break;
+            }
+            run_one(qi);
           }
-          run_one(qi);
+        } catch (...) {
+          errors[w] = std::current_exception();
         }
       });
     }
     for (auto &th : pool) {
       th.join();
     }
+    for (const auto &error : errors) {
+      if (error) {
+        std::rethrow_exception(error);
+      }
+    }
   }
 
 #if defined(__linux__)
-- 
2.43.0


From a3bae04df3066ee802e57f1f7ed593f129e80afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:01 +0000
Subject: [PATCH 58/58] fix: RaBitQ distance estimates of vectors of more than
 1028 dimensions no longer overflow

---
 include/utils/rabitq_utils/lut.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utils/rabitq_utils/lut.hpp b/include/utils/rabitq_utils/lut.hpp
index 0fe4daf..1afbad2 100644
--- a/include/utils/rabitq_utils/lut.hpp
+++ b/include/utils/rabitq_utils/lut.hpp
@@ -16,9 +16,11 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <vector>
 
 #include "./defines.hpp"
@@ -104,7 +106,12 @@ class Lut {
     T vr_lut_f;  // max val of lut_float
     data_range(lut_float.data(), table_length_, vl_lut_f, vr_lut_f);
 
-    delta_ = (vr_lut_f - vl_lut_f) / ((1 << kNumBits) - 1);
+    // fastscan sums one entry per table in 16 bits: with many tables (padded_dim > 1028) the entries
+    // take fewer levels, so that no sum overflows
+    constexpr size_t kMaxSum = std::numeric_limits<uint16_t>::max();
+    const size_t num_levels =
+        std::min<size_t>((1 << kNumBits) - 1, kMaxSum / std::max<size_t>(padded_dim / 4, 1));
+    delta_ = (vr_lut_f - vl_lut_f) / static_cast<T>(num_levels);
     // Here, 'the inner product (float) of every 4 dimensions from <x_b, P^(-1)·qr>' is quantized
     // into a knumBits-bit integer nth_segment. And it can be recovered to the nearest quantization
     // boundary using: vl_lut_f + nth_segment * delta
-- 
2.43.0

