From 50ff1c98f85ea901139d7e7be21fbe70db0b461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 01/85] fix: SQ4 space distances use each dimension's own range

The quantizer packs the even dimension into the high nibble while the distance
kernels read the low nibble first, so every dimension was scaled with its
neighbour's range, and with an odd dimension the last one was ignored.
---
 include/space/sq4_space.hpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..3e51ea3 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -84,6 +84,7 @@ class SQ4Space {
         config_(std::move(config)) {
     data_size_ = ((dim + 1) / 2) * sizeof(uint8_t);
     data_storage_.init(data_size_, capacity);
+    sync_kernel_ranges();
     set_metric_function();
   }
 
@@ -134,6 +135,7 @@ class SQ4Space {
     item_cnt_ = item_cnt;
 
     quantizer_.fit(data, item_cnt);
+    sync_kernel_ranges();
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
       quantizer_.encode(data + (i * dim_), data_storage_[id]);
@@ -173,11 +175,7 @@ class SQ4Space {
    * @return The calculated distance
    */
   auto get_distance(IDType i, IDType j) -> DistanceType {
-    return distance_calu_func_(get_data_by_id(i),
-                               get_data_by_id(j),
-                               dim_,
-                               quantizer_.get_min(),
-                               quantizer_.get_max());
+    return code_distance(get_data_by_id(i), get_data_by_id(j));
   }
 
   /**
@@ -362,6 +360,7 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    sync_kernel_ranges();
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
 
@@ -429,11 +428,7 @@ class SQ4Space {
      * @return The calculated distance
      */
     auto operator()(IDType u) const -> DistanceType {
-      return distance_space_.distance_calu_func_(query_,
-                                                 distance_space_.get_data_by_id(u),
-                                                 distance_space_.get_dim(),
-                                                 distance_space_.get_quantizer().get_min(),
-                                                 distance_space_.get_quantizer().get_max());
+      return distance_space_.code_distance(query_, distance_space_.get_data_by_id(u));
     }
   };
 
@@ -477,6 +472,26 @@ class SQ4Space {
   DataStorage data_storage_;          ///< Data storage for encoded data
   SQ4Quantizer<DataType> quantizer_;  ///< The quantizer used to quantize the data
 
+  // The quantizer packs the even dimension into the high nibble, while the distance kernels read
+  // the low nibble first. The ranges handed to the kernels are therefore swapped within each byte
+  // (and padded to whole bytes, a padded dimension having an empty range).
+  std::vector<DataType> kernel_min_;
+  std::vector<DataType> kernel_max_;
+
+  void sync_kernel_ranges() {
+    size_t padded_dim = 2 * ((static_cast<size_t>(dim_) + 1) / 2);
+    kernel_min_.assign(padded_dim, DataType{0});
+    kernel_max_.assign(padded_dim, DataType{0});
+    for (size_t i = 0; i < dim_; ++i) {
+      kernel_min_[i ^ 1U] = quantizer_.get_min()[i];
+      kernel_max_[i ^ 1U] = quantizer_.get_max()[i];
+    }
+  }
+
+  auto code_distance(const uint8_t *x, const uint8_t *y) const -> DistanceType {
+    return distance_calu_func_(x, y, kernel_min_.size(), kernel_min_.data(), kernel_max_.data());
+  }
+
   RocksDBConfig config_;  ///< Configuration for Scalar Data Storage
   std::unique_ptr<RocksDBStorage<IDType>>
       scalar_storage_;  ///< Scalar Data Storage (stores ScalarData)
-- 
2.43.0


From 3dd4a8ead1727c4bc090fb04b93bc29939265394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 02/85] fix: fastscan estimates no longer overflow 16-bit
 accumulators above 1024 dimensions

---
 include/utils/rabitq_utils/fastscan.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/utils/rabitq_utils/fastscan.hpp b/include/utils/rabitq_utils/fastscan.hpp
index 55f268c..3883a4b 100644
--- a/include/utils/rabitq_utils/fastscan.hpp
+++ b/include/utils/rabitq_utils/fastscan.hpp
@@ -18,6 +18,7 @@
 
 #include "utils/platform.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -32,6 +33,8 @@
 
 namespace alaya::fastscan {
 constexpr static size_t kBatchSize = 32;  // number of vectors in each batch
+// largest dimension whose sum of dim / 4 8-bit table entries always fits the 16-bit accumulators
+constexpr static size_t kMaxAccumulateDim = 1024;
 
 inline auto log_scalar_fastscan_fallback() -> void {
   LOG_INFO_ONCE("rabitq fallback: AVX-512 fastscan is unavailable, using portable fallback path");
@@ -321,6 +324,24 @@ inline void accumulate_and_estimate_distances(const uint8_t *ALAYA_RESTRICT code
                                               size_t dim) {
   static_assert(std::is_same_v<T, float>,
                 "fastscan::accumulate_and_estimate_distances only supports float.");
+  if (dim > kMaxAccumulateDim) {
+    std::array<uint32_t, kBatchSize> totals{};
+    for (size_t done = 0; done < dim; done += kMaxAccumulateDim) {
+      alignas(64) std::array<uint16_t, kBatchSize> nth_segments{};
+      accumulate(codes + (done << 2),
+                 lp_table + (done << 2),
+                 nth_segments.data(),
+                 std::min(kMaxAccumulateDim, dim - done));
+      for (size_t i = 0; i < kBatchSize; ++i) {
+        totals[i] += nth_segments[i];
+      }
+    }
+    for (size_t i = 0; i < kBatchSize; ++i) {
+      const auto inner = static_cast<T>(totals[i]) * lut_delta + lut_bias;
+      result[i] = f_rescale[i] * inner + f_add[i] + g_add;
+    }
+    return;
+  }
   if ((dim & 0x0FU) != 0U) {
     log_scalar_fastscan_fallback();
     alignas(64) std::array<uint16_t, kBatchSize> nth_segments{};
-- 
2.43.0


From 9215f2551633d15421188b3c6be68e25fa168e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 03/85] fix: scalar quantizers keep double inputs in double
 precision

---
 include/space/quant/sq4.hpp | 4 +++-
 include/space/quant/sq8.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/space/quant/sq4.hpp b/include/space/quant/sq4.hpp
index 41b5fab..4fbebba 100644
--- a/include/space/quant/sq4.hpp
+++ b/include/space/quant/sq4.hpp
@@ -7,6 +7,7 @@
 #include <cstdint>
 #include <fstream>
 #include <limits>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -115,7 +116,8 @@ struct SQ4Quantizer {
     if (value <= min) {
       return 0x00;
     }
-    auto scaled = (static_cast<float>(value) - min) / (max - min);
+    using Wide = std::common_type_t<DataType, float>;
+    auto scaled = (static_cast<Wide>(value) - min) / (max - min);
     return static_cast<uint8_t>(scaled * 15);
   }
 
diff --git a/include/space/quant/sq8.hpp b/include/space/quant/sq8.hpp
index 3d3830e..07ee4f8 100644
--- a/include/space/quant/sq8.hpp
+++ b/include/space/quant/sq8.hpp
@@ -8,6 +8,7 @@
 #include <fstream>
 #include <iostream>
 #include <limits>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -115,7 +116,8 @@ struct SQ8Quantizer {
     if (value <= min) {
       return 0x00;
     }
-    auto scaled = (static_cast<float>(value) - min) / (max - min);
+    using Wide = std::common_type_t<DataType, float>;
+    auto scaled = (static_cast<Wide>(value) - min) / (max - min);
     return static_cast<uint8_t>(scaled * 255);
   }
 
-- 
2.43.0


From 68aa9ab019475aacf6360dda832bc201aaf7776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 04/85] fix: LASER estimates read 16-bit table sums as unsigned

---
 include/simd/laser_dispatch.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/simd/laser_dispatch.hpp b/include/simd/laser_dispatch.hpp
index 7cf2bca..232db70 100644
--- a/include/simd/laser_dispatch.hpp
+++ b/include/simd/laser_dispatch.hpp
@@ -145,7 +145,7 @@ inline void convert_accum_to_float_generic(size_t count,
                                            int32_t sumq,
                                            float *ALAYA_RESTRICT result_float) {
   for (size_t i = 0; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
@@ -367,19 +367,17 @@ inline void convert_accum_to_float_avx512(size_t count,
                                           const uint16_t *ALAYA_RESTRICT result,
                                           int32_t sumq,
                                           float *ALAYA_RESTRICT result_float) {
-  // FastScan accumulators are stored as uint16 but carry int16 bit patterns
-  // (the _mm*_sub_epi16 in accumulate_impl_* can produce negatives). The SIMD
-  // path uses _mm*_cvtepi16_epi32 to sign-extend; the scalar tail mirrors this
-  // via static_cast<int16_t> -- changing it to int32_t would zero-extend and
-  // diverge from the SIMD output.
+  // FastScan accumulators are unsigned 16-bit table sums (the intermediate
+  // subtractions in accumulate_impl_* wrap modulo 2^16, the totals do not), and
+  // they pass 32767 above 1024 dimensions, so they must be zero-extended.
   const __m512i qq = _mm512_set1_epi32(sumq);
   size_t i = 0;
   const size_t simd_count = count - (count % 32);
   for (; i < simd_count; i += 32) {
     __m256i i16a = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(&result[i]));
     __m256i i16b = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(&result[i + 16]));
-    __m512i i32a = _mm512_cvtepi16_epi32(i16a);
-    __m512i i32b = _mm512_cvtepi16_epi32(i16b);
+    __m512i i32a = _mm512_cvtepu16_epi32(i16a);
+    __m512i i32b = _mm512_cvtepu16_epi32(i16b);
 
     i32a = _mm512_sub_epi32(_mm512_slli_epi32(i32a, 1), qq);
     i32b = _mm512_sub_epi32(_mm512_slli_epi32(i32b, 1), qq);
@@ -387,7 +385,7 @@ inline void convert_accum_to_float_avx512(size_t count,
     _mm512_storeu_ps(&result_float[i + 16], _mm512_cvtepi32_ps(i32b));
   }
   for (; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
@@ -401,12 +399,12 @@ inline void convert_accum_to_float_avx2(size_t count,
   const size_t simd_count = count - (count % 8);
   for (; i < simd_count; i += 8) {
     __m128i i16 = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&result[i]));
-    __m256i i32 = _mm256_cvtepi16_epi32(i16);
+    __m256i i32 = _mm256_cvtepu16_epi32(i16);
     i32 = _mm256_sub_epi32(_mm256_slli_epi32(i32, 1), qq);
     _mm256_storeu_ps(&result_float[i], _mm256_cvtepi32_ps(i32));
   }
   for (; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
-- 
2.43.0


From 67e5007c6cf7580094e4442d5649d98b9f46d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 05/85] fix: metadata record count survives an unclean shutdown

---
 include/storage/rocksdb_storage.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..b979bac 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -240,6 +240,9 @@ class RocksDBStorage {
 
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
+    if (!replacing_existing) {
+      put_count(batch, cached_count_.load() + 1);
+    }
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -345,6 +348,7 @@ class RocksDBStorage {
       // Add field indexes for indexed fields
       add_field_indexes(batch, record.id, record.data);
     }
+    put_count(batch, cached_count_.load() + inserted_count);
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -379,6 +383,9 @@ class RocksDBStorage {
 
     // Remove field indexes
     remove_field_indexes(batch, id, data);
+    if (cached_count_ > 0) {
+      put_count(batch, cached_count_.load() - 1);
+    }
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -984,6 +991,11 @@ class RocksDBStorage {
     db_->Put(sync_options, count_key(), count_slice);
   }
 
+  // The count is written with the records it counts, so that it survives an unclean shutdown.
+  static void put_count(rocksdb::WriteBatch &batch, size_t count) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&count), sizeof(count)));
+  }
+
   static auto item_id_index_key(const std::string &item_id) -> std::string {
     return "i_" + item_id;
   }
-- 
2.43.0


From 499ef011b59991364ea9f33d0ce4bca109c69e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 06/85] fix: secondary index lookups return exactly the records
 that match

---
 include/storage/rocksdb_storage.hpp | 42 +++++++++++++++++++++--------
 include/utils/index_encoding.hpp    |  8 ++++++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index b979bac..d0176dd 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -556,6 +556,9 @@ class RocksDBStorage {
                                             const MetadataValue &value) const
       -> std::vector<IDType> {
     std::vector<IDType> ids;
+    if (const auto *number = std::get_if<double>(&value); number != nullptr && *number == 0.0) {
+      return get_ids_by_double_range(field, 0.0, 0.0);  // both signed zeros
+    }
     std::string encoded = index_encoding::encode_value(value);
     std::string prefix = index_encoding::make_field_index_prefix(field, encoded);
 
@@ -568,6 +571,9 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      if (!is_decimal(std::string_view(key).substr(prefix.size()))) {
+        continue;  // a longer value that starts with this one
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
@@ -607,9 +613,10 @@ class RocksDBStorage {
       }
       // Extract encoded value and check range
       auto value_start = field_prefix.size() + 2;
-      auto value_end = key.rfind('_');
-      if (value_end == std::string::npos || value_end <= value_start) {
-        continue;
+      auto value_end = value_start + index_encoding::kNumberDigits;
+      if (key.size() <= value_end || key[value_end] != '_' ||
+          !is_decimal(std::string_view(key).substr(value_end + 1))) {
+        continue;  // an entry of another field whose name starts with this one's
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
       if (encoded_value > end_encoded) {
@@ -634,9 +641,17 @@ class RocksDBStorage {
                                              double max_value) const -> std::vector<IDType> {
     std::vector<IDType> ids;
 
-    std::string field_prefix = index_encoding::make_field_prefix(field);
-    std::string start_key = field_prefix + "d_" + index_encoding::encode_double(min_value);
+    // 0.0 and -0.0 are equal but encoded apart: each bound takes the zero that covers both
+    std::string start_encoded = index_encoding::encode_double(min_value);
+    if (start_encoded == index_encoding::kPositiveZero) {
+      start_encoded = index_encoding::kNegativeZero;
+    }
     std::string end_encoded = index_encoding::encode_double(max_value);
+    if (end_encoded == index_encoding::kNegativeZero) {
+      end_encoded = index_encoding::kPositiveZero;
+    }
+    std::string field_prefix = index_encoding::make_field_prefix(field);
+    std::string start_key = field_prefix + "d_" + start_encoded;
 
     rocksdb::ReadOptions read_opts;
     read_opts.fill_cache = false;
@@ -651,9 +666,10 @@ class RocksDBStorage {
         continue;
       }
       auto value_start = field_prefix.size() + 2;
-      auto value_end = key.rfind('_');
-      if (value_end == std::string::npos || value_end <= value_start) {
-        continue;
+      auto value_end = value_start + index_encoding::kNumberDigits;
+      if (key.size() <= value_end || key[value_end] != '_' ||
+          !is_decimal(std::string_view(key).substr(value_end + 1))) {
+        continue;  // an entry of another field whose name starts with this one's
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
       if (encoded_value > end_encoded) {
@@ -744,6 +760,12 @@ class RocksDBStorage {
     }
   }
 
+  static auto is_decimal(std::string_view text) -> bool {
+    return !text.empty() && std::all_of(text.begin(), text.end(), [](char ch) {
+      return ch >= '0' && ch <= '9';
+    });
+  }
+
   static constexpr auto data_key_prefix() -> std::string_view { return "d_"; }
 
   using UnsignedIDType = std::make_unsigned_t<IDType>;
@@ -774,9 +796,7 @@ class RocksDBStorage {
     }
 
     auto digits = key.substr(data_key_prefix().size());
-    if (digits.empty() || !std::all_of(digits.begin(), digits.end(), [](char ch) {
-          return ch >= '0' && ch <= '9';
-        })) {
+    if (!is_decimal(digits)) {
       return std::nullopt;
     }
 
diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..aee244f 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -9,6 +9,7 @@
 #include <cstdio>
 #include <cstring>
 #include <string>
+#include <string_view>
 
 #include "scalar_data.hpp"
 
@@ -20,6 +21,13 @@
  */
 namespace alaya::index_encoding {
 
+/// Number of hex digits encode_int64 and encode_double produce
+inline constexpr size_t kNumberDigits = 16;
+
+/// What encode_double yields for the two zeros, which compare equal
+inline constexpr std::string_view kNegativeZero = "7fffffffffffffff";
+inline constexpr std::string_view kPositiveZero = "8000000000000000";
+
 /**
  * @brief Encode int64 to sortable hex string (handles negative numbers)
  *
-- 
2.43.0


From f280d8b698d96c91dd3a115c5e3b38ec82cb209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 07/85] fix: indexed double comparisons see infinite values

---
 include/utils/metadata_filter_matcher.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..b48767c 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -196,7 +196,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -211,10 +211,14 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
+          if (value == std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
           return storage_
               ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+                                        std::nextafter(value,
+                                                       std::numeric_limits<double>::infinity()),
+                                        std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +229,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   -std::numeric_limits<double>::infinity(),
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -241,11 +245,14 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
+          if (value == -std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
           return storage_
               ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
+                                        -std::numeric_limits<double>::infinity(),
                                         std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+                                                       -std::numeric_limits<double>::infinity()));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From b96fb6a575e6a77d153b4a787f0da4d2b5be23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 08/85] fix: spaces count only the inserts and removals that
 happen

RawSpace::insert counted (and stored scalar data for) an insert the full storage refused, and remove() of an id that
was not live was counted as a deletion.
---
 include/space/raw_space.hpp            | 10 +++++++++-
 include/space/sq4_space.hpp            |  5 ++++-
 include/space/sq8_space.hpp            |  5 ++++-
 include/storage/sequential_storage.hpp |  2 +-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..1561432 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,10 +163,15 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -180,13 +185,16 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
+    if (data_storage_.remove(id) == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
         scalar_storage_->remove(id);
       }
     }
-    return data_storage_.remove(id);
+    return id;
   }
 
   auto remove(const std::string &item_id) -> IDType {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 3e51ea3..bd5a297 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -306,6 +306,9 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (data_storage_.remove(id) == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
@@ -315,7 +318,7 @@ class SQ4Space {
       }
     }
 
-    return data_storage_.remove(id);
+    return id;
   }
 
   /**
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..94f22a4 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -307,6 +307,9 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    if (data_storage_.remove(id) == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
@@ -316,7 +319,7 @@ class SQ8Space {
       }
     }
 
-    return data_storage_.remove(id);
+    return id;
   }
 
   /**
diff --git a/include/storage/sequential_storage.hpp b/include/storage/sequential_storage.hpp
index dd63300..e6b7eba 100644
--- a/include/storage/sequential_storage.hpp
+++ b/include/storage/sequential_storage.hpp
@@ -58,7 +58,7 @@ struct SequentialStorage {
   }
 
   auto is_valid(IDType index) const -> bool {
-    return bitmap_[index / kBitEveryByte] & (1 << (index % kBitEveryByte));
+    return index < capacity_ && (bitmap_[index / kBitEveryByte] & (1 << (index % kBitEveryByte)));
   }
 
   auto insert(const DataType *data) -> IDType {
-- 
2.43.0


From 76299a6098c3895d3403514e1f352557fd452c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 09/85] fix: WAL appends after a damaged tail are replayed,
 failed appends are reported

Replay stops at the first damaged frame, so operations committed after recovering from a torn tail were lost at the
next recovery. A frame that could not be written was acknowledged as committed.
---
 include/recovery/write_ahead_log.hpp | 47 ++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..cc318c1 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,50 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Cuts the WAL back to its last complete frame before new frames are appended.
+   *
+   * Replay stops at the first damaged frame, so frames appended behind a torn tail would never be
+   * seen again.
+   */
+  auto drop_damaged_tail() const -> void {
+    if (!fs::exists(path_)) {
+      return;
+    }
+    const auto wal_file_size = fs::file_size(path_);
+    uintmax_t intact_size = 0;
+    {
+      std::ifstream input(path_, std::ios::binary);
+      if (!input.is_open()) {
+        throw std::runtime_error("Failed to open WAL file at " + path_.string());
+      }
+      while (true) {
+        auto header = read_frame_header(input);
+        if (!header.has_value() ||
+            !payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+          break;
+        }
+        input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+        uint32_t trailer = 0;
+        input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+        if (!input || trailer != kWalTrailerMagic) {
+          break;
+        }
+        intact_size = static_cast<uintmax_t>(input.tellg());
+      }
+    }
+    if (intact_size < wal_file_size) {
+      LOG_WARN("WAL tail is damaged, dropping {} bytes at {}",
+               wal_file_size - intact_size,
+               path_.string());
+      fs::resize_file(path_, intact_size);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      drop_damaged_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
@@ -350,6 +391,12 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopening drops whatever part of the frame did reach the file.
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append to WAL file at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
-- 
2.43.0


From 798319967f741c86b8a1f43924ddcd2d383d3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 10/85] fix: operation ids keep increasing after a snapshot

next_operation_id() dropped the snapshot's lower bound once the WAL had been truncated.
---
 include/recovery/recovery_manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..c6fe010 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -58,7 +58,7 @@ class RecoveryManager {
     if (manifest.has_value()) {
       max_seen = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
+    (void)wal_.replayable_records(max_seen, &max_seen);
     return max_seen + 1;
   }
 
-- 
2.43.0


From 1e4c8f7434e5bcfbf5ddef8699e550f506e590bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 11/85] fix: a new snapshot never reuses the directory of the
 current one

Two snapshots created within the same millisecond shared a directory, so the published one was overwritten in place.
---
 include/recovery/recovery_manager.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index c6fe010..9df7ea7 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -64,12 +64,15 @@ class RecoveryManager {
 
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
-    auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // Never reuse an existing directory: it may hold the snapshot CURRENT points to.
+    for (auto stamp = SnapshotManifest::current_unix_ms();; ++stamp) {
+      std::ostringstream name;
+      name << "snapshot-" << stamp;
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+    }
   }
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-- 
2.43.0


From 541055fc3013c9579cf837512fc4ee7b881b6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 12/85] fix: a snapshot is not published when its manifest
 cannot be written

A failed write (full disk) left an empty CURRENT, after which the WAL and the older snapshots were removed.
---
 include/recovery/recovery_manager.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 9df7ea7..340ef4c 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -257,6 +257,9 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
     platform::sync_file(tmp_path);
-- 
2.43.0


From 2f424b3c0005ebae695b4301493fa77925a96a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 13/85] fix: a commit whose fsync fails is not acknowledged

---
 include/recovery/write_ahead_log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index cc318c1..ff07039 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -402,7 +402,7 @@ class WriteAheadLog {
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From 9a7bcaaabef2c7246cae2d78eba8b747d83c55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 14/85] fix: keep the medoid's reverse edges when its own
 candidate list is empty

---
 include/index/graph/vamana/vamana_builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/vamana_builder.hpp b/include/index/graph/vamana/vamana_builder.hpp
index 3490a50..9dde724 100644
--- a/include/index/graph/vamana/vamana_builder.hpp
+++ b/include/index/graph/vamana/vamana_builder.hpp
@@ -459,7 +459,11 @@ class VamanaBuilder {
 
       {
         std::lock_guard<std::mutex> guard(locks_[node]);
-        graph_[node] = pruned_list;
+        // With L = 1 the medoid's own search finds nothing but itself; keep the
+        // reverse edges it was given instead of cutting it off the graph.
+        if (!pruned_list.empty()) {
+          graph_[node] = pruned_list;
+        }
       }
 
       inter_insert(node, pruned_list, s, alpha);
-- 
2.43.0


From 076b96fa7fd7b2fbc24a433018418fb2cf973e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 15/85] fix: size the multi-segment hit buffer by the rows
 there are, not by top_k

---
 include/index/disk/disk_collection.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..1c4080a 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1070,7 +1070,12 @@ class DiskCollection {
 
     const bool preserve_laser_rank = segments_[0]->type() == DiskIndexType::Laser;
     std::vector<Tagged> all;
-    all.reserve(segments_.size() * opts.top_k);
+    // No segment returns more hits than it has rows, however large top_k is.
+    uint64_t max_hits = 0;
+    for (const auto &seg : segments_) {
+      max_hits += std::min<uint64_t>(opts.top_k, seg->size());
+    }
+    all.reserve(max_hits);
     for (uint32_t s = 0; s < segments_.size(); ++s) {
       auto seg_hits = segments_[s]->search(query, opts);
       for (size_t rank = 0; rank < seg_hits.size(); ++rank) {
-- 
2.43.0


From 285f24a1620d47115f7f017b24c207ccff978fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 16/85] fix: report a graph file whose last bytes could not be
 written

---
 include/index/graph/vamana/vamana_writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..d18bc52 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -68,7 +68,11 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
   if (!out.good()) {
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
+  // The last buffered bytes reach the file here; a full disk shows only now.
   out.close();
+  if (!out.good()) {
+    throw std::runtime_error("save_graph: close error on " + path.string());
+  }
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0


From 7dd7e56a2cc05479eec501874b780a1e1de30344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 17/85] fix: reject segments that do not belong to the
 collection that lists them

---
 include/index/disk/disk_collection.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 1c4080a..2d74af7 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1257,6 +1257,7 @@ class DiskCollection {
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
+    std::set<std::string> seen;
     for (const auto &id : manifest_.segment_ids) {
       const auto seg_dir = path_ / "segments" / id;
       // Reject segment directories that are themselves symlinks: a
@@ -1267,6 +1268,18 @@ class DiskCollection {
         throw std::runtime_error("DiskCollection: segment directory is a symlink: " +
                                  seg_dir.string());
       }
+      // A segment of another collection (or a damaged manifest) must not be
+      // searched: queries are sized by the collection's dim, and hits of
+      // different metrics cannot be merged.
+      const auto sm = SegmentManifest::load(seg_dir / "manifest.txt");
+      if (sm.segment_id != id || sm.dim != manifest_.dim || sm.metric != manifest_.metric ||
+          sm.index_type != manifest_.index_type) {
+        throw std::runtime_error(
+            "DiskCollection: segment manifest does not match the collection: " + seg_dir.string());
+      }
+      if (!seen.insert(id).second) {
+        throw std::runtime_error("DiskCollection: segment listed twice: " + seg_dir.string());
+      }
       auto searcher = load_segment_from_manifest(seg_dir);
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
-- 
2.43.0


From 97328709be85b2f3abc6931c2800b7d1fa7fdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 18/85] fix: a manifest too large to load is refused when it is
 saved

---
 include/index/disk/segment_manifest.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/index/disk/segment_manifest.hpp b/include/index/disk/segment_manifest.hpp
index 9210990..e418a4a 100644
--- a/include/index/disk/segment_manifest.hpp
+++ b/include/index/disk/segment_manifest.hpp
@@ -133,6 +133,11 @@ inline auto read_manifest_file(const std::filesystem::path &path) -> std::string
 
 inline auto write_manifest_file(const std::filesystem::path &path, std::string_view contents)
     -> void {
+  // read_manifest_file refuses anything larger: never store what cannot be loaded back.
+  if (contents.size() > kMaxManifestBytes) {
+    throw std::length_error("manifest of " + std::to_string(contents.size()) +
+                            " bytes exceeds the limit of " + std::to_string(kMaxManifestBytes));
+  }
   ::alaya::platform::write_all_fsync(path, contents.data(), contents.size());
 }
 
-- 
2.43.0


From f425f81b3f8c3d3de272fb49fe69daadc02e6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 19/85] fix: opening a pipe as a segment file no longer blocks
 forever

---
 include/storage/mmap_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/storage/mmap_file.hpp b/include/storage/mmap_file.hpp
index 417a159..1d6a20f 100644
--- a/include/storage/mmap_file.hpp
+++ b/include/storage/mmap_file.hpp
@@ -153,7 +153,8 @@ class MMapFile {
     data_ = p;
     size_ = static_cast<size_t>(li.QuadPart);
 #else
-    int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW);
+    // O_NONBLOCK: opening a FIFO must not wait for a writer before it is rejected below.
+    int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW | O_NONBLOCK);
     if (fd < 0) {
       int saved = errno;
       throw std::runtime_error("MMapFile open failed: " + path.string() + ": " +
-- 
2.43.0


From 9c71f66bc1cf5ec5a7a3958132036cbe7b60b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 20/85] fix: saving parts of an on-disk graph index reports a
 failing last write

---
 include/index/graph/diskann/diskann_index.hpp    | 2 ++
 include/index/graph/diskann/node_cache.hpp       | 2 ++
 include/index/graph/diskann/pq_table.hpp         | 2 ++
 include/index/graph/diskann/slot_allocator.hpp   | 1 +
 include/index/graph/diskann/tombstone_bitmap.hpp | 1 +
 5 files changed, 8 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..78bd00e 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2251,6 +2251,7 @@ class DiskANNIndex {
     w(&m.nodes_per_sector, sizeof(m.nodes_per_sector));
     w(&m.max_slot_id, sizeof(m.max_slot_id));  // v2
     w(&m.live_count, sizeof(m.live_count));    // v2
+    out.close();  // the last buffered bytes may fail to reach the file
     if (!out) {
       throw std::runtime_error("DiskANNIndex: meta write failed " + p);
     }
@@ -2310,6 +2311,7 @@ class DiskANNIndex {
     out.write(reinterpret_cast<const char *>(&n), sizeof(n));
     out.write(reinterpret_cast<const char *>(labels),
               static_cast<std::streamsize>(n * sizeof(uint64_t)));
+    out.close();  // the last buffered bytes may fail to reach the file
     if (!out) {
       throw std::runtime_error("DiskANNIndex: ids write failed " + p);
     }
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..1dfcb43 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -169,6 +169,7 @@ class NodeCache {
         out.write(reinterpret_cast<const char *>(ids.data()),
                   static_cast<std::streamsize>(count * sizeof(uint32_t)));
       }
+      out.close();  // the last buffered bytes may fail to reach the file
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + ids_path);
       }
@@ -189,6 +190,7 @@ class NodeCache {
         }
         out.write(record, static_cast<std::streamsize>(node_len_));
       }
+      out.close();  // the last buffered bytes may fail to reach the file
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + nodes_path);
       }
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index e31dff8..d8695be 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -380,6 +380,7 @@ class PQTable {
                 static_cast<std::streamsize>(global_centroid_.size() * sizeof(float)));
       out.write(reinterpret_cast<const char *>(codebook_.data()),
                 static_cast<std::streamsize>(codebook_.size() * sizeof(float)));
+      out.close();  // the last buffered bytes may fail to reach the file
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + pivots_path);
       }
@@ -391,6 +392,7 @@ class PQTable {
       }
       out.write(reinterpret_cast<const char *>(codes_.data()),
                 static_cast<std::streamsize>(codes_.size()));
+      out.close();  // the last buffered bytes may fail to reach the file
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + compressed_path);
       }
diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..3465005 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -103,6 +103,7 @@ class SlotAllocator {
                 static_cast<std::streamsize>(n_free * sizeof(uint32_t)));
     }
     tombstone_.serialize(out);
+    out.close();  // the last buffered bytes may fail to reach the file
     if (!out) {
       throw std::runtime_error("SlotAllocator::save: write failed " + path);
     }
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..85b9308 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -221,6 +221,7 @@ class TombstoneBitmap {
       throw std::runtime_error("TombstoneBitmap::save: cannot open " + path);
     }
     serialize(out);
+    out.close();  // the last buffered bytes may fail to reach the file
     if (!out) {
       throw std::runtime_error("TombstoneBitmap::save: write failed " + path);
     }
-- 
2.43.0


From da11ce413e377b33b6f07392edd01055a89e466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 21/85] fix: damaged headers of on-disk graph index files are
 refused

---
 include/index/graph/diskann/disk_layout.hpp      | 15 ++++++++++-----
 include/index/graph/diskann/node_cache.hpp       |  6 ++++++
 include/index/graph/diskann/slot_allocator.hpp   |  4 ++++
 include/index/graph/diskann/tombstone_bitmap.hpp |  6 ++++--
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/diskann/disk_layout.hpp b/include/index/graph/diskann/disk_layout.hpp
index bf43d0b..4033a99 100644
--- a/include/index/graph/diskann/disk_layout.hpp
+++ b/include/index/graph/diskann/disk_layout.hpp
@@ -321,6 +321,16 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (h.num_points == 0 || h.dim == 0) {
     throw std::runtime_error("read_disk_layout_header: zero num_points/dim in " + path);
   }
+  // Every point and every coordinate takes space in the file. Checked first: the geometry
+  // arithmetic below wraps around for larger values.
+  std::error_code ec;
+  const auto actual = std::filesystem::file_size(path, ec);
+  if (ec) {
+    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
+  }
+  if (h.num_points > actual || h.dim > actual) {
+    throw std::runtime_error("read_disk_layout_header: num_points/dim exceed the file in " + path);
+  }
   const DiskLayoutGeometry geom = DiskLayoutGeometry::compute(h.dim, h.max_degree);
   if (h.node_len != geom.node_len) {
     throw std::runtime_error("read_disk_layout_header: node_len mismatch (header " +
@@ -339,11 +349,6 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
                              std::to_string(h.total_file_size) + " != expected " +
                              std::to_string(expected));
   }
-  std::error_code ec;
-  const auto actual = std::filesystem::file_size(path, ec);
-  if (ec) {
-    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
-  }
   if (static_cast<uint64_t>(actual) != h.total_file_size) {
     throw std::runtime_error("read_disk_layout_header: on-disk size " + std::to_string(actual) +
                              " != header total_file_size " + std::to_string(h.total_file_size));
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 1dfcb43..385cb65 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -209,6 +209,9 @@ class NodeCache {
       if (!in) {
         throw std::runtime_error("NodeCache::load: short read (ids count) " + ids_path);
       }
+      if (id_count > std::filesystem::file_size(ids_path) / sizeof(uint32_t)) {
+        throw std::runtime_error("NodeCache::load: short read (ids) " + ids_path);
+      }
       ids_.assign(id_count, 0);
       if (id_count > 0) {
         in.read(reinterpret_cast<char *>(ids_.data()),
@@ -235,6 +238,9 @@ class NodeCache {
                                  std::to_string(id_count) + " vs " + std::to_string(node_count) +
                                  ")");
       }
+      if (node_count > 0 && node_len_ > std::filesystem::file_size(nodes_path) / node_count) {
+        throw std::runtime_error("NodeCache::load: short read (node data) " + nodes_path);
+      }
       node_data_.assign(node_count * node_len_, 0);
       if (!node_data_.empty()) {
         in.read(node_data_.data(), static_cast<std::streamsize>(node_data_.size()));
diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 3465005..6f4d3b7 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -25,6 +25,7 @@
 #pragma once
 
 #include <cstdint>
+#include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <limits>
 #include <stdexcept>
@@ -124,6 +125,9 @@ class SlotAllocator {
     if (!in || magic != kMagic) {
       throw std::runtime_error("SlotAllocator::load: bad magic/truncated " + path);
     }
+    if (n_free > std::filesystem::file_size(path) / sizeof(uint32_t)) {
+      throw std::runtime_error("SlotAllocator::load: free list truncated " + path);
+    }
     free_list_.assign(n_free, 0);
     if (n_free > 0) {
       in.read(reinterpret_cast<char *>(free_list_.data()),
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 85b9308..8eb4f59 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -194,8 +194,10 @@ class TombstoneBitmap {
     if (!in || magic != kMagic) {
       throw std::runtime_error("TombstoneBitmap::deserialize: bad magic/truncated");
     }
+    if (n_words > kMaxChunks * kChunkWords) {
+      throw std::runtime_error("TombstoneBitmap::deserialize: word count beyond addressable range");
+    }
     reset(0);
-    ensure_capacity(n_words * 64);
     uint64_t recount = 0;
     std::vector<uint64_t> buf(kChunkWords);
     for (uint64_t w = 0; w < n_words; w += kChunkWords) {
@@ -205,7 +207,7 @@ class TombstoneBitmap {
       if (!in) {
         throw std::runtime_error("TombstoneBitmap::deserialize: words truncated");
       }
-      Chunk *chunk = (*table_)[w / kChunkWords].load(std::memory_order_relaxed);
+      Chunk *chunk = chunk_grow(w * 64);
       for (uint64_t i = 0; i < span; ++i) {
         chunk->words[i].store(buf[i], std::memory_order_relaxed);
         recount += static_cast<uint64_t>(std::popcount(buf[i]));
-- 
2.43.0


From ebb5be5a911e31b3dcd45fd53f9691f2e40e5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 22/85] fix: a node cache file with a zero record length is
 refused

---
 include/index/graph/diskann/node_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 385cb65..57800ab 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -238,6 +238,9 @@ class NodeCache {
                                  std::to_string(id_count) + " vs " + std::to_string(node_count) +
                                  ")");
       }
+      if (node_count > 0 && node_len_ == 0) {
+        throw std::runtime_error("NodeCache::load: zero node_len " + nodes_path);
+      }
       if (node_count > 0 && node_len_ > std::filesystem::file_size(nodes_path) / node_count) {
         throw std::runtime_error("NodeCache::load: short read (node data) " + nodes_path);
       }
-- 
2.43.0


From 3e8eba4be242e9583d57e4b5f6776ce182d3ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 23/85] fix: a sharded graph build over data that leaves a
 k-means shard empty fails

---
 include/index/graph/vamana/build_dispatch.hpp | 66 ++++++++++++-------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..4f729ed 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -302,15 +302,49 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
   bp.ram_budget_gib = static_cast<double>(args.build_dram_budget_gb);
   bp.base_kmeans.seed = args.seed;
   std::vector<float> pivots;
-  const size_t num_parts = alaya::vamana::determine_num_parts_with_ram_budget(train_sample.data(),
-                                                                              num_train,
-                                                                              test_sample.data(),
-                                                                              num_test,
-                                                                              dim,
-                                                                              bp,
-                                                                              pivots);
+  size_t num_parts = alaya::vamana::determine_num_parts_with_ram_budget(train_sample.data(),
+                                                                        num_train,
+                                                                        test_sample.data(),
+                                                                        num_test,
+                                                                        dim,
+                                                                        bp,
+                                                                        pivots);
   LOG_INFO("partition path: frozen num_parts={}", num_parts);
 
+  // Free sample memory before streaming assignment (which may allocate a
+  // 512MB read buffer).
+  train_sample = {};
+  test_sample = {};
+
+  alaya::Timer assign_timer;
+  auto assign = alaya::vamana::shard_data_by_centroids(data_path,
+                                                       pivots.data(),
+                                                       num_parts,
+                                                       bp.k_base,
+                                                       shard_prefix);
+  LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
+
+  // Repeated vectors (or a Lloyd step that empties a cluster) can leave a
+  // pivot that no point is assigned to. Drop it together with its empty shard:
+  // there is no graph to build for it.
+  size_t kept = 0;
+  for (size_t s = 0; s < num_parts; ++s) {
+    if (assign.counts[s] == 0) {
+      continue;
+    }
+    if (kept != s) {
+      std::memcpy(pivots.data() + kept * dim, pivots.data() + s * dim, dim * sizeof(float));
+      assign.counts[kept] = assign.counts[s];
+      assign.data_paths[kept] = assign.data_paths[s];
+      assign.idmap_paths[kept] = assign.idmap_paths[s];
+    }
+    ++kept;
+  }
+  if (kept != num_parts) {
+    LOG_WARN("partition path: {} of {} shards are empty", num_parts - kept, num_parts);
+    num_parts = kept;
+  }
+
   // Write pivots alongside the merged output. DiskANN's
   // `build_merged_vamana_index` (disk_utils.cpp:694) renames the pivot file
   // from `<tempFiles>_centroids.bin` into `<centroids_file>`; we write
@@ -332,25 +366,13 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     cf.write(reinterpret_cast<const char *>(pivots.data()),
              static_cast<std::streamsize>(num_parts) * static_cast<std::streamsize>(dim) *
                  sizeof(float));
+    cf.close();
     if (!cf.good()) {
       throw std::runtime_error("write error on centroids file: " + centroids_path.string());
     }
   }
   LOG_INFO("wrote centroids: {} ({} × {})", centroids_path.string(), num_parts, dim);
 
-  // Free sample memory before streaming assignment (which may allocate a
-  // 512MB read buffer).
-  train_sample = {};
-  test_sample = {};
-
-  alaya::Timer assign_timer;
-  auto assign = alaya::vamana::shard_data_by_centroids(data_path,
-                                                       pivots.data(),
-                                                       num_parts,
-                                                       bp.k_base,
-                                                       shard_prefix);
-  LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
-
   std::vector<std::filesystem::path> shard_graphs(num_parts);
   for (size_t s = 0; s < num_parts; ++s) {
     alaya::Timer shard_timer;
@@ -394,8 +416,8 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
 
   std::vector<std::filesystem::path> idmaps;
   idmaps.reserve(num_parts);
-  for (const auto &p : assign.idmap_paths) {
-    idmaps.emplace_back(p);
+  for (size_t s = 0; s < num_parts; ++s) {
+    idmaps.emplace_back(assign.idmap_paths[s]);
   }
   alaya::Timer merge_timer;
   alaya::vamana::merge_shards(shard_graphs, idmaps, out_path_str, args.R, global_medoid, args.seed);
-- 
2.43.0


From eb4cbda86608195f97691e6d7a48c8f43b1b4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 24/85] fix: merging shard graphs notices truncated inputs and
 a failing last write

---
 include/index/graph/vamana/shard_merger.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..cf6ed92 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -300,9 +300,17 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
                                  " at shard-local id " + std::to_string(shard_cursor[s]));
       }
       if (k > 0) {
+        if (k > idmaps[s].size()) {
+          throw std::runtime_error("merge_shards: corrupt degree on shard " + std::to_string(s) +
+                                   " at shard-local id " + std::to_string(shard_cursor[s]));
+        }
         std::vector<uint32_t> local_nbrs(k);
         readers[s].read(reinterpret_cast<char *>(local_nbrs.data()),
                         static_cast<std::streamsize>(k) * sizeof(uint32_t));
+        if (!readers[s].good()) {
+          throw std::runtime_error("merge_shards: short read on shard " + std::to_string(s) +
+                                   " at shard-local id " + std::to_string(shard_cursor[s]));
+        }
         for (uint32_t lnb : local_nbrs) {
           if (lnb >= idmaps[s].size()) {
             throw std::runtime_error("merge_shards: out-of-range shard-local neighbor " +
@@ -338,10 +346,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
   // Patch the expected_file_size header.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&expected_file_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("merge_shards: write error on output");
   }
-  out.close();
 
   // DiskANN-format medoids file: uint32 nshards, uint32 1 (stride),
   // nshards × uint32 global_medoid. Path = `<output>_medoids.bin`,
@@ -359,6 +367,7 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     mf.write(reinterpret_cast<const char *>(&one_stride), sizeof(uint32_t));
     mf.write(reinterpret_cast<const char *>(shard_medoids_global.data()),
              static_cast<std::streamsize>(nshards) * sizeof(uint32_t));
+    mf.close();
     if (!mf.good()) {
       throw std::runtime_error("merge_shards: write error on " + medoids_path.string());
     }
-- 
2.43.0


From 482a9e7c8bd1ef108a7ff2f31bc39a9c034644d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 25/85] fix: a sharded graph build with a point alone in its
 shards wrote a graph the reader refuses

---
 include/index/graph/vamana/shard_merger.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index cf6ed92..2a209dd 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -330,6 +330,12 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     if (!any_shard) {
       ++missing_nodes;
     }
+    // A node that shares none of its shards with another point collects no
+    // edges, and VamanaReader rejects zero-degree nodes: link it to the entry
+    // point.
+    if (any_shard && nhood.empty() && N > 1) {
+      nhood.push_back(gid != medoid ? medoid : static_cast<uint32_t>((gid + 1) % N));
+    }
 
     // Shuffle (mandated seed) then truncate to R. Mirrors DiskANN
     // `disk_utils.cpp:421-422`.
-- 
2.43.0


From f81b9bdfe93ae5d6ab5d48b418a0ebe6074dfcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 26/85] fix: blocking reads of the LASER file readers returned
 other bytes for failed or short reads

read() dropped the completion results, so a read past the end of the file, of a
truncated file or on a bad descriptor left the buffer as it was; opening a
missing file succeeded in release builds.
---
 include/index/graph/laser/qg/qg_builder.hpp   | 13 +++++++++++-
 .../graph/laser/utils/aligned_file_reader.hpp | 16 +++++++++++++-
 .../laser/utils/threadpool_file_reader.hpp    | 21 ++++++++++++++++---
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 332cd34..4484b6b 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
 #include <functional>
 #include <iomanip>
 #include <iostream>
@@ -267,6 +268,8 @@ class QGBuilder {
     // Process all nodes in parallel with dynamic scheduling.
     // Each iteration processes ONE node: reads its neighbors, computes quantization, writes to
     // disk.
+    // A read that fails must not escape the parallel region; it is rethrown below.
+    std::exception_ptr update_error;
     const int64_t qg_num_points_signed = static_cast<int64_t>(qg_.num_points_);
 #pragma omp parallel for schedule(dynamic)
     for (int64_t ii = 0; ii < qg_num_points_signed; ++ii) {
@@ -299,7 +302,12 @@ class QGBuilder {
       // Core processing: read vectors from disk, compute RaBitQ codes, prepare node data
       // This function reads the node's vector and all neighbor vectors via async I/O,
       // then computes quantization codes without holding vectors in memory permanently
-      qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      try {
+        qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      } catch (...) {
+#pragma omp critical
+        update_error = std::current_exception();
+      }
 
       // Pack completed node bytes into the read-path page layout.
 #pragma omp critical
@@ -343,6 +351,9 @@ class QGBuilder {
     vector_reader->deregister_all_threads();
     vector_reader->close();
     output.close();
+    if (update_error) {
+      std::rethrow_exception(update_error);
+    }
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..d2e2abe 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -266,6 +266,17 @@ inline void execute_io(io_context_t ctx,
       } else {
         // wait for the whole batch (drains partial deliveries after interrupts)
         io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
+        // a failed or short read leaves the caller's buffer without the bytes it asked for
+        for (const auto &evt : evts) {
+          const auto *done = evt.obj;
+          const auto res = static_cast<int64_t>(evt.res);
+          if (res < 0 || static_cast<uint64_t>(res) != done->u.c.nbytes) {
+            throw std::runtime_error("LinuxAlignedFileReader: read of " +
+                                     std::to_string(done->u.c.nbytes) + " bytes at offset " +
+                                     std::to_string(done->u.c.offset) + " returned " +
+                                     std::to_string(res));
+          }
+        }
         break;
       }
     }
@@ -358,7 +369,10 @@ inline void LinuxAlignedFileReader::open(const std::string &fname) {
   // O_RDONLY: Open file for reading only (index files are read-only during search).
   int flags = O_DIRECT | O_RDONLY;
   this->file_desc_ = ::open(fname.c_str(), flags);
-  assert(this->file_desc_ != -1);
+  if (this->file_desc_ == -1) {
+    throw std::runtime_error("LinuxAlignedFileReader::open: open() failed for " + fname +
+                             ", errno=" + std::to_string(errno) + "=" + ::strerror(errno));
+  }
 }
 
 inline void LinuxAlignedFileReader::close() {
diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..a6232a2 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -197,17 +197,32 @@ inline void ThreadPoolFileReader::close() {
 inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
                                        IOContext &ctx,
                                        bool async) {
-  const int submitted = submit_reqs(read_reqs, ctx);
   if (async) {
+    (void)submit_reqs(read_reqs, ctx);
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  // Tag every request with its position so that its event can be checked against its length.
+  std::vector<AlignedRead> tagged(read_reqs);
+  for (size_t i = 0; i < tagged.size(); ++i) {
+    tagged[i].id = i;
+  }
+  const int submitted = submit_reqs(tagged, ctx);
+
+  std::vector<AlignedReadEvent> events;
+  const int completed = get_events(ctx, submitted, events);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+  for (const auto &event : events) {
+    const auto &req = tagged[event.id];
+    if (event.result < 0 || static_cast<uint64_t>(event.result) != req.len) {
+      throw std::runtime_error("ThreadPoolFileReader::read: read of " + std::to_string(req.len) +
+                               " bytes at offset " + std::to_string(req.offset) + " returned " +
+                               std::to_string(event.result));
+    }
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
-- 
2.43.0


From e1a128790afc42ccf9d6060b0d0d8ce7158b613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 27/85] fix: vector file loaders returned empty vectors,
 save_ivecs wrote a layout no loader reads, exact ground truth read past its
 candidates

load_vecs, load_gt and load_bvecs wrote into reserved but unsized storage;
find_exact_gt read beyond the candidate list when fewer rows than topk are left.
---
 include/utils/evaluate.hpp |  5 +++--
 include/utils/io_utils.hpp | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/utils/evaluate.hpp b/include/utils/evaluate.hpp
index 763649e..dec779c 100644
--- a/include/utils/evaluate.hpp
+++ b/include/utils/evaluate.hpp
@@ -26,7 +26,8 @@ auto find_exact_gt(const std::vector<DataType> &queries,
   }
   auto query_num = queries.size() / dim;
 
-  std::vector<IDType> res(topk * query_num, 0);
+  // Slots beyond the rows that are left hold no valid id.
+  std::vector<IDType> res(topk * query_num, static_cast<IDType>(-1));
   for (IDType i = 0; i < query_num; i++) {
     std::vector<std::pair<IDType, DistanceType>> dists;
     for (uint32_t j = 0; j < data_view.size() / dim; j++) {
@@ -41,7 +42,7 @@ auto find_exact_gt(const std::vector<DataType> &queries,
     std::sort(dists.begin(), dists.end(), [](const auto &lhs, const auto &rhs) -> auto {
       return lhs.second < rhs.second;
     });
-    for (uint32_t j = 0; j < topk; j++) {
+    for (uint32_t j = 0; j < topk && j < dists.size(); j++) {
       res[(i * topk) + j] = dists[j].first;
     }
   }
diff --git a/include/utils/io_utils.hpp b/include/utils/io_utils.hpp
index 50a393e..beb36f7 100644
--- a/include/utils/io_utils.hpp
+++ b/include/utils/io_utils.hpp
@@ -38,7 +38,7 @@ inline void load_vecs(const std::filesystem::path &filepath,
 
   reader.read(reinterpret_cast<char *>(&num), 4);
   reader.read(reinterpret_cast<char *>(&dim), 4);
-  data.reserve(num * dim);
+  data.resize(static_cast<size_t>(num) * dim);
 
   LOG_INFO("Read {} , data number = {} , data dimension = {}.", filepath.string(), num, dim);
 
@@ -66,9 +66,9 @@ inline void save_ivecs(const std::filesystem::path &filepath, T *data, uint32_t
   }
 
   writer.write(reinterpret_cast<char *>(&num), 4);
+  writer.write(reinterpret_cast<char *>(&dim), 4);
 
-  for (unsigned i = 0; i < num; ++i) {
-    writer.write(reinterpret_cast<char *>(&dim), 4);
+  for (size_t i = 0; i < num; ++i) {
     writer.write(reinterpret_cast<char *>(data + (i * dim)), dim * sizeof(T));
   }
 
@@ -98,7 +98,7 @@ inline void load_gt(const std::filesystem::path &filepath,
   reader.read(reinterpret_cast<char *>(&num), 4);
   reader.read(reinterpret_cast<char *>(&gt_topk), 4);
 
-  data.reserve(num * gt_topk);
+  data.resize(static_cast<size_t>(num) * gt_topk);
 
   for (size_t i = 0; i < num; i++) {
     reader.read(reinterpret_cast<char *>(data.data() + (i * gt_topk)), gt_topk * sizeof(T));
@@ -181,7 +181,7 @@ inline void load_bvecs(const std::filesystem::path &filepath,
   reader.seekg(0, std::ios::beg);
   num = total_file_size / (4 + dim * sizeof(T));
 
-  data.reserve(num * dim);
+  data.resize(static_cast<size_t>(num) * dim);
 
   LOG_INFO("Read {} , data number = {} , data dimension = {}.", filepath.string(), num, dim);
 
-- 
2.43.0


From 8e994ebabad40bc8453ef981635423c59f4c6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 28/85] fix: ALAYA_MAX_THREADS values beyond 32 bits could give
 a limit of zero threads

---
 include/utils/thread_config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/thread_config.hpp b/include/utils/thread_config.hpp
index a7245e4..d9f088e 100644
--- a/include/utils/thread_config.hpp
+++ b/include/utils/thread_config.hpp
@@ -29,7 +29,7 @@ inline auto configured_thread_limit() -> uint32_t {
     return system_threads;
   }
 
-  return std::min<uint32_t>(static_cast<uint32_t>(parsed), system_threads);
+  return static_cast<uint32_t>(std::min<uint64_t>(parsed, system_threads));
 }
 
 inline auto cap_thread_count(uint32_t requested) -> uint32_t {
-- 
2.43.0


From e3c164821fa652462609671ce0c08588d64e361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 29/85] fix: reading int32 vectors beyond 2 GiB into a file
 overflowed the offset

---
 python/src/alayalite/laser/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/alayalite/laser/_io.py b/python/src/alayalite/laser/_io.py
index f41c0a1..44c2271 100644
--- a/python/src/alayalite/laser/_io.py
+++ b/python/src/alayalite/laser/_io.py
@@ -46,6 +46,7 @@ def read_ibin(filename, start_idx=0, chunk_size=None):
     """Read *.ibin file (int32 vectors)."""
     with open(filename, "rb") as f:
         nvecs, dim = np.fromfile(f, count=2, dtype=np.int32)
+        nvecs, dim = int(nvecs), int(dim)
         nvecs = (nvecs - start_idx) if chunk_size is None else chunk_size
         arr = np.fromfile(f, count=nvecs * dim, dtype=np.int32, offset=start_idx * 4 * dim)
     return arr.reshape(nvecs, dim)
-- 
2.43.0


From 6d3e8628e17ef473598cb244bf0e87dbf69de95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 30/85] fix: a resumed LASER build reused artifacts made from
 other settings

---
 python/src/alayalite/laser/__init__.py | 58 +++++++++++++++++++-------
 python/src/alayalite/laser/_pca.py     |  5 ++-
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/python/src/alayalite/laser/__init__.py b/python/src/alayalite/laser/__init__.py
index 5dce3cd..fed3823 100644
--- a/python/src/alayalite/laser/__init__.py
+++ b/python/src/alayalite/laser/__init__.py
@@ -12,6 +12,7 @@ This module exposes a higher-level wrapper with a unified build entrypoint:
 from __future__ import annotations
 
 import dataclasses
+import filecmp
 import glob
 import os
 import re
@@ -308,12 +309,21 @@ class Index:
 
         pca_base_path = f"{prefix}_pca_base.fbin"
         pca_params_path = f"{prefix}_pca.bin"
-        if resolved_main_dim < raw_dim:
-            if not (
-                effective_skip
-                and validate_pca_base(pca_base_path, n, raw_dim)
-                and validate_pca_params(pca_params_path, raw_dim)
-            ):
+        # An artifact is reused only together with everything it was built from: rebuilding one step
+        # rebuilds the steps that consume its output. The sidecar goes away before the first rebuild, so
+        # that a crash from there on leaves no artifact set that would pass for a finished one.
+        use_pca = resolved_main_dim < raw_dim
+        reuse_base = (
+            effective_skip
+            and validate_pca_base(pca_base_path, n, raw_dim)
+            and (validate_pca_params(pca_params_path, raw_dim) if use_pca else not os.path.exists(pca_params_path))
+        )
+        if not reuse_base:
+            invalidate_seed_sidecar(prefix)
+            for stale in (f"{prefix}_medoids_indices", f"{prefix}_medoids"):
+                if os.path.exists(stale):
+                    os.remove(stale)
+            if use_pca:
                 from alayalite.laser._pca import (  # pylint: disable=import-outside-toplevel
                     fit_incremental_pca,
                     pca_transform_and_save,
@@ -323,19 +333,29 @@ class Index:
 
                 vectors, sample_vectors = sample_vectors_from_fbin(raw_fbin_path, seed=master_seed)
                 pca = fit_incremental_pca(sample_vectors, n_components=raw_dim)
-                save_pca_params(pca, pca_params_path)
+                # A partial base file is only resumed when it was written with these very parameters.
+                new_params_path = f"{pca_params_path}.tmp"
+                save_pca_params(pca, new_params_path)
+                if not (
+                    skip_existing
+                    and os.path.exists(pca_params_path)
+                    and filecmp.cmp(new_params_path, pca_params_path, shallow=False)
+                ):
+                    if os.path.exists(pca_base_path):
+                        os.remove(pca_base_path)
+                os.replace(new_params_path, pca_params_path)
                 pca_transform_and_save(vectors, pca, pca_base_path)
-        else:
-            if not (effective_skip and validate_pca_base(pca_base_path, n, raw_dim)):
+            else:
+                # Keep the no-PCA branch explicit: stale files would rotate queries unexpectedly.
+                if os.path.exists(pca_params_path):
+                    os.remove(pca_params_path)
                 shutil.copyfile(raw_fbin_path, pca_base_path)
-            # Keep the no-PCA branch explicit: stale files would rotate queries unexpectedly.
-            if os.path.exists(pca_params_path):
-                os.remove(pca_params_path)
 
         if not bp.disable_medoid:
-            if not (effective_skip and validate_medoids(prefix)):
+            if not (effective_skip and reuse_base and validate_medoids(prefix)):
                 from alayalite.laser._medoid import generate_and_save_medoids  # pylint: disable=import-outside-toplevel
 
+                invalidate_seed_sidecar(prefix)
                 generate_and_save_medoids(
                     pca_base_path,
                     f"{prefix}_medoids_indices",
@@ -345,9 +365,11 @@ class Index:
                 )
 
         vamana_path = f"{prefix}_vamana_graph.index"
-        if not (effective_skip and validate_vamana_index(vamana_path, int(bp.R))):
+        reuse_vamana = effective_skip and validate_vamana_index(vamana_path, int(bp.R))
+        if not reuse_vamana:
             from alayalite import vamana as vamana_mod  # pylint: disable=import-outside-toplevel
 
+            invalidate_seed_sidecar(prefix)
             vamana_mod.build_index(
                 data_path=raw_fbin_path,
                 output_path=vamana_path,
@@ -370,7 +392,13 @@ class Index:
             rotator_seed=master_seed,
             rotator_dump_path="",
         )
-        if not (effective_skip and validate_laser_index(prefix, int(bp.R), int(resolved_main_dim), int(n))):
+        if not (
+            effective_skip
+            and reuse_base
+            and reuse_vamana
+            and validate_laser_index(prefix, int(bp.R), int(resolved_main_dim), int(n))
+        ):
+            invalidate_seed_sidecar(prefix)
             raw.build_index(
                 vamana_file=vamana_path,
                 data_file=prefix,
diff --git a/python/src/alayalite/laser/_pca.py b/python/src/alayalite/laser/_pca.py
index 09ee8fb..d3bbeeb 100644
--- a/python/src/alayalite/laser/_pca.py
+++ b/python/src/alayalite/laser/_pca.py
@@ -148,7 +148,10 @@ def pca_transform_and_save(vectors, pca, output_path, chunk_size=100000):
 
     if os.path.exists(output_path):
         file_size = os.path.getsize(output_path)
-        if file_size > header_size:
+        with open(output_path, "rb") as f:
+            header = f.read(header_size)
+        # a file of another shape is not a partial copy of this output
+        if file_size > header_size and header == np.array([n, out_dim], dtype=np.int32).tobytes():
             data_bytes = file_size - header_size
             completed_vectors = data_bytes // bytes_per_vector
             start_chunk = completed_vectors // chunk_size
-- 
2.43.0


From adac7672f10d319438448921c2463ac2162da7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 31/85] fix: sentence chunking never ended when the overlap
 reached the chunk size

---
 python/src/alayalite/rag/chunker/sentence_chunker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/alayalite/rag/chunker/sentence_chunker.py b/python/src/alayalite/rag/chunker/sentence_chunker.py
index e590239..8c44e60 100644
--- a/python/src/alayalite/rag/chunker/sentence_chunker.py
+++ b/python/src/alayalite/rag/chunker/sentence_chunker.py
@@ -30,6 +30,13 @@ class SentenceChunker(BaseChunker):
         Returns:
             list: A list of text chunks.
         """
+        # Each chunk starts chunk_size - chunk_overlap sentences after the previous one: that must be a step forward.
+        if not 0 <= self.chunk_overlap < self.chunk_size:
+            raise ValueError(
+                f"chunk_overlap must be at least 0 and below chunk_size, "
+                f"got chunk_size={self.chunk_size}, chunk_overlap={self.chunk_overlap}"
+            )
+
         chunks = []
 
         # Split the document by sentence terminators
-- 
2.43.0


From 9db64191953ffe3408e853169f5b1801a9ebd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 32/85] fix: copy search results element by element so 64-bit
 ids come out whole

---
 include/executor/jobs/graph_hybrid_search_job.hpp  | 2 +-
 include/executor/jobs/graph_search_job.hpp         | 8 ++++----
 include/utils/rabitq_utils/search_utils/buffer.hpp | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index b50f3bc..cca6f1f 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -143,7 +143,7 @@ struct GraphHybridSearchJob {
                                      IDType *ids,
                                      uint32_t topk) -> uint32_t {
     auto result_count = static_cast<uint32_t>(std::min<size_t>(pool.size(), topk));
-    pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), result_count);
+    pool.copy_results_to(ids, result_count);
     return result_count;
   }
 
diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..8e269c8 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -410,7 +410,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
-    res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    res_pool.copy_results_to(ids);
   }
 
 #if defined(__linux__)
@@ -482,7 +482,7 @@ struct GraphSearchJob {
     visited_pool_->release(vis);
 
     // return result
-    res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    res_pool.copy_results_to(ids);
 
     co_return;
   }
@@ -856,7 +856,7 @@ struct GraphSearchJob {
     }
 
     std::fill(ids, ids + search_info.topk_, std::numeric_limits<IDType>::max());
-    result_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), search_info.topk_);
+    result_pool.copy_results_to(ids, search_info.topk_);
   }
 
   void rabitq_search_solo(const DataType *query,
@@ -884,7 +884,7 @@ struct GraphSearchJob {
     }
 
     std::fill(ids, ids + topk, std::numeric_limits<IDType>::max());
-    result_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids), topk);
+    result_pool.copy_results_to(ids, topk);
   }
 };
 
diff --git a/include/utils/rabitq_utils/search_utils/buffer.hpp b/include/utils/rabitq_utils/search_utils/buffer.hpp
index 1b8db39..367f51a 100644
--- a/include/utils/rabitq_utils/search_utils/buffer.hpp
+++ b/include/utils/rabitq_utils/search_utils/buffer.hpp
@@ -121,13 +121,15 @@ class SearchBuffer {
     data_ = std::vector<ANNCand, AlignedAlloc<ANNCand>>(capacity_ + 1);
   }
 
-  void copy_results_to(PID *knn, size_t knn_size) const {
+  template <typename IDType>
+  void copy_results_to(IDType *knn, size_t knn_size) const {
     for (size_t i = 0; i < std::min(size_, knn_size); ++i) {
       knn[i] = data_[i].id_;
     }
   }
 
-  void copy_results_to(PID *knn) const {
+  template <typename IDType>
+  void copy_results_to(IDType *knn) const {
     for (size_t i = 0; i < size_; ++i) {
       knn[i] = data_[i].id_;
     }
-- 
2.43.0


From e5b557bb7fb7580132225a41a842413aee9cbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 33/85] fix: read HNSW neighbour lists with the id type they
 are stored in

---
 include/index/graph/hnsw/hnsw_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/hnsw/hnsw_builder.hpp b/include/index/graph/hnsw/hnsw_builder.hpp
index 4f2ae2a..dedd160 100644
--- a/include/index/graph/hnsw/hnsw_builder.hpp
+++ b/include/index/graph/hnsw/hnsw_builder.hpp
@@ -121,7 +121,7 @@ struct HNSWBuilder {
     // {
     //   for (int i = 0; i < graph->max_nodes_; i++) {
     //     auto internal_id = hnsw_->label_lookup_[i];
-    //     auto edges = reinterpret_cast<uint32_t *>(hnsw_->get_linklist0(internal_id));
+    //     auto edges = reinterpret_cast<IDType *>(hnsw_->get_linklist0(internal_id));
     //     for (int j = 1; j <= edges[0]; ++j) {
     //       auto external_id = hnsw_->get_external_label(edges[j]);
     //     }
@@ -136,7 +136,7 @@ struct HNSWBuilder {
       // thread_pool.enqueue([i, this, &graph] {
       std::vector<IDType> ids(max_nbrs_underlay_, -1);
       auto internal_id = hnsw_->label_lookup_[i];
-      auto edges = reinterpret_cast<uint32_t *>(hnsw_->get_linklist0(internal_id));
+      auto edges = reinterpret_cast<IDType *>(hnsw_->get_linklist0(internal_id));
       for (uint32_t j = 1; j <= edges[0]; ++j) {
         auto external_id = hnsw_->get_external_label(edges[j]);
         ids[j - 1] = external_id;
-- 
2.43.0


From 1ac7f6b92f3ba15e10f45af20a475d5e01b6d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 34/85] fix: save whole overlay neighbour lists when ids are 64
 bits wide

---
 include/index/graph/overlay_graph.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/overlay_graph.hpp b/include/index/graph/overlay_graph.hpp
index fe5ef46..0ff8bdb 100644
--- a/include/index/graph/overlay_graph.hpp
+++ b/include/index/graph/overlay_graph.hpp
@@ -24,7 +24,7 @@ class OverlayGraph {
  public:
   NodeIDType node_num_;  ///< The number of nodes in the graph.
   EdgeIDType max_nbrs_;  ///< The number of edges in each node.
-  NodeIDType ep_;        ///< The entry point of the graph.
+  NodeIDType ep_{};      ///< The entry point of the graph.
 
   std::vector<uint32_t> levels_;  ///< Each entry stores the highest layer of each node.
   std::vector<std::vector<EdgeIDType, AlignedAlloc<EdgeIDType>>>
@@ -160,7 +160,7 @@ class OverlayGraph {
       lists_[i].clear();
       lists_[i].resize(cur, -1);
 
-      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * 4);
+      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * sizeof(EdgeIDType));
     }
   }
 
@@ -178,7 +178,8 @@ class OverlayGraph {
     for (NodeIDType i = 0; i < node_num_; ++i) {
       int cur = levels_[i] * max_nbrs_;
       writer.write(reinterpret_cast<char *>(&cur), 4);
-      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())), cur * 4);
+      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())),
+                   cur * sizeof(EdgeIDType));
     }
   }
 };
-- 
2.43.0


From 1a8a2c63dc6b917a4a6ec029fbb1454ab08abac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 35/85] fix: NSG attaches every unreached vector below a
 reached one

---
 include/index/graph/nsg/nsg_builder.hpp | 33 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/index/graph/nsg/nsg_builder.hpp b/include/index/graph/nsg/nsg_builder.hpp
index 9780854..baf1596 100644
--- a/include/index/graph/nsg/nsg_builder.hpp
+++ b/include/index/graph/nsg/nsg_builder.hpp
@@ -489,17 +489,34 @@ struct NSGBuilder {
    * @return int The number of nodes that were attached to the tree.
    */
   auto tree_grow(std::vector<uint32_t> &degrees) -> int {
-    int root = ep_;
     std::vector<bool> vis(vector_num_, false);
     int num_attached = 0;
-    int cnt = 0;
-    while (true) {
-      cnt = dfs(vis, root, cnt);
-      if (static_cast<IDType>(cnt) >= vector_num_) {
-        break;
+    int cnt = dfs(vis, ep_, 0);
+    for (IDType id = 0; id < vector_num_; id++) {
+      if (vis[id]) {
+        continue;
       }
+      // Hang the unreached node below the closest reached node that still has room.
       std::vector<bool> vis2(vector_num_, false);
-      root = attach_unlinked(vis, vis2, degrees);
+      std::vector<Neighbor<IDType>> tmp;
+      std::vector<Node<IDType>> pool;
+      search_on_graph<true>(space_->get_data_by_id(id),
+                            final_graph_,
+                            vis2,
+                            ep_,
+                            ef_construction_,
+                            tmp,
+                            pool);
+      std::sort(pool.begin(), pool.end());
+      auto parent = std::find_if(pool.begin(), pool.end(), [&](const Node<IDType> &node) {
+        return vis[node.id_] && degrees[node.id_] < max_nbrs_;
+      });
+      if (parent != pool.end()) {
+        final_graph_->at(parent->id_, degrees[parent->id_]++) = id;
+      } else {
+        final_graph_->eps_.push_back(id);
+      }
+      cnt = dfs(vis, id, cnt);
       num_attached += 1;
     }
     return num_attached;
@@ -520,7 +537,7 @@ struct NSGBuilder {
     IDType node = root;
     std::stack<IDType> stack;
     stack.push(root);
-    if (vis[root]) {
+    if (!vis[root]) {
       cnt++;
     }
     vis[root] = true;
-- 
2.43.0


From a66c5170ec7e83b1023e4612241e165ca2fdf7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 36/85] fix: NNDescent builds the exact graph when there are
 too few vectors to sample

---
 include/index/graph/knng/nndescent.hpp | 30 +++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/knng/nndescent.hpp b/include/index/graph/knng/nndescent.hpp
index 870c392..9d626a9 100644
--- a/include/index/graph/knng/nndescent.hpp
+++ b/include/index/graph/knng/nndescent.hpp
@@ -131,6 +131,9 @@ struct NndescentImpl {
    */
   auto build_graph(uint32_t thread_num = 1) -> std::unique_ptr<Graph<DataType, IDType>> {
     thread_num_ = cap_thread_count(thread_num);
+    if (vector_num_ <= candidate_pool_size_) {
+      return build_exact_graph();  // too few vectors to sample distinct neighbours from
+    }
     // init the graph
     init_graph();
     // descent to build the graph
@@ -140,7 +143,8 @@ struct NndescentImpl {
     // copy the graph
     for (IDType i = 0; i < vector_num_; ++i) {
       std::sort(graph_[i].candidate_pool_.begin(), graph_[i].candidate_pool_.end());
-      for (uint32_t j = 0; j < max_nbrs_; j++) {
+      auto nbr_num = std::min<size_t>(max_nbrs_, graph_[i].candidate_pool_.size());
+      for (uint32_t j = 0; j < nbr_num; j++) {
         final_graph->at(i, j) = graph_[i].candidate_pool_[j].id_;
       }
     }
@@ -149,6 +153,30 @@ struct NndescentImpl {
 
     return final_graph;
   }
+
+  /**
+   * @brief Build the exact neighbor graph of a small data set by comparing all pairs.
+   *
+   * @return std::unique_ptr<Graph<DataType, IDType>>
+   */
+  auto build_exact_graph() -> std::unique_ptr<Graph<DataType, IDType>> {
+    auto final_graph = std::make_unique<Graph<DataType, IDType>>(space_->get_capacity(), max_nbrs_);
+    for (IDType i = 0; i < vector_num_; ++i) {
+      std::vector<Neighbor<IDType>> nbrs;
+      for (IDType j = 0; j < vector_num_; ++j) {
+        if (j != i) {
+          nbrs.emplace_back(j, space_->get_distance(i, j), false);
+        }
+      }
+      std::sort(nbrs.begin(), nbrs.end());
+      for (uint32_t j = 0; j < max_nbrs_ && j < nbrs.size(); ++j) {
+        final_graph->at(i, j) = nbrs[j].id_;
+      }
+    }
+    final_graph->eps_.push_back(0);
+    return final_graph;
+  }
+
   /**
    * @brief Initialize the graph.
    */
-- 
2.43.0


From adcb152ac3a843aebf7aaa8c64a7bca287158dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 37/85] fix: NSG builds on fewer vectors than its search pool
 holds and never links a vector to itself

---
 include/index/graph/nsg/nsg_builder.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/nsg/nsg_builder.hpp b/include/index/graph/nsg/nsg_builder.hpp
index baf1596..a4bc56f 100644
--- a/include/index/graph/nsg/nsg_builder.hpp
+++ b/include/index/graph/nsg/nsg_builder.hpp
@@ -207,6 +207,7 @@ struct NSGBuilder {
                        std::vector<Neighbor<IDType>> &retset,
                        std::vector<Node<IDType>> &full_set) const {
     RandomGenerator gen(0x1234);
+    pool_size = static_cast<int>(std::min<uint64_t>(pool_size, vector_num_));
     retset.resize(pool_size + 1);
 
     std::vector<IDType> init_ids(pool_size);
@@ -352,15 +353,17 @@ struct NSGBuilder {
       pool.emplace_back(id, dist);
     }
 
+    std::erase_if(pool, [q](const Node<IDType> &node) {
+      return node.id_ == q;
+    });
     std::sort(pool.begin(), pool.end());
 
     std::vector<Node<IDType>> result;
 
     size_t start = 0;
-    if (pool[start].id_ == q) {
-      start++;
+    if (!pool.empty()) {
+      result.push_back(pool[start]);
     }
-    result.push_back(pool[start]);
 
     while (result.size() < max_nbrs_ && (++start) < pool.size() && start < cut_len_) {  // NOLINT
       auto &p = pool[start];
-- 
2.43.0


From d458f7c325915ed8baf66fff389abc40ed4cc07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 38/85] fix: building a RaBitQ graph over 32 or fewer vectors
 never ended

---
 include/index/graph/qg/qg_builder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/qg/qg_builder.hpp b/include/index/graph/qg/qg_builder.hpp
index d69de3f..f3bbe93 100644
--- a/include/index/graph/qg/qg_builder.hpp
+++ b/include/index/graph/qg/qg_builder.hpp
@@ -260,7 +260,7 @@ class QGBuilder {
         for (auto &neighbor : new_result) {
           ids.emplace(neighbor.id_);
         }
-        while (new_result.size() < degree_bound_) {
+        while (new_result.size() < std::min(degree_bound_, num_nodes_ - 1)) {
           IDType rand_id = rand_integer<IDType>(0, static_cast<IDType>(num_nodes_) - 1);
           if (rand_id != static_cast<IDType>(i) && ids.find(rand_id) == ids.end()) {
             new_result.emplace_back(rand_id, space_->get_distance(rand_id, i));
@@ -270,6 +270,13 @@ class QGBuilder {
       }
 
       cur_neighbors = new_result;
+
+      // searches scan degree_bound_ neighbors; with too few vertices, the ones there are repeat
+      for (size_t j = 0; cur_neighbors.size() < degree_bound_; ++j) {
+        auto filler = new_result.empty() ? Neighbor<IDType, DistanceType>(static_cast<IDType>(i), 0)
+                                         : new_result[j % new_result.size()];
+        cur_neighbors.emplace_back(filler);
+      }
     }
     LOG_INFO("Supplementing finished...");
   }
@@ -505,7 +512,7 @@ class QGBuilder {
       // generate random neighbors
       std::unordered_set<IDType> neighbor_set;
       neighbor_set.reserve(degree_bound_);
-      while (neighbor_set.size() < degree_bound_) {
+      while (neighbor_set.size() < std::min(degree_bound_, num_nodes_ - 1)) {
         IDType rand_id = rand_integer<IDType>(0, num_nodes_ - 1);
         if (rand_id != static_cast<IDType>(i)) {
           neighbor_set.emplace(rand_id);
-- 
2.43.0


From 985d22b6c92b96b94a0f6e88f7dcbc45c489da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 39/85] fix: mark the missing results of a RaBitQ search as
 absent

---
 include/executor/jobs/graph_search_job.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8e269c8..0951798 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -411,6 +411,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(ids);
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
   }
 
 #if defined(__linux__)
@@ -483,6 +484,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(ids);
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
 
     co_return;
   }
-- 
2.43.0


From 02dfdbf9844556053182fb38b98c2493b4a68eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 40/85] fix: NNDescent started from repeated neighbours drawn
 by threads sharing one generator

---
 include/index/graph/knng/nndescent.hpp | 4 ++--
 include/utils/random.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/knng/nndescent.hpp b/include/index/graph/knng/nndescent.hpp
index 9d626a9..d006398 100644
--- a/include/index/graph/knng/nndescent.hpp
+++ b/include/index/graph/knng/nndescent.hpp
@@ -194,12 +194,12 @@ struct NndescentImpl {
 
     auto num_cores = thread_num_;
     {
-      std::mt19937 rng((random_seed_ * 7741) + num_cores);
       ThreadPool pool(num_cores);
 
       IDType per_core_num = (vector_num_ + num_cores - 1) / num_cores;
       for (uint32_t thread_id = 0; thread_id < num_cores; thread_id++) {
-        pool.enqueue([thread_id, &rng, per_core_num, this]() -> auto {
+        pool.enqueue([thread_id, num_cores, per_core_num, this]() -> auto {
+          std::mt19937 rng((random_seed_ * 7741) + num_cores + thread_id);
           IDType start = thread_id * per_core_num;
           IDType end = std::min((thread_id + 1) * per_core_num, vector_num_);
 
diff --git a/include/utils/random.hpp b/include/utils/random.hpp
index c078a9a..1897a52 100644
--- a/include/utils/random.hpp
+++ b/include/utils/random.hpp
@@ -22,8 +22,9 @@ inline auto rand_integer(IDType min, IDType max) -> IDType {
 
 template <typename IDType>
 inline void gen_random(std::mt19937 &rng, IDType *addr, const int size, const int n) {
+  const int span = std::max(1, n - size + 1);  // leaves room to move repeats up without wrapping
   for (int i = 0; i < size; ++i) {
-    addr[i] = rng() % n;
+    addr[i] = rng() % span;
   }
   std::sort(addr, addr + size);
   for (int i = 1; i < size; ++i) {
-- 
2.43.0


From b2600f73ed56618756ffd768ae9f6e2cad2b0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 41/85] fix: updating a neighbour list filled its free places
 with links to slot 0 and to itself

---
 include/executor/jobs/graph_update_job.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..f7ac54c 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -178,6 +178,7 @@ class GraphUpdateJob {
         candidate_nbrs.insert(inserted_nbr);
       }
     }
+    candidate_nbrs.erase(node_id);
     auto handler = space_->get_query_computer(node_id);
     LinearPool<DistanceType, IDType> pool(space_->get_data_num(), graph_->max_nbrs_);
     for (auto &nbr : candidate_nbrs) {
@@ -185,7 +186,7 @@ class GraphUpdateJob {
       pool.insert(nbr, dist);
     }
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_);
+    std::vector<IDType> updated_edges(graph_->max_nbrs_, invalid_id());
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-- 
2.43.0


From 250ceb130e8b30f30a0f25d2b3b738903437d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 42/85] fix: an insert next to a removed vector without
 neighbours failed half way

---
 include/executor/jobs/graph_update_job.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index f7ac54c..b72c90f 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -166,10 +166,9 @@ class GraphUpdateJob {
       if (nbr == static_cast<IDType>(-1)) {
         break;
       }
-      if (job_context_->removed_vertices_.count(nbr)) {
-        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_.at(nbr)) {
-          candidate_nbrs.insert(second_hop_nbr);
-        }
+      auto removed = job_context_->removed_node_nbrs_.find(nbr);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        candidate_nbrs.insert(removed->second.begin(), removed->second.end());
       }
       candidate_nbrs.insert(nbr);
     }
-- 
2.43.0


From 26d80422b9909f3e68a33a7fe792ad5c420d7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 43/85] fix: vectors inserted where only removed vectors are
 left could not be found

---
 include/executor/jobs/graph_update_job.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index b72c90f..87f2d2a 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -189,7 +189,15 @@ class GraphUpdateJob {
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-    graph_->update(node_id, updated_edges.data());
+    if (graph_->update(node_id, updated_edges.data()) == invalid_id()) {
+      // a removed node stays a stepping stone, so it has to lead on to the nodes inserted after it
+      std::copy(updated_edges.begin(), updated_edges.end(), graph_->edges(node_id));
+      auto removed = job_context_->removed_node_nbrs_.find(node_id);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        auto nbr_end = std::find(updated_edges.begin(), updated_edges.end(), invalid_id());
+        removed->second.assign(updated_edges.begin(), nbr_end);
+      }
+    }
   }
 
  private:
-- 
2.43.0


From 6f7f304169e899da6bb17efa90e30885449adc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 44/85] fix: searches returned removed vectors once they ran
 out of live ones

---
 include/executor/jobs/graph_search_job.hpp | 24 ++++++++++++++++++----
 include/executor/vector_iterator.hpp       |  7 ++++++-
 include/space/sq4_space.hpp                |  3 +++
 include/space/sq8_space.hpp                |  3 +++
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 0951798..d720d54 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -138,6 +138,16 @@ struct GraphSearchJob {
     std::fill(distances + begin, distances + end, kInvalidDistance);
   }
 
+  /// Removed vectors have no distance, so they come last in the pool: results end before them.
+  static auto count_live_results(const LinearPool<DistanceType, IDType> &pool, uint32_t topk)
+      -> uint32_t {
+    auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+    while (result_count > 0 && pool.dist(result_count - 1) == kInvalidDistance) {
+      --result_count;
+    }
+    return result_count;
+  }
+
   struct RerankCandidate {
     DistanceType distance_;
     IDType id_;
@@ -275,6 +285,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -323,6 +336,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -545,7 +561,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -612,7 +628,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
@@ -677,7 +693,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
       }
@@ -743,7 +759,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
+      auto result_count = count_live_results(pool, topk);
       for (uint32_t i = 0; i < result_count; ++i) {
         ids[i] = pool.id(i);
         distances[i] = pool.dist(i);
diff --git a/include/executor/vector_iterator.hpp b/include/executor/vector_iterator.hpp
index 26a45f7..a68435f 100644
--- a/include/executor/vector_iterator.hpp
+++ b/include/executor/vector_iterator.hpp
@@ -145,7 +145,12 @@ class GraphVectorIterator final : public VectorIterator<IDType, DistanceType> {
         continue;
       }
 
-      pending_candidate_ = VectorCandidate<IDType, DistanceType>{node, (*exact_qc_)(node)};
+      auto distance = (*exact_qc_)(node);
+      if (distance == std::numeric_limits<DistanceType>::max()) {
+        continue;  // removed
+      }
+
+      pending_candidate_ = VectorCandidate<IDType, DistanceType>{node, distance};
       return true;
     }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index bd5a297..52e10ee 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -431,6 +431,9 @@ class SQ4Space {
      * @return The calculated distance
      */
     auto operator()(IDType u) const -> DistanceType {
+      if (!distance_space_.data_storage_.is_valid(u)) {
+        return std::numeric_limits<DistanceType>::max();
+      }
       return distance_space_.code_distance(query_, distance_space_.get_data_by_id(u));
     }
   };
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 94f22a4..603a186 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -432,6 +432,9 @@ class SQ8Space {
      * @return The calculated distance
      */
     auto operator()(IDType u) const -> DistanceType {
+      if (!distance_space_.data_storage_.is_valid(u)) {
+        return std::numeric_limits<DistanceType>::max();
+      }
       return distance_space_.distance_calu_func_(query_,
                                                  distance_space_.get_data_by_id(u),
                                                  distance_space_.get_dim(),
-- 
2.43.0


From 37e6218d51bc5854b60f30aad83baeaa34fe2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 45/85] fix: a refused insert made quantized spaces count fewer
 vectors than slots used

---
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 52e10ee..3f42f3f 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -289,7 +289,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 603a186..08b3a66 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -290,7 +290,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
-- 
2.43.0


From 08ebdd3b7e9ea7a04d487791510f6c754356e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 46/85] fix: a brute-force search with an empty filter returned
 removed rows

---
 include/executor/jobs/graph_hybrid_search_job.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index cca6f1f..e3464c4 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -217,9 +217,14 @@ struct GraphHybridSearchJob {
     std::vector<uint8_t> matches;
     constexpr size_t kBatchSize = 1024;
     batch_ids.reserve(kBatchSize);
+    auto add_candidate = [&](IDType id, DistanceType distance) {
+      if (distance != std::numeric_limits<DistanceType>::max()) {  // max marks a removed row
+        result_pool.insert(id, distance);
+      }
+    };
     auto run_indexed_candidates = [&](const auto &exact_distance) {
       for (auto id : filter_executor.indexed_ids()) {
-        result_pool.insert(id, exact_distance(id));
+        add_candidate(id, exact_distance(id));
       }
     };
     auto run_full_scan = [&](const auto &exact_distance, size_t data_num) {
@@ -232,7 +237,7 @@ struct GraphHybridSearchJob {
         filter_executor.eval_offsets(batch_ids, matches);
         for (size_t i = 0; i < batch_ids.size(); ++i) {
           if (matches[i] != 0) {
-            result_pool.insert(batch_ids[i], exact_distance(batch_ids[i]));
+            add_candidate(batch_ids[i], exact_distance(batch_ids[i]));
           }
         }
       }
-- 
2.43.0


From 575b3652a21c5c7171d200b0e19cf4f84629ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 47/85] fix: a failing DiskANN batch search terminated the
 process

---
 include/index/graph/diskann/diskann_index.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 78bd00e..a73cebe 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -525,6 +525,9 @@ class DiskANNIndex {
     if (top_k == 0) {
       throw std::invalid_argument("DiskANNIndex::batch_search: top_k must be > 0");
     }
+    if (out_labels == nullptr || out_distances == nullptr) {
+      throw std::invalid_argument("DiskANNIndex::batch_search: null output buffers");
+    }
 
     auto run_one = [&](uint32_t qi) {
       search(queries + static_cast<uint64_t>(qi) * dim_,
@@ -543,6 +546,8 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
+    std::mutex error_mutex;
+    std::exception_ptr first_error;
     std::vector<std::thread> pool;
     pool.reserve(workers);
     for (uint32_t w = 0; w < workers; ++w) {
@@ -552,13 +557,25 @@ class DiskANNIndex {
           if (qi >= n_queries) {
             break;
           }
-          run_one(qi);
+          try {
+            run_one(qi);
+          } catch (...) {
+            std::lock_guard<std::mutex> guard(error_mutex);
+            if (!first_error) {
+              first_error = std::current_exception();
+            }
+            next.store(n_queries);  // drain remaining work
+            break;
+          }
         }
       });
     }
     for (auto &th : pool) {
       th.join();
     }
+    if (first_error) {
+      std::rethrow_exception(first_error);
+    }
   }
 
 #if defined(__linux__)
-- 
2.43.0


From ccff7355e05ea79dafd336fced9e8829c027b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 48/85] fix: a DiskANN search could report another vector's
 distance under the label of a slot reused meanwhile

---
 include/index/graph/diskann/diskann_index.hpp | 68 +++++++++++--------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index a73cebe..3aafb5b 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -325,6 +325,7 @@ class DiskANNIndex {
     }
 
     read_ids(path(index_dir, "ids.bin"), max_slot_id_);
+    slot_alloc_seq_.clear();
     const std::string slots_path = path(index_dir, "slots.bin");
     if (std::filesystem::exists(slots_path)) {
       slot_alloc_.load(slots_path);
@@ -448,7 +449,6 @@ class DiskANNIndex {
     }
 
     ThreadData *td = acquire();
-    uint32_t count = 0;
     std::vector<std::pair<uint32_t, float>> results;
     try {
       td->resize_slot_capacity(snapshot.max_slot_id);
@@ -479,28 +479,13 @@ class DiskANNIndex {
       sp.deterministic = params.deterministic;
 
       results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
-      count = static_cast<uint32_t>(results.size());
     } catch (...) {
       release(td);
       throw;
     }
     release(td);
 
-    {
-      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-      for (uint32_t i = 0; i < count; ++i) {
-        const uint32_t id = results[i].first;
-        out_labels[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-        out_distances[i] = results[i].second;
-      }
-    }
-
-    // Pad unused slots with sentinels so callers can detect short result rows.
-    for (uint32_t i = count; i < top_k; ++i) {
-      out_labels[i] = kNoLabel;
-      out_distances[i] = std::numeric_limits<float>::max();
-    }
-    return count;
+    return write_results(results, snapshot, top_k, out_labels, out_distances);
   }
 
   // ------------------------------------------------------------ batch search
@@ -740,19 +725,7 @@ class DiskANNIndex {
 
           uint64_t *labels_row = out_labels + static_cast<uint64_t>(qi) * top_k;
           float *dist_row = out_distances + static_cast<uint64_t>(qi) * top_k;
-          const uint32_t count = std::min<uint32_t>(static_cast<uint32_t>(results.size()), top_k);
-          {
-            std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-            for (uint32_t i = 0; i < count; ++i) {
-              const uint32_t id = results[i].first;
-              labels_row[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-              dist_row[i] = results[i].second;
-            }
-          }
-          for (uint32_t i = count; i < top_k; ++i) {
-            labels_row[i] = kNoLabel;
-            dist_row[i] = std::numeric_limits<float>::max();
-          }
+          write_results(results, snapshot, top_k, labels_row, dist_row);
           if (per_query_us != nullptr) {
             per_query_us[qi] =
                 std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t0)
@@ -1095,6 +1068,7 @@ class DiskANNIndex {
 
   struct SearchSnapshot {
     uint64_t max_slot_id = 0;
+    uint64_t alloc_seq = 0;
     TombstoneSnapshot tombstone;
     bool has_tombstone = false;
   };
@@ -1107,6 +1081,7 @@ class DiskANNIndex {
     SearchSnapshot snapshot;
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
     snapshot.max_slot_id = max_slot_id_;
+    snapshot.alloc_seq = alloc_seq_;
     // All tombstone mutators run under the exclusive side of update_mutex_
     // (verified in the A3 audit), so count() is stable under our shared lock:
     // zero set bits means the snapshot would be all-live — skip the copy. The
@@ -1119,6 +1094,35 @@ class DiskANNIndex {
     return snapshot;
   }
 
+  /// Translate a search's slots to external labels and pad the row with
+  /// sentinels so callers can detect short result rows. A slot handed to another
+  /// vector after the search began is dropped: its distance may be the previous
+  /// vector's, which must not appear under the new label.
+  uint32_t write_results(const std::vector<std::pair<uint32_t, float>> &results,
+                         const SearchSnapshot &snapshot,
+                         uint32_t top_k,
+                         uint64_t *out_labels,
+                         float *out_distances) const {
+    uint32_t count = 0;
+    {
+      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
+      for (size_t i = 0; i < results.size() && count < top_k; ++i) {
+        const uint32_t id = results[i].first;
+        if (id < slot_alloc_seq_.size() && slot_alloc_seq_[id] > snapshot.alloc_seq) {
+          continue;
+        }
+        out_labels[count] = id < labels_.size() ? labels_[id] : kNoLabel;
+        out_distances[count] = results[i].second;
+        ++count;
+      }
+    }
+    for (uint32_t i = count; i < top_k; ++i) {
+      out_labels[i] = kNoLabel;
+      out_distances[i] = std::numeric_limits<float>::max();
+    }
+    return count;
+  }
+
   // ---- in-place update internals (update APIs are serialized; metadata writes
   //      take update_mutex_ only for the narrow mutation/snapshot windows) ----
 
@@ -1504,6 +1508,8 @@ class DiskANNIndex {
     update_ctx_.forget_slot(slot);
     max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
     set_label(slot, label);
+    slot_alloc_seq_.resize(labels_.size(), 0);
+    slot_alloc_seq_[slot] = ++alloc_seq_;
     ++live_count_;
     ops_since_last_insert_ = 0;
     return slot;
@@ -2414,6 +2420,8 @@ class DiskANNIndex {
   bool updatable_ = false;
   uint64_t max_slot_id_ = 0;  ///< file capacity in slots (valid-id bound; only grows)
   uint64_t live_count_ = 0;   ///< live (non-tombstoned) vector count
+  uint64_t alloc_seq_ = 0;    ///< slot allocations made since the object was created
+  std::vector<uint64_t> slot_alloc_seq_;  ///< slot -> alloc_seq_ of its latest allocation
   std::string index_dir_;     ///< saved at load for flush() output paths
   std::unique_ptr<alaya::UringReactor> update_reactor_;  ///< declared before page_io_ so the
                                                          ///< page IO (raw-pointer user) dies first
-- 
2.43.0


From 8e554f562e77d069dddd40ccca36661d1847cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 49/85] fix: DiskANN searches lost their entry point when its
 node and links were removed

---
 include/index/graph/diskann/diskann_index.hpp | 54 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 3aafb5b..a9b5df4 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -828,9 +828,11 @@ class DiskANNIndex {
       slot = allocate_update_slot_unlocked(label);
     }
     encode_pq_slot(query, slot);
+    const std::vector<uint32_t> entry_links = entry_links_of(slot);
     write_inserted_node(slot, query, pruned);
     publish_slots(&slot, &slot + 1);
     reconnect_inserted_neighbors(pruned, slot);
+    keep_entry_linked(slot, pruned, entry_links);
     return slot;
   }
 
@@ -1651,6 +1653,7 @@ class DiskANNIndex {
     }
     page_io_->clear_cache();
     remove_unlocked(internal_id);
+    repair_entry_links();
     if (maybe_safety_net_reconnect()) {
       page_io_->flush_dirty_pages();
     }
@@ -1672,6 +1675,7 @@ class DiskANNIndex {
         remove_unlocked_with_neighbors(internal_ids[i], std::move(old_neighbors[i]));
       }
     }
+    repair_entry_links();
     if (maybe_safety_net_reconnect()) {
       page_io_->flush_dirty_pages();
     }
@@ -1710,6 +1714,47 @@ class DiskANNIndex {
     ++ops_since_last_insert_;
   }
 
+  // Searches start at the medoid's slot, removed or not, and skip removed nodes:
+  // whatever happens to that slot, its links must keep leading to live nodes.
+
+  /// After removals: replace the medoid's links to removed nodes.
+  void repair_entry_links() {
+    const std::vector<uint32_t> links = page_io_->read_node(medoid_).nbrs;
+    const auto removed = [this](uint32_t id) {
+      return slot_alloc_.is_deleted(id);
+    };
+    if (std::none_of(links.begin(), links.end(), removed)) {
+      return;
+    }
+    std::vector<uint32_t> extra;
+    if (std::all_of(links.begin(), links.end(), removed)) {
+      for (const auto &[label, slot] : label_to_slot_) {
+        if (extra.size() == max_degree_) {
+          break;
+        }
+        extra.push_back(slot);
+      }
+    }
+    update_node_impl_locked(medoid_, extra);
+  }
+
+  /// The links that reusing @p slot would drop, if it is the medoid's.
+  std::vector<uint32_t> entry_links_of(uint32_t slot) {
+    return slot == medoid_ ? page_io_->read_node(slot).nbrs : std::vector<uint32_t>{};
+  }
+
+  /// After an insert: carry over the links of a reused medoid slot; link the
+  /// medoid to a node that found no other node to be linked from.
+  void keep_entry_linked(uint32_t slot,
+                         const std::vector<uint32_t> &selected,
+                         const std::vector<uint32_t> &entry_links) {
+    if (slot == medoid_) {
+      update_node_impl_locked(slot, entry_links);
+    } else if (selected.empty()) {
+      update_node_impl_locked(medoid_, {slot});
+    }
+  }
+
   void write_inserted_node(uint32_t slot,
                            const float *query,
                            const std::vector<uint32_t> &neighbors) {
@@ -1804,6 +1849,7 @@ class DiskANNIndex {
         co_await page_io_->prefetch_pages(warm.data(), warm.size(), pool);
       }
       st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
+      const std::vector<uint32_t> entry_links = entry_links_of(ids[i]);
       write_inserted_node(ids[i], vec, selected);
       publish_slots(&ids[i], &ids[i] + 1);
       for (const uint32_t n : selected) {
@@ -1816,12 +1862,16 @@ class DiskANNIndex {
         reconnects.emplace_back(reconnect_one(n));
       }
       co_await coro::when_all(std::move(reconnects));
+      keep_entry_linked(ids[i], selected, entry_links);
       st_reconnect_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
 
-    for (uint32_t off = 0; off < count; off += batch_size) {
-      const uint32_t end = std::min<uint32_t>(count, off + batch_size);
+    // Concurrent inserts do not see each other: into an empty index, the first
+    // one goes alone so that the others find a node to link to.
+    const bool was_empty = live_count() == 0;
+    for (uint32_t off = 0, end = 0; off < count; off = end) {
+      end = was_empty && off == 0 ? 1 : std::min<uint32_t>(count, off + batch_size);
       auto run = [&]() -> coro::task<> {
         std::vector<coro::task<>> tasks;
         tasks.reserve(end - off);
-- 
2.43.0


From 370bc3af8f0689ecf21f0c3c3c12d7e4d4dc370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 50/85] fix: reloading a DiskANN index object kept search
 buffers sized for the previous index

---
 include/index/graph/diskann/diskann_index.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index a9b5df4..374eadf 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2290,6 +2290,13 @@ class DiskANNIndex {
       }
     }
     thread_data_storage_.clear();
+#if defined(__linux__)
+    // Sized for the index being closed: the next load may have another geometry.
+    for (auto &td : pipeline_tds_) {
+      td->free_scratch();
+    }
+    pipeline_tds_.clear();
+#endif
     while (thread_data_pool_.pop() != nullptr) {
     }
     reader_.reset();
-- 
2.43.0


From 6a7193b55d91154128b1592d04f5365a246ecef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 51/85] fix: DiskANN inserts ran out of search scratch when the
 degree exceeded 118

---
 include/index/graph/diskann/diskann_index.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 374eadf..6cdc977 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -374,7 +374,7 @@ class DiskANNIndex {
     const uint64_t scratch_slots =
         std::min<uint64_t>(1024, std::max<uint64_t>(2ull * beam_width_, nopq_depth));
     const uint32_t scratch_list_size = std::max({DiskANNSearchParams{}.search_list_size,
-                                                 params.update_search_l,
+                                                 params.updatable ? resolve_update_search_l(params) : 0,
                                                  params.scratch_search_list_size});
     ThreadDataScratchConfig scratch_config;
     scratch_config.n_page_slots = scratch_slots;
@@ -1128,11 +1128,16 @@ class DiskANNIndex {
   // ---- in-place update internals (update APIs are serialized; metadata writes
   //      take update_mutex_ only for the narrow mutation/snapshot windows) ----
 
+  /// L of the insert NN-search; 0 selects Yi's build_k = degree + 32 rule.
+  [[nodiscard]] uint32_t resolve_update_search_l(const DiskANNLoadParams &params) const {
+    return params.update_search_l != 0 ? params.update_search_l : max_degree_ + 32;
+  }
+
   /// Wire up the update subsystem (page IO, slot allocator, context, config).
   void init_updatable(const std::string &index_dir, const DiskANNLoadParams &params) {
     index_dir_ = index_dir;
     update_alpha_ = params.update_alpha;
-    update_search_l_ = params.update_search_l != 0 ? params.update_search_l : max_degree_ + 32;
+    update_search_l_ = resolve_update_search_l(params);
     update_rerank_ = params.update_rerank;
     update_insert_prune_ = params.update_insert_prune;
     safety_net_ratio_ = params.safety_net_ratio;
-- 
2.43.0


From c9c02907a324d9eadd5f58d7ae3ab319700428f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 52/85] fix: errors inside DiskANN batch inserts and reads were
 dropped

---
 include/index/graph/diskann/disk_page_io.hpp  | 31 ++++++++++++++++++-
 include/index/graph/diskann/diskann_index.hpp | 13 +++++---
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..85e60ee 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -64,6 +64,33 @@
 
 namespace alaya::diskann {
 
+/// Carries the first exception of a group of tasks to their caller: when_all()
+/// keeps each task's outcome to itself.
+class TaskErrors {
+ public:
+  coro::task<> guard(coro::task<> task) {
+    try {
+      co_await task;
+    } catch (...) {
+      std::lock_guard<std::mutex> lock(mutex_);
+      if (!first_) {
+        first_ = std::current_exception();
+      }
+    }
+  }
+
+  /// Call once every guarded task has finished.
+  void rethrow() {
+    if (first_) {
+      std::rethrow_exception(first_);
+    }
+  }
+
+ private:
+  std::mutex mutex_;
+  std::exception_ptr first_;
+};
+
 class DiskPageIO {
  public:
   /// A decoded node record: raw coordinates plus the live neighbor id list.
@@ -284,6 +311,7 @@ class DiskPageIO {
       throw std::invalid_argument("DiskPageIO::read_nodes_async: null ids");
     }
     std::vector<NodeData> out(count);
+    TaskErrors errors;
     auto read_one = [this, &pool, ids, &out](uint32_t i) -> coro::task<> {
       out[i] = co_await read_node_async(ids[i], pool);
     };
@@ -291,11 +319,12 @@ class DiskPageIO {
       std::vector<coro::task<>> tasks;
       tasks.reserve(count);
       for (uint32_t i = 0; i < count; ++i) {
-        tasks.emplace_back(read_one(i));
+        tasks.emplace_back(errors.guard(read_one(i)));
       }
       co_await coro::when_all(std::move(tasks));
     };
     coro::sync_wait(run());
+    errors.rethrow();
     return out;
   }
 
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 6cdc977..146d84b 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -1807,6 +1807,7 @@ class DiskANNIndex {
                                                       coro::thread_pool &pool) {
     std::vector<uint32_t> ids(count, 0);
     StagedEdges staged;
+    TaskErrors errors;
 
     auto reconnect_one = [this, &pool, &staged](uint32_t node_id) -> coro::task<> {
       co_await pool.schedule();
@@ -1829,7 +1830,8 @@ class DiskANNIndex {
     };
 
     auto insert_one =
-        [this, &pool, &staged, &reconnect_one, vectors, labels, &ids](uint32_t i) -> coro::task<> {
+        [this, &pool, &staged, &errors, &reconnect_one, vectors, labels, &ids](
+            uint32_t i) -> coro::task<> {
       co_await pool.schedule();
       auto mark = std::chrono::steady_clock::now();
       const float *vec = vectors + static_cast<uint64_t>(i) * dim_;
@@ -1864,7 +1866,7 @@ class DiskANNIndex {
       std::vector<coro::task<>> reconnects;
       reconnects.reserve(selected.size());
       for (const uint32_t n : selected) {
-        reconnects.emplace_back(reconnect_one(n));
+        reconnects.emplace_back(errors.guard(reconnect_one(n)));
       }
       co_await coro::when_all(std::move(reconnects));
       keep_entry_linked(ids[i], selected, entry_links);
@@ -1881,11 +1883,12 @@ class DiskANNIndex {
         std::vector<coro::task<>> tasks;
         tasks.reserve(end - off);
         for (uint32_t i = off; i < end; ++i) {
-          tasks.emplace_back(insert_one(i));
+          tasks.emplace_back(errors.guard(insert_one(i)));
         }
         co_await coro::when_all(std::move(tasks));
       };
       coro::sync_wait(run());
+      errors.rethrow();
     }
     return ids;
   }
@@ -2158,6 +2161,7 @@ class DiskANNIndex {
     coro::thread_pool pool{{.thread_count = workers,
                             .on_thread_start_functor = nullptr,
                             .on_thread_stop_functor = nullptr}};
+    TaskErrors errors;
     auto reconnect_one = [this, &pool, slot](uint32_t node_id) -> coro::task<> {
       co_await pool.schedule();
       const std::vector<uint32_t> extra_edges{slot};
@@ -2176,7 +2180,7 @@ class DiskANNIndex {
       std::vector<coro::task<>> tasks;
       tasks.reserve(neighbors.size());
       for (const uint32_t node_id : neighbors) {
-        tasks.emplace_back(reconnect_one(node_id));
+        tasks.emplace_back(errors.guard(reconnect_one(node_id)));
       }
       co_await coro::when_all(std::move(tasks));
     };
@@ -2187,6 +2191,7 @@ class DiskANNIndex {
       throw;
     }
     pool.shutdown();
+    errors.rethrow();
   }
 
   void reconnect_inserted_neighbors(const std::vector<uint32_t> &neighbors, uint32_t slot) {
-- 
2.43.0


From cb017668f47838c4749e0cf3cd204108fd709c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 53/85] fix: a failed DiskANN search left reads in flight into
 buffers the next search reuses

---
 include/index/graph/diskann/beam_search.hpp | 64 +++++++++++++++++----
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a2392da..220ee87 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -167,6 +167,48 @@ inline void scan_and_insert_neighbors(alaya::vamana::NeighborPriorityQueue &rets
   }
 }
 
+/// Waits for the reads a search still has in flight when it leaves early (a failed
+/// read throws). The ThreadData goes back to its pool, and its next user must neither
+/// receive completions of these reads nor have its scratch pages written by them.
+class InflightDrain {
+ public:
+  InflightDrain(AlignedFileReader &reader, ThreadData &td) : reader_(reader), td_(td) {}
+  InflightDrain(const InflightDrain &) = delete;
+  auto operator=(const InflightDrain &) -> InflightDrain & = delete;
+
+  ~InflightDrain() {
+    try {
+      std::vector<AlignedReadEvent> evts;
+      while (td_.has_inflight()) {
+        reader_.get_events(td_.ctx_, 1, evts);
+        for (const auto &e : evts) {
+          InFlightSlot ignored;
+          (void)td_.remove_inflight(static_cast<uint32_t>(e.id), ignored);
+        }
+      }
+    } catch (...) {
+      // The context itself is broken; the error that got us here is reported.
+    }
+  }
+
+  /// Submit @p reqs; when the kernel refuses them they are not in flight.
+  void submit(std::vector<AlignedRead> &reqs) {
+    try {
+      reader_.submit_reqs(reqs, td_.ctx_);
+    } catch (...) {
+      for (const auto &r : reqs) {
+        InFlightSlot ignored;
+        (void)td_.remove_inflight(static_cast<uint32_t>(r.id), ignored);
+      }
+      throw;
+    }
+  }
+
+ private:
+  AlignedFileReader &reader_;
+  ThreadData &td_;
+};
+
 /**
  * @brief No-PQ disk greedy search: a disk port of Vamana greedy search.
  *
@@ -362,6 +404,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     }
     std::deque<uint32_t> pending;
     std::vector<AlignedReadEvent> evts;
+    InflightDrain drain(reader, td);
 
     // Expand closest-unexpanded nodes into `pending` until there is enough queued
     // to fill the free slots (relaxed greedy: may expand before a closer in-flight
@@ -414,7 +457,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
         reqs.emplace_back(page_off, page_size, m, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        drain.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -430,14 +473,14 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
       if (td.has_inflight()) {
         reader.get_events(td.ctx_, 1, evts);  // get_events clears + fills `evts`
         for (const auto &e : evts) {
-          if (e.result != static_cast<int64_t>(page_size)) {
-            throw std::runtime_error("disk_greedy_search: short/failed read, result=" +
-                                     std::to_string(e.result));
-          }
           InFlightSlot completed;
           if (!td.remove_inflight(static_cast<uint32_t>(e.id), completed)) {
             continue;  // defensive: completion for an id we are not tracking
           }
+          if (e.result != static_cast<int64_t>(page_size)) {
+            throw std::runtime_error("disk_greedy_search: short/failed read, result=" +
+                                     std::to_string(e.result));
+          }
           if (page_io != nullptr) {
             page_io->search_fill_page(geom.get_page_offset(static_cast<uint32_t>(e.id)),
                                       td.sector_scratch + completed.page_slot * page_size,
@@ -619,6 +662,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
     // so results are NOT bitwise-reproducible across runs/threads (set
     // deterministic for that). Thread-safety, correctness and recall are
     // unaffected — only the tie-ordering of equally-good candidates differs.
+    InflightDrain drain(reader, td);
     auto &free_slots = td.free_page_slots;
     free_slots.clear();
     for (uint64_t s = 0; s < beam; ++s) {
@@ -670,7 +714,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         reqs.emplace_back(page_off, page_size, id, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        drain.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -696,14 +740,14 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
                                       .count());
       }
       for (const auto &e : evts) {
-        if (e.result != static_cast<int64_t>(page_size)) {
-          throw std::runtime_error("cached_beam_search: short/failed read, result=" +
-                                   std::to_string(e.result));
-        }
         InFlightSlot completed;
         if (!td.remove_inflight(static_cast<uint32_t>(e.id), completed)) {
           continue;  // defensive: completion for an id we are not tracking
         }
+        if (e.result != static_cast<int64_t>(page_size)) {
+          throw std::runtime_error("cached_beam_search: short/failed read, result=" +
+                                   std::to_string(e.result));
+        }
         if (page_io != nullptr) {
           const auto tf0 = std::chrono::steady_clock::now();
           page_io->search_fill_page(geom.get_page_offset(static_cast<uint32_t>(e.id)),
-- 
2.43.0


From 13d894017b79dc23b2ac49c2d462d3da83c135ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 54/85] fix: DiskANN inserts reallocated the PQ codes under
 concurrent scoring

---
 include/index/graph/diskann/beam_search.hpp    |  5 +++++
 .../index/graph/diskann/beam_search_async.hpp  | 18 +++++++++++++++---
 include/index/graph/diskann/diskann_index.hpp  | 17 +++++++++++------
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index 220ee87..a777d89 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -49,6 +49,7 @@
 #include <chrono>
 #include <cstdint>
 #include <deque>
+#include <shared_mutex>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -84,6 +85,10 @@ struct SearchContext {
   const DiskLayoutGeometry *geom = nullptr;
   const NodeCache *cache = nullptr;
   const PQTable *pq = nullptr;  ///< nullptr => index has no PQ
+  /// Guards pq's codes, which an insert may reallocate. Taken (shared) by the
+  /// coroutine search around each scoring step, which never suspends; the sync
+  /// search runs under its caller's lock and leaves it alone.
+  std::shared_mutex *pq_mutex = nullptr;
   uint32_t medoid = 0;
   uint64_t num_points = 0;
 
diff --git a/include/index/graph/diskann/beam_search_async.hpp b/include/index/graph/diskann/beam_search_async.hpp
index 1f057df..e710742 100644
--- a/include/index/graph/diskann/beam_search_async.hpp
+++ b/include/index/graph/diskann/beam_search_async.hpp
@@ -38,6 +38,7 @@
 #if defined(__linux__)
 
   #include <algorithm>
+  #include <shared_mutex>
   #include <stdexcept>
   #include <string>
   #include <utility>
@@ -252,8 +253,10 @@ inline auto disk_greedy_search_async(const SearchContext &ctx,
 ///
 /// PQ-lock note: callers do NOT hold pq_mutex_ across this coroutine (a
 /// shared_mutex may not be released on a different thread than took it).
-/// That is safe by protocol: concurrent encode_pq_slot() only writes codes of
-/// slots that are still dark (allocated, not yet published), and the search's
+/// Each scoring step takes ctx.pq_mutex instead, because an insert that opens
+/// fresh slots grows the code storage and may move it. The rows themselves are
+/// safe by protocol: concurrent encode_pq_slot() only writes codes of slots
+/// that are still dark (allocated, not yet published), and the search's
 /// tombstone snapshot — taken before the search — masks every such slot, so
 /// pq_distance is never called on an entry being written.
 inline auto pq_beam_search_async(const SearchContext &ctx,
@@ -284,8 +287,16 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
   pq.preprocess_query(query, td.pq_table.data(), td.pq_qres.data());
   const float *pq_table = td.pq_table.data();
 
+  const auto pq_guard = [&ctx]() {
+    return ctx.pq_mutex != nullptr ? std::shared_lock<std::shared_mutex>(*ctx.pq_mutex)
+                                   : std::shared_lock<std::shared_mutex>();
+  };
+
   visited.set(ctx.medoid);
-  retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  {
+    const auto pq_lock = pq_guard();
+    retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  }
 
   const uint64_t beam = std::max<uint64_t>(1, params.beam_width);
   td.ensure_wave_scratch(beam * page_size);
@@ -297,6 +308,7 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
       stats->read_order.push_back(id);
       stats->n_nodes_processed++;
     }
+    const auto pq_lock = pq_guard();
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 146d84b..eb67d8f 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -681,6 +681,7 @@ class DiskANNIndex {
           ctx.geom = &geom_;
           ctx.cache = &cache_;
           ctx.pq = use_pq ? &pq_ : nullptr;
+          ctx.pq_mutex = &pq_mutex_;
           ctx.medoid = medoid_;
           ctx.num_points = snapshot.max_slot_id;
           if (snapshot.has_tombstone) {
@@ -698,8 +699,8 @@ class DiskANNIndex {
           SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
           const float *query = queries + static_cast<uint64_t>(qi) * dim_;
           // No pq_mutex_ across the coroutine (a shared_mutex may not be
-          // released on another thread) — safe by the dark-slot protocol, see
-          // run_update_search_async.
+          // released on another thread): it is taken per scoring step, see
+          // pq_beam_search_async.
           std::vector<std::pair<uint32_t, float>> results;
           if (use_pq) {
             results = co_await pq_beam_search_async(ctx,
@@ -1268,6 +1269,7 @@ class DiskANNIndex {
         ctx.geom = &geom_;
         ctx.cache = &cache_;
         ctx.pq = has_pq_ ? &pq_ : nullptr;
+        ctx.pq_mutex = &pq_mutex_;
         ctx.medoid = medoid_;
         ctx.num_points = snapshot.max_slot_id;
         ctx.tombstone = &snapshot.tombstone;
@@ -1277,10 +1279,9 @@ class DiskANNIndex {
         sp.beam_width = beam_width_;
         sp.use_pq = has_pq_;
         sp.rerank = false;
-        // No pq_mutex_ here (a shared_mutex cannot be released on a different
-        // thread than locked it): safe because concurrent encode_pq_slot only
-        // writes codes of still-dark slots, all masked by snapshot.tombstone —
-        // see the note on pq_beam_search_async.
+        // No pq_mutex_ across the coroutine (a shared_mutex cannot be released on
+        // a different thread than locked it): it is taken per scoring step, see
+        // the note on pq_beam_search_async.
         if (has_pq_) {
           results = co_await pq_beam_search_async(ctx,
                                                   query,
@@ -1423,6 +1424,7 @@ class DiskANNIndex {
     std::vector<uint8_t> query_code(pq_n_chunks_);
     pq_.encode_to_code(query, query_code.data());
     if (update_insert_prune_) {
+      const std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       std::vector<alaya::vamana::Neighbor> pool;
       pool.reserve(cand.size());
       for (const auto &c : cand) {
@@ -1448,6 +1450,7 @@ class DiskANNIndex {
     if (cand.size() > max_degree_) {
       cand.resize(max_degree_);
     }
+    const std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
     for (const auto &c : cand) {
@@ -1922,6 +1925,7 @@ class DiskANNIndex {
 
   std::vector<alaya::vamana::Neighbor> score_candidates_pq(uint32_t node_id,
                                                            const std::vector<uint32_t> &cand) {
+    const std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
     for (const uint32_t c : cand) {
@@ -1958,6 +1962,7 @@ class DiskANNIndex {
       return new_nbrs;
     }
     if (has_pq_) {
+      const std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       auto dist_fn = [this](uint32_t a, uint32_t b) -> float {
         return pq_.pq_symmetric_distance(a, b);
       };
-- 
2.43.0


From 41f07b1c254ec20e31b7a3e0944ba78bd9bc340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 55/85] fix: the scheduler's workers left before the tasks
 scheduled after begin()

---
 include/executor/worker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..7af5439 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -108,7 +108,8 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Tasks may be scheduled until the scheduler joins its workers.
+          if (!active_.load() && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
@@ -170,7 +171,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic_bool active_{true};  ///< Flag indicating whether the worker is active.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From 4d8374a9134d61407f7f0baa949f4fd4836e68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 56/85] fix: co_await scheduler.schedule() let two workers
 resume one coroutine

---
 include/executor/scheduler.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..7c9f00f 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -59,18 +59,18 @@ class Scheduler {
     }
 
     /**
-     * @brief Suspends the current coroutine and schedules it to be resumed later by a worker
-     * thread.
+     * @brief Suspends the current coroutine; its worker resumes it later.
      *
-     * This function stores the awaiting coroutine and hands control back to the scheduler. The
-     * coroutine will be resumed by the worker thread once the task is ready to continue.
+     * The worker that runs a task keeps it among its local tasks until it is done and resumes
+     * those in turn, so suspending is all there is to do: queueing the handle as well would let
+     * a second worker resume the same coroutine.
      *
      * @param awaiting_coroutine The coroutine that is waiting to be resumed.
      * @return Always returns true to indicate that the coroutine is suspended.
      */
     template <typename Promise>
-    auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+    auto await_suspend(
+        [[maybe_unused]] std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
       return true;
     }
 
@@ -80,7 +80,7 @@ class Scheduler {
     void await_resume() noexcept {};
 
    private:
-    Scheduler &scheduler_;  // NOLINT  ///< The scheduler instance managing this operation.
+    [[maybe_unused]] Scheduler &scheduler_;  // NOLINT  ///< The scheduler instance managing this operation.
 
     std::coroutine_handle<> awaiting_coroutine_{
         nullptr};  ///< The coroutine that is awaiting to be resumed.
-- 
2.43.0


From 4c6cf02f388d1779dfde53f4e21fd1598f21dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 57/85] fix: a thread pool waiter could miss its count and wait
 forever

---
 include/utils/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..c25a392 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -47,7 +47,7 @@ class ThreadPool {
           {
             std::lock_guard<std::mutex> lock(this->queue_mutex_);
             tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
+            condition_tasks_completed_.notify_all();
           }
         }
       });
@@ -108,7 +108,7 @@ class ThreadPool {
     std::unique_lock<std::mutex> lock(queue_mutex_);
     // Wait until the number of completed tasks matches the total number of tasks
     condition_tasks_completed_.wait(lock, [this, task_num]() -> bool {
-      return tasks_completed_.load() == task_num;
+      return tasks_completed_.load() >= task_num;
     });
   }
 
-- 
2.43.0


From f57e81b0d562de8901872d3f61b97149871c8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 58/85] fix: DiskANN deterministic searches depended on what
 was in the page cache

---
 include/index/graph/diskann/beam_search.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a777d89..ea730e0 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -608,7 +608,10 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
       reqs.clear();
       td.io_req_versions.clear();
       uint64_t slot = 0;
-      while (retset.has_unexpanded_node() && reqs.size() < beam && slot < n_slots) {
+      // The beam counts page-cache hits too: what earlier searches left in the
+      // page cache must not change which candidates are expanded together.
+      const uint64_t wave = std::min(beam, n_slots);
+      while (retset.has_unexpanded_node() && slot < wave) {
         const uint32_t id = retset.closest_unexpanded().id;
         batch.push_back(id);
         NodeCache::Lookup cached = cache.lookup_record(id);
-- 
2.43.0


From 1a7d705456230cf9508f6bb5421184028bfa37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 59/85] fix: DiskANN batch inserts read the removed-neighbor
 lists while slot reuse erased them

---
 .../graph/diskann/disk_update_context.hpp     | 21 +++++++++++++++++--
 include/index/graph/diskann/diskann_index.hpp | 14 ++-----------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/index/graph/diskann/disk_update_context.hpp b/include/index/graph/diskann/disk_update_context.hpp
index 605efb7..a3e5d27 100644
--- a/include/index/graph/diskann/disk_update_context.hpp
+++ b/include/index/graph/diskann/disk_update_context.hpp
@@ -13,6 +13,8 @@
 #pragma once
 
 #include <cstdint>
+#include <mutex>
+#include <shared_mutex>
 #include <unordered_map>
 #include <vector>
 
@@ -26,8 +28,20 @@ struct DiskUpdateContext {
   void clear() { removed_node_nbrs_.clear(); }
 
   /// Forget a slot that has just been reused by an insert: its cached two-hop
-  /// data no longer describes the node now living in the slot.
-  void forget_slot(uint32_t slot) { removed_node_nbrs_.erase(slot); }
+  /// data no longer describes the node now living in the slot. The reconnects
+  /// of a batch run alongside the slot reuse of its other inserts.
+  void forget_slot(uint32_t slot) {
+    std::unique_lock<std::shared_mutex> lock(mutex_);
+    removed_node_nbrs_.erase(slot);
+  }
+
+  /// Old neighbor list of @p slot, empty when none is kept. Safe against a
+  /// concurrent forget_slot().
+  [[nodiscard]] std::vector<uint32_t> removed_neighbors(uint32_t slot) const {
+    std::shared_lock<std::shared_mutex> lock(mutex_);
+    const auto it = removed_node_nbrs_.find(slot);
+    return it == removed_node_nbrs_.end() ? std::vector<uint32_t>{} : it->second;
+  }
 
   /// True when the safety-net proactive reconnect should fire: the tombstone
   /// ratio has reached @p ratio_threshold AND no insert-driven reconnect has run
@@ -43,6 +57,9 @@ struct DiskUpdateContext {
     const double ratio = static_cast<double>(tombstone_count) / static_cast<double>(total);
     return ops_since_last_insert >= ops_threshold && ratio >= ratio_threshold;
   }
+
+ private:
+  mutable std::shared_mutex mutex_;  ///< forget_slot() against removed_neighbors()
 };
 
 }  // namespace alaya::diskann
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index eb67d8f..3f5db7c 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2053,7 +2053,6 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
-    const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
         continue;
@@ -2062,12 +2061,8 @@ class DiskANNIndex {
         push(nbr);
         continue;
       }
-      const auto it = removed_node_nbrs.find(nbr);
-      if (it == removed_node_nbrs.end()) {
-        continue;
-      }
       uint32_t pulled = 0;
-      for (const uint32_t o : it->second) {
+      for (const uint32_t o : update_ctx_.removed_neighbors(nbr)) {
         if (o == node_id || slot_alloc_.is_deleted(o)) {
           continue;
         }
@@ -2111,7 +2106,6 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
-    const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
         continue;
@@ -2120,12 +2114,8 @@ class DiskANNIndex {
         push(nbr);
         continue;
       }
-      const auto it = removed_node_nbrs.find(nbr);
-      if (it == removed_node_nbrs.end()) {
-        continue;
-      }
       uint32_t pulled = 0;
-      for (const uint32_t o : it->second) {
+      for (const uint32_t o : update_ctx_.removed_neighbors(nbr)) {
         if (o == node_id || slot_alloc_.is_deleted(o)) {
           continue;
         }
-- 
2.43.0


From c9e5e9fc654771e024d306325f929d4fd03bf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 60/85] fix: vectors of another size or memory layout were read
 as if they matched the index

---
 python/include/index.hpp | 42 ++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..5e8934c 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -329,6 +329,24 @@ class PyIndex : public BasePyIndex {
     return inserted_id;
   }
 
+  // The native code walks vectors as packed rows, whatever strides the array came with.
+  static auto contiguous(const py::array &array) -> py::array_t<DataType> {
+    return py::array_t<DataType, py::array::c_style | py::array::forcecast>(array);
+  }
+
+  void validate_vector(const py::array_t<DataType> &vector) const {
+    if (static_cast<uint64_t>(vector.size()) != data_dim_) {
+      throw std::invalid_argument("vector must have " + std::to_string(data_dim_) + " values");
+    }
+  }
+
+  void validate_vectors(const py::array_t<DataType> &vectors) const {
+    if (vectors.ndim() != 2 || static_cast<uint64_t>(vectors.shape(1)) != data_dim_) {
+      throw std::invalid_argument("vectors must be a two-dimensional array with rows of " +
+                                  std::to_string(data_dim_) + " values");
+    }
+  }
+
   void validate_insert_item_id_available(const ScalarData &scalar_data) const {
     if constexpr (SearchSpaceType::has_scalar_data) {
       if (scalar_data.item_id.empty() || search_space_ == nullptr) {
@@ -693,6 +711,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_vector(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
@@ -724,6 +743,7 @@ class PyIndex : public BasePyIndex {
               const std::string &item_id = "",
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> IDType {
+    validate_vector(insert_data);
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
@@ -898,6 +918,7 @@ class PyIndex : public BasePyIndex {
   }
 
   auto search(py::array_t<DataType> query, uint32_t topk, uint32_t ef) -> py::array_t<IDType> {
+    validate_vector(query);
     auto *query_ptr = static_cast<DataType *>(query.request().ptr);
     std::vector<IDType> result_ids(topk);
 
@@ -921,6 +942,7 @@ class PyIndex : public BasePyIndex {
       throw std::runtime_error("search_with_distance is not supported for RaBitQ space");
     }
 
+    validate_vector(query);
     auto *query_ptr = static_cast<DataType *>(query.request().ptr);
 
     auto ret_ids = py::array_t<IDType>(static_cast<size_t>(topk));
@@ -951,6 +973,7 @@ class PyIndex : public BasePyIndex {
     if constexpr (!SearchSpaceType::has_scalar_data) {
       throw std::runtime_error("hybrid_search requires a space that supports scalar data");
     } else {
+      validate_vector(query);
       auto *query_ptr = static_cast<DataType *>(query.request().ptr);
       SearchInfo search_info{topk, ef, parse_filter_exec_hint(filter_exec_hint)};
 
@@ -999,6 +1022,7 @@ class PyIndex : public BasePyIndex {
     if constexpr (!SearchSpaceType::has_scalar_data) {
       throw std::runtime_error("batch_hybrid_search requires a space that supports scalar data");
     } else {
+      validate_vectors(queries);
       auto shape = queries.shape();
       size_t query_size = shape[0];
       size_t query_dim = shape[1];
@@ -1078,6 +1102,7 @@ class PyIndex : public BasePyIndex {
 
   auto batch_search(py::array_t<DataType> queries, uint32_t topk, uint32_t ef, uint32_t num_threads)
       -> py::array_t<IDType> {
+    validate_vectors(queries);
     auto shape = queries.shape();
     size_t query_size = shape[0];
     size_t query_dim = shape[1];
@@ -1157,6 +1182,7 @@ class PyIndex : public BasePyIndex {
       throw std::runtime_error("batch_search_with_distance is not supported for RaBitQ space");
     }
 
+    validate_vectors(queries);
     size_t query_size = queries.shape(0);
     size_t query_dim = queries.shape(1);
 
@@ -1231,12 +1257,12 @@ class PyIndex : public BasePyIndex {
            const py::object &item_ids = py::none(),
            const py::object &documents = py::none(),
            const py::object &metadata_list = py::none()) -> void override {
-    auto typed_vectors = vectors.cast<py::array_t<DataType>>();
+    auto typed_vectors = contiguous(vectors);
     fit(typed_vectors, ef_construction, num_threads, item_ids, documents, metadata_list);
   }
 
   auto search(py::array query, uint32_t topk, uint32_t ef) -> py::array override {  // NOLINT
-    auto typed_query = query.cast<py::array_t<DataType>>();
+    auto typed_query = contiguous(query);
     return search(typed_query, topk, ef);
   }
 
@@ -1249,7 +1275,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<py::array_t<DataType>>();
+    auto typed_insert_data = contiguous(insert_data);
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return insert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1259,7 +1285,7 @@ class PyIndex : public BasePyIndex {
               const py::object &item_id_obj = py::none(),
               const std::string &document = "",
               const py::dict &metadata = py::dict()) -> std::variant<uint32_t, uint64_t> override {
-    auto typed_insert_data = insert_data.cast<py::array_t<DataType>>();
+    auto typed_insert_data = contiguous(insert_data);
     std::string item_id = item_id_obj.is_none() ? "" : py::str(item_id_obj).cast<std::string>();
     return upsert(typed_insert_data, ef, item_id, document, metadata);
   }
@@ -1300,7 +1326,7 @@ class PyIndex : public BasePyIndex {
                     uint32_t topk,
                     uint32_t ef,  // NOLINT
                     uint32_t num_threads) -> py::array override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = contiguous(queries);
     return batch_search(typed_queries, topk, ef, num_threads);
   }
 
@@ -1308,7 +1334,7 @@ class PyIndex : public BasePyIndex {
                                   uint32_t topk,
                                   uint32_t ef,  // NOLINT
                                   uint32_t num_threads) -> py::object override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = contiguous(queries);
     return batch_search_with_distance(typed_queries, topk, ef, num_threads);
   }
 
@@ -1318,7 +1344,7 @@ class PyIndex : public BasePyIndex {
                      const MetadataFilter &filter,
                      bool bf = false,
                      const std::string &filter_exec_hint = std::string()) -> py::object override {
-    auto typed_query = query.cast<py::array_t<DataType>>();
+    auto typed_query = contiguous(query);
     return hybrid_search(typed_query, topk, ef, filter, bf, filter_exec_hint);
   }
 
@@ -1330,7 +1356,7 @@ class PyIndex : public BasePyIndex {
                            bool bf = false,
                            const std::string &filter_exec_hint = std::string())
       -> py::object override {
-    auto typed_queries = queries.cast<py::array_t<DataType>>();
+    auto typed_queries = contiguous(queries);
     return batch_hybrid_search(typed_queries, topk, ef, filter, num_threads, bf, filter_exec_hint);
   }
 
-- 
2.43.0


From 87c82a52a3613e5dada41c0eafe27e19fe5c8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 61/85] fix: a full index lost the upserted item and dropped
 inserts without an error

---
 python/include/index.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 5e8934c..e8eca25 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -347,6 +347,14 @@ class PyIndex : public BasePyIndex {
     }
   }
 
+  void validate_capacity_available() const {
+    if (search_space_ != nullptr &&
+        static_cast<uint64_t>(search_space_->get_data_num()) >=
+            static_cast<uint64_t>(search_space_->get_capacity())) {
+      throw std::runtime_error("The index is full, cannot insert more vectors");
+    }
+  }
+
   void validate_insert_item_id_available(const ScalarData &scalar_data) const {
     if constexpr (SearchSpaceType::has_scalar_data) {
       if (scalar_data.item_id.empty() || search_space_ == nullptr) {
@@ -716,6 +724,7 @@ class PyIndex : public BasePyIndex {
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
     validate_insert_item_id_available(scalar_data);
+    validate_capacity_available();
 
     // TODO(P2): RocksDB has its own internal WAL and the custom WAL must stay
     // in sync. If the process crashes between insert_nondurable (RocksDB write)
@@ -747,6 +756,7 @@ class PyIndex : public BasePyIndex {
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
+    validate_capacity_available();
 
     if (recovery_manager_ != nullptr) {
       auto op_id = next_recovery_op_id_++;
-- 
2.43.0


From 4ed52cc358d922d5afee9e35bc3212c9a76b9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 62/85] fix: removing an id the index never issued wrote
 outside its arrays

---
 python/include/index.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index e8eca25..0e40c49 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -775,6 +775,9 @@ class PyIndex : public BasePyIndex {
   }
 
   auto remove(IDType id) -> void {
+    if (search_space_ == nullptr || id >= search_space_->get_data_num()) {
+      throw std::runtime_error("id out of range");
+    }
     if (recovery_manager_ != nullptr) {
       auto op_id = next_recovery_op_id_++;
       recovery_manager_->append_prepare({op_id,
-- 
2.43.0


From 61a939f0c3831b3dad9a7af3bc6f4f2f593634f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 63/85] fix: a batch search with an invalid width or no threads
 answered with zeros

---
 python/include/index.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 0e40c49..aa24bb2 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -355,6 +355,16 @@ class PyIndex : public BasePyIndex {
     }
   }
 
+  // Errors inside the search coroutines do not reach the caller.
+  static void validate_batch_search_arguments(uint32_t topk, uint32_t ef, uint32_t num_threads) {
+    if (ef < topk) {
+      throw std::invalid_argument("ef must be >= topk");
+    }
+    if (num_threads == 0) {
+      throw std::invalid_argument("num_threads must be greater than 0");
+    }
+  }
+
   void validate_insert_item_id_available(const ScalarData &scalar_data) const {
     if constexpr (SearchSpaceType::has_scalar_data) {
       if (scalar_data.item_id.empty() || search_space_ == nullptr) {
@@ -1116,6 +1126,7 @@ class PyIndex : public BasePyIndex {
   auto batch_search(py::array_t<DataType> queries, uint32_t topk, uint32_t ef, uint32_t num_threads)
       -> py::array_t<IDType> {
     validate_vectors(queries);
+    validate_batch_search_arguments(topk, ef, num_threads);
     auto shape = queries.shape();
     size_t query_size = shape[0];
     size_t query_dim = shape[1];
@@ -1196,6 +1207,7 @@ class PyIndex : public BasePyIndex {
     }
 
     validate_vectors(queries);
+    validate_batch_search_arguments(topk, ef, num_threads);
     size_t query_size = queries.shape(0);
     size_t query_dim = queries.shape(1);
 
-- 
2.43.0


From 6f8c14c4e87f249cc801fe23924e99d1882862cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 64/85] fix: filters on boolean metadata never matched

---
 python/src/pybind.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/src/pybind.cpp b/python/src/pybind.cpp
index 852cff8..e8ca44a 100644
--- a/python/src/pybind.cpp
+++ b/python/src/pybind.cpp
@@ -39,6 +39,20 @@
 
 namespace py = pybind11;
 
+namespace pybind11::detail {
+// A Python bool is an int to pybind11, but metadata stores it as a bool: keep filter values apart too.
+template <>
+struct type_caster<alaya::MetadataValue> : variant_caster<alaya::MetadataValue> {
+  auto load(handle src, bool convert) -> bool {
+    if (src && PyBool_Check(src.ptr())) {
+      value = src.ptr() == Py_True;
+      return true;
+    }
+    return variant_caster<alaya::MetadataValue>::load(src, convert);
+  }
+};
+}  // namespace pybind11::detail
+
 PYBIND11_MODULE(_alayalitepy, m) {
   m.doc() = "AlayaLite";
 
-- 
2.43.0


From cf1464b105de36f02df0983f2134b40acdbfe30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 65/85] fix: "$or" beside other filter keys made every key an
 alternative

---
 python/src/alayalite/collection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 8f87de4..059c3cd 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -473,10 +473,14 @@ class Collection:
                     sub_filter = self._build_filter(sub_dict)
                     mf.add_sub_filter(sub_filter)
             elif key == "$or":
-                mf.logic_op = _LogicOp.OR
+                # Beside other keys the alternatives are one more condition, not the level's logic.
+                or_filter = mf if len(filter_dict) == 1 else _MetadataFilter()
+                or_filter.logic_op = _LogicOp.OR
                 for sub_dict in value:
                     sub_filter = self._build_filter(sub_dict)
-                    mf.add_sub_filter(sub_filter)
+                    or_filter.add_sub_filter(sub_filter)
+                if or_filter is not mf:
+                    mf.add_sub_filter(or_filter)
             elif isinstance(value, dict):
                 for op, op_value in value.items():
                     # TODO(review - filter DSL parity): expose `$ne`, `$not_in`, and `$contains`
-- 
2.43.0


From d4ff702b6238fc344e5c5c2a77aa222a20a6f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 66/85] fix: items without an id were accepted but could not be
 fetched or deleted

---
 python/src/alayalite/collection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 059c3cd..ef560c9 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -235,6 +235,12 @@ class Collection:
             "internal_id": list(ids),
         }
 
+    @staticmethod
+    def _validate_item_ids(items: List[tuple]) -> None:
+        for item in items:
+            # An item without an id could be neither fetched nor deleted.
+            _assert(item[0] is not None and str(item[0]) != "", "item_id must not be empty")
+
     def insert(self, items: List[tuple]):
         """
         Inserts multiple documents and their embeddings into the collection.
@@ -244,6 +250,7 @@ class Collection:
         """
         if not items:
             return
+        self._validate_item_ids(items)
 
         if self.__index_py is None:
             # First insert - initialize index with batch fit
@@ -305,6 +312,7 @@ class Collection:
         if self.__index_py is None:
             self.insert(items)
             return
+        self._validate_item_ids(items)
 
         cpp_index = self._get_cpp_index()
         for item_id, document, embedding, metadata in items:
-- 
2.43.0


From 5a4efa60d652b5395fbbaa5efbc707e5e91a7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 67/85] fix: delete_by_id hid every failure, so items were
 reported deleted that were not

---
 python/src/alayalite/collection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index ef560c9..3acecb8 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -334,10 +334,9 @@ class Collection:
             return
 
         for item_id in ids:
-            try:
+            # Missing items are skipped; a delete that fails is not.
+            if self.__cpp_index.contains(item_id):
                 self.__cpp_index.remove_by_item_id(item_id)
-            except RuntimeError:
-                pass  # item_id not found, skip
 
     def get_by_id(self, ids: List[str]) -> dict:
         """
-- 
2.43.0


From f83dd1d1ccdf6c7b7f058d5c378f7dbd66df56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 68/85] fix: metric names are accepted in any case but only
 lower-case cosine normalized vectors

---
 python/src/alayalite/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/alayalite/utils.py b/python/src/alayalite/utils.py
index fd5233b..808bba7 100644
--- a/python/src/alayalite/utils.py
+++ b/python/src/alayalite/utils.py
@@ -104,7 +104,7 @@ def md5(arr, chunk_size=1024 * 1024):
 
 def normalize_vectors_for_cosine_metric(vectors: np.ndarray, metric: Optional[str]) -> np.ndarray:
     """Normalize vectors only when cosine similarity is configured."""
-    if metric not in ("cos", "cosine"):
+    if metric is None or metric.lower() not in ("cos", "cosine"):
         return vectors
 
     if vectors.ndim == 1:
-- 
2.43.0


From 2d9723037e5294046915e39bab9c43c828b801da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 69/85] fix: a failing RocksDB checkpoint does not publish the
 snapshot and drop the log

RocksDBStorage::save() only logs a failure, and the snapshot that lacks its scalar
data was still made current, the write-ahead log truncated.
---
 include/recovery/recovery_manager.hpp | 6 +++---
 include/storage/rocksdb_storage.hpp   | 9 +++++++--
 python/include/index.hpp              | 5 ++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 340ef4c..41299b7 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -77,9 +77,9 @@ class RecoveryManager {
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
   // checkpoint are written, so a process crash before CURRENT is updated leaves the old snapshot
-  // active. Remaining risk: component writes are not durably staged as a unit, RocksDB checkpoint
-  // failures are not surfaced to the publisher, and there is no READY marker or checksum proving
-  // that every component reached stable storage before CURRENT is advanced.
+  // active. Remaining risk: component writes are not durably staged as a unit, and there is no READY
+  // marker or checksum proving that every component reached stable storage before CURRENT is
+  // advanced.
   /**
    * @brief Publishes a completed snapshot and makes it the recovery CURRENT target.
    *
diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index d0176dd..88bdf03 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -710,7 +710,11 @@ class RocksDBStorage {
     return stats;
   }
 
-  void save(const std::string &filepath) const {
+  /**
+   * @brief Write a checkpoint of the database to a new directory.
+   * @return Whether the checkpoint is complete; failures are logged.
+   */
+  auto save(const std::string &filepath) const -> bool {
     if (!read_only_) {
       flush();
     }
@@ -720,7 +724,7 @@ class RocksDBStorage {
     std::unique_ptr<rocksdb::Checkpoint> checkpoint(checkpoint_raw);
     if (!status.ok()) {
       LOG_ERROR("Failed to create checkpoint: {}", status.ToString());
-      return;
+      return false;
     }
 
     status = checkpoint->CreateCheckpoint(filepath);
@@ -728,6 +732,7 @@ class RocksDBStorage {
     if (!status.ok()) {
       LOG_ERROR("Failed to save checkpoint to {}: {}", filepath, status.ToString());
     }
+    return status.ok();
   }
 
  private:
diff --git a/python/include/index.hpp b/python/include/index.hpp
index aa24bb2..5e5549e 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -280,7 +280,10 @@ class PyIndex : public BasePyIndex {
     std::string rocksdb_dir;
     if (auto *storage = recovery_scalar_storage(); storage != nullptr) {
       rocksdb_dir = "rocksdb";
-      storage->save((snapshot_dir / rocksdb_dir).string());
+      if (!storage->save((snapshot_dir / rocksdb_dir).string())) {
+        throw std::runtime_error("Cannot checkpoint the scalar data to " +
+                                 (snapshot_dir / rocksdb_dir).string());
+      }
     }
 
     alaya::recovery::SnapshotManifest manifest;
-- 
2.43.0


From 4ae55409e9729461b34d7d415ed85ecabf19bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 70/85] fix: saving a space or graph reports a write that
 failed

A full disk left a truncated file behind a save that returned normally, and the
snapshot it belongs to was made current.
---
 include/index/graph/graph.hpp  | 4 ++++
 include/space/rabitq_space.hpp | 4 ++++
 include/space/raw_space.hpp    | 4 ++++
 include/space/sq4_space.hpp    | 4 ++++
 include/space/sq8_space.hpp    | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..e795100 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -185,6 +185,10 @@ struct Graph {
     if (overlay_graph_) {
       overlay_graph_->save(writer);
     }
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("Graph Saving done in {}\n", filename);
   }
 
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..cf2beb1 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -596,6 +596,10 @@ class RaBitQSpace {
 
     quantizer_->save(writer);
 
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("RaBitQSpace is successfully saved to {}.", filename);
   }
 
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 1561432..da745f2 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -411,6 +411,10 @@ class RawSpace {
     }
 
     data_storage_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("RawSpace is saved to {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 3f42f3f..58b4775 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -390,6 +390,10 @@ class SQ4Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is saved to {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 08b3a66..c78d0d9 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -390,6 +390,10 @@ class SQ8Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
+    if (!writer) {
+      throw std::runtime_error("Cannot write file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is saved to {}", filename);
   }
   /**
-- 
2.43.0


From 40c1f70744fc7296323469b45ec660e92a0bbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 71/85] fix: an update whose commit fails does not part memory
 from the log

After a failed write the update stays in memory without a COMMIT record: replaying
later updates gave their vectors other internal ids than were returned, and
removed others than were asked for. The next update now starts with a snapshot of
what is in memory.
---
 python/include/index.hpp | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 5e5549e..d9ec374 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -297,6 +297,32 @@ class PyIndex : public BasePyIndex {
     manifest.rocksdb_dir_ = rocksdb_dir;
 
     recovery_manager_->publish_snapshot(manifest, snapshot_dir);
+    recovery_log_behind_ = false;
+  }
+
+  /**
+   * @brief Reserves the id of the next logged mutation.
+   *
+   * A mutation that was applied in memory but could not be committed is missing from the log, and
+   * replaying later mutations without it would give other internal ids. A snapshot of what is in
+   * memory brings the two together again.
+   */
+  auto begin_recovery_op() -> uint64_t {
+    if (recovery_log_behind_) {
+      checkpoint_recovery_snapshot("failed_commit");
+    }
+    return next_recovery_op_id_++;
+  }
+
+  auto commit_recovery_op(uint64_t op_id, alaya::recovery::MutationType mutation_type) -> void {
+    last_committed_recovery_op_id_ = op_id;
+    last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+    try {
+      recovery_manager_->append_commit(op_id, mutation_type);
+    } catch (...) {
+      recovery_log_behind_ = true;
+      throw;
+    }
   }
 
   [[nodiscard]] auto encode_insert_like_payload(const DataType *data,
@@ -327,9 +353,13 @@ class PyIndex : public BasePyIndex {
     if (update_job_ == nullptr) {
       throw std::runtime_error("incremental updates are not supported for the current index type");
     }
-    auto inserted_id = update_job_->insert_and_update(data, ef, scalar_data);
     materialized_view_manager_.invalidate("insert");
-    return inserted_id;
+    try {
+      return update_job_->insert_and_update(data, ef, scalar_data);
+    } catch (...) {
+      recovery_log_behind_ = true;
+      throw;
+    }
   }
 
   // The native code walks vectors as packed rows, whatever strides the array came with.
@@ -744,15 +774,13 @@ class PyIndex : public BasePyIndex {
     // and append_commit, replay may cause duplicates. Consider idempotent
     // replay (check if item_id already exists) or a unified WAL.
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
+      auto op_id = begin_recovery_op();
       recovery_manager_->append_prepare(
           {op_id,
            alaya::recovery::MutationType::kInsert,
            encode_insert_like_payload(insert_data_ptr, ef, scalar_data)});
       auto inserted_id = insert_nondurable(insert_data_ptr, ef, &scalar_data);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kInsert);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      commit_recovery_op(op_id, alaya::recovery::MutationType::kInsert);
       return inserted_id;
     }
 
@@ -772,15 +800,13 @@ class PyIndex : public BasePyIndex {
     validate_capacity_available();
 
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
+      auto op_id = begin_recovery_op();
       recovery_manager_->append_prepare(
           {op_id,
            alaya::recovery::MutationType::kUpsert,
            encode_insert_like_payload(insert_data_ptr, ef, scalar_data)});
       auto upserted_id = upsert_nondurable(insert_data_ptr, ef, scalar_data);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kUpsert);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      commit_recovery_op(op_id, alaya::recovery::MutationType::kUpsert);
       return upserted_id;
     }
 
@@ -792,14 +818,12 @@ class PyIndex : public BasePyIndex {
       throw std::runtime_error("id out of range");
     }
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
+      auto op_id = begin_recovery_op();
       recovery_manager_->append_prepare({op_id,
                                          alaya::recovery::MutationType::kRemoveByInternalId,
                                          encode_remove_internal_payload(id)});
       remove_nondurable(id);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kRemoveByInternalId);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      commit_recovery_op(op_id, alaya::recovery::MutationType::kRemoveByInternalId);
       return;
     }
     remove_nondurable(id);
@@ -807,14 +831,12 @@ class PyIndex : public BasePyIndex {
 
   auto remove(const std::string &item_id) -> void {
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
+      auto op_id = begin_recovery_op();
       recovery_manager_->append_prepare({op_id,
                                          alaya::recovery::MutationType::kRemoveByItemId,
                                          encode_remove_item_payload(item_id)});
       remove_nondurable(item_id);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kRemoveByItemId);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      commit_recovery_op(op_id, alaya::recovery::MutationType::kRemoveByItemId);
       return;
     }
     remove_nondurable(item_id);
@@ -1417,6 +1439,7 @@ class PyIndex : public BasePyIndex {
   std::unique_ptr<alaya::recovery::RecoveryManager> recovery_manager_{nullptr};
   uint64_t next_recovery_op_id_{1};
   uint64_t last_committed_recovery_op_id_{0};
+  bool recovery_log_behind_{false};  ///< Memory may hold what the log does not.
   uint64_t last_seen_recovery_op_id_{0};
 };
 
-- 
2.43.0


From 60d49c1f7e09ecc91af55c1b37eebfd25bb67c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 72/85] fix: a collection whose schema could not be written is
 lost although later inserts succeed

---
 python/src/alayalite/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 3acecb8..bf04638 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -54,6 +54,7 @@ class Collection:
             self.__index_params.rocksdb_path = _default_rocksdb_path(name)
         self.__index_py: Optional[Index] = None
         self.__cpp_index: Optional[_PyIndexInterface] = None
+        self.__schema_missing = False
 
     def get_cpp_index(self) -> _PyIndexInterface:
         """
@@ -93,6 +94,7 @@ class Collection:
             os.path.join(collection_dir, "schema.json"),
             {"type": "collection", "index": self.__index_params.to_json_dict()},
         )
+        self.__schema_missing = False
 
     def batch_query(
         self,
@@ -287,8 +289,11 @@ class Collection:
             )
             self.__index_py = index
             self.__cpp_index = self.__index_py.get_cpp_index()
+            self.__schema_missing = True
             self._maybe_persist_schema_for_recovery()
         else:
+            if self.__schema_missing:
+                self._maybe_persist_schema_for_recovery()
             # Incremental insert with scalar data
             cpp_index = self._get_cpp_index()
             for item_id, document, embedding, metadata in items:
@@ -313,6 +318,8 @@ class Collection:
             self.insert(items)
             return
         self._validate_item_ids(items)
+        if self.__schema_missing:
+            self._maybe_persist_schema_for_recovery()
 
         cpp_index = self._get_cpp_index()
         for item_id, document, embedding, metadata in items:
-- 
2.43.0


From cf47f7b377397b0d3a3c0ab1fe8abab9fa406e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 73/85] fix: after a failed reindex deletes report success
 without deleting anything

---
 python/src/alayalite/collection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index bf04638..4b9d5fb 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -337,13 +337,14 @@ class Collection:
         """
         Deletes documents from the collection by their item IDs.
         """
-        if not ids or self.__cpp_index is None:
+        if not ids or self.__index_py is None:
             return
 
+        cpp_index = self._get_cpp_index()
         for item_id in ids:
             # Missing items are skipped; a delete that fails is not.
-            if self.__cpp_index.contains(item_id):
-                self.__cpp_index.remove_by_item_id(item_id)
+            if cpp_index.contains(item_id):
+                cpp_index.remove_by_item_id(item_id)
 
     def get_by_id(self, ids: List[str]) -> dict:
         """
@@ -351,12 +352,13 @@ class Collection:
         """
         results = {"id": [], "document": [], "metadata": []}
 
-        if not ids or self.__cpp_index is None:
+        if not ids or self.__index_py is None:
             return results
 
+        cpp_index = self._get_cpp_index()
         for item_id in ids:
             try:
-                scalar = self.__cpp_index.get_scalar_data_by_item_id(item_id)
+                scalar = cpp_index.get_scalar_data_by_item_id(item_id)
                 results["id"].append(scalar.get("item_id", ""))
                 results["document"].append(scalar.get("document", ""))
                 results["metadata"].append(scalar.get("metadata", {}))
-- 
2.43.0


From ae9ddda500bd89c02cb7205f3fc54a2226846b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 74/85] fix: a reindex stopped before the log is truncated
 leaves a collection that does not open

The snapshot of the rebuilt index claimed to cover no logged update, so what the
log still held was replayed on top of it.
---
 python/include/index.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index d9ec374..07c0d34 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -753,6 +753,8 @@ class PyIndex : public BasePyIndex {
                                        build_space_,
                                        materialized_view_ef_construction,
                                        materialized_view_build_threads);
+    // The new contents replace whatever the log still holds.
+    last_committed_recovery_op_id_ = last_seen_recovery_op_id_;
     checkpoint_recovery_snapshot("post_fit");
     LOG_DEBUG("Create task generator successfully!");
   }
-- 
2.43.0


From 6d8594a705259f4ff483cd427ec49dae16936d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 75/85] fix: LASER factors are NaN for a neighbour that equals
 the node

---
 include/index/graph/laser/quantization/rabitq.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/index/graph/laser/quantization/rabitq.hpp b/include/index/graph/laser/quantization/rabitq.hpp
index 93caa06..44eb62d 100644
--- a/include/index/graph/laser/quantization/rabitq.hpp
+++ b/include/index/graph/laser/quantization/rabitq.hpp
@@ -115,6 +115,13 @@ static inline void rabitq_factors(const RowMatrix<float> &rotated_data_residual,
     double cur_x = x_rotated_norm(j, 0);  // current dist 2 centroid
     double cur_x0 = fac_x0(j, 0);         // current <o, o_bar>
     double cur_x1 = fac_x1(j, 0);         // current <c, o_bar>
+    if (cur_x == 0) {
+      // A neighbor equal to the centroid is exactly at the centroid's distance.
+      triple_x[j] = 0;
+      factor_dq[j] = 0;
+      factor_vq[j] = 0;
+      continue;
+    }
     long double x_x0 = static_cast<long double>(cur_x) / cur_x0;
 
     triple_x[j] = static_cast<float>((cur_x * cur_x) + (2 * x_x0 * cur_x1));
-- 
2.43.0


From 1d71dcb411f72eb5ce27457b4e1cedd3efdb4d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 76/85] fix: LASER nodes with few or no links lose their vector
 or flood the candidate pool

---
 include/index/graph/laser/qg/qg.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 7aec188..55445d7 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -761,9 +761,6 @@ inline void QuantizedGraph::update_qg_out_of_memory(
     ThreadData thread_data) {
   size_t cur_degree = new_neighbors.size();
   std::memset(thread_data.cur_page_scratch_, 0, page_size_);
-  if (cur_degree == 0) {
-    return;
-  }
   char *vector_buf = thread_data.neighbor_vector_scratch_;
   char *page_buf = thread_data.cur_page_scratch_;
 
@@ -805,6 +802,12 @@ inline void QuantizedGraph::update_qg_out_of_memory(
   for (size_t i = 0; i < cur_degree; ++i) {
     neighbor_ptr[i] = new_neighbors[i].id;
   }
+  // Searches scan all degree_bound_ slots. Unused ones point back at this node, which a
+  // search has visited by then, so that they never enter the candidate pool.
+  std::fill(neighbor_ptr + cur_degree, neighbor_ptr + degree_bound_, cur_id);
+  if (cur_degree == 0) {
+    return;
+  }
 
   /* Copy data */
   for (size_t i = 0; i < cur_degree; ++i) {
-- 
2.43.0


From b888b6e4db77883c7dc188d18753557e89f57e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 77/85] fix: LASER search drops the candidates of the last
 nodes it reads

---
 include/index/graph/laser/qg/qg.hpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 55445d7..2acaf2c 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -557,7 +557,8 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Main Search Loop ====================
   // Iteratively expand search frontier until no more candidates remain.
   // Uses beam search with adaptive width and pipelined I/O processing.
-  while (data.search_pool_.has_next()) {
+  // Nodes still in flight from the previous iteration may add candidates of their own.
+  while (data.search_pool_.has_next() || previous_remain_num > 0) {
     frontier_read_reqs.clear();
     cache_nhoods.clear();
     size_t n_ops = 0;
@@ -650,22 +651,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     }
   }
 
-  // ==================== Process Remaining Nodes ====================
-  // After the main loop exits, there may still be nodes in the pipeline
-  // that haven't been processed yet. Drain the remaining nodes.
-  while (previous_remain_num > 0) {
-    if (!prepared_nodes.empty()) {
-      auto node = prepared_nodes.front();
-      prepared_nodes.pop_front();
-      process_node(node.first, reinterpret_cast<float *>(node.second + offset_to_node(node.first)));
-      previous_remain_num--;
-      free_slots.push_back(node.second);
-    } else {
-      // Wait for any remaining in-flight I/O operations to complete
-      wait_for_nodes();
-    }
-  }
-
   // Record query end time for latency measurement
   auto query_end = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 24a2646dabcf421f91cd231dedd86bd097a42388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 78/85] fix: LASER searches that find fewer than k vectors
 report id 0 for the missing ones

---
 include/index/disk/laser_segment_searcher.hpp | 3 +++
 include/index/graph/laser/utils/buffer.hpp    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index 457e5cf..4981eb4 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -333,6 +333,9 @@ class LaserSegmentSearcher : public SegmentSearcher {
     std::vector<DiskSearchHit> out;
     out.reserve(effective_top_k);
     for (uint32_t pid : pid_buf) {
+      if (pid == alaya::laser::kPidMax) {
+        break;  // fewer results than requested
+      }
       if (pid >= manifest_.count) {
         throw std::runtime_error("LaserSegmentSearcher: QuantizedGraph returned PID " +
                                  std::to_string(pid) + " outside segment count " +
diff --git a/include/index/graph/laser/utils/buffer.hpp b/include/index/graph/laser/utils/buffer.hpp
index de305be..78cadb6 100644
--- a/include/index/graph/laser/utils/buffer.hpp
+++ b/include/index/graph/laser/utils/buffer.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <set>
 #include <vector>
@@ -122,7 +123,11 @@ class ResultBuffer {
 
   const std::vector<PID, memory::AlignedAllocator<PID>> &ids() { return ids_; }
 
-  void copy_results(PID *knn) const { std::copy(ids_.begin(), ids_.end() - 1, knn); }
+  // Slots beyond the results found are set to kPidMax.
+  void copy_results(PID *knn) const {
+    std::copy(ids_.begin(), ids_.begin() + static_cast<std::ptrdiff_t>(size_), knn);
+    std::fill(knn + size_, knn + capacity_, kPidMax);
+  }
 
  private:
   std::vector<PID, memory::AlignedAllocator<PID>> ids_;
-- 
2.43.0


From fe04c5d8356e2c245552627f060b0e2685281ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 79/85] fix: LASER searches use pages that were not read and
 lose their workspace on errors

---
 include/index/graph/laser/qg/qg.hpp | 38 +++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 2acaf2c..f0b3bba 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <cstring>
 #include <deque>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iomanip>
@@ -357,10 +358,20 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
                                          size_t num_queries) {
   const int64_t num_queries_signed = static_cast<int64_t>(num_queries);
   const int nthreads_signed = static_cast<int>(nthreads_);
+  // A search that fails must not escape the parallel region; it is rethrown below.
+  std::exception_ptr search_error;
 #pragma omp parallel for schedule(dynamic) num_threads(nthreads_signed)
   for (int64_t ii = 0; ii < num_queries_signed; ++ii) {
     const size_t i = static_cast<size_t>(ii);
-    disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    try {
+      disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    } catch (...) {
+#pragma omp critical
+      search_error = std::current_exception();
+    }
+  }
+  if (search_error) {
+    std::rethrow_exception(search_error);
   }
 }
 
@@ -409,6 +420,15 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     this->thread_data_.wait_for_push_notify();
     data = thread_data_.pop();
   }
+  // The workspace goes back to the queue however this search ends.
+  struct GiveBack {
+    ConcurrentQueue<ThreadData> &queue;
+    ThreadData &data;
+    ~GiveBack() {
+      queue.push(data);
+      queue.push_notify_all();
+    }
+  } give_back{thread_data_, data};
   data.visited_.clear();
   data.search_pool_.clear();
 
@@ -542,6 +562,18 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
             "disk_search_qg: I/O completion id not in ongoing_nodes "
             "(AlignedFileReader::poll_events returned an unexpected id)");
       }
+      if (evts[i].result != static_cast<int64_t>(page_size_)) {
+        // Let the other reads into this workspace finish before giving it up.
+        const std::string error = "disk_search_qg: read of node " + std::to_string(evts[i].id) +
+                                  " returned " + std::to_string(evts[i].result) + " of " +
+                                  std::to_string(page_size_) + " bytes";
+        size_t in_flight = ongoing_nodes.size() - static_cast<size_t>(ret - i);
+        while (in_flight > 0) {
+          in_flight -= static_cast<size_t>(aligned_file_reader_->poll_events(
+              data.ctx_, static_cast<int>(std::min<size_t>(in_flight, MAX_EVENTS)), evts));
+        }
+        throw std::runtime_error(error);
+      }
       // Move from ongoing to prepared queue
       prepared_nodes.emplace_back(id, ongoing_nodes[id]);
       ongoing_nodes.erase(id);
@@ -660,10 +692,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Copy Results and Cleanup ====================
   // Copy the k nearest neighbor IDs from result pool to output array
   res_pool.copy_results(results);
-
-  // Return thread-local data to the concurrent queue for reuse by other threads
-  thread_data_.push(data);
-  thread_data_.push_notify_all();
 }
 
 // scan a data row (including data vec and quantization codes for its neighbors)
-- 
2.43.0


From 7fb60695cd07b91c8d67216c60bb7ab856c785ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 80/85] fix: LASER searches with a beam width or thread count
 of 0 never return

---
 include/index/graph/laser/qg/qg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index f0b3bba..1d11560 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -312,6 +312,10 @@ inline QuantizedGraph::QuantizedGraph(size_t num,
 inline QuantizedGraph::~QuantizedGraph() { destroy_thread_data(); }
 
 inline void QuantizedGraph::set_params(size_t ef_search, size_t num_threads, int beam_width) {
+  if (num_threads == 0 || beam_width < 1) {
+    throw std::invalid_argument(
+        "QuantizedGraph::set_params: num_threads and beam_width must be at least 1");
+  }
   this->nthreads_ = num_threads;
   this->max_beam_width_ = beam_width;
   this->ef_search_ = ef_search;
-- 
2.43.0


From 78d0365a4e722e336febb8fd60ff1afef66c7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 81/85] fix: damaged LASER files are loaded as if they were
 whole

---
 include/index/graph/laser/qg/qg.hpp           | 80 ++++++++++++++-----
 .../index/graph/laser/utils/pca_transform.hpp | 18 ++++-
 2 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 1d11560..d301de7 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -873,23 +873,30 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
                              index_file_name_);
   }
   std::ifstream input(index_file_name_, std::ios::binary);
-  assert(input.is_open());
 
   std::vector<uint64_t> metas(kSectorLen / sizeof(uint64_t), 0);
   input.read(reinterpret_cast<char *>(metas.data()), kSectorLen);
 
-  assert(metas[0] == num_points_);
-  assert(metas[1] == dimension_);
-  assert(metas[3] == node_len_);
-  assert(metas[4] == node_per_page_);
-  assert(metas[8] == std::filesystem::file_size(index_file_name_));
+  const size_t page_num = (num_points_ + node_per_page_ - 1) / node_per_page_;
+  const size_t index_size = kSectorLen + page_num * page_size_;
+  if (!input || metas[0] != num_points_ || metas[1] != dimension_ || metas[2] >= num_points_ ||
+      metas[3] != node_len_ || metas[4] != node_per_page_ || metas[8] != index_size ||
+      std::filesystem::file_size(index_file_name_) != index_size) {
+    throw std::runtime_error(
+        "QuantizedGraph::load_disk_index: file is damaged or belongs to an index of another "
+        "shape: " +
+        index_file_name_);
+  }
 
   entry_point_ = metas[2];
 
   std::string rotator_path = std::string(index_file_name_) + "_rotator";
   std::ifstream rotator_input(rotator_path, std::ios::binary);
-  assert(rotator_input.is_open());
   rotator_.load(rotator_input);
+  if (!rotator_input || rotator_input.peek() != std::ifstream::traits_type::eof()) {
+    throw std::runtime_error("QuantizedGraph::load_disk_index: rotator file has the wrong size: " +
+                             rotator_path);
+  }
 
   init_workspace();
 
@@ -898,7 +905,11 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   // Load PCA parameters for online query transformation
   std::string pca_path = std::string(filename) + "_pca.bin";
   if (std::filesystem::exists(pca_path)) {
-    pca_transform_.load(pca_path);
+    if (!pca_transform_.load(pca_path) ||
+        pca_transform_.dimension() != dimension_ + residual_dimension_) {
+      throw std::runtime_error("QuantizedGraph::load_disk_index: PCA file does not fit: " +
+                               pca_path);
+    }
   } else {
     std::cerr << "Warning: PCA file not found: " << pca_path << std::endl;
   }
@@ -929,19 +940,31 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   }
 
   std::ifstream medoid_input(medoids_indices_file, std::ios::binary);
-  assert(medoid_input.is_open());
-  int medoid_num;
-  int tmp;
+  int medoid_num = 0;
+  int tmp = 0;
   medoid_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   medoid_input.read(reinterpret_cast<char *>(&tmp), sizeof(int));
-  medoids_.resize(static_cast<uint64_t>(medoid_num) * static_cast<uint64_t>(tmp));
+  const size_t indices_num = static_cast<size_t>(medoid_num) * static_cast<size_t>(tmp);
+  if (!medoid_input || medoid_num < 0 || tmp < 0 ||
+      std::filesystem::file_size(medoids_indices_file) !=
+          2 * sizeof(int) + indices_num * sizeof(int)) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: indices file has the wrong size: " +
+                             medoids_indices_file);
+  }
+  medoids_.resize(indices_num);
   medoid_input.read(reinterpret_cast<char *>(medoids_.data()),
-                    static_cast<std::streamsize>(sizeof(int) * medoid_num * tmp));
+                    static_cast<std::streamsize>(sizeof(int) * indices_num));
   medoid_input.close();
+  for (PID medoid : medoids_) {
+    if (medoid >= num_points_) {
+      throw std::runtime_error("QuantizedGraph::load_medoids: medoid id out of range in " +
+                               medoids_indices_file);
+    }
+  }
 
   std::ifstream mediod_vector_input(medoids_file, std::ios::binary);
-  assert(mediod_vector_input.is_open());
   int dim = 0;
+  medoid_num = 0;
   mediod_vector_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   mediod_vector_input.read(reinterpret_cast<char *>(&dim), sizeof(int));
   if (medoid_num != static_cast<int>(medoids_.size())) {
@@ -956,6 +979,10 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   mediod_vector_input.read(reinterpret_cast<char *>(medoids_vector_.data()),
                            static_cast<std::streamsize>(sizeof(float) * medoid_num *
                                                         (dimension_ + residual_dimension_)));
+  if (!mediod_vector_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: vectors file is truncated: " +
+                             medoids_file);
+  }
   mediod_vector_input.close();
 }
 
@@ -964,20 +991,31 @@ inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
                                        size_t online_cache_num) {
   std::ifstream cache_ids_input(cache_ids_file, std::ios::binary);
   std::ifstream cache_vectors_input(cache_nodes_file, std::ios::binary);
-  assert(cache_ids_input.is_open());
-  assert(cache_vectors_input.is_open());
-  size_t cache_ids_num;
-  size_t cache_nodes_num;
-  size_t tmp_node_len;
+  size_t cache_ids_num = 0;
+  size_t cache_nodes_num = 0;
+  size_t tmp_node_len = 0;
   cache_ids_input.read(reinterpret_cast<char *>(&cache_ids_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&cache_nodes_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&tmp_node_len), sizeof(size_t));
-  online_cache_num = std::min(online_cache_num, std::min(cache_ids_num, cache_nodes_num));
+  if (!cache_ids_input || !cache_vectors_input || cache_ids_num > num_points_ ||
+      cache_ids_num != cache_nodes_num || tmp_node_len != node_len_ ||
+      std::filesystem::file_size(cache_ids_file) != sizeof(size_t) + cache_ids_num * sizeof(PID) ||
+      std::filesystem::file_size(cache_nodes_file) !=
+          2 * sizeof(size_t) + cache_nodes_num * node_len_) {
+    throw std::runtime_error("QuantizedGraph::load_cache: cache files do not fit the index: " +
+                             cache_ids_file);
+  }
+  online_cache_num = std::min(online_cache_num, cache_ids_num);
   std::cout << "online_cache_num: " << online_cache_num << std::endl;
   cache_ids_.resize(online_cache_num);
   cache_ids_input.read(reinterpret_cast<char *>(cache_ids_.data()),
                        static_cast<std::streamsize>(sizeof(PID) * online_cache_num));
-  assert(tmp_node_len == node_len_);
+  for (PID cached : cache_ids_) {
+    if (cached >= num_points_) {
+      throw std::runtime_error("QuantizedGraph::load_cache: cached id out of range in " +
+                               cache_ids_file);
+    }
+  }
   cache_nodes_.resize(online_cache_num * node_len_);
   cache_vectors_input.read(reinterpret_cast<char *>(cache_nodes_.data()),
                            static_cast<std::streamsize>(sizeof(char) * online_cache_num *
diff --git a/include/index/graph/laser/utils/pca_transform.hpp b/include/index/graph/laser/utils/pca_transform.hpp
index 389a2c5..79160bf 100644
--- a/include/index/graph/laser/utils/pca_transform.hpp
+++ b/include/index/graph/laser/utils/pca_transform.hpp
@@ -101,8 +101,16 @@ class PCATransform {
     }
 
     // Read dimension
-    uint64_t dim;
+    uint64_t dim = 0;
     input.read(reinterpret_cast<char *>(&dim), sizeof(uint64_t));
+    input.seekg(0, std::ios::end);
+    const auto file_size = static_cast<uint64_t>(input.tellg());
+    if (!input || dim == 0 || dim > file_size ||
+        file_size != sizeof(uint64_t) + sizeof(float) * (dim + dim * dim)) {
+      std::cerr << "PCATransform: File has the wrong size " << filename << std::endl;
+      return false;
+    }
+    input.seekg(sizeof(uint64_t), std::ios::beg);
     input_dim_ = static_cast<size_t>(dim);
     output_dim_ = input_dim_;  // Orthogonal transformation
 
@@ -118,6 +126,10 @@ class PCATransform {
     input.read(reinterpret_cast<char *>(pca_matrix_.data()),
                static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
+    if (!input) {
+      std::cerr << "PCATransform: Cannot read file " << filename << std::endl;
+      return false;
+    }
     input.close();
     loaded_ = true;
 
@@ -150,6 +162,10 @@ class PCATransform {
                  static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
     output.close();
+    if (!output) {
+      std::cerr << "PCATransform: Cannot write file " << filename << std::endl;
+      return false;
+    }
     return true;
   }
 
-- 
2.43.0


From 7d1b60c024ba694935db5fc867a74a2ecdbb843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 82/85] fix: a refused LASER import blocks every later import

---
 include/index/disk/segment_factory.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/segment_factory.hpp b/include/index/disk/segment_factory.hpp
index 4093a8a..1577236 100644
--- a/include/index/disk/segment_factory.hpp
+++ b/include/index/disk/segment_factory.hpp
@@ -287,7 +287,14 @@ inline auto laser_import_params_from_manifest(const CollectionManifest &manifest
                                 col_manifest.metric,
                                 params);
   (void)importer.import_from(src_dir, labels, n_rows, seg_dir);
-  searcher = std::make_shared<LaserSegmentSearcher>(seg_dir);
+  try {
+    searcher = std::make_shared<LaserSegmentSearcher>(seg_dir);
+  } catch (...) {
+    // The artifacts do not open: withdraw the segment, so that its id can be used again.
+    std::error_code ec;
+    std::filesystem::remove_all(seg_dir, ec);
+    throw;
+  }
 #else
   detail::throw_unsupported_engine(col_manifest.index_type);
 #endif
-- 
2.43.0


From d0ed4628880b29d21242f97002237bf8c2e196b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 83/85] fix: LASER builds accept graphs and vectors that do not
 fit and lose failed writes

---
 include/index/graph/laser/qg/qg_builder.hpp | 45 +++++++++++++++------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 4484b6b..0937bae 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -11,12 +11,15 @@
 #include <cstdlib>
 #include <cstring>
 #include <exception>
+#include <fstream>
 #include <functional>
 #include <iomanip>
 #include <iostream>
 #include <mutex>
 #include <numeric>
 #include <random>
+#include <stdexcept>
+#include <string>
 #include <unordered_set>
 #include <utility>
 #include <vector>
@@ -90,6 +93,12 @@ class QGBuilder {
   std::vector<HashBasedBooleanSet> visited_list_;
   std::vector<uint32_t> degrees_;
   std::function<void(PID, const char *, size_t)> node_payload_observer_;
+  static void close_checked(std::ofstream &output, const std::string &path) {
+    output.close();
+    if (!output) {
+      throw std::runtime_error("QGBuilder: cannot write " + path);
+    }
+  }
   void random_init();
   void init_from_vamana(const std::string &filename);
   void search_new_neighbors(bool refine);
@@ -176,7 +185,6 @@ class QGBuilder {
     std::string tmp_path = std::string(filename) + "_tmp.fbin";
 
     std::ofstream output(index_path, std::ios::binary);
-    assert(output.is_open());
 
     // ==================== Write Index Header (Metadata Sector) ====================
     // The first sector (4KB) stores index metadata for validation during loading.
@@ -196,13 +204,17 @@ class QGBuilder {
     // ==================== PHASE 1: Create Sector-Aligned Temporary Vector File
     // ==================== Why sector alignment? Linux O_DIRECT requires 4KB-aligned reads.
     std::ofstream tmp_output(tmp_path, std::ios::binary);
-    assert(tmp_output.is_open());
 
     std::ifstream vector_input(data_path, std::ios::binary);
-    int n, d;
+    int n = 0;
+    int d = 0;
     vector_input.read(reinterpret_cast<char *>(&n), sizeof(int));
     vector_input.read(reinterpret_cast<char *>(&d), sizeof(int));
-    assert(d == (qg_.dimension_ + qg_.residual_dimension_));
+    if (!vector_input || n < 0 || static_cast<size_t>(n) != qg_.num_points_ ||
+        static_cast<size_t>(d) != qg_.dimension_ + qg_.residual_dimension_) {
+      throw std::runtime_error("QGBuilder: vector file is missing or has another shape: " +
+                               data_path);
+    }
 
     // Round up vector size to sector boundary for O_DIRECT compatibility
     size_t vector_tmp_page_size = (d * sizeof(float) + kSectorLen - 1) / kSectorLen * kSectorLen;
@@ -234,8 +246,11 @@ class QGBuilder {
       tmp_output.write(buffer.data(), static_cast<std::streamsize>(vector_tmp_page_size));
     }
 
+    if (!vector_input) {
+      throw std::runtime_error("QGBuilder: vector file is truncated: " + data_path);
+    }
     vector_input.close();
-    tmp_output.close();
+    close_checked(tmp_output, tmp_path);
 
     // ==================== PHASE 2: Parallel Out-of-Core Index Construction ====================
     // Open the aligned vector file for direct I/O (bypasses page cache)
@@ -350,18 +365,17 @@ class QGBuilder {
     }
     vector_reader->deregister_all_threads();
     vector_reader->close();
-    output.close();
     if (update_error) {
       std::rethrow_exception(update_error);
     }
+    close_checked(output, index_path);
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
     std::string rotator_path = index_path + "_rotator";
     std::ofstream rotator_output(rotator_path, std::ios::binary);
-    assert(rotator_output.is_open());
     qg_.rotator_.save(rotator_output);
-    rotator_output.close();
+    close_checked(rotator_output, rotator_path);
 
     // ==================== Cleanup Temporary File ====================
     // The sector-aligned temporary file is no longer needed
@@ -388,11 +402,10 @@ class QGBuilder {
     cache_ids_output.write(reinterpret_cast<const char *>(&cache_num), sizeof(size_t));
     cache_ids_output.write(reinterpret_cast<const char *>(qg_.cache_ids_.data()),
                            static_cast<std::streamsize>(sizeof(PID) * cache_num));
-    cache_ids_output.close();
+    close_checked(cache_ids_output, cache_ids_file);
 
     // Write cache node data (extracted from the completed index)
     std::ofstream cache_vectors_output(cache_nodes_file, std::ios::binary);
-    assert(cache_vectors_output.is_open());
     cache_vectors_output.write(reinterpret_cast<const char *>(&cache_num), sizeof(size_t));
     cache_vectors_output.write(reinterpret_cast<const char *>(&qg_.node_len_), sizeof(size_t));
 
@@ -428,10 +441,10 @@ class QGBuilder {
                                    static_cast<std::streamsize>(sizeof(char) * qg_.node_len_));
       }
     }
-    cache_vectors_output.close();
     cache_reader->deregister_all_threads();
     cache_reader->close();
     memory::align_free(cache_buffer);
+    close_checked(cache_vectors_output, cache_nodes_file);
     std::cout << "Done. \n";
   }
 };
@@ -474,6 +487,9 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
     uint32_t k;
     in.read(reinterpret_cast<char *>(&k), sizeof(uint32_t));
 
+    if (nodes_read == num_nodes_ || k > degree_bound_) {
+      throw std::runtime_error("QGBuilder: graph does not fit the index: " + filename);
+    }
     if (k == 0) {
       std::cerr << "ERROR: Point found with no out-neighbours, point#" << nodes_read << std::endl;
     }
@@ -486,6 +502,9 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
             static_cast<std::streamsize>(k * sizeof(uint32_t)));
 
     for (PID cur_neigh : tmp) {
+      if (cur_neigh >= num_nodes_) {
+        throw std::runtime_error("QGBuilder: graph links to an unknown node: " + filename);
+      }
       in_degrees[cur_neigh]++;
       new_neighbors_[nodes_read - 1].emplace_back(cur_neigh,
                                                   0.0);  // Distance will be computed later in
@@ -511,7 +530,9 @@ inline void QGBuilder::init_from_vamana(const std::string &filename) {
 
   std::cout << "done. Index has " << nodes_read << " nodes and " << cc
             << " out-edges, _start is set to " << start << std::endl;
-  assert(nodes_read == num_nodes_);
+  if (nodes_read != num_nodes_ || start >= num_nodes_) {
+    throw std::runtime_error("QGBuilder: graph does not fit the index: " + filename);
+  }
 }
 
 }  // namespace alaya::laser
-- 
2.43.0


From ffe3b64475544d87a215503638a0b91596b558ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 84/85] fix: an imported LASER segment can lose its files in a
 power failure

The importer copied or linked the native artifacts without syncing them, and then
published a synced manifest that names them. After a power failure the collection
could not be opened any more.
---
 include/index/disk/laser_segment_importer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/index/disk/laser_segment_importer.hpp b/include/index/disk/laser_segment_importer.hpp
index 3bd273d..9f5c3eb 100644
--- a/include/index/disk/laser_segment_importer.hpp
+++ b/include/index/disk/laser_segment_importer.hpp
@@ -172,6 +172,8 @@ inline auto copy_or_link_artifact(const std::filesystem::path &src,
     throw std::runtime_error("LaserSegmentImporter: artifact publish failed: " + src.string() +
                              " -> " + dst.string() + ": " + ec.message());
   }
+  // The manifest that will name this file is durable, so the file has to be as well.
+  ::alaya::platform::sync_file_or_throw(dst);
 }
 
 inline auto make_tmp_dir(const std::filesystem::path &parent, const std::string &seg_basename)
-- 
2.43.0


From d6d913f38f050cdd36c23656145fbac6037223b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 85/85] fix: sync a flat segment's directory before publishing
 it

---
 include/index/disk/disk_flat_builder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/index/disk/disk_flat_builder.hpp b/include/index/disk/disk_flat_builder.hpp
index 4257e6e..b486dfc 100644
--- a/include/index/disk/disk_flat_builder.hpp
+++ b/include/index/disk/disk_flat_builder.hpp
@@ -252,6 +252,7 @@ class DiskFlatBuilder {
     manifest.vectors_file = "vectors.f32.bin";
     manifest.save(tmp_dir / "manifest.txt");
 
+    detail::fsync_dir(tmp_dir);
     detail::rename_no_replace(tmp_dir, segment_dir);
     guard.disarm();
     // The segment is now published — mark builder closed BEFORE the parent
-- 
2.43.0

