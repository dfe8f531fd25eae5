From 560ba7911134b1d3a9cab2445c3110df2b6b0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 01/24] Verification hooks: tunable thresholds and pluggable
 scheduler under PARLAY_VERIF

---
 include/parlay/internal/binary_search.h       |  4 ++++
 include/parlay/internal/block_allocator.h     |  4 ++++
 include/parlay/internal/block_delayed.h       |  4 ++++
 include/parlay/internal/bucket_sort.h         |  8 +++++++
 include/parlay/internal/collect_reduce.h      | 21 +++++++++++++++++++
 include/parlay/internal/counting_sort.h       | 12 +++++++++++
 include/parlay/internal/delayed/common.h      |  4 ++++
 include/parlay/internal/integer_sort.h        | 16 ++++++++++++++
 include/parlay/internal/merge.h               |  4 ++++
 include/parlay/internal/merge_sort.h          |  4 ++++
 include/parlay/internal/pool_allocator.h      |  4 ++++
 include/parlay/internal/quicksort.h           |  8 +++++++
 include/parlay/internal/sample_sort.h         |  4 ++++
 include/parlay/internal/sequence_ops.h        |  4 ++++
 include/parlay/internal/transpose.h           | 12 +++++++++++
 include/parlay/internal/work_stealing_deque.h |  4 ++++
 include/parlay/parallel.h                     |  6 +++++-
 include/parlay/primitives.h                   | 21 +++++++++++++++++++
 include/parlay/random.h                       |  4 ++++
 19 files changed, 147 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/binary_search.h b/include/parlay/internal/binary_search.h
index e73a1b1..eac1cd0 100644
--- a/include/parlay/internal/binary_search.h
+++ b/include/parlay/internal/binary_search.h
@@ -8,7 +8,11 @@ namespace parlay {
 namespace internal {
   
 // the following parameter can be tuned
+#ifdef PARLAY_VERIF
+constexpr const size_t _binary_search_base = PARLAY_VERIF_BINARY_SEARCH_BASE;
+#else
 constexpr const size_t _binary_search_base = 16;
+#endif
 
 template <typename Seq, typename F>
 size_t linear_search(Seq const &I, typename Seq::value_type const &v,
diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index eedbb57..3fdacaf 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -39,7 +39,11 @@ namespace internal {
 struct block_allocator {
  private:
 
+#ifdef PARLAY_VERIF
+  static inline constexpr size_t default_list_bytes = PARLAY_VERIF_DEFAULT_LIST_BYTES;  // in bytes
+#else
   static inline constexpr size_t default_list_bytes = (1 << 18) - 64;  // in bytes
+#endif
   static inline constexpr size_t min_alignment = 128;  // for cache line padding
 
   struct block {
diff --git a/include/parlay/internal/block_delayed.h b/include/parlay/internal/block_delayed.h
index 39d1f0f..0106fcd 100644
--- a/include/parlay/internal/block_delayed.h
+++ b/include/parlay/internal/block_delayed.h
@@ -25,7 +25,11 @@
 namespace parlay {
 namespace block_delayed {
 
+#ifdef PARLAY_VERIF
+static size_t _block_size = PARLAY_VERIF_BLOCK_DELAYED_BLOCK_SIZE;
+#else
 static size_t _block_size = 2000;
+#endif
 
 // takes nested forward iterators and flattens them into a single forward iterator
 // The value_type of the outer iterator must be a range type
diff --git a/include/parlay/internal/bucket_sort.h b/include/parlay/internal/bucket_sort.h
index 8700fe5..1c4904c 100644
--- a/include/parlay/internal/bucket_sort.h
+++ b/include/parlay/internal/bucket_sort.h
@@ -140,9 +140,17 @@ void bucket_sort_r(slice<InIterator, InIterator> in,
                    bool stable,
                    bool inplace) {
   size_t n = in.size();
+#ifdef PARLAY_VERIF
+  size_t bits = PARLAY_VERIF_BUCKET_SORT_BITS;
+#else
   size_t bits = 4;
+#endif
   size_t num_buckets = size_t{1} << bits;
+#ifdef PARLAY_VERIF
+  if (n < num_buckets * PARLAY_VERIF_BUCKET_SORT_FACTOR) {
+#else
   if (n < num_buckets * 32) {
+#endif
     base_sort(in, out, f, stable, inplace);
   } else {
     auto counts = sequence<size_t>::uninitialized(num_buckets);
diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..468e615 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -24,7 +24,11 @@ namespace parlay {
 namespace internal {
 
 // the following parameters can be tuned
+#ifdef PARLAY_VERIF
+constexpr const size_t CR_SEQ_THRESHOLD = PARLAY_VERIF_CR_SEQ_THRESHOLD;
+#else
 constexpr const size_t CR_SEQ_THRESHOLD = 8192;
+#endif
 
 // Sequential version of collect_reduce
 // The helper must supply an init() function to initialize a bucket,
@@ -51,7 +55,11 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   size_t n = A.size();
 
   size_t num_threads = num_workers();
+#ifdef PARLAY_VERIF
+  size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / PARLAY_VERIF_CR_BLOCK) + 1;
+#else
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
+#endif
   size_t block_size = ((n - 1) / num_blocks_) + 1;
   size_t num_blocks = (1 + ((n)-1) / (block_size));
 
@@ -171,8 +179,13 @@ auto collect_reduce(Seq const &A, Helper const &helper, size_t num_buckets) {
   //   assuming an L3 cache of size 1M per thread
   // the counting sort uses 2 x input size due to copy
   size_t cache_per_thread = 1000000;
+#ifdef PARLAY_VERIF
+  size_t bits = std::max<size_t>(
+      log2_up(1 + (2 * (size_t) sizeof(T) * n) / cache_per_thread), PARLAY_VERIF_CR_BITS);
+#else
   size_t bits = std::max<size_t>(
       log2_up(1 + (2 * (size_t) sizeof(T) * n) / cache_per_thread), 4);
+#endif
   size_t num_blocks = size_t{1} << bits;
 
   if (num_buckets <= 4 * num_blocks || n < CR_SEQ_THRESHOLD)
@@ -285,7 +298,11 @@ auto collect_reduce_sparse_(Slice A, Helper const &helper) {
   using in_type = std::remove_const_t<typename Helper::in_type>;
   size_t n = A.size();
 
+#ifdef PARLAY_VERIF
+  if (n < PARLAY_VERIF_SPARSE_THRESHOLD) return seq_collect_reduce_sparse<assignment_tag>(A, helper);
+#else
   if (n < 10000) return seq_collect_reduce_sparse<assignment_tag>(A, helper);
+#endif
 
   // #bits is selected so each block fits into L3 cache
   //   assuming an L3 cache of size 1M per thread
@@ -293,7 +310,11 @@ auto collect_reduce_sparse_(Slice A, Helper const &helper) {
   size_t cache_per_thread = 1000000;
   size_t bits = log2_up(static_cast<size_t>(
       1 + (1.2 * 2 * sizeof(in_type) * static_cast<double>(n)) / static_cast<double>(cache_per_thread)));
+#ifdef PARLAY_VERIF
+  bits = std::max<size_t>(bits, PARLAY_VERIF_CR_BITS);
+#else
   bits = std::max<size_t>(bits, 4);
+#endif
   size_t num_buckets = (1 << bits);
 
   // Returns a map (hash) from key to bucket.
diff --git a/include/parlay/internal/counting_sort.h b/include/parlay/internal/counting_sort.h
index e7466ea..316146f 100644
--- a/include/parlay/internal/counting_sort.h
+++ b/include/parlay/internal/counting_sort.h
@@ -27,7 +27,11 @@ namespace parlay {
 namespace internal {
 
 // the following parameters can be tuned
+#ifdef PARLAY_VERIF
+constexpr const size_t SEQ_THRESHOLD = PARLAY_VERIF_SEQ_THRESHOLD;
+#else
 constexpr const size_t SEQ_THRESHOLD = 8192;
+#endif
 constexpr const size_t BUCKET_FACTOR = 32;
 constexpr const size_t LOW_BUCKET_FACTOR = 16;
 
@@ -132,7 +136,11 @@ std::pair<sequence<size_t>, bool> count_sort_(slice<InIterator, InIterator> In,
   // size_t bucket_upper =
   //     1 + n * sizeof(T) / (4 * num_buckets * sizeof(s_size_t));
   // size_t num_blocks = (std::min)(bucket_upper, (std::max)(par_lower, size_lower));
+#ifdef PARLAY_VERIF
+  size_t num_blocks = 1 + n / PARLAY_VERIF_COUNT_SORT_BLOCK;
+#else
   size_t num_blocks = 1 + n * sizeof(T) / std::max<size_t>(num_buckets * 500, 5000);
+#endif
   
   // if insufficient parallelism, sort sequentially
   if (n < SEQ_THRESHOLD || num_blocks == 1 || num_threads == 1) {
@@ -210,7 +218,11 @@ auto group_by_small_int(slice<InIterator, InIterator> In,
   size_t n = In.size();
   using s_size_t = size_t;
 
+#ifdef PARLAY_VERIF
+  size_t num_blocks = 1 + n / PARLAY_VERIF_COUNT_SORT_BLOCK;
+#else
   size_t num_blocks = 1 + n * sizeof(T) / std::max<size_t>(num_buckets * 500, 5000);
+#endif
   size_t block_size = ((n - 1) / num_blocks) + 1;
   size_t m = num_blocks * num_buckets;
 
diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index fef4623..2746687 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -63,7 +63,11 @@ struct dereference {
 // ----------------------------------------------------------------------------
 
 // Default block size to use for block-iterable sequences
+#ifdef PARLAY_VERIF
+static constexpr size_t block_size = PARLAY_VERIF_DELAYED_BLOCK_SIZE;
+#else
 static constexpr size_t block_size = 2000;
+#endif
 
 inline constexpr size_t num_blocks_from_size(size_t n) {
   return (n == 0) ? 0 : (1 + (n - 1) / block_size);
diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..a2a26a5 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -29,7 +29,11 @@
 namespace parlay {
 namespace internal {
 
+#ifdef PARLAY_VERIF
+constexpr size_t radix = PARLAY_VERIF_RADIX;
+#else
 constexpr size_t radix = 8;
+#endif
 constexpr size_t max_buckets = 1 << radix;
 
 // Use a smaller base case threshold for debugging so that test
@@ -38,8 +42,12 @@ constexpr size_t max_buckets = 1 << radix;
 #ifdef DEBUG
 constexpr size_t PARLAY_INTEGER_SORT_BASE_CASE_SIZE = 128;
 #else
+#ifdef PARLAY_VERIF
+constexpr size_t PARLAY_INTEGER_SORT_BASE_CASE_SIZE = PARLAY_VERIF_INTEGER_SORT_BASE;
+#else
 constexpr size_t PARLAY_INTEGER_SORT_BASE_CASE_SIZE = 1 << 17;
 #endif
+#endif
 
 // a bottom up radix sort
 template <typename InIterator, typename OutIterator, class GetKey>
@@ -203,7 +211,11 @@ sequence<size_t> integer_sort_r(slice<InIterator, InIterator> In,
   auto sz = 2 * (size_t)sizeof(T) * n / cache_per_thread;
   size_t base_bits = sz > 0 ? log2_up(sz) : 0;
   // keep between 8 and 13
+#ifdef PARLAY_VERIF
+  base_bits = PARLAY_VERIF_RADIX;
+#else
   base_bits = std::max<size_t>(8, std::min<size_t>(13, base_bits));
+#endif
   sequence<size_t> offsets;
   bool one_bucket;
   bool return_offsets = (num_buckets > 0);
@@ -259,7 +271,11 @@ sequence<size_t> integer_sort_r(slice<InIterator, InIterator> In,
 
     // recursive case
   } else {
+#ifdef PARLAY_VERIF
+    size_t bits = PARLAY_VERIF_RADIX;
+#else
     size_t bits = 8;
+#endif
     size_t shift_bits = key_bits - bits;
     size_t num_outer_buckets = (size_t{1} << bits);
     size_t num_inner_buckets = return_offsets ? ((size_t)1 << shift_bits) : 0;
diff --git a/include/parlay/internal/merge.h b/include/parlay/internal/merge.h
index 9604e50..f11b833 100644
--- a/include/parlay/internal/merge.h
+++ b/include/parlay/internal/merge.h
@@ -14,8 +14,12 @@ namespace internal {
 #ifdef PAR_GRANULARITY
 constexpr const size_t _merge_base = PAR_GRANULARITY;
 #else
+#ifdef PARLAY_VERIF
+constexpr const size_t _merge_base = PARLAY_VERIF_MERGE_BASE;
+#else
 constexpr const size_t _merge_base = 2000;
 #endif
+#endif
 
 template <typename assignment_tag, typename InIterator1, typename InIterator2, typename OutIterator, typename BinaryOp>
 void seq_merge(slice<InIterator1, InIterator1> A,
diff --git a/include/parlay/internal/merge_sort.h b/include/parlay/internal/merge_sort.h
index 87162ec..9375431 100644
--- a/include/parlay/internal/merge_sort.h
+++ b/include/parlay/internal/merge_sort.h
@@ -11,7 +11,11 @@ namespace parlay {
 namespace internal {
 
 // Size at which to perform insertion sort instead
+#ifdef PARLAY_VERIF
+constexpr size_t MERGE_SORT_BASE = PARLAY_VERIF_MERGE_SORT_BASE;
+#else
 constexpr size_t MERGE_SORT_BASE = 48;
+#endif
 
 // Parallel mergesort
 // This sort is stable
diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..277156d 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -45,7 +45,11 @@ struct pool_allocator {
   static inline constexpr size_t max_alignment = 128;
   
  private:
+#ifdef PARLAY_VERIF
+  static inline constexpr size_t large_threshold = PARLAY_VERIF_LARGE_THRESHOLD;
+#else
   static inline constexpr size_t large_threshold = (1 << 18);
+#endif
 
   size_t num_buckets;
   size_t num_small;
diff --git a/include/parlay/internal/quicksort.h b/include/parlay/internal/quicksort.h
index a8fd833..0a261b7 100644
--- a/include/parlay/internal/quicksort.h
+++ b/include/parlay/internal/quicksort.h
@@ -22,7 +22,11 @@ template <typename Iterator>
 bool base_case(Iterator x, size_t n) {
   using value_type = typename std::iterator_traits<Iterator>::value_type;
   bool large = std::is_pointer<value_type>::value || (sizeof(x) > 8);
+#ifdef PARLAY_VERIF
+  return n < PARLAY_VERIF_QUICKSORT_BASE;
+#else
   return large ? (n < 16) : (n < 24);
+#endif
 }
 
 // Optimized insertion sort using uninitialized relocate
@@ -160,7 +164,11 @@ void quicksort_serial(Iterator A, size_t n, const BinPred& f) {
 
 template <class Iterator, class BinPred>
 void quicksort(Iterator A, size_t n, const BinPred& f) {
+#ifdef PARLAY_VERIF
+  if (n < PARLAY_VERIF_QUICKSORT_PAR)
+#else
   if (n < (1 << 8))
+#endif
     quicksort_serial(A, n, f);
   else {
     auto [L, M, mid_eq] = split3(A, n, f);
diff --git a/include/parlay/internal/sample_sort.h b/include/parlay/internal/sample_sort.h
index 06c9893..1258b31 100644
--- a/include/parlay/internal/sample_sort.h
+++ b/include/parlay/internal/sample_sort.h
@@ -32,7 +32,11 @@ namespace parlay {
 namespace internal {
 
 // the following parameters can be tuned
+#ifdef PARLAY_VERIF
+constexpr const size_t QUICKSORT_THRESHOLD = PARLAY_VERIF_QUICKSORT_THRESHOLD;
+#else
 constexpr const size_t QUICKSORT_THRESHOLD = 16384;
+#endif
 constexpr const size_t OVER_SAMPLE = 8;
 
 // generates counts in Sc for the number of keys in Sa between consecutive
diff --git a/include/parlay/internal/sequence_ops.h b/include/parlay/internal/sequence_ops.h
index 494a377..b958907 100644
--- a/include/parlay/internal/sequence_ops.h
+++ b/include/parlay/internal/sequence_ops.h
@@ -154,7 +154,11 @@ auto copy(Seq const &A, Range R, flags) -> void {
   parallel_for(0, A.size(), [&](size_t i) { R[i] = A[i]; });
 }
 
+#ifdef PARLAY_VERIF
+constexpr const size_t _log_block_size = PARLAY_VERIF_LOG_BLOCK_SIZE;
+#else
 constexpr const size_t _log_block_size = 10;
+#endif
 constexpr const size_t _block_size = (1 << _log_block_size);
 
 inline size_t num_blocks(size_t n, size_t block_size) {
diff --git a/include/parlay/internal/transpose.h b/include/parlay/internal/transpose.h
index eac9abc..7fa1d5b 100644
--- a/include/parlay/internal/transpose.h
+++ b/include/parlay/internal/transpose.h
@@ -19,14 +19,22 @@ namespace internal {
 #ifdef PAR_GRANULARITY
 constexpr const size_t TRANS_THRESHHOLD = PAR_GRANULARITY / 4;
 #else
+#ifdef PARLAY_VERIF
+constexpr const size_t TRANS_THRESHHOLD = PARLAY_VERIF_TRANS_THRESHOLD;
+#else
 constexpr const size_t TRANS_THRESHHOLD = 500;
 #endif
+#endif
 
 #ifdef DEBUG
 constexpr const size_t NON_CACHE_OBLIVIOUS_THRESHOLD = 10000;
 #else
+#ifdef PARLAY_VERIF
+constexpr const size_t NON_CACHE_OBLIVIOUS_THRESHOLD = PARLAY_VERIF_NON_CACHE_OBLIVIOUS_THRESHOLD;
+#else
 constexpr const size_t NON_CACHE_OBLIVIOUS_THRESHOLD = 1 << 22;
 #endif
+#endif
 
 inline size_t split(size_t n) { return n / 2; }
 
@@ -185,7 +193,11 @@ sequence<size_t> transpose_buckets(InIterator From, OutIterator To,
   auto add = plus<s_size_t>();
 
   // for smaller input do non-cache oblivious version
+#ifdef PARLAY_VERIF
+  if (n < NON_CACHE_OBLIVIOUS_THRESHOLD || num_buckets <= PARLAY_VERIF_TRANSPOSE_MIN || num_blocks <= PARLAY_VERIF_TRANSPOSE_MIN) {
+#else
   if (n < NON_CACHE_OBLIVIOUS_THRESHOLD || num_buckets <= 512 || num_blocks <= 512) {
+#endif
     size_t block_bits = log2_up(num_blocks);
     size_t block_mask = num_blocks - 1;
     assert(size_t{1} << block_bits == num_blocks);
diff --git a/include/parlay/internal/work_stealing_deque.h b/include/parlay/internal/work_stealing_deque.h
index 9282c6c..f27c22d 100644
--- a/include/parlay/internal/work_stealing_deque.h
+++ b/include/parlay/internal/work_stealing_deque.h
@@ -38,7 +38,11 @@ struct Deque {
     std::atomic<Job*> job;
   };
 
+#ifdef PARLAY_VERIF
+  static constexpr int q_size = PARLAY_VERIF_DEQUE_SIZE;
+#else
   static constexpr int q_size = 1000;
+#endif
   std::atomic<qidx> bot;
   std::atomic<age_t> age;
   std::array<padded_job, q_size> deq;
diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..1fa3aaa 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -116,8 +116,12 @@ static void par_do3_if(bool do_parallel, Lf&& left, Mf&& mid, Rf&& right) {
 //                Scheduler selection
 //****************************************************
 
+// Verification builds supply their own scheduler
+#if defined(PARLAY_VERIF_SCHEDULER)
+#include PARLAY_VERIF_SCHEDULER
+
 // Cilk Scheduler
-#if defined(PARLAY_CILKPLUS)
+#elif defined(PARLAY_CILKPLUS)
 #include "internal/scheduler_plugins/cilkplus.h"    // IWYU pragma: keep, export
 
 #elif defined(PARLAY_OPENCILK)
diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..7bb3314 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -507,7 +507,11 @@ size_t count_if_index(size_t n, IntegerPred&& p) {
 }
 
 template <typename IntegerPred>
+#ifdef PARLAY_VERIF
+size_t find_if_index(size_t n, IntegerPred&& p, size_t granularity = PARLAY_VERIF_FIND_IF) {
+#else
 size_t find_if_index(size_t n, IntegerPred&& p, size_t granularity = 1000) {
+#endif
   static_assert(std::is_invocable_r_v<bool, IntegerPred, size_t>);
   size_t i;
   for (i = 0; i < (std::min)(granularity, n); i++)
@@ -765,7 +769,11 @@ inline bool lexicographical_compare(R1&& r1, R2&& r2) {
 
 template <typename T, typename Alloc, bool EnableSSO>
 inline bool operator<(const sequence<T,Alloc,EnableSSO> &a, const sequence<T,Alloc,EnableSSO> &b) {
+#ifdef PARLAY_VERIF
+  if (a.size() > PARLAY_VERIF_LEX)
+#else
   if (a.size() > 1000) 
+#endif
     return lexicographical_compare(a, b);
   auto sa = a.begin();
   auto sb = b.begin();
@@ -1135,7 +1143,11 @@ sequence<parlay::chars> tokens(Range&& R, UnaryPred&& is_space = is_whitespace)
   static_assert(std::is_convertible_v<range_reference_type_t<Range>, char>);
   static_assert(std::is_invocable_r_v<bool, UnaryPred, range_reference_type_t<Range>>);
   auto to_token = [](auto&& x) { return to_short_sequence(std::forward<decltype(x)>(x)); };
+#ifdef PARLAY_VERIF
+  if (parlay::size(R) < PARLAY_VERIF_TOKENS) return internal::map_tokens_small(R, to_token, is_space);
+#else
   if (parlay::size(R) < 2000) return internal::map_tokens_small(R, to_token, is_space);
+#endif
   else return map_tokens(R, to_token, is_space);
 }
 
@@ -1250,14 +1262,23 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
 
   size_t n = parlay::size(in);
   assert(k < n);
+#ifdef PARLAY_VERIF
+  if (n <= PARLAY_VERIF_KTH) return parlay::sort(std::forward<Range>(in), std::forward<Compare>(less))[k];
+#else
   if (n <= 1000) return parlay::sort(std::forward<Range>(in), std::forward<Compare>(less))[k];
+#endif
 
   auto it = std::begin(in);
 
   // pick 31 pivots by randomly choosing 8 * 31 keys, sorting them,
   // and taking every 8th key (i.e. oversampling)
+#ifdef PARLAY_VERIF
+  constexpr size_t sample_size = PARLAY_VERIF_KTH_SAMPLE;
+  constexpr size_t over = PARLAY_VERIF_KTH_OVER;
+#else
   constexpr size_t sample_size = 31;
   constexpr size_t over = 8;
+#endif
 
   parlay::random_generator gen;
   std::uniform_int_distribution<size_t> dis(0, n-1);
diff --git a/include/parlay/random.h b/include/parlay/random.h
index aec25b8..3f095a0 100644
--- a/include/parlay/random.h
+++ b/include/parlay/random.h
@@ -104,7 +104,11 @@ void random_shuffle_(slice<InIterator, InIterator> In,
 
   size_t bits = 10;
   if (n < (1 << 27)) {
+#ifdef PARLAY_VERIF
+    bits = PARLAY_VERIF_SHUFFLE_BITS;
+#else
     bits = (log2_up(n) - 7)/2;
+#endif
   }
   else {
     bits = (log2_up(n) - 17);
-- 
2.43.0


From 187c90a7445ab645c9a2b77ce0c5dc04ee648bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 02/24] fix: adjacent_find on an empty range must not read out
 of bounds

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 7bb3314..7b1305a 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -636,6 +636,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From 8ce4f40f41a72a1332f6eb6eecc0334db55591fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 03/24] fix: find_end with a pattern longer than the range must
 not read out of bounds

---
 include/parlay/primitives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 7b1305a..16c4675 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -707,6 +707,9 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
   if (n2 == 0) return std::end(r1);
 
+  // A pattern longer than the range can not occur in it
+  if (n2 > n1) return std::end(r1);
+
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
     for (j = 0; j < n2; j++)
-- 
2.43.0


From e76c2ab1786fd7867245673ddb2765dbcad97f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 04/24] fix: reducing an empty range by index must not divide
 by zero

---
 include/parlay/internal/collect_reduce.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 468e615..cb1dd95 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -53,6 +53,7 @@ template <typename Seq, typename Helper>
 auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets) {
   using result_type = decltype(helper.init());
   size_t n = A.size();
+  if (n == 0) return seq_collect_reduce(A, helper, num_buckets);
 
   size_t num_threads = num_workers();
 #ifdef PARLAY_VERIF
-- 
2.43.0


From e22093cf9d2e7c7bf5af04d7453d7c953c6b2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 05/24] fix: group_by_index must not number elements in the
 bucket type

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..2a92f47 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -331,7 +331,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From 8c4d913d50ba5317b7cc8ff393488f6ebb643ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 06/24] fix: remove_duplicate_integers must not report integers
 that do not occur

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 2a92f47..2ece1ef 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -277,7 +277,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From 93fc9701f4e88ab09be44047481b51321a3fa3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 07/24] fix: group_by_key_ordered must sort by the given
 comparator

---
 include/parlay/internal/group_by.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 2ece1ef..dc88589 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -61,7 +61,8 @@ auto group_by_key_ordered(Range&& S, Comp&& less) {
 
   sequence<KV> sorted;
   auto comp = internal::compare_pairs_by_key(less);
-  if constexpr(std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
+  if constexpr(std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16
+               && (std::is_same_v<std::decay_t<Comp>, std::less<>> || std::is_same_v<std::decay_t<Comp>, std::less<K>>)) {
     sorted = internal::integer_sort(make_slice(S), internal::get_key);
   } else {
     sorted = internal::sample_sort(make_slice(S), comp, true);
-- 
2.43.0


From f32e97dd04f0a5cf9f0395c090c1a669b58afc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 08/24] fix: integer_sort must accept the largest key

---
 include/parlay/internal/integer_sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index a2a26a5..3e8c27f 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -6,6 +6,7 @@
 #include <cstdio>
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -346,7 +347,8 @@ sequence<size_t> integer_sort_(slice<InIterator, InIterator> In,
   if (bits == 0) {
     auto get_key = [&](size_t i) { return static_cast<size_t>(g(In[i])); };
     auto keys = delayed_seq<size_t>(In.size(), get_key);
-    bits = log2_up(internal::reduce(make_slice(keys), maximum<size_t>()) + 1);
+    size_t max_key = internal::reduce(make_slice(keys), maximum<size_t>());
+    bits = (max_key == (std::numeric_limits<size_t>::max)()) ? 8 * sizeof(size_t) : log2_up(max_key + 1);
   }
   return integer_sort_r<inplace_tag, assignment_tag>(
     In, Out, Tmp, g, bits, num_buckets);
-- 
2.43.0


From 0789f8da3c61c15b449a7543039e999d6580f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 09/24] fix: kth_smallest must not recurse once per duplicate

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 16c4675..930686f 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1311,7 +1311,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From 60d2a72b37fec3669985ee7593c1bcd4561c1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 10/24] fix: delayed flatten of a filtered range must not read
 past its block offsets

---
 include/parlay/internal/delayed/flatten.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..9b2df15 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -201,7 +201,8 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
-        size_t outer_idx = out_block_offsets[out_block_id];
+        // There is no such block if no block of the output begins in or after this input block
+        size_t outer_idx = out_block_id < out_block_offsets.size() ? out_block_offsets[out_block_id] : block_end;
         if (outer_idx < block_end) {
           auto outer_it = begin_block(base_view(), i);
           std::advance(outer_it, outer_idx - block_start);
-- 
2.43.0


From de6aaff85f3b0a36d8b77eeaf0b1a23cbfbcb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 11/24] fix: delayed inclusive scan of one block must have an
 end value

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..d85e5fe 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(n_blocks + 1, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From 0fc9ea8085aba4cdf1bed5537e6dfff0c77c41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 12/24] fix: copied or moved delayed flatten of temporaries
 must own its data

---
 include/parlay/internal/delayed/flatten.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 9b2df15..328ea6f 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -238,14 +238,14 @@ struct block_delayed_flatten_t :
 // algorithms because they keeps references into the ranges, which will dangle.
 //
 // This version of flatten therefore just eagerly copies the sequence and
-// then wraps it around the reference version of flatten.
+// then hands the copy over to the reference version of flatten.
 template<typename UnderlyingView>
 struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>> {
  private:
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -274,7 +274,6 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
   flattener_type result;
 };
 
-- 
2.43.0


From 29f9940ef876df40b8a55d9559a5a449840903f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 13/24] fix: moved, swapped and assigned delayed filter and
 flatten views must stay valid and leave their ranges alone

---
 include/parlay/internal/delayed/common.h  | 24 ++++++++++++++++++
 include/parlay/internal/delayed/filter.h  | 30 ++++++++++++++++++-----
 include/parlay/internal/delayed/flatten.h | 18 +++++++++++---
 3 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index 2746687..adf8cef 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -7,8 +7,10 @@
 #include <functional>
 #include <utility>
 #include <type_traits>
+#include <vector>
 
 #include "../../range.h"
+#include "../../sequence.h"
 
 namespace parlay {
 namespace internal {
@@ -51,6 +53,22 @@ struct has_begin_block<T, std::void_t<
 template<typename T>
 inline constexpr bool has_begin_block_v = has_begin_block<T>::value;
 
+// Defines the member value true if the iterators of a view of type View_ stay valid, and
+// keep referring to the same elements, when the view is moved or swapped. This is not so
+// in general, e.g., the iterators of a delayed sequence refer to the sequence object.
+template<typename View_>
+struct has_stable_iterators : std::is_lvalue_reference<View_> {};
+
+template<typename T, typename Alloc>
+struct has_stable_iterators<parlay::sequence<T, Alloc, false>> : std::true_type {};
+
+template<typename T, typename Alloc>
+struct has_stable_iterators<std::vector<T, Alloc>> : std::true_type {};
+
+// True if the iterators of a view of type View_ survive a move or swap of the view
+template<typename View_>
+inline constexpr bool has_stable_iterators_v = has_stable_iterators<View_>::value;
+
 // Helper functional that dereferences an indirectly readable object
 // (iterator/pointer/optional/etc) passed to it
 struct dereference {
@@ -151,6 +169,12 @@ struct block_iterable_view_base_data {
   UnderlyingView& base_view() { return view_m; }
   const UnderlyingView& base_view() const { return view_m; }
 
+  // Swaps the stored views (and not what they refer to, if they are references)
+  void swap_base_view(block_iterable_view_base_data& other) {
+    using std::swap;
+    swap(view_m, other.view_m);
+  }
+
  private:
   view_storage_type<UnderlyingView> view_m;
 };
diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..0c8fe21 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -42,22 +42,31 @@ struct block_delayed_filter_t :
 
   template<typename UV>
   block_delayed_filter_t(UV&& v, UnaryPredicate p_) : base(std::forward<UV>(v), 0), p(std::move(p_)),
-      result(flattener_type{filter_blocks(base_view(), p), 0}, dereference{}) { }
+      result(make_result()) { }
 
   // The default copy constructor is not viable because it might copy dangling iterators
   block_delayed_filter_t(const block_delayed_filter_t& other) : base(other), p(other.p),
-    result(flattener_type{filter_blocks(base_view(), p), 0}, dereference{}) { }
+    result(make_result()) { }
 
-  block_delayed_filter_t(block_delayed_filter_t&&) noexcept(
+  // Moving must also recompute the iterators if they do not survive the move of the underlying view
+  block_delayed_filter_t(block_delayed_filter_t&& other) noexcept(
+    has_stable_iterators_v<UnderlyingView>                                          &&
     std::is_nothrow_move_constructible_v<base>                                      &&
     std::is_nothrow_move_constructible_v<copyable_function_wrapper<UnaryPredicate>> &&
-    std::is_nothrow_move_constructible_v<mapper_type>) = default;
+    std::is_nothrow_move_constructible_v<mapper_type>)
+      : base(static_cast<base&&>(other)), p(std::move(other.p)), result(take_result(std::move(other.result))) { }
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
-    swap(first.result, second.result);
+    first.swap_base_view(second);
     swap(first.p, second.p);
+    if constexpr (has_stable_iterators_v<UnderlyingView>) {
+      swap(first.result, second.result);
+    }
+    else {
+      first.result = first.make_result();
+      second.result = second.make_result();
+    }
   }
 
   block_delayed_filter_t& operator=(block_delayed_filter_t other) {
@@ -78,6 +87,15 @@ struct block_delayed_filter_t :
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
+  mapper_type make_result() {
+    return mapper_type(flattener_type{filter_blocks(base_view(), p), 0}, dereference{});
+  }
+
+  mapper_type take_result([[maybe_unused]] mapper_type&& r) {
+    if constexpr (has_stable_iterators_v<UnderlyingView>) return std::move(r);
+    else return make_result();
+  }
+
   template<typename UV, typename UP>
   auto filter_blocks(UV&& v, UP&& p) {
     size_t temp_size = (std::min<size_t>)(parlay::size(v), block_size);
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 328ea6f..cf0ac46 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -58,18 +58,28 @@ struct block_delayed_flatten_t :
     initialize_iterators();
   }
 
-  block_delayed_flatten_t(block_delayed_flatten_t&&) noexcept(
+  // Moving must also recompute the iterators if they do not survive the move of the underlying view
+  block_delayed_flatten_t(block_delayed_flatten_t&& other) noexcept(
+    has_stable_iterators_v<UnderlyingView>                              &&
     std::is_nothrow_move_constructible_v<base>                          &&
     std::is_nothrow_move_constructible_v<sequence<outer_iterator_type>> &&
-    std::is_nothrow_move_constructible_v<sequence<inner_iterator_type>>) = default;
+    std::is_nothrow_move_constructible_v<sequence<inner_iterator_type>>)
+      : base(static_cast<base&&>(other)), n_blocks(other.n_blocks), n_elements(other.n_elements),
+        outer_starts(std::move(other.outer_starts)), inner_starts(std::move(other.inner_starts)) {
+    if constexpr (!has_stable_iterators_v<UnderlyingView>) initialize_iterators();
+  }
 
   friend void swap(block_delayed_flatten_t& first, block_delayed_flatten_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_base_view(second);
     swap(first.n_blocks, second.n_blocks);
     swap(first.n_elements, second.n_elements);
     swap(first.outer_starts, second.outer_starts);
     swap(first.inner_starts, second.inner_starts);
+    if constexpr (!has_stable_iterators_v<UnderlyingView>) {
+      first.initialize_iterators();
+      second.initialize_iterators();
+    }
   }
 
   block_delayed_flatten_t& operator=(block_delayed_flatten_t other) {
@@ -256,7 +266,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
-- 
2.43.0


From 5fd81f7fd3283f003775440da03b11e6da90a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 14/24] fix: comparing sequences of elements larger than 8 kB
 must terminate

---
 include/parlay/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..5d6960f 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -662,7 +662,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = (std::max)(size_t{1}, 1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From 70575bfb5067edaafb489c5b7ca03573805d02f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 15/24] fix: sequence equality must not write a plain flag from
 several tasks

---
 include/parlay/sequence.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 5d6960f..7d8e323 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -10,6 +10,7 @@
 #ifndef PARLAY_SEQUENCE_H_
 #define PARLAY_SEQUENCE_H_
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 
@@ -672,17 +673,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (i == n) return true;
     size_t start = granularity;
     size_t block_size = 2 * granularity;
-    bool matches = true;
+    std::atomic<bool> matches{true};
     while (start < n) {
       size_t last = (std::min)(n, start + block_size);
       parallel_for(start, last, [&](size_t j) {
-        if (!(self[j] == other[j])) matches = false;
+        if (!(self[j] == other[j])) matches.store(false, std::memory_order_relaxed);
       }, granularity);
-      if (!matches) return false;
+      if (!matches.load(std::memory_order_relaxed)) return false;
       start += block_size;
       block_size *= 2;
     }
-    return matches;
+    return true;
   }
 };
 
-- 
2.43.0


From b7b703c2ca2a6e1ea2abdcd3b1392c2771e4a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 16/24] fix: inserting no copies into an empty sequence must
 return a valid iterator

---
 include/parlay/sequence.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 7d8e323..1b1e2b2 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -637,13 +637,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    append_n(n, v);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;   // if n is zero, then append could have replaced the buffer
   }
 
   template<typename Iterator_>
-- 
2.43.0


From e027a582f73aed55faf15492ae630e96ebd87896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 17/24] fix: sequence operations must accept a reference to one
 of their own elements

---
 include/parlay/sequence.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 1b1e2b2..1d49913 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -236,6 +236,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
+
+      // args might refer to an element of this sequence, so the new element
+      // has to be created before the elements are moved around
+      value_type v(std::forward<Args>(args)...);
       storage.ensure_capacity(size() + 1);
       p = begin() + pos;
 
@@ -243,7 +247,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -251,8 +255,15 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
-    storage.ensure_capacity(size() + 1);
-    storage.initialize(end(), std::forward<Args>(args)...);
+    if (size() == capacity()) {
+      // args might refer to an element of this sequence, which the reallocation
+      // would invalidate, so the new element has to be created beforehand
+      value_type v(std::forward<Args>(args)...);
+      storage.ensure_capacity(size() + 1);
+      storage.initialize(end(), std::move(v));
+    } else {
+      storage.initialize(end(), std::forward<Args>(args)...);
+    }
     storage.set_size(size() + 1);
     return end() - 1;
   }
@@ -374,11 +385,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
     } else {
+      const value_type fill(v);   // v might refer to an element of this sequence
       storage.ensure_capacity(new_size);
       assert(storage.capacity() >= new_size);
       auto buffer = storage.data();
       parallel_for(
-          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
+          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], fill); },
           copy_granularity(new_size - current));
     }
     storage.set_size(new_size);
@@ -399,8 +411,9 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   void assign(size_t n, const value_type& v) {
+    const value_type fill(v);   // v might refer to an element of this sequence
     storage.clear();
-    return initialize_fill(n, v);
+    return initialize_fill(n, fill);
   }
 
   void assign(std::initializer_list<value_type> l) { assign(std::begin(l), std::end(l)); }
@@ -589,10 +602,11 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
+    const value_type fill(t);   // t might refer to an element of this sequence
     storage.ensure_capacity(size() + n);
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
-      storage.initialize_explicit(it + i, t);
+      storage.initialize_explicit(it + i, fill);
     }, this->copy_granularity(n));
     storage.set_size(size() + n);
     return it;
@@ -634,11 +648,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
+    const value_type fill(v);   // v might refer to an element of this sequence
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
     auto the_tail = pop_tail(p);
-    append_n(n, v);
+    append_n(n, fill);
     append(std::move(the_tail));
     return begin() + pos;   // if n is zero, then append could have replaced the buffer
   }
-- 
2.43.0


From 8565862d0e8665f052baf7e69811487e910054c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 18/24] fix: relocation between different types constructs the
 destination's type

---
 include/parlay/relocation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..796b240 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -54,7 +54,7 @@ namespace parlay {
 // Relocate from source to dest, which may be of different
 // (but compatible) types, which is equivalent to
 //
-//   ::new (voidify(dest)) T(std::move(source));
+//   ::new (voidify(dest)) U(std::move(source));
 //   std::destroy_at(std::addressof(source));
 //
 template<typename T, typename U>
@@ -67,7 +67,7 @@ inline void relocate_or_move_and_destroy(T& source, U& dest) {
   }
   else {
     PARLAY_ASSERT_UNINITIALIZED(dest);
-    ::new (voidify(dest)) T(std::move(source));
+    ::new (voidify(dest)) U(std::move(source));
     std::destroy_at(std::addressof(source));
     PARLAY_ASSERT_UNINITIALIZED(source);
   }
-- 
2.43.0


From 0538500885ce8e104d6ab1b4ba6272fce3918d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 19/24] fix: relocating a range of objects larger than 8 kB
 does not divide by zero

---
 include/parlay/relocation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 796b240..b477be9 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,7 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    constexpr size_t chunk_size = (std::max)(size_t{1}, 1024 * sizeof(size_t) / sizeof(T));
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
-- 
2.43.0


From b19d36b6d785fb429a7bb517aefca40ff3c081a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 20/24] fix: acquire the thread id node before reading its link

---
 include/parlay/internal/thread_id_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/thread_id_pool.h b/include/parlay/internal/thread_id_pool.h
index 5d86196..7e450b5 100644
--- a/include/parlay/internal/thread_id_pool.h
+++ b/include/parlay/internal/thread_id_pool.h
@@ -106,9 +106,9 @@ class ThreadIdPool : public std::enable_shared_from_this<ThreadIdPool> {
       static std::mutex m_;
       std::lock_guard<std::mutex> g_{m_};
 
-      ThreadId* current = available_ids.load(std::memory_order_relaxed);
+      ThreadId* current = available_ids.load(std::memory_order_acquire);
       while (current && !available_ids.compare_exchange_weak(current, current->next,
-               std::memory_order_acquire, std::memory_order_relaxed)) {}
+               std::memory_order_acquire, std::memory_order_acquire)) {}
       if (current) { return current; }
     }
     return new ThreadId(num_thread_ids.fetch_add(1));
-- 
2.43.0


From bb25309f8d70067ffc1b01506b43d5638cea4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 21/24] Verification hook: tunable number of steal attempts
 under PARLAY_VERIF

---
 include/parlay/scheduler.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parlay/scheduler.h b/include/parlay/scheduler.h
index 11cbd59..6f1869f 100644
--- a/include/parlay/scheduler.h
+++ b/include/parlay/scheduler.h
@@ -85,7 +85,11 @@ struct scheduler {
   // After YIELD_FACTOR * P unsuccessful steal attempts, a
   // a worker will sleep briefly for SLEEP_FACTOR * P nanoseconds
   // to give other threads a chance to work and save some cycles.
+#ifdef PARLAY_VERIF
+  constexpr static size_t YIELD_FACTOR = PARLAY_VERIF_YIELD_FACTOR;
+#else
   constexpr static size_t YIELD_FACTOR = 200;
+#endif
   constexpr static size_t SLEEP_FACTOR = 200;
 
   // The length of time that a worker must fail to steal anything
-- 
2.43.0


From a1e5948f9ec207239233f752669c372837477204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 22/24] fix: the pool allocator counts large blocks the same
 when allocated and freed

---
 include/parlay/internal/pool_allocator.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 277156d..7ba0d0f 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -62,11 +62,21 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The number of bytes that a large block counts for in the statistics: the size of its pool or,
+  // if it does not come from a pool, the next power of two. (It can be freed with any size that has
+  // the same next power of two, which is all that p_free knows.)
+  size_t accounted_size(size_t n) const {
+    if (n > max_size) return size_t{1} << log2_up(n);
+    size_t bucket = num_small;
+    while (n > sizes[bucket]) bucket++;
+    return sizes[bucket];
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
+    large_used += accounted_size(n);
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
@@ -83,15 +93,15 @@ struct pool_allocator {
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += accounted_size(n);
     return a;
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
+    large_used -= accounted_size(n);
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= accounted_size(n);
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
-- 
2.43.0


From 717fbdfd24e2546bf687e6629a29a89674bfd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 23/24] fix: a block allocator with lists of one block gives
 freed blocks to the shared pool

---
 include/parlay/internal/block_allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index 3fdacaf..84e80fe 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -188,7 +188,8 @@ struct block_allocator {
 
     if (my_local_list->sz == list_length+1) {
       my_local_list->mid = my_local_list->head;
-    } else if (my_local_list->sz == 2*list_length) {
+    }
+    if (my_local_list->sz == 2*list_length) {
       global_stack.push(my_local_list->mid->next);
       my_local_list->mid->next = nullptr;
       my_local_list->sz = list_length;
-- 
2.43.0


From 12cf5a27c52e543de12aaa7f5d70b170edd674a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 24/24] fix: hashtable::count and get_index compile

---
 include/parlay/hash_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..e0088da 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -226,7 +226,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +260,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0

