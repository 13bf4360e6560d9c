From f0a5c893b1cad7ed5d5ea49b29bd3621208ef566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 1/4] fix: pvalloc must fail, not wrap, when page rounding
 overflows

Rounding a request within a page of SIZE_MAX up to the page size wrapped to
zero, so pvalloc returned a tiny object for a huge request.
---
 tcmalloc/tcmalloc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..f9722e8 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1859,8 +1859,11 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalPvalloc(
   if (size == 0) {     // pvalloc(0) should allocate one page, according to
     size = page_size;  // http://man.free4web.biz/man3/libmpatrol.3.html
   }
-  size = (size + page_size - 1) & ~(page_size - 1);
-  return fast_alloc(size, MallocPolicy().AlignAs(page_size));
+  const size_t rounded = (size + page_size - 1) & ~(page_size - 1);
+  if (ABSL_PREDICT_FALSE(rounded < size)) {  // overflow
+    return MallocPolicy::handle_oom(size);
+  }
+  return fast_alloc(rounded, MallocPolicy().AlignAs(page_size));
 }
 
 extern "C" void TCMallocInternalMallocStats(void) noexcept {
-- 
2.43.0


From fa705272529e3e81c523eca3f94d4e4d936ab924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 2/4] fix: pvalloc's alloc-token variants must fail, not wrap,
 when page rounding overflows

---
 tcmalloc/tcmalloc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index f9722e8..e19ce53 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -2178,9 +2178,12 @@ ABSL_CACHELINE_ALIGNED void* operator new[](size_t size, std::align_val_t align,
     if (size == 0) {                                                           \
       size = page_size;                                                        \
     }                                                                          \
-    size = (size + page_size - 1) & ~(page_size - 1);                          \
+    const size_t rounded = (size + page_size - 1) & ~(page_size - 1);          \
+    if (ABSL_PREDICT_FALSE(rounded < size)) { /* overflow */                   \
+      return MallocPolicy::handle_oom(size);                                   \
+    }                                                                          \
     return fast_alloc(                                                         \
-        size,                                                                  \
+        rounded,                                                               \
         MallocPolicy().WithSecurityToken<TokenId{id}>().AlignAs(page_size));   \
   }                                                                            \
   int __alloc_token_##id##_posix_memalign(void** result_ptr, size_t align,     \
-- 
2.43.0


From 7725e3722d257ca2a291caf4ad9b7103735d3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 3/4] fix: keep a sample's record registered until the
 sampled-delete hooks have run

---
 tcmalloc/allocation_sampling.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/allocation_sampling.h b/tcmalloc/allocation_sampling.h
index 7db362d..dff0a18 100644
--- a/tcmalloc/allocation_sampling.h
+++ b/tcmalloc/allocation_sampling.h
@@ -375,7 +375,6 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
                               ? MallocHook::Access::Cold
                               : MallocHook::Access::Hot,
   };
-  state.sampled_allocation_recorder().Unregister(sampled_allocation);
 
   // Adjust our estimate of internal fragmentation.
   TC_ASSERT_LE(requested_size, allocated_size);
@@ -390,6 +389,10 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
   }
   MallocHook::InvokeSampledDeleteHook(sampled_alloc);
 
+  // `sampled_alloc.stack` refers to the record, which may be reused as soon as
+  // it is unregistered.
+  state.sampled_allocation_recorder().Unregister(sampled_allocation);
+
   state.deallocation_samples.ReportFree(sampled_alloc_handle);
 }
 
-- 
2.43.0


From 39c364f7198a66c5236d449b266740b2ec5aae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 4/4] fix: decide whether per-CPU caches are used before taking
 pageheap_lock in ExtractStats

UsePerCpuCache() registers a new thread with rseq and, when that succeeds,
retires the thread's ThreadCache.  Flushing it can return a span, which takes
pageheap_lock again and deadlocks the calling thread.
---
 tcmalloc/global_stats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index d7e4e63..5eb3e06 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -92,6 +92,11 @@ void ExtractStats(TCMallocStats& r, uint64_t* absl_nullable class_count,
                   SmallSpanStats* absl_nullable small_spans,
                   LargeSpanStats* absl_nullable large_spans,
                   bool report_residence) {
+  // UsePerCpuCache() may retire the calling thread's ThreadCache, which returns
+  // its objects (and thus possibly spans) to the lower levels.  Determine it
+  // before acquiring pageheap_lock.
+  const bool use_per_cpu_cache = UsePerCpuCache(tc_globals);
+
   r.central_bytes = 0;
   r.transfer_bytes = 0;
   for (int size_class = 0; size_class < kNumClasses; ++size_class) {
@@ -108,7 +113,7 @@ void ExtractStats(TCMallocStats& r, uint64_t* absl_nullable class_count,
       // Sum the lengths of all per-class freelists, except the per-thread
       // freelists, which get counted when we call GetThreadStats(), below.
       class_count[size_class] = length + tc_length + sharded_tc_length;
-      if (UsePerCpuCache(tc_globals)) {
+      if (use_per_cpu_cache) {
         class_count[size_class] +=
             tc_globals.cpu_cache().TotalObjectsOfClass(size_class);
       }
@@ -160,7 +165,7 @@ void ExtractStats(TCMallocStats& r, uint64_t* absl_nullable class_count,
     r.sharded_transfer_bytes = 0;
     r.percpu_metadata_bytes_res = 0;
     r.percpu_metadata_bytes = 0;
-    if (UsePerCpuCache(tc_globals)) {
+    if (use_per_cpu_cache) {
       r.per_cpu_bytes = tc_globals.cpu_cache().TotalUsedBytes();
       r.sharded_transfer_bytes =
           tc_globals.sharded_transfer_cache().TotalBytes();
-- 
2.43.0

